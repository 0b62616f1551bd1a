#define SIM_HARNESS 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <errno.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <unordered_map>
#include "mpack/mpack.h"

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define SIM_MSAN 1
extern "C" void __msan_unpoison(const volatile void* p, size_t n);
extern "C" void __msan_poison(const volatile void* p, size_t n);
extern "C" intptr_t __msan_test_shadow(const volatile void* p, size_t n);
#endif
#endif

// ------------------------------------------------------------ shared memory
#define MAX_COUNTERS 400
#define STATE_BITS (1u << 23)
struct Shm {
    uint64_t cur_index, cur_seed;
    uint64_t runs, nontrivial, steps, draws, dup_runs;
    uint64_t engaged_hash;
    int viol;
    char viol_class[64];
    char viol_msg[1600];
    uint64_t viol_hash;
    int ncounters;
    char names[MAX_COUNTERS][48];
    uint64_t counters[MAX_COUNTERS];
    uint8_t states[STATE_BITS / 8];
    uint64_t nhashes;
    char sample[3][600];
    int nsamples;
    uint64_t hashes[1]; // variable
};
static Shm* shm;
static size_t shm_hash_cap;

// ------------------------------------------------------------ choices
static uint64_t rng_state;
static bool replaying;
static std::vector<uint32_t> tape_in;
static std::vector<uint32_t> tape_rec;
static size_t tape_pos;
extern uint32_t* g_tape_mirror;
RunParams g_run;
bool g_trace;
uint64_t g_steps, g_fault_fired, g_nontrivial;
static uint64_t log_hash;
static uint64_t run_step_limit;
static bool quiet_stats;
static int fill_mode;

uint64_t hash64(uint64_t a, uint64_t b) {
    uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint64_t rng_next() {
    rng_state += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng_state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

uint32_t draw(uint32_t n) {
    if (n <= 1)
        return 0;
    uint32_t v;
    if (replaying) {
        v = tape_pos < tape_in.size() ? tape_in[tape_pos] : 0;
        ++tape_pos;
        if (v >= n)
            v %= n;
    } else {
        v = (uint32_t)((rng_next() >> 32) * (uint64_t)n >> 32);
    }
    tape_rec.push_back(v);
    if (g_tape_mirror) {
        g_tape_mirror[++g_tape_mirror[0]] = v;
    }
    if (tape_rec.size() > 2000000)
        violate("harness.draws", "too many draws in one run");
    return v;
}

uint32_t pickw(const uint32_t* w, uint32_t n) {
    uint32_t sum = 0;
    for (uint32_t i = 0; i < n; ++i)
        sum += w[i];
    uint32_t r = draw(sum);
    for (uint32_t i = 0; i < n; ++i) {
        if (r < w[i])
            return i;
        r -= w[i];
    }
    return 0;
}

uint64_t draw64() {
    uint64_t a = draw(1u << 16), b = draw(1u << 16), c = draw(1u << 16), d = draw(1u << 16);
    return a | b << 16 | c << 32 | d << 48;
}

// ------------------------------------------------------------ log
static void hash_mix(const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p;
    uint64_t h = log_hash;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001B3ull;
    log_hash = h ^ (h >> 29);
}

void ev(const char* fmt, ...) {
    char buf[400];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (n > (int)sizeof(buf) - 1)
        n = sizeof(buf) - 1;
    hash_mix(buf, (size_t)n);
    ++g_steps;
    if (g_trace)
        printf("%6llu %s\n", (unsigned long long)g_steps, buf);
    if (run_step_limit && g_steps > run_step_limit)
        violate("hang", "run exceeded %llu simulated steps", (unsigned long long)run_step_limit);
}

void ev_bytes(const char* what, const void* p, size_t n) {
    uint64_t h = 0xcbf29ce484222325ull;
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001B3ull;
    if (g_trace && n <= 48) {
        char hex[100];
        for (size_t i = 0; i < n; ++i)
            snprintf(hex + 2 * i, 3, "%02x", b[i]);
        hex[2 * n] = 0;
        ev("%s len=%lu h=%016llx [%s]", what, (unsigned long)n, (unsigned long long)h, hex);
    } else if (n <= 48) {
        // identical text so that tracing does not change the hash
        char hex[100];
        for (size_t i = 0; i < n; ++i) {
            static const char d[] = "0123456789abcdef";
            hex[2 * i] = d[b[i] >> 4];
            hex[2 * i + 1] = d[b[i] & 15];
        }
        hex[2 * n] = 0;
        ev("%s len=%lu h=%016llx [%s]", what, (unsigned long)n, (unsigned long long)h, hex);
    } else {
        ev("%s len=%lu h=%016llx", what, (unsigned long)n, (unsigned long long)h);
    }
}

void step_guard(uint64_t limit) { run_step_limit = limit; }

void state_point(uint64_t h) {
    if (!shm || quiet_stats)
        return;
    uint32_t bit = (uint32_t)(hash64(h, 77) & (STATE_BITS - 1));
    shm->states[bit / 8] |= (uint8_t)(1u << (bit % 8));
}

int counter_id(const char* name) {
    if (!shm)
        return 0;
    for (int i = 0; i < shm->ncounters; ++i)
        if (!strncmp(shm->names[i], name, 47))
            return i;
    if (shm->ncounters >= MAX_COUNTERS)
        return MAX_COUNTERS - 1;
    snprintf(shm->names[shm->ncounters], 48, "%s", name);
    return shm->ncounters++;
}
void counter_add(int id, uint64_t n) {
    if (shm && !quiet_stats)
        shm->counters[id] += n;
}

// ------------------------------------------------------------ violations
static void record_violation(const char* cls, const char* msg) {
    if (shm && !shm->viol) {
        shm->viol = 1;
        snprintf(shm->viol_class, sizeof(shm->viol_class), "%s", cls);
        snprintf(shm->viol_msg, sizeof(shm->viol_msg), "%s", msg);
        shm->viol_hash = log_hash;
    }
}

void violate(const char* cls, const char* fmt, ...) {
    char buf[1500];
    va_list va;
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    record_violation(cls, buf);
    if (g_trace) {
        printf("VIOLATED %s: %s\n", cls, buf);
        fflush(stdout);
    }
    _exit(3);
}

int g_break_expected, g_break_hits;
jmp_buf* g_assert_jmp;
char g_last_msg[512];


#if MPACK_DEBUG
extern "C" void sim_assert_fail(const char* message);
extern "C" void sim_break_hit(const char* message);
// The hooks are needed with C linkage (generic.c, for the library) and with
// C++ linkage (here, for its headers used from C++).
void mpack_assert_fail(const char* message) { sim_assert_fail(message); }
void mpack_break_hit(const char* message) { sim_break_hit(message); }
extern "C" void sim_assert_fail(const char* message) {
    snprintf(g_last_msg, sizeof(g_last_msg), "%s", message);
    if (g_assert_jmp) {
        jmp_buf* j = g_assert_jmp;
        g_assert_jmp = NULL;
        longjmp(*j, 1);
    }
    violate("assert", "internal assertion failed in correct use: %s", message);
}
extern "C" void sim_break_hit(const char* message) {
    snprintf(g_last_msg, sizeof(g_last_msg), "%s", message);
    ++g_break_hits;
    if (g_break_expected > 0) {
        ev("break");
        return;
    }
    violate("break", "usage break hit in correct use: %s", message);
}
#endif

// ------------------------------------------------------------ content
uint8_t content_byte(uint64_t seed, uint64_t i) {
    return (uint8_t)(hash64(seed, i >> 3) >> ((i & 7) * 8));
}
void fill_content(uint8_t* p, size_t n, uint64_t seed) {
    for (size_t i = 0; i < n; ++i)
        p[i] = content_byte(seed, i);
}

// ------------------------------------------------------------ allocator
AllocCtl g_alloc;
struct Blk { size_t size; uint32_t owner; };
static std::unordered_map<void*, Blk>* blocks;
#ifdef SIM_ASAN
#define PAD 0
#else
#define PAD 16
#endif

struct Freed { uint8_t* p; size_t size; };
static std::vector<Freed> quarantine;
static size_t quarantine_bytes;

static void* raw_alloc(size_t size) {
    uint8_t* base = (uint8_t*)malloc(size + 2 * PAD ? size + 2 * PAD : 1);
    if (!base)
        return NULL;
    uint8_t* p = base + PAD;
    for (int i = 0; i < PAD; ++i) {
        base[i] = 0xC3;
        p[size + i] = 0x3C;
    }
    if (fill_mode == 0)
        memset(p, 0xA5, size);
    else
        for (size_t i = 0; i < size; ++i)
            p[i] = (uint8_t)(0x11 * fill_mode + i * 7);
    sim_poison(p, size);
    (*blocks)[p] = Blk{size, g_alloc.owner};
    g_alloc.live++;
    g_alloc.live_bytes += size;
    if (g_alloc.live_bytes > g_alloc.peak_bytes)
        g_alloc.peak_bytes = g_alloc.live_bytes;
    return p;
}

static void raw_free(void* v, Blk b) {
    uint8_t* p = (uint8_t*)v;
    for (int i = 0; i < PAD; ++i)
        if (p[-PAD + i] != 0xC3 || p[b.size + i] != 0x3C)
            violate("heap-overflow", "heap block of %lu bytes was written out of bounds", (unsigned long)b.size);
    blocks->erase(v);
    g_alloc.live--;
    g_alloc.live_bytes -= b.size;
    sim_unpoison(p, b.size);
#ifndef SIM_ASAN
    // keep freed memory until the end of the run to notice late writes to it
    memset(p, 0xDD, b.size);
    if (quarantine_bytes + b.size < (2u << 20)) {
        quarantine_bytes += b.size + 2 * PAD;
        quarantine.push_back(Freed{p, b.size});
        return;
    }
#endif
    free(p - PAD);
}

static void check_heap() {
    for (auto& q : quarantine)
        for (size_t i = 0; i < q.size; ++i)
            if (q.p[i] != 0xDD)
                violate("use-after-free", "freed heap block of %lu bytes was written at offset %lu", (unsigned long)q.size, (unsigned long)i);
    for (auto& b : *blocks) {
        uint8_t* p = (uint8_t*)b.first;
        for (int i = 0; i < PAD; ++i)
            if (p[-PAD + i] != 0xC3 || p[b.second.size + i] != 0x3C)
                violate("heap-overflow", "heap block of %lu bytes was written out of bounds", (unsigned long)b.second.size);
    }
}

static bool alloc_should_fail(size_t size) {
    nest();
    if (g_alloc.on_call)
        g_alloc.on_call();
    g_alloc.calls++;
    if (size > g_alloc.max_request)
        g_alloc.max_request = size;
    if (size > g_alloc.cap) {
        g_alloc.failed++;
        FAULT("alloc-over-cap");
        ev("alloc(%lu) over cap -> NULL", (unsigned long)size);
        return true;
    }
    if (!g_alloc.armed)
        return false;
    bool fail = false;
    if (g_alloc.fail_after) {
        if (--g_alloc.fail_after == 0) {
            fail = true;
            if (g_alloc.fail_count != 1) {
                g_alloc.fail_after = 1;
                if (g_alloc.fail_count)
                    g_alloc.fail_count--;
            }
        }
    }
    if (!fail && g_alloc.fail_rate && coin(g_alloc.fail_rate, 64))
        fail = true;
    if (fail) {
        g_alloc.failed++;
        FAULT("alloc-fail");
        ev("alloc(%lu) -> NULL (fault)", (unsigned long)size);
    }
    return fail;
}

extern "C" void* sim_malloc(size_t size) {
    if (alloc_should_fail(size))
        return NULL;
    if (size == 0 && g_alloc.zero_null) {
        FAULT("alloc-zero-null");
        ev("alloc(0) -> NULL");
        return NULL;
    }
    return raw_alloc(size);
}

extern "C" void sim_free(void* p) {
    if (!p)
        return;
    auto it = blocks->find(p);
    if (it == blocks->end())
        violate("bad-free", "freed a pointer that is not a live allocation (double or foreign free)");
    raw_free(p, it->second);
}

extern "C" void* sim_realloc(void* p, size_t size) {
    if (!p)
        return sim_malloc(size);
    auto it = blocks->find(p);
    if (it == blocks->end())
        violate("bad-free", "realloc of a pointer that is not a live allocation");
    if (alloc_should_fail(size))
        return NULL;
    it = blocks->find(p); // others may have run
    if (size == 0) {
        // implementation-defined in C; the simulator frees and returns NULL
        raw_free(p, it->second);
        return NULL;
    }
    size_t old = it->second.size;
    void* n = raw_alloc(size);
    memcpy(n, p, old < size ? old : size);
    raw_free(p, Blk{old, 0});
    return n;
}

void alloc_free_owner(uint32_t owner) {
    std::vector<void*> v;
    for (auto& b : *blocks)
        if (b.second.owner == owner)
            v.push_back(b.first);
    for (void* p : v)
        raw_free(p, (*blocks)[p]);
}
bool alloc_is_live(void* p) { return blocks->find(p) != blocks->end(); }
size_t alloc_size(void* p) {
    auto it = blocks->find(p);
    return it == blocks->end() ? 0 : it->second.size;
}
void alloc_check_leaks(const char* cls, const char* where) {
    if (g_alloc.live != 0)
        violate(cls, "%lu allocation(s), %lu bytes, still live after %s", (unsigned long)g_alloc.live,
                (unsigned long)g_alloc.live_bytes, where);
}
void alloc_set_watch() {
    g_alloc.peak_bytes = g_alloc.live_bytes;
    g_alloc.max_request = 0;
}

// ------------------------------------------------------------ disk
FileCtl g_fs;
static std::map<std::string, SimFile*>* disk;
struct Handle {
    SimFile* file;
    uint64_t pos;
    bool can_read, can_write;
    bool by_mpack;
};
static std::map<FILE*, Handle*>* open_files;

SimFile* fs_file(const char* path, bool create) {
    auto it = disk->find(path);
    if (it != disk->end())
        return it->second;
    if (!create)
        return NULL;
    SimFile* f = new SimFile();
    f->name = path;
    f->exists = true;
    (*disk)[path] = f;
    return f;
}

static ssize_t ck_read(void* c, char* buf, size_t n) {
    Handle* h = (Handle*)c;
    nest();
    g_fs.reads++;
    if (!h->can_read) {
        errno = EBADF;
        return -1;
    }
    size_t avail = h->pos < h->file->data.size() ? (size_t)(h->file->data.size() - h->pos) : 0;
    if (n > avail)
        n = avail;
    if (g_fs.read_err_at >= 0) {
        if ((uint64_t)g_fs.read_err_at <= h->pos) {
            g_fs.read_err_fired = true;
            FAULT("file-read-EIO");
            ev("disk read at %llu -> EIO", (unsigned long long)h->pos);
            errno = EIO;
            return -1;
        }
        if (h->pos + n > (uint64_t)g_fs.read_err_at)
            n = (size_t)((uint64_t)g_fs.read_err_at - h->pos);
    }
    if (g_fs.short_io && n > 1) {
        uint32_t k = 1 + draw((uint32_t)(n > 64 ? 64 : n));
        if (k < n) {
            n = k;
            FAULT("file-short-read");
        }
    }
    if (n) {
        memcpy(buf, h->file->data.data() + h->pos, n);
        sim_unpoison(buf, n);
    }
    h->pos += n;
    g_fs.bytes_read += n;
    return (ssize_t)n;
}

static ssize_t ck_write(void* c, const char* buf, size_t n) {
    Handle* h = (Handle*)c;
    nest();
    g_fs.writes++;
    size_t orig = n;
    if (g_fs.write_err_at >= 0) {
        if (h->pos >= (uint64_t)g_fs.write_err_at) {
            g_fs.write_err_fired = true;
            if (g_fs.write_err_nospc) FAULT("file-write-ENOSPC"); else FAULT("file-write-EIO");
            ev("disk write at %llu -> error", (unsigned long long)h->pos);
            errno = g_fs.write_err_nospc ? ENOSPC : EIO;
            return 0; // fopencookie: writers report errors with 0
        }
        if (h->pos + n > (uint64_t)g_fs.write_err_at) {
            // torn write (write(2) itself returning short is retried inside the
            // C library, so only the failing case is visible to its callers)
            n = (size_t)((uint64_t)g_fs.write_err_at - h->pos);
            g_fs.write_err_fired = true;
            FAULT("file-torn-write");
        }
    }
    if (h->file->data.size() < h->pos + n)
        h->file->data.resize((size_t)(h->pos + n));
    memcpy(h->file->data.data() + h->pos, buf, n);
    h->pos += n;
    ev("disk write %lu of %lu", (unsigned long)n, (unsigned long)orig);
    return (ssize_t)n;
}

static int ck_seek(void* c, off64_t* off, int whence) {
    Handle* h = (Handle*)c;
    bool tell = (whence == SEEK_CUR && *off == 0);
    if (!tell)
        g_fs.seeks++;
    if (g_fs.unseekable) {
        FAULT("file-unseekable");
        errno = ESPIPE;
        return -1;
    }
    if (!tell && g_fs.seek_fail_after && --g_fs.seek_fail_after == 0) {
        g_fs.seek_fail_fired = true;
        FAULT("file-seek-error");
        ev("disk seek -> EIO");
        errno = EIO;
        return -1;
    }
    if (whence == SEEK_END)
        g_fs.sized = true;
    else if (!tell && g_fs.sized && g_fs.resize_by) {
        bytes_t& d = h->file->data;
        size_t by = (size_t)(g_fs.resize_by < 0 ? -g_fs.resize_by : g_fs.resize_by);
        if (g_fs.resize_by > 0) {
            FAULT("file-grew");
            d.resize(d.size() + by, 0xc0);
        } else if (d.size()) {
            FAULT("file-shrank");
            d.resize(d.size() > by ? d.size() - by : 0);
            g_fs.shrunk = true;
        }
        g_fs.resize_by = 0;
    }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->file->data.size();
    int64_t to = base + *off;
    if (to < 0) {
        errno = EINVAL;
        return -1;
    }
    h->pos = (uint64_t)to;
    *off = to;
    return 0;
}

static int ck_close(void* c) {
    Handle* h = (Handle*)c;
    delete h;
    return 0;
}

FILE* fs_open(const char* path, const char* mode) {
    bool wr = strchr(mode, 'w') != NULL || strchr(mode, '+') != NULL || strchr(mode, 'a') != NULL;
    bool rd = strchr(mode, 'r') != NULL || strchr(mode, '+') != NULL;
    SimFile* f = fs_file(path, strchr(mode, 'w') != NULL);
    if (!f) {
        errno = ENOENT;
        return NULL;
    }
    if (strchr(mode, 'w'))
        f->data.clear();
    Handle* h = new Handle();
    h->file = f;
    h->can_read = rd;
    h->can_write = wr;
    cookie_io_functions_t io;
    memset(&io, 0, sizeof(io));
    io.read = ck_read;
    io.write = ck_write;
    io.seek = ck_seek;
    io.close = ck_close;
    FILE* file = fopencookie(h, mode, io);
    if (!file)
        abort();
    if (g_fs.bufmode == 1)
        setvbuf(file, NULL, _IONBF, 0);
    else if (g_fs.bufmode == 2)
        setvbuf(file, NULL, _IOFBF, 16);
    (*open_files)[file] = h;
    return file;
}

extern "C" FILE* sim_fopen(const char* path, const char* mode) {
    g_fs.opens++;
    if (g_alloc.on_call)
        g_alloc.on_call();
    if (g_fs.open_fail) {
        g_fs.open_fail_fired = true;
        FAULT("file-open-fail");
        ev("fopen -> EACCES");
        errno = EACCES;
        return NULL;
    }
    FILE* f = fs_open(path, mode);
    ev("fopen(%s,%s) -> %s", path, mode, f ? "ok" : "NULL");
    return f;
}

// With fopencookie, glibc's fclose() forgets a short write of the last
// flush; with a real file it reports it. Do what it does for real files.
static int close_stream(FILE* f) {
    int a = __fwriting(f) ? fflush(f) : 0;
    int b = fclose(f);
    return a ? a : b;
}

int fs_close(FILE* f) {
    auto it = open_files->find(f);
    if (it == open_files->end())
        violate("file-close", "fclose on a FILE that is not open (double close)");
    open_files->erase(it);
    return close_stream(f);
}

extern "C" int sim_fclose(FILE* f) {
    g_fs.closes++;
    auto it = open_files->find(f);
    if (it == open_files->end())
        violate("file-close", "fclose on a FILE that is not open (double close)");
    open_files->erase(it);
    int ret = close_stream(f);
    if (g_fs.close_fail) {
        g_fs.close_fail_fired = true;
        FAULT("file-close-fail");
        ev("fclose -> EIO");
        errno = EIO;
        return EOF;
    }
    ev("fclose -> %d", ret);
    return ret;
}

size_t fs_open_count() { return open_files->size(); }
bool fs_is_open(FILE* f) { return open_files->find(f) != open_files->end(); }

// ------------------------------------------------------------ run control
void sim_reset() {
    if (!blocks) {
        blocks = new std::unordered_map<void*, Blk>();
        disk = new std::map<std::string, SimFile*>();
        open_files = new std::map<FILE*, Handle*>();
    }
    for (auto& b : *blocks) {
        sim_unpoison(b.first, b.second.size);
        free((uint8_t*)b.first - PAD);
    }
    blocks->clear();
    for (auto& q : quarantine)
        free(q.p - PAD);
    quarantine.clear();
    quarantine_bytes = 0;
    while (!open_files->empty()) {
        FILE* f = open_files->begin()->first;
        open_files->erase(open_files->begin());
        memset(&g_fs, 0, sizeof(g_fs));
        g_fs.read_err_at = g_fs.write_err_at = -1;
        fclose(f);
    }
    for (auto& d : *disk)
        delete d.second;
    disk->clear();
    memset(&g_alloc, 0, sizeof(g_alloc));
    g_alloc.cap = 64u << 20;
    memset(&g_fs, 0, sizeof(g_fs));
    g_fs.read_err_at = g_fs.write_err_at = -1;
    g_break_expected = g_break_hits = 0;
    g_assert_jmp = NULL;
    g_steps = g_fault_fired = g_nontrivial = 0;
    run_step_limit = 3000000;
    log_hash = 0xcbf29ce484222325ull;
    tape_rec.clear();
    tape_pos = 0;
}

void (*g_nest)();
bool prof(const char* name) { // the profile without "+nest"
    size_t n = strcspn(g_run.profile, "+");
    return strlen(name) == n && memcmp(g_run.profile, name, n) == 0;
}

struct Eng { const char* name; engine_fn fn; };
static Eng engines[32];
static int nengines;
EngineReg::EngineReg(const char* name, engine_fn fn) {
    engines[nengines].name = name;
    engines[nengines].fn = fn;
    ++nengines;
}
engine_fn find_engine(const char* name) {
    for (int i = 0; i < nengines; ++i)
        if (!strcmp(engines[i].name, name))
            return engines[i].fn;
    return NULL;
}

static engine_fn cur_engine;
static int hang_cpu_seconds() { // far more than any run needs
    static int secs;
    if (!secs) {
        const char* e = getenv("SIM_HANG_SECS");
        secs = e && atoi(e) > 0 ? atoi(e) : 20;
    }
    return secs;
}

static void arm_timer() {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = hang_cpu_seconds();
    setitimer(ITIMER_PROF, &it, NULL);
}

int sim_fill_byte() { return fill_mode ? 0x5A : 0xA6; }
void sim_unpoison(const void* p, size_t n) {
#ifdef SIM_MSAN
    __msan_unpoison(p, n);
#else
    (void)p; (void)n;
#endif
}
void sim_poison(void* p, size_t n) {
#ifdef SIM_MSAN
    __msan_poison(p, n);
#else
    (void)p; (void)n;
#endif
}
void sim_stale(void* p, size_t n) {
    memset(p, sim_fill_byte(), n);
    sim_poison(p, n);
}
void sim_check_init(const void* p, size_t n, const char* what) {
#ifdef SIM_MSAN
    intptr_t at = __msan_test_shadow(p, n);
    if (at >= 0)
        violate("uninit", "byte %ld of %lu of %s is uninitialised memory", (long)at, (unsigned long)n, what);
#else
    (void)p; (void)n; (void)what;
#endif
}

// Gives stale stack contents a known value, so that code that depends on them
// does so deterministically (and differently for another fill mode).
#if defined(__clang__) || defined(__GNUC__)
__attribute__((noinline, no_sanitize("address", "undefined")))
#endif
static void paint_stack(int fill) {
    volatile uint8_t area[96 * 1024];
    memset((void*)area, fill ? 0x5A : 0xA6, sizeof(area));
    __asm__ volatile("" : : "r"(area) : "memory");
}

// Executes one run; returns its event-log hash.
static uint64_t run_once(uint64_t seed, bool replay, int fill) {
    sim_reset();
    rng_state = hash64(seed, 0x51D);
    replaying = replay;
    fill_mode = fill;
    g_run.seed = seed;
    nest_reset(strstr(g_run.profile, "+nest") != NULL);
    paint_stack(fill);
    cur_engine();
    nest_reset(false);
    check_heap();
    return log_hash;
}

static void on_prof(int) {
    record_violation("hang", "run used more than the CPU time limit (no progress)");
    _exit(3);
}

#ifdef SIM_ASAN
extern "C" const char* __asan_get_report_description();
extern "C" int __asan_report_present();
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() {
    char cls[64];
    if (__asan_report_present())
        snprintf(cls, sizeof(cls), "asan.%s", __asan_get_report_description());
    else
        snprintf(cls, sizeof(cls), "ubsan");
    record_violation(cls, "sanitizer report (undefined behaviour in the code under test)");
}
#endif

#ifdef SIM_MSAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
// Only what the simulator says is uninitialised: simulated allocations, stale
// objects and buffers (and the stack of the library).
extern "C" const char* __msan_default_options() { return "poison_in_malloc=0:poison_in_free=0"; }
static void on_msan_death() {
    record_violation("uninit", "use of uninitialised memory (sanitizer report)");
}
#endif

static double now_s() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static Shm* make_shm(size_t hash_cap) {
    size_t sz = sizeof(Shm) + hash_cap * sizeof(uint64_t);
    void* p = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    shm_hash_cap = hash_cap;
    return (Shm*)p;
}

static void child_setup(bool verbose) {
    signal(SIGPROF, on_prof);
    if (!verbose) {
        // silence stdout/stderr of the code under test, except the sanitizer
        FILE* f = freopen("/dev/null", "w", stdout);
        (void)f;
    }
#ifdef SIM_ASAN
    __sanitizer_set_death_callback(on_death);
#endif
#ifdef SIM_MSAN
    __sanitizer_set_death_callback(on_msan_death);
#endif
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
}

static void classify_exit(int status) {
    if (shm->viol)
        return;
    char cls[64];
    if (WIFSIGNALED(status))
        snprintf(cls, sizeof(cls), "crash.signal%d", WTERMSIG(status));
    else
        snprintf(cls, sizeof(cls), "crash.exit%d", WEXITSTATUS(status));
    record_violation(cls, "the simulated process died");
}

static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c == '\n')
            fputs("\\n", f);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static const char* arg_of(int argc, char** argv, const char* name, const char* def) {
    for (int i = 2; i + 1 < argc; ++i)
        if (!strcmp(argv[i], name))
            return argv[i + 1];
    return def;
}
static bool has_flag(int argc, char** argv, const char* name) {
    for (int i = 2; i < argc; ++i)
        if (!strcmp(argv[i], name))
            return true;
    return false;
}

static bool write_sample(char* out, size_t cap) {
    size_t n = 0;
    out[0] = 0;
    for (size_t i = 0; i < tape_rec.size() && n + 16 < cap; ++i)
        n += (size_t)snprintf(out + n, cap - n, "%s%u", i ? "," : "", tape_rec[i]);
    return true;
}

static int cmd_batch(int argc, char** argv) {
    uint64_t base = strtoull(arg_of(argc, argv, "--seed", "1"), NULL, 0);
    uint64_t start = strtoull(arg_of(argc, argv, "--start", "0"), NULL, 0);
    uint64_t count = strtoull(arg_of(argc, argv, "--count", "1000"), NULL, 0);
    double secs = atof(arg_of(argc, argv, "--secs", "60"));
    uint64_t detcheck = strtoull(arg_of(argc, argv, "--detcheck", "97"), NULL, 0);
    int maxviol = atoi(arg_of(argc, argv, "--maxviol", "3"));
    const char* out = arg_of(argc, argv, "--out", "/dev/stdout");
    // violations of classes that start with none of these are only counted
    const char* accept = arg_of(argc, argv, "--accept", "");
    std::map<std::string, uint64_t> others;
    std::map<std::string, std::string> others_msg;
    uint64_t nothers = 0;
    shm = make_shm(count < 3000000 ? count + 16 : 3000000);
    double t0 = now_s();
    uint64_t next = start, end = start + count;
    struct V { uint64_t index, seed; std::string cls, msg; };
    std::vector<V> viols;
    bool nondet = false;
    while (next < end && (int)viols.size() < maxviol && nothers < 3000 && now_s() - t0 < secs) {
        shm->viol = 0;
        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup(false);
            arm_timer();
            for (uint64_t i = next; i < end; ++i) {
                uint64_t seed = hash64(base, i) & 0xffffffffffffull;
                shm->cur_index = i;
                shm->cur_seed = seed;
                if ((i & 15) == 0)
                    arm_timer();
                uint64_t h = run_once(seed, false, 0);
                uint64_t nt = g_nontrivial;
                shm->runs++;
                shm->steps += g_steps;
                shm->draws += tape_rec.size();
                if (nt)
                    shm->nontrivial++;
                if (nt && shm->nhashes < shm_hash_cap)
                    shm->hashes[shm->nhashes++] = h;
                if (nt && shm->nsamples < 3 && tape_rec.size() < 120) {
                    char* s = shm->sample[shm->nsamples];
                    int n = snprintf(s, 100, "seed=%llu steps=%llu log=%016llx choices=",
                            (unsigned long long)seed, (unsigned long long)g_steps, (unsigned long long)h);
                    write_sample(s + n, sizeof(shm->sample[0]) - (size_t)n);
                    shm->nsamples++;
                }
                if (detcheck && (i % detcheck) == 0) {
                    std::vector<uint32_t> first = tape_rec;
                    quiet_stats = true;
                    uint64_t h2 = run_once(seed, false, 0);
                    bool tape_same = first == tape_rec;
                    if (h2 != h || !tape_same)
                        _exit(44);
                    tape_in = first;
                    uint64_t h3 = run_once(seed, true, 0);
                    if (h3 != h)
                        _exit(45);
                    uint64_t h4 = run_once(seed, false, 1);
                    if (h4 != h)
                        violate("uninit", "behaviour depends on the contents of uninitialised heap memory");
                    quiet_stats = false;
                    shm->dup_runs += 3;
                }
                if ((i & 15) == 0 && now_s() - t0 >= secs) {
                    shm->cur_index = i;
                    _exit(7);
                }
            }
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 7) && !shm->viol)
            break;
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 44 || WEXITSTATUS(status) == 45)) {
            nondet = true;
            fprintf(stderr, "NONDETERMINISM seed=%llu code=%d\n", (unsigned long long)shm->cur_seed, WEXITSTATUS(status));
            break;
        }
        classify_exit(status);
        next = shm->cur_index + 1;
        bool mine = !*accept;
        for (const char* a = accept; *a && !mine;) {
            const char* c = strchr(a, ',');
            size_t n = c ? (size_t)(c - a) : strlen(a);
            mine = n && !strncmp(shm->viol_class, a, n);
            a += n + (c ? 1 : 0);
        }
        if (!mine) {
            ++nothers;
            ++others[shm->viol_class];
            if (others_msg.find(shm->viol_class) == others_msg.end())
                others_msg[shm->viol_class] = std::to_string(shm->cur_seed) + ": " + shm->viol_msg;
            continue;
        }
        viols.push_back(V{shm->cur_index, shm->cur_seed, shm->viol_class, shm->viol_msg});
    }
    double wall = now_s() - t0;
    FILE* f = fopen(out, "w");
    if (!f)
        return 2;
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"draws\":%llu,\"dup_runs\":%llu,\"wall\":%.3f,\"nondet\":%s,",
            (unsigned long long)shm->runs, (unsigned long long)shm->nontrivial, (unsigned long long)shm->steps,
            (unsigned long long)shm->draws, (unsigned long long)shm->dup_runs, wall, nondet ? "true" : "false");
    fprintf(f, "\"counters\":{");
    for (int i = 0; i < shm->ncounters; ++i) {
        if (i)
            fputc(',', f);
        json_str(f, shm->names[i]);
        fprintf(f, ":%llu", (unsigned long long)shm->counters[i]);
    }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < shm->nsamples; ++i) {
        if (i)
            fputc(',', f);
        json_str(f, shm->sample[i]);
    }
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); ++i) {
        if (i)
            fputc(',', f);
        fprintf(f, "{\"index\":%llu,\"seed\":%llu,\"class\":", (unsigned long long)viols[i].index, (unsigned long long)viols[i].seed);
        json_str(f, viols[i].cls.c_str());
        fprintf(f, ",\"msg\":");
        json_str(f, viols[i].msg.c_str());
        fprintf(f, "}");
    }
    fprintf(f, "],\"others\":{");
    bool first_other = true;
    for (auto& o : others) {
        if (!first_other)
            fputc(',', f);
        first_other = false;
        json_str(f, o.first.c_str());
        fprintf(f, ":[%llu,", (unsigned long long)o.second);
        json_str(f, others_msg[o.first].c_str());
        fputc(']', f);
    }
    fprintf(f, "}}\n");
    fclose(f);
    if (strcmp(out, "/dev/stdout")) {
        std::string p = std::string(out) + ".h";
        f = fopen(p.c_str(), "wb");
        fwrite(shm->hashes, 8, shm->nhashes, f);
        fclose(f);
        p = std::string(out) + ".s";
        f = fopen(p.c_str(), "wb");
        fwrite(shm->states, 1, sizeof(shm->states), f);
        fclose(f);
    }
    return nondet ? 4 : 0;
}

// Runs one candidate in a forked child. Returns true on violation.
struct Outcome { bool viol; std::string cls, msg; uint64_t hash; uint64_t steps; };
static Outcome run_forked(uint64_t seed, const std::vector<uint32_t>* tape, bool trace) {
    shm->viol = 0;
    shm->engaged_hash = 0;
    shm->runs = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(trace);
        g_trace = trace;
        if (!trace) {
            FILE* f = freopen("/dev/null", "w", stderr);
            (void)f;
        }
        arm_timer();
        if (tape)
            tape_in = *tape;
        uint64_t h = run_once(seed, tape != NULL, 0);
        shm->engaged_hash = h;
        shm->steps = g_steps;
        uint64_t h4 = run_once(seed, tape != NULL, 1);
        if (h4 != h)
            violate("uninit", "behaviour depends on the contents of uninitialised heap memory");
        fflush(stdout);
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Outcome o;
    o.viol = false;
    o.hash = shm->engaged_hash;
    o.steps = shm->steps;
    if (shm->viol || !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        classify_exit(status);
        o.viol = true;
        o.cls = shm->viol_class;
        o.msg = shm->viol_msg;
        o.hash = shm->viol_hash;
    }
    return o;
}

static void record_tape(uint64_t seed, std::vector<uint32_t>& tape) {
    // run in a child that sends its tape through a pipe as it is made
    int fds[2];
    if (pipe(fds))
        exit(2);
    fflush(NULL);
    // generous shared buffer for the tape
    const size_t cap = 2100000;
    uint32_t* buf = (uint32_t*)mmap(NULL, (cap + 1) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    extern uint32_t* g_tape_mirror;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(false);
        FILE* f = freopen("/dev/null", "w", stderr);
        (void)f;
        arm_timer();
        g_tape_mirror = buf;
        run_once(seed, false, 0);
        _exit(0);
    }
    int status;
    waitpid(pid, &status, 0);
    tape.assign(buf + 1, buf + 1 + buf[0]);
    munmap(buf, (cap + 1) * 4);
    close(fds[0]);
    close(fds[1]);
}
uint32_t* g_tape_mirror;

static bool read_tape(const char* path, std::vector<uint32_t>& tape) {
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    unsigned v;
    while (fscanf(f, "%u", &v) == 1)
        tape.push_back(v);
    fclose(f);
    return true;
}

static int report(const Outcome& o) {
    if (o.viol) {
        printf("\nRESULT violation class=%s hash=%016llx\nMESSAGE %s\n", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
        return 3;
    }
    printf("\nRESULT ok hash=%016llx steps=%llu\n", (unsigned long long)o.hash, (unsigned long long)o.steps);
    return 0;
}

static int cmd_one(int argc, char** argv) {
    shm = make_shm(16);
    uint64_t seed = strtoull(arg_of(argc, argv, "--seed", "1"), NULL, 0);
    const char* tp = arg_of(argc, argv, "--tape", NULL);
    std::vector<uint32_t> tape;
    if (tp && !read_tape(tp, tape))
        return 2;
    Outcome o = run_forked(seed, tp ? &tape : NULL, has_flag(argc, argv, "--trace"));
    return report(o);
}

static int cmd_shrink(int argc, char** argv) {
    shm = make_shm(16);
    uint64_t seed = strtoull(arg_of(argc, argv, "--seed", "1"), NULL, 0);
    double budget = atof(arg_of(argc, argv, "--secs", "20"));
    const char* out = arg_of(argc, argv, "--out", "/dev/stdout");
    const char* cls = arg_of(argc, argv, "--class", "");
    double t0 = now_s();
    std::vector<uint32_t> best;
    record_tape(seed, best);
    Outcome o = run_forked(seed, &best, false);
    if (!o.viol || o.cls != cls) {
        printf("SHRINK not reproduced (class %s)\n", o.viol ? o.cls.c_str() : "none");
        return 5;
    }
    size_t orig = best.size();
    uint64_t tried = 0;
    auto fails = [&](const std::vector<uint32_t>& t) {
        ++tried;
        Outcome r = run_forked(seed, &t, false);
        return r.viol && r.cls == cls;
    };
    auto time_left = [&]() { return now_s() - t0 < budget; };
    auto trim = [&](std::vector<uint32_t>& t) {
        while (!t.empty() && t.back() == 0)
            t.pop_back();
    };
    trim(best);
    bool progress = true;
    while (progress && time_left()) {
        progress = false;
        // truncate
        for (size_t keep = best.size() / 2; keep < best.size() && time_left();) {
            std::vector<uint32_t> c(best.begin(), best.begin() + (long)keep);
            trim(c);
            if (c.size() < best.size() && fails(c)) {
                best = c;
                progress = true;
                keep = best.size() / 2;
            } else {
                size_t gap = best.size() - keep;
                if (gap <= 1)
                    break;
                keep = best.size() - gap / 2;
            }
        }
        // delete chunks, zero chunks
        for (size_t chunk = best.size() / 2 ? best.size() / 2 : 1; chunk >= 1 && time_left(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && time_left();) {
                std::vector<uint32_t> c(best);
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
                trim(c);
                if (fails(c)) {
                    best = c;
                    progress = true;
                    continue;
                }
                bool nonzero = false;
                for (size_t k = 0; k < chunk; ++k)
                    nonzero |= best[i + k] != 0;
                if (nonzero) {
                    c = best;
                    for (size_t k = 0; k < chunk; ++k)
                        c[i + k] = 0;
                    trim(c);
                    if (fails(c)) {
                        best = c;
                        progress = true;
                        if (i + chunk > best.size())
                            break;
                    }
                }
                i += chunk;
            }
            if (chunk == 1)
                break;
        }
        // lower values
        for (size_t i = 0; i < best.size() && time_left(); ++i) {
            uint32_t v = best[i];
            uint32_t lo = 0;
            while (lo < v && time_left()) {
                uint32_t mid = lo + (v - lo) / 2;
                std::vector<uint32_t> c(best);
                c[i] = mid;
                if (fails(c)) {
                    best[i] = v = mid;
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    trim(best);
    o = run_forked(seed, &best, false);
    if (!o.viol || o.cls != cls) {
        printf("SHRINK unstable\n");
        return 5;
    }
    FILE* f = fopen(out, "w");
    if (!f)
        return 2;
    for (size_t i = 0; i < best.size(); ++i)
        fprintf(f, "%u%c", best[i], (i % 20) == 19 ? '\n' : ' ');
    fprintf(f, "\n");
    fclose(f);
    printf("SHRINK choices %lu -> %lu in %llu candidate runs\n", (unsigned long)orig, (unsigned long)best.size(), (unsigned long long)tried);
    return report(o);
}

int main(int argc, char** argv) {
    if (argc < 2)
        return 2;
    // the address layout is a source of nondeterminism, too (best effort)
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    g_run.engine = arg_of(argc, argv, "--engine", "");
    g_run.profile = arg_of(argc, argv, "--profile", "");
    cur_engine = find_engine(g_run.engine);
    if (!cur_engine) {
        fprintf(stderr, "unknown engine %s\n", g_run.engine);
        return 2;
    }
    sim_reset();
    if (!strcmp(argv[1], "batch"))
        return cmd_batch(argc, argv);
    if (!strcmp(argv[1], "one"))
        return cmd_one(argc, argv);
    if (!strcmp(argv[1], "shrink"))
        return cmd_shrink(argc, argv);
    return 2;
}
