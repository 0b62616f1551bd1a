// Deterministic simulator core: one seed (or one recorded choice tape) decides
// every choice of a run. See DESIGN.md.
#pragma once
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

typedef std::vector<uint8_t> bytes_t;

// ---------------------------------------------------------------- choices
uint32_t draw(uint32_t n);                        // [0,n); 0 is the simplest
inline bool coin(uint32_t num, uint32_t den) {    // true with num/den; 0 -> false
    return draw(den) >= den - num;
}
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
uint32_t pickw(const uint32_t* w, uint32_t n);    // weighted, index
template <size_t N> uint32_t pickw(const uint32_t (&w)[N]) { return pickw(w, (uint32_t)N); }
uint64_t draw64();                                // from a few draws
uint64_t hash64(uint64_t a, uint64_t b);          // pure

// ---------------------------------------------------------------- event log
extern bool g_trace;                              // print the trace
extern uint64_t g_steps;                          // simulated time: event count
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char* what, const void* p, size_t n);
void state_point(uint64_t h);                     // coverage of abstract states

// ---------------------------------------------------------------- counters
// HIT("name"): counted probe/fault statistic, per process, aggregated.
int counter_id(const char* name);
void counter_add(int id, uint64_t n);
#define HIT_N(name, n) do { static int sim_cid = counter_id(name); counter_add(sim_cid, (n)); } while (0)
#define HIT(name) HIT_N(name, 1)
extern uint64_t g_fault_fired;                    // faults fired in this run
extern uint64_t g_nontrivial;                     // boundary/fault/switch events in this run
#define FAULT(name) do { HIT("fault:" name); ++g_fault_fired; ++g_nontrivial; } while (0)

// ---------------------------------------------------------------- violations
// Reports a violation of the given class and ends the run.
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) violate(cls, __VA_ARGS__); } while (0)
void step_guard(uint64_t limit);                  // violates "hang" when over

// ---------------------------------------------------------------- allocator
extern "C" {
void* sim_malloc(size_t size);
void* sim_realloc(void* p, size_t size);
void sim_free(void* p);
}
struct AllocCtl {
    // configuration
    uint32_t fail_after;      // fail the n-th allocation from now (0: never)
    uint32_t fail_count;      // number of consecutive failures (0: all that follow)
    uint32_t fail_rate;       // each allocation fails with fail_rate/64
    bool armed;
    bool zero_null;           // malloc(0) returns NULL
    bool inplace;             // realloc sometimes keeps the pointer
    size_t cap;               // larger requests fail (always)
    size_t watch_cap;         // larger single request is recorded
    uint32_t owner;           // the simulated process that allocates now
    // observations
    size_t live, live_bytes, peak_bytes, max_request;
    uint64_t calls, failed;
    void (*on_call)();        // hook: scheduling point
};
extern AllocCtl g_alloc;
bool alloc_is_live(void* p);
void alloc_free_owner(uint32_t owner); // the memory of a process that died
size_t alloc_size(void* p);
void alloc_check_leaks(const char* cls, const char* where);
void alloc_set_watch(void);   // reset peak tracking to now

// ---------------------------------------------------------------- files
struct SimFile {               // a file on the simulated disk
    std::string name;
    bytes_t data;
    bool exists;
};
struct FileCtl {
    // configuration (per run)
    bool open_fail;
    long read_err_at;          // offset at which reads fail with EIO (-1 never)
    long write_err_at;         // offset at which writes fail (-1 never)
    bool write_err_nospc;
    bool short_io;             // cookie reads/writes are short
    bool unseekable;
    int resize_by;            // the file grows or shrinks once its size was taken
    bool sized, shrunk;
    uint32_t seek_fail_after;  // n-th seek fails (0 never)
    uint32_t tell_fail_after;
    bool close_fail;           // close reports failure
    uint32_t bufmode;          // 0 default, 1 unbuffered, 2 tiny
    // observations
    uint64_t opens, closes, reads, writes, seeks, bytes_read;
    bool read_err_fired, write_err_fired, seek_fail_fired, close_fail_fired, open_fail_fired;
};
extern FileCtl g_fs;
extern "C" {
FILE* sim_fopen(const char* path, const char* mode);
int sim_fclose(FILE* file);
}
FILE* fs_open(const char* path, const char* mode); // harness-side open (same disk)
int fs_close(FILE* f);                             // harness-side close
SimFile* fs_file(const char* path, bool create);
size_t fs_open_count();
bool fs_is_open(FILE* f);

// ---------------------------------------------------------------- misc
uint8_t content_byte(uint64_t seed, uint64_t i);
int sim_fill_byte();  // contents of stale stack memory
void sim_poison(void* p, size_t n);               // MSan builds: the contents are undefined
void sim_unpoison(const void* p, size_t n);         // MSan builds: the contents are defined
void sim_stale(void* p, size_t n);                // fills with stale bytes, contents undefined
void sim_check_init(const void* p, size_t n, const char* what); // MSan builds: must be defined
void fill_content(uint8_t* p, size_t n, uint64_t seed);

// assert/break hooks
extern int g_break_expected;   // >0: mpack_break is an expected detection
extern int g_break_hits;
extern jmp_buf* g_assert_jmp;  // if set, an assert longjmps there
extern char g_last_msg[512];

// run environment
struct RunParams {
    const char* engine;
    const char* profile;
    uint64_t seed;
};
extern RunParams g_run;
bool prof(const char* name);   // is this the running profile?
extern void (*g_nest)();       // runs an unrelated session, in "+nest" profiles
inline void nest() { if (g_nest) g_nest(); }
void nest_reset(bool on);

typedef void (*engine_fn)();
struct EngineReg { EngineReg(const char* name, engine_fn fn); };
engine_fn find_engine(const char* name);

// reset per run
void sim_reset();
