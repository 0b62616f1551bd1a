// Engine "huge": strings, binary data and containers of billions of bytes or elements,
// next to the end of the address space of a 32-bit platform. The data is a lazily mapped
// region of zeros, so nothing of that size is ever copied.
#include "common.h"
#include "stream.h"
#include <sys/mman.h>

#ifndef MPACK_MALLOC
static void engine_huge() {}
static EngineReg reg("huge", engine_huge);
#else

namespace {

char* g_base;      // zeros, followed by a page that must not be touched
size_t g_room;
const size_t kPage = 4096;

bool region() {
    if (g_base)
        return true;
    for (int i = 0; i < 4 && !g_base; ++i) {
        uint64_t want = sizeof(size_t) > 4 ? ((uint64_t)1 << 32) + (1 << 20) : ((uint64_t)1 << 31) + (i == 3 ? 1 << 21 : 1 << (28 - 2 * i));
        void* p = mmap(NULL, (size_t)want + kPage, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
            continue;
        g_base = (char*)p;
        g_room = (size_t)want;
        mprotect(g_base + g_room, kPage, PROT_NONE);
    }
    if (!g_base)
        ev("no address space for huge data");
    return g_base != NULL;
}
void wipe(const char* p, size_t n) { // gives the touched pages back
    size_t a = (size_t)(p - g_base) & ~(kPage - 1), b = (size_t)(p + n - g_base);
    madvise(g_base + a, (b - a + kPage - 1) & ~(kPage - 1), MADV_DONTNEED);
}

// A length of half the address space or more of a 32-bit platform.
size_t huge_len() {
    uint64_t most = g_room - 64;
    if (most > UINT32_MAX)
        most = UINT32_MAX;
    uint64_t n;
    switch (draw(4)) {
        case 0: n = ((uint64_t)1 << 31) + draw(20000) - 10000; break;
        case 1: n = most - draw(40); break;
        case 2: n = ((uint64_t)1 << 31) + draw(1u << 31); break;
        default: n = ((uint64_t)1 << 30) + draw(1u << 31); break;
    }
    return (size_t)(n > most ? most : n);
}

// The message: [pre] header, n zeros, 5. It ends where the readable memory does.
struct Msg {
    mpack_type_t type;
    size_t n;
    uint8_t head[8];
    size_t hn;
    bool arr;
    size_t total;
    char* p;         // in the region
    size_t have;     // bytes of it that exist
};
void msg_draw(Msg& m, bool place) {
    m.n = huge_len();
    m.arr = draw(4) != 0;
    uint32_t k = draw(MPACK_EXTENSIONS ? 3 : 2);
    m.type = k == 0 ? mpack_type_str : mpack_type_bin;
    m.hn = 0;
    if (m.arr)
        m.head[m.hn++] = 0x92;
    m.head[m.hn++] = k == 0 ? 0xdb : k == 1 ? 0xc6 : 0xc9;
    for (int i = 3; i >= 0; --i)
        m.head[m.hn++] = (uint8_t)((uint64_t)m.n >> (8 * i));
#if MPACK_EXTENSIONS
    if (k == 2) {
        m.type = mpack_type_ext;
        m.head[m.hn++] = 7;
    }
#endif
    m.total = m.hn + m.n + (m.arr ? 1 : 0);
    m.have = m.total;
    m.p = NULL;
    if (place) {
        if (coin(1, 3)) { // the end is missing
            size_t cut = draw(2) ? 1 + draw(3) : 1 + draw((uint32_t)(m.n > 1u << 30 ? 1u << 30 : m.n));
            m.have -= cut;
            FAULT("truncated-data");
        }
        m.p = g_base + g_room - m.have;
        memcpy(m.p, m.head, m.hn);
        if (m.arr && m.have == m.total)
            m.p[m.total - 1] = 5;
    }
    ev("%s of %lu bytes%s, %lu of %lu bytes exist", k == 0 ? "str" : k == 1 ? "bin" : "ext", (unsigned long)m.n, m.arr ? " in an array" : "", (unsigned long)m.have, (unsigned long)m.total);
}
void msg_done(Msg& m) {
    if (m.p) {
        wipe(m.p, m.hn);
        wipe(m.p + m.have - 1, 1);
    }
}

ErrCtl* E;
template <class T> void on_error(T* o, mpack_error_t e, mpack_error_t state) {
    (void)o;
    E->calls++;
    ev("error handler(%s)", err_name(e));
    CHECK(E->calls == 1, "err.twice", "the error handler was called %u times", E->calls);
    CHECK(e == state, "err.mismatch", "the handler got %s but the state is %s", err_name(e), err_name(state));
    if (E->mode == H_JUMP && E->armed)
        longjmp(E->jb, 1);
}
void werror(mpack_writer_t* w, mpack_error_t e) { on_error(w, e, mpack_writer_error(w)); }
void rerror(mpack_reader_t* r, mpack_error_t e) { on_error(r, e, mpack_reader_error(r)); }
void terror(mpack_tree_t* t, mpack_error_t e) { on_error(t, e, mpack_tree_error(t)); }

void expect_error(const char* what, mpack_error_t e, uint32_t allowed, const char* cls) {
    ev("%s -> %s", what, err_name(e));
    CHECK((allowed >> e) & 1, cls, "%s gave %s", what, err_name(e));
}
#define ONE(e) (1u << (mpack_error_##e))
const uint32_t kOk = 1u << mpack_ok;

// ------------------------------------------------------------ writer
struct WOut {
    bytes_t small;   // what arrived outside of the zeros
    uint64_t before, zeros, total;
    uint64_t fail_after;
};
WOut* O;
void wflush(mpack_writer_t* w, const char* p, size_t n) {
    CHECK(mpack_writer_error(w) == mpack_ok, "flush.after-error", "flushed in an error state");
    O->total += n;
    if (O->total > O->fail_after) {
        FAULT("flush-fail");
        O->total -= n;
        mpack_writer_flag_error(w, mpack_error_io);
        return;
    }
    if (p >= g_base && p < g_base + g_room) {
        CHECK(n <= (size_t)(g_base + g_room - p), "out.mismatch", "flushed memory past the end of the data");
        O->zeros += n;
        ev("flush of %lu bytes of the data", (unsigned long)n);
    } else {
        if (O->small.size() + n < 200000) {
            O->small.insert(O->small.end(), (const uint8_t*)p, (const uint8_t*)p + n);
        } else { // a writer that copies all of it: only the count is checked
            O->zeros += n;
        }
    }
}

void huge_writer(ErrCtl& ec) {
    mpack_writer_t w;
    sim_stale(&w, sizeof(w));
    char* data = (char*)1;
    size_t size = 77;
    uint32_t sink = draw(3);
    GBuf buf(32 + draw(5000));
    WOut out;
    out.before = out.zeros = out.total = 0;
    out.fail_after = UINT64_MAX;
    O = &out;
    if (sink == 0) {
        mpack_writer_init_growable(&w, &data, &size);
    } else {
        mpack_writer_init(&w, buf.p, buf.n);
        if (sink == 1)
            mpack_writer_set_flush(&w, wflush);
    }
    if (ec.mode != H_NONE)
        mpack_writer_set_error_handler(&w, werror);
    bytes_t want;
    for (uint32_t n = draw(sink == 2 ? 3 : 200); n; --n) {
        mpack_write_u8(&w, 9);
        want.push_back(9);
    }
    Msg m;
    msg_draw(m, false);
    want.insert(want.end(), m.head, m.head + m.hn);
    if (sink == 1 && coin(1, 3))
        out.fail_after = draw(3) ? want.size() + draw((uint32_t)(m.n > 1u << 31 ? 1u << 31 : m.n)) : draw((uint32_t)want.size());
    if (m.arr)
        want.push_back(5);
    const char* zeros = g_base + draw((uint32_t)(g_room - m.n > 5000 ? 5000 : g_room - m.n));
    bool pieces = draw(2);
    guarded(ec, [&] {
        if (m.arr)
            mpack_start_array(&w, 2);
        if (pieces) {
            if (m.type == mpack_type_str)
                mpack_start_str(&w, (uint32_t)m.n);
            else if (m.type == mpack_type_bin)
                mpack_start_bin(&w, (uint32_t)m.n);
#if MPACK_EXTENSIONS
            else
                mpack_start_ext(&w, 7, (uint32_t)m.n);
#endif
            size_t a = draw(2) ? draw(50) : draw((uint32_t)m.n), b = draw((uint32_t)(m.n - a));
            mpack_write_bytes(&w, zeros, a);
            mpack_write_bytes(&w, zeros + a, b);
            mpack_write_bytes(&w, zeros + a + b, m.n - a - b);
            mpack_finish_type(&w, m.type);
        } else if (m.type == mpack_type_str) {
            mpack_write_str(&w, zeros, (uint32_t)m.n);
        } else if (m.type == mpack_type_bin) {
            mpack_write_bin(&w, zeros, (uint32_t)m.n);
#if MPACK_EXTENSIONS
        } else {
            mpack_write_ext(&w, 7, zeros, (uint32_t)m.n);
#endif
        }
        if (m.arr) {
            mpack_write_u8(&w, 5);
            mpack_finish_array(&w);
        }
    });
    mpack_error_t before = mpack_writer_error(&w);
    FAULT("huge-write");
    if (ec.mode != H_NONE && before != mpack_ok)
        CHECK(ec.calls == 1, "err.no-callback", "the handler was not called");
    mpack_error_t e = mpack_ok;
    volatile mpack_error_t ve = mpack_ok;
    if (!guarded(ec, [&] { ve = mpack_writer_destroy(&w); }))
        ve = mpack_writer_destroy(&w);
    e = ve;
    CHECK(before == mpack_ok || e == before, "err.sticky", "destroy returned %s after %s", err_name(e), err_name(before));
    uint64_t all = (uint64_t)want.size() + m.n;
    if (sink == 0)
        expect_error("a growable writer that cannot grow that far", e, ONE(memory), "err.code");
    else if (sink == 2)
        expect_error("a fixed buffer", e, ONE(too_big), "err.code");
    else
        expect_error("a flushed writer", e, out.fail_after < all ? ONE(io) : kOk, "err.code");
    if (sink == 0)
        CHECK(data == NULL && size == 0, "growable.on-error", "growable writer failed with %s but set the data pointer", err_name(e));
    if (sink == 1 && e == mpack_ok) {
        CHECK(out.total == all, "out.mismatch", "%llu bytes were flushed instead of %llu", (unsigned long long)out.total, (unsigned long long)all);
        // the first bytes and the last one
        size_t lead = want.size() - (m.arr ? 1 : 0);
        CHECK(out.small.size() >= lead && memcmp(out.small.data(), want.data(), lead) == 0, "out.mismatch", "what came before the data is wrong");
        for (size_t i = lead; i < out.small.size() - (m.arr ? 1 : 0); ++i)
            CHECK(out.small[i] == 0, "out.mismatch", "the data is wrong");
        if (m.arr)
            CHECK(out.small.back() == 5, "out.mismatch", "what came after the data is wrong");
    }
    buf.check("buffer.overrun");
}

// ------------------------------------------------------------ reader
struct Gen {     // header, zeros, 5
    const Msg* m;
    uint64_t off, have, skips, calls;
    bool failed;
};
Gen* G;
size_t rfill(mpack_reader_t* r, char* buf, size_t count) {
    CHECK(mpack_reader_error(r) == mpack_ok, "fill.after-error", "fill called in an error state");
    CHECK(++G->calls < 3000000, "hang", "too many fills");
    uint64_t left = G->have - G->off, n = count < left ? count : left;
    memset(buf, 0, (size_t)n);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t at = G->off + i;
        if (at < G->m->hn)
            buf[i] = (char)G->m->head[at];
        else
            break;
    }
    if (G->m->arr && n && G->off + n == G->m->total)
        buf[n - 1] = 5;
    G->off += n;
    return (size_t)n;
}
void rskip(mpack_reader_t* r, size_t count) {
    CHECK(mpack_reader_error(r) == mpack_ok, "fill.after-error", "skip called in an error state");
    ++G->skips;
    ev("skip %lu", (unsigned long)count);
    if (count > G->have - G->off) {
        G->off = G->have;
        mpack_reader_flag_error(r, mpack_error_io);
        return;
    }
    G->off += count;
}

void huge_reader(ErrCtl& ec) {
    mpack_reader_t r;
    sim_stale(&r, sizeof(r));
    Msg m;
    bool mem = draw(3) != 0;
    msg_draw(m, mem);
    bool skip = !mem && draw(10);
    Gen gen = {&m, 0, m.total, 0, 0, false};
    G = &gen;
    size_t bn = 32 + draw(1000);
    if (!mem && !skip)
        bn = 65536 + draw(10);
    GBuf buf(bn);
    if (mem) {
        if (draw(2))
            mpack_reader_init_data(&r, m.p, m.have);
        else
            mpack_reader_init(&r, m.p, m.have, m.have);
    } else {
        if (coin(1, 4))
            gen.have -= 1 + draw(draw(2) ? 3 : 1 << 30);
        mpack_reader_init(&r, buf.p, buf.n, 0);
        mpack_reader_set_fill(&r, rfill);
        if (skip)
            mpack_reader_set_skip(&r, rskip);
        m.have = (size_t)gen.have;
    }
    if (ec.mode != H_NONE)
        mpack_reader_set_error_handler(&r, rerror);
    const bool whole = m.have == m.total;
    const bool body = m.have >= m.hn + m.n;
    const uint32_t trunc = mem ? ONE(invalid) : ONE(io);
    uint32_t op = draw(10);
    uint32_t want = kOk;
    if (!mem && !skip && op < 2 && !coin(1, 8))
        op = 2 + draw(8);
    const char* volatile what = "?";
    char small[40];
    size_t sn = draw(sizeof(small)) + 1;
    int8_t et = 0;
    (void)et;
    volatile bool ok = true;
    const char* volatile got = NULL;
    volatile bool done = false;
    bool ret = guarded(ec, [&] {
        if (op == 0) {
            what = "discard";
            mpack_discard(&r);
            done = true;
            return;
        }
        if (m.arr) {
            mpack_tag_t t = mpack_read_tag(&r);
            ok = mpack_tag_equal(t, mpack_tag_make_array(2));
            if (!ok)
                return;
        }
        switch (op) {
            case 1: { // step over it
                what = "skip_bytes";
                mpack_tag_t t = mpack_read_tag(&r);
                ok = mpack_tag_type(&t) == m.type && mpack_tag_bytes(&t) == m.n;
                if (!ok)
                    return;
                size_t a = draw(2) ? draw(100) : draw((uint32_t)m.n);
                for (size_t i = 0; i < 2 && a > sizeof(small); ++i) { // read a little first
                    memset(small, 1, sizeof(small));
                    mpack_read_bytes(&r, small, sn);
                    if (mpack_reader_error(&r) == mpack_ok)
                        for (size_t j = 0; j < sn; ++j)
                            ok = ok && small[j] == 0;
                    a -= sn;
                    t.v.l -= (uint32_t)sn;
                }
                mpack_skip_bytes(&r, a);
                mpack_skip_bytes(&r, t.v.l - a);
                mpack_done_type(&r, m.type);
                done = true;
                break;
            }
            case 2: {
                what = "read_bytes_inplace";
                mpack_tag_t t = mpack_read_tag(&r);
                got = mpack_read_bytes_inplace(&r, mpack_tag_bytes(&t));
                mpack_done_type(&r, m.type);
                done = true;
                break;
            }
            case 3: {
                what = "read_bytes_alloc";
                mpack_tag_t t = mpack_read_tag(&r);
                ok = mpack_read_bytes_alloc(&r, mpack_tag_bytes(&t)) == NULL;
                break;
            }
            case 4: {
                what = "read_cstr";
                mpack_tag_t t = mpack_read_tag(&r);
                memset(small, 1, sizeof(small));
                if (m.type == mpack_type_str)
                    mpack_read_cstr(&r, small, sn, mpack_tag_bytes(&t));
                else
                    mpack_reader_flag_error(&r, mpack_error_too_big);
                ok = m.type != mpack_type_str || small[0] == 0;
                break;
            }
#if MPACK_EXPECT
            case 5:
                what = "a small buffer";
                if (m.type == mpack_type_str)
                    ok = mpack_expect_str_buf(&r, small, sn) == 0;
                else if (m.type == mpack_type_bin)
                    ok = mpack_expect_bin_buf(&r, small, sn) == 0;
#if MPACK_EXTENSIONS
                else
                    ok = mpack_expect_ext_buf(&r, &et, small, sn) == 0;
#endif
                break;
            case 6:
                what = "expect_..._alloc";
                if (m.type == mpack_type_str)
                    ok = (draw(2) ? mpack_expect_cstr_alloc(&r, SIZE_MAX) : mpack_expect_utf8_cstr_alloc(&r, SIZE_MAX)) == NULL;
                else if (m.type == mpack_type_bin) {
                    size_t len = 9;
                    ok = mpack_expect_bin_alloc(&r, SIZE_MAX, &len) == NULL && len == 0;
                }
#if MPACK_EXTENSIONS
                else {
                    size_t len = 9;
                    ok = mpack_expect_ext_alloc(&r, &et, SIZE_MAX, &len) == NULL && len == 0;
                }
#endif
                break;
            case 7:
                what = "a smaller limit";
                if (m.type == mpack_type_str)
                    ok = mpack_expect_str_max(&r, (uint32_t)(m.n - 1 - draw(1000))) == 0;
                else if (m.type == mpack_type_bin)
                    ok = mpack_expect_bin_max(&r, (uint32_t)(m.n - 1 - draw(1000))) == 0;
#if MPACK_EXTENSIONS
                else
                    ok = mpack_expect_ext_max(&r, &et, (uint32_t)(m.n - 1 - draw(1000))) == 0;
#endif
                break;
            case 8: {
                what = "a limit that fits";
                uint32_t max = draw(2) ? (uint32_t)m.n : UINT32_MAX;
                uint32_t n = 0;
                if (m.type == mpack_type_str)
                    n = draw(2) ? mpack_expect_str_max(&r, max) : mpack_expect_str(&r);
                else if (m.type == mpack_type_bin)
                    n = draw(2) ? mpack_expect_bin_max(&r, max) : mpack_expect_bin(&r);
#if MPACK_EXTENSIONS
                else {
                    n = mpack_expect_ext_max(&r, &et, max);
                    ok = et == 7;
                }
#endif
                ok = ok && n == m.n;
                got = mpack_read_bytes_inplace(&r, m.n);
                mpack_done_type(&r, m.type);
                done = true;
                break;
            }
#endif
            default: {
                what = "peek and a tag";
                mpack_tag_t t = mpack_peek_tag(&r);
                ok = mpack_tag_type(&t) == m.type && mpack_tag_bytes(&t) == m.n;
                mpack_reader_flag_error(&r, mpack_error_data);
                break;
            }
        }
        if (m.arr && done && ok && mpack_reader_error(&r) == mpack_ok) {
            mpack_tag_t t = mpack_read_tag(&r);
            if (mpack_reader_error(&r) == mpack_ok)
                ok = mpack_tag_equal(t, mpack_tag_make_uint(5));
            mpack_done_array(&r);
        }
    });
    (void)ret;
    CHECK(ok, "read.wrong", "%s gave a wrong value", what);
    switch (op) {
        case 0: case 1:
            want = whole ? kOk : trunc;
            break;
        case 2: case 8:
            // in place: in memory it is there; a buffer cannot hold it
            want = !mem ? ONE(too_big) : whole ? kOk : trunc;
#if !MPACK_EXPECT
            if (op == 8)
                want = ONE(data);
#endif
            break;
        case 3: case 6:
            want = ONE(memory);
            if (mem && !body)
                want |= trunc;
            if (op == 6 && m.type == mpack_type_str && m.n == UINT32_MAX) // no room for the terminator
                want |= ONE(too_big);
#if !MPACK_EXPECT
            if (op == 6)
                want = ONE(data);
#endif
            break;
        case 4: want = ONE(too_big); break;
        case 5: want = MPACK_EXPECT ? ONE(too_big) : ONE(data); break;
        case 7: want = MPACK_EXPECT ? ONE(type) | ONE(too_big) : ONE(data); break;
        default: want = ONE(data); break;
    }
    mpack_error_t e = mpack_reader_error(&r);
    FAULT("huge-read");
    expect_error(what, e, want, "read.wrong-error");
    if (e == mpack_ok) {
        if (got)
            CHECK(mem && got == m.p + m.hn, "inplace.wrong", "the data in place is somewhere else");
        else
            CHECK(op != 2 && op != 8, "inplace.wrong", "no data");
        CHECK(mpack_reader_remaining(&r, NULL) == 0, "remaining.wrong", "%lu bytes remain", (unsigned long)mpack_reader_remaining(&r, NULL));
    } else if (ec.mode != H_NONE) {
        CHECK(ec.calls == 1, "err.no-callback", "the handler was not called");
    }
    CHECK(mpack_reader_destroy(&r) == e, "err.sticky", "destroy returned another error");
    buf.check("buffer.overrun");
    msg_done(m);
}

// ------------------------------------------------------------ tree
size_t tread(mpack_tree_t* t, char* buf, size_t count) {
    CHECK(mpack_tree_error(t) == mpack_ok, "fill.after-error", "read in an error state");
    CHECK(++G->calls < 1000, "hang", "too many reads");
    uint64_t n = draw(2) ? draw((uint32_t)(count > 5000 ? 5000 : count)) + 1 : count;
    if (n > count)
        n = count;
    if (n > 100000)
        n = 100000;
    memset(buf, 0, (size_t)n);
    for (uint64_t i = 0; i < n && G->off + i < G->m->hn; ++i)
        buf[i] = (char)G->m->head[G->off + i];
    G->off += n;
    return (size_t)n;
}

void huge_tree(ErrCtl& ec) {
    mpack_tree_t t;
    sim_stale(&t, sizeof(t));
    mpack_node_data_t pool[3];
    sim_stale(pool, sizeof(pool));
    Msg m;
    uint32_t src = draw(4);
    bool kids = coin(1, 4); // a container of that many elements instead
    msg_draw(m, src < 3);
    Gen gen = {&m, 0, m.total, 0, 0, false};
    G = &gen;
    if (kids) {
        bool map = draw(2) != 0;
        size_t at = m.arr ? 1 : 0;
        m.head[at] = map ? 0xdf : 0xdd;
        if (map && draw(2)) // the pairs exist
            m.head[at + 1] >>= 1;
        m.hn = at + 5;
        if (m.p)
            m.p[at] = (char)m.head[at], m.p[at + 1] = (char)m.head[at + 1];
        ev("as %s", map ? "a map" : "an array");
    }
    if (src == 0)
        mpack_tree_init_pool(&t, m.p, m.have, pool, 3);
    else if (src < 3)
        mpack_tree_init_data(&t, m.p, m.have);
    else
        mpack_tree_init_stream(&t, tread, NULL, draw(2) ? SIZE_MAX : draw(2) ? m.total : 100000, draw(2) ? SIZE_MAX : 100000);
    bool limited = src < 3 && coin(1, 5);
    if (limited)
        mpack_tree_set_limits(&t, m.total - 1 - draw(1000), 1000);
    if (ec.mode != H_NONE)
        mpack_tree_set_error_handler(&t, terror);
    guarded(ec, [&] {
        if (draw(2))
            mpack_tree_parse(&t);
        else
            mpack_tree_try_parse(&t);
    });
    FAULT("huge-parse");
    uint32_t want = kOk;
    if (kids)
        want = ONE(memory) | ONE(too_big) | ONE(invalid) | (src == 3 ? ONE(io) : 0);
    else if (src == 3)
        want = ONE(memory) | ONE(too_big);
    else if (m.have < m.total)
        want = ONE(invalid) | (limited ? ONE(too_big) : 0);
    else if (limited)
        want = ONE(too_big);
    mpack_error_t e = mpack_tree_error(&t);
    if (src == 3 && e == mpack_ok && kids)
        e = mpack_error_io; // waiting for more
    expect_error(kids ? "parse of a huge container" : "parse", e, want, "tree.wrong-error");
    if (e == mpack_ok) {
        CHECK(mpack_tree_size(&t) == m.total, "tree.size", "the size is %lu instead of %lu", (unsigned long)mpack_tree_size(&t), (unsigned long)m.total);
        mpack_node_t n = mpack_tree_root(&t);
        if (m.arr) {
            CHECK(mpack_node_array_length(n) == 2 && mpack_node_u64(mpack_node_array_at(n, 1)) == 5, "node.wrong", "the array is wrong");
            n = mpack_node_array_at(n, 0);
        }
        CHECK(mpack_node_type(n) == m.type && mpack_node_data_len(n) == m.n, "node.wrong", "wrong type or a length of %lu", (unsigned long)mpack_node_data_len(n));
        CHECK(mpack_node_data(n) == m.p + m.hn, "node.wrong", "wrong data pointer");
        if (m.type == mpack_type_bin)
            CHECK(mpack_node_bin_size(n) == m.n && mpack_node_bin_data(n) == m.p + m.hn, "node.wrong", "wrong bin");
        if (m.type == mpack_type_str)
            CHECK(mpack_node_strlen(n) == m.n && mpack_node_str(n) == m.p + m.hn, "node.wrong", "wrong str");
        char small[40];
        memset(small, 1, sizeof(small));
        size_t sn = 1 + draw(sizeof(small));
        const char* volatile what = "?";
        volatile uint32_t after = ONE(too_big);
        volatile bool ok = true;
        guarded(ec, [&] {
            switch (draw(7)) {
                case 0: what = "copy_data"; ok = mpack_node_copy_data(n, small, sn) == 0; break;
                case 1:
                    what = "copy_cstr";
                    after = after | ONE(type);
                    draw(2) ? mpack_node_copy_cstr(n, small, sn) : mpack_node_copy_utf8_cstr(n, small, sn);
                    ok = small[0] == 0;
                    break;
                case 2:
                    what = "data_alloc";
                    after = ONE(memory);
                    ok = mpack_node_data_alloc(n, draw(2) ? m.n : SIZE_MAX) == NULL;
                    break;
                case 3:
                    what = "cstr_alloc";
                    after = ONE(memory) | ONE(type) | ONE(too_big);
                    ok = (draw(2) ? mpack_node_cstr_alloc(n, SIZE_MAX) : mpack_node_utf8_cstr_alloc(n, m.n + 1)) == NULL;
                    break;
                case 4: what = "data_alloc with a limit"; ok = mpack_node_data_alloc(n, m.n - 1 - draw(1000)) == NULL; break;
                case 5: what = "cstr_alloc with a limit"; after = after | ONE(type); ok = mpack_node_cstr_alloc(n, m.n - draw(1000)) == NULL; break;
                default: what = "copy_utf8"; after = after | ONE(type); ok = mpack_node_copy_utf8(n, small, sn) == 0; break;
            }
        });
        CHECK(ok, "node.wrong", "%s gave something", what);
        e = mpack_tree_error(&t);
        expect_error(what, e, m.type == mpack_type_str ? after : after | ONE(type), "node.wrong-error");
    }
    if (mpack_tree_error(&t) != mpack_ok && ec.mode != H_NONE)
        CHECK(ec.calls == 1, "err.no-callback", "the handler was not called");
    e = mpack_tree_error(&t);
    CHECK(mpack_tree_destroy(&t) == e, "err.sticky", "destroy returned another error");
    msg_done(m);
}

void engine_huge() {
    if (!region())
        return;
    ErrCtl ec = ErrCtl();
    ec.mode = draw_mode(false);
    E = &ec;
    if (prof("writer"))
        huge_writer(ec);
    else if (prof("reader"))
        huge_reader(ec);
    else
        huge_tree(ec);
    alloc_check_leaks("leak", "destroy");
}
EngineReg reg("huge", engine_huge);

}
#endif
