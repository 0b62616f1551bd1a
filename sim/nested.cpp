#include "nested.h"
#include <errno.h>
#include "stream.h"

#if MPACK_READER && MPACK_WRITER && MPACK_EXPECT && MPACK_NODE && MPACK_BUILDER && \
    MPACK_FLOAT && MPACK_DOUBLE && MPACK_STDIO && defined(MPACK_MALLOC)
#include <set>
#if !MPACK_EXTENSIONS
// never called: no extension value is generated then
#define mpack_tag_make_ext(t, n) mpack_tag_make_nil()
static void no_ext() { violate("harness.ext", "an extension in a build without"); }
#define mpack_write_timestamp(w, s, n) no_ext()
#define mpack_write_timestamp_struct(w, t) no_ext()
#define mpack_write_ext(w, t, d, n) no_ext()
#define mpack_start_ext(w, t, n) no_ext()
#define mpack_finish_ext(w) no_ext()
#define mpack_done_ext(r) no_ext()
struct mpack_timestamp_t { int64_t seconds; uint32_t nanoseconds; };
static mpack_timestamp_t no_ts() { no_ext(); return mpack_timestamp_t(); }
#define mpack_read_timestamp(r, n) no_ts()
#define mpack_expect_timestamp(r) no_ts()
#define mpack_node_timestamp(x) no_ts()
#define mpack_expect_timestamp_truncate(r) no_ts().seconds
#define mpack_expect_ext_buf(r, t, b, n) (no_ext(), (void)(t), n)
#define mpack_expect_ext_alloc(r, t, n, k) (no_ext(), (void)(t), (char*)NULL)
#define mpack_expect_ext(r, t) (no_ext(), (void)(t), 0)
#define mpack_node_exttype(x) (no_ext(), 0)
#define mpack_type_ext mpack_type_nil
#endif
namespace {
struct Session {
    const char* cls;
    const char* path;
    uint64_t (*failed)();     // allocations of this session that failed
    void (*point)();          // something else may run
    Val v;
    bytes_t enc;              // reference encoding
    bytes_t in;               // what arrives (enc, or a prefix)
    size_t pos;
    bytes_t out;
    ErrCtl ec;
    mpack_error_t err;
    bool jump;
    mpack_writer_t w;
    mpack_reader_t r;
    mpack_tree_t t;
    mpack_node_data_t pool[96];
    char* heap;               // given to the session by the library
    char buf[96], wbuf[64], fixed[512];
    size_t bufsize;
    char* gdata;
    size_t gsize;
    std::string text;
    uint32_t depth;
};
typedef Session S;
std::set<Session*> live;

#define BAD(s, ...) violate((s)->cls, __VA_ARGS__)
#define WANT(s, cond, what) do { if (!(cond)) BAD(s, "a session of its own got a wrong result from %s", what); } while (0)

void on_error(S* s, mpack_error_t e) {
    if (s->err != mpack_ok)
        BAD(s, "a session of its own got a second error");
    s->err = e;
    ev("session: error %s", err_name(e));
    s->point();
    if (s->jump && s->ec.armed)
        longjmp(s->ec.jb, 1);
}
void w_error(mpack_writer_t* w, mpack_error_t e) { on_error((S*)mpack_writer_context(w), e); }
void r_error(mpack_reader_t* r, mpack_error_t e) { on_error((S*)mpack_reader_context(r), e); }
void t_error(mpack_tree_t* t, mpack_error_t e) { on_error((S*)mpack_tree_context(t), e); }
void w_flush(mpack_writer_t* w, const char* d, size_t n) {
    S* s = (S*)mpack_writer_context(w);
    s->point();
    s->out.insert(s->out.end(), d, d + n);
    s->point();
}
size_t deliver(S* s, char* b, size_t n) {
    s->point();
    size_t left = s->in.size() - s->pos;
    size_t m = n < left ? n : left;
    if (m > 1 && coin(1, 2))
        m = 1 + draw((uint32_t)m);
    if (m)
        memcpy(b, s->in.data() + s->pos, m);
    sim_unpoison(b, m);
    s->pos += m;
    s->point();
    return m;
}
size_t r_fill(mpack_reader_t* r, char* b, size_t n) { return deliver((S*)mpack_reader_context(r), b, n); }
void r_skip(mpack_reader_t* r, size_t n) {
    S* s = (S*)mpack_reader_context(r);
    s->point();
    size_t left = s->in.size() - s->pos;
    if (n > left) {
        s->pos = s->in.size();
        mpack_reader_flag_error(r, mpack_error_io);
    } else
        s->pos += n;
}
size_t t_read(mpack_tree_t* t, char* b, size_t n) {
    S* s = (S*)mpack_tree_context(t);
    if (coin(1, 4) && s->pos < s->in.size())
        s->point();
    return deliver(s, b, n);
}

// ------------------------------------------------------------ values
float as_float(uint64_t u) {
    uint32_t b = (uint32_t)u;
    float f;
    memcpy(&f, &b, 4);
    return f;
}
double as_double(uint64_t u) {
    double d;
    memcpy(&d, &u, 8);
    return d;
}
bool same_float(float f, uint64_t u) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return b == (uint32_t)u;
}
bool same_double(double d, uint64_t u) {
    return memcmp(&d, &u, 8) == 0;
}
void gen_ts(Val& v) {
    v = Val();
    v.k = K_EXT;
    v.et = -1;
    static const int64_t secs[] = {0, 1, 0x7fffffff, 0x100000000ll, 0x3ffffffffll, 0x400000000ll, -1, 123456789};
    int64_t sec = secs[draw(8)] + (int64_t)draw(50);
    static const uint32_t nss[] = {0, 0, 1, 999999999, 500000000};
    timestamp_encode(v.data, sec, nss[draw(5)]);
}
void gen_key(Val& v, uint32_t i) {
    v = Val();
    v.k = K_STR;
    static const char* names[] = {"id", "key", "number", "k", "a longer key name than the others have", "value", "keys"};
    const char* n = names[i % 7];
    v.data.assign(n, n + strlen(n));
}
void normalise(Val& v) {
    if (v.k == K_FLOAT && (v.u & 0x7f800000) == 0x7f800000 && (v.u & 0x7fffff))
        v.u = 0x7fc00000;
    if (v.k == K_DOUBLE && (v.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v.u & 0xfffffffffffffull))
        v.u = 0x7ff8000000000000ull;
    if (v.k == K_INT && v.i >= 0) {
        v.k = K_UINT;
        v.u = (uint64_t)v.i;
    }
}
void gen_item(GenCfg& g, Val& v, uint32_t depth) {
    switch (depth ? draw(9) : 7 + draw(2)) {
        default:
            gen_scalar(g, v);
            normalise(v);
            if (v.k == K_EXT && v.et == -1)
                v.et = 5;
            return;
        case 5:
        case 6:
            if (MPACK_EXTENSIONS)
                gen_ts(v);
            else
                v = Val();
            return;
        case 7: {
            v = Val();
            v.k = K_ARR;
            uint32_t n = draw(depth ? 3 : 6);
            v.kids.resize(n);
            for (uint32_t i = 0; i < n; ++i)
                if (depth < 3)
                    gen_item(g, v.kids[i], depth + 1);
            return;
        }
        case 8: {
            v = Val();
            v.k = K_MAP;
            uint32_t n = draw(5), first = draw(7);
            v.kids.resize(2 * n);
            for (uint32_t i = 0; i < n; ++i) {
                gen_key(v.kids[2 * i], first + i);
                if (depth < 3)
                    gen_item(g, v.kids[2 * i + 1], depth + 1);
            }
            return;
        }
    }
}
size_t count_nodes(const Val& v) {
    size_t n = 1;
    for (const Val& k : v.kids)
        n += count_nodes(k);
    return n;
}
void gen(S* s) {
    GenCfg g;
    memset(&g, 0, sizeof(g));
    g.kinds = MPACK_EXTENSIONS ? 0x1ff : 0xff;
    g.budget = 48;
    g.max_depth = 1;
    g.big_bias = draw(3);
    g.cseed = draw(1u << 16);
    for (int i = 0; i < 6; ++i)
        g.interesting[i] = 8 + 6 * (size_t)i;
    gen_item(g, s->v, 0);
    enc_canon(s->enc, s->v);
    // keep it within the fixed buffer and the node pool
    while (s->enc.size() > sizeof(s->fixed) || count_nodes(s->v) > 96) {
        s->v.kids.resize(s->v.kids.size() - (s->v.k == K_MAP ? 2 : 1));
        s->enc.clear();
        enc_canon(s->enc, s->v);
    }
}
bool is_ts(const Val& v, int64_t* sec, uint32_t* ns) {
    return v.k == K_EXT && v.et == -1 && timestamp_decode(v.data, sec, ns);
}
bool cstr_safe(const Val& v) { return ref_no_nul(v.data.data(), v.data.size()); }
bool utf8_safe(const Val& v) { return ref_utf8(v.data.data(), v.data.size()); }
bool same_data(const Val& v, const void* p, size_t n) {
    return n == v.data.size() && (n == 0 || memcmp(p, v.data.data(), n) == 0);
}

// ------------------------------------------------------------ writing
void put(S* s, mpack_writer_t* w, const Val& v) {
    uint32_t n = (uint32_t)v.data.size();
    char* d = (char*)v.data.data();
    static char none[1];
    if (!n)
        d = none;
    if (coin(1, 8) && v.k < K_ARR) {
        mpack_write_object_bytes(w, (const char*)s->enc.data() + v.beg, v.end - v.beg);
        return;
    }
    switch (v.k) {
        case K_NIL: draw(2) ? mpack_write_tag(w, mpack_tag_make_nil()) : mpack_write_nil(w); return;
        case K_BOOL: draw(2) ? mpack_write_tag(w, mpack_tag_make_bool(v.b)) : v.b ? mpack_write_true(w) : mpack_write_false(w); return;
        case K_UINT:
            switch (draw(4)) {
                case 0: mpack_write_uint(w, v.u); return;
                case 1: mpack_write_tag(w, mpack_tag_make_uint(v.u)); return;
                case 2:
                    if (v.u <= INT64_MAX)
                        mpack_write_int(w, (int64_t)v.u);
                    else
                        mpack_write_u64(w, v.u);
                    return;
                default:
                    v.u <= 0xff ? mpack_write_u8(w, (uint8_t)v.u) : v.u <= 0xffff ? mpack_write_u16(w, (uint16_t)v.u) :
                        v.u <= 0xffffffffu ? mpack_write_u32(w, (uint32_t)v.u) : mpack_write_u64(w, v.u);
                    return;
            }
        case K_INT:
            switch (draw(3)) {
                case 0: mpack_write_int(w, v.i); return;
                case 1: mpack_write_tag(w, mpack_tag_make_int(v.i)); return;
                default:
                    v.i >= -128 ? mpack_write_i8(w, (int8_t)v.i) : v.i >= -32768 ? mpack_write_i16(w, (int16_t)v.i) :
                        v.i >= -2147483648ll ? mpack_write_i32(w, (int32_t)v.i) : mpack_write_i64(w, v.i);
                    return;
            }
        case K_FLOAT: draw(2) ? mpack_write_tag(w, mpack_tag_make_float(as_float(v.u))) : mpack_write_float(w, as_float(v.u)); return;
        case K_DOUBLE: draw(2) ? mpack_write_tag(w, mpack_tag_make_double(as_double(v.u))) : mpack_write_double(w, as_double(v.u)); return;
        case K_STR:
            switch (draw(4)) {
                case 0: mpack_write_str(w, d, n); return;
                case 1:
                    if (utf8_safe(v)) {
                        mpack_write_utf8(w, d, n);
                        return;
                    }
                    break;
                case 2:
                    if (cstr_safe(v)) {
                        s->text.assign(d, n);
                        if (utf8_safe(v) && draw(2))
                            mpack_write_utf8_cstr(w, s->text.c_str());
                        else
                            mpack_write_cstr(w, s->text.c_str());
                        return;
                    }
                    break;
                default: break;
            }
            draw(2) ? mpack_write_tag(w, mpack_tag_make_str(n)) : mpack_start_str(w, n);
            break;
        case K_BIN:
            if (draw(2)) {
                mpack_write_bin(w, d, n);
                return;
            }
            mpack_start_bin(w, n);
            break;
        case K_EXT: {
            int64_t sec;
            uint32_t ns;
            if (is_ts(v, &sec, &ns) && draw(4)) {
                mpack_timestamp_t ts = {sec, ns};
                (void)ts;
                draw(2) ? mpack_write_timestamp(w, sec, ns) : mpack_write_timestamp_struct(w, ts);
                return;
            }
            if (draw(2)) {
                mpack_write_ext(w, v.et, d, n);
                return;
            }
            mpack_start_ext(w, v.et, n);
            break;
        }
        case K_ARR:
        case K_MAP: {
            uint32_t count = (uint32_t)(v.k == K_MAP ? v.kids.size() / 2 : v.kids.size());
            bool b = coin(1, 3) && MPACK_BUILDER;
            if (b)
                v.k == K_MAP ? mpack_build_map(w) : mpack_build_array(w);
            else
                v.k == K_MAP ? mpack_start_map(w, count) : mpack_start_array(w, count);
            for (const Val& k : v.kids) {
                put(s, w, k);
                if (mpack_writer_error(w) != mpack_ok)
                    return;
            }
            if (b)
                v.k == K_MAP ? mpack_complete_map(w) : mpack_complete_array(w);
            else
                v.k == K_MAP ? mpack_finish_map(w) : mpack_finish_array(w);
            return;
        }
    }
    for (uint32_t i = 0; i < n;) {
        uint32_t k = 1 + draw(n - i);
        mpack_write_bytes(w, d + i, k);
        i += k;
        if (mpack_writer_error(w) != mpack_ok)
            return;
    }
    v.k == K_STR ? mpack_finish_str(w) : v.k == K_BIN ? mpack_finish_bin(w) : mpack_finish_ext(w);
}
void check_out(S* s, const void* p, size_t n) {
    if (n != s->enc.size() || (n && memcmp(p, s->enc.data(), n)))
        BAD(s, "a session of its own wrote %lu bytes that differ from the %lu expected", (unsigned long)n, (unsigned long)s->enc.size());
}
// A failure must have a reason in this session.
void check_error(S* s, mpack_error_t e, const char* what) {
    bool cut = s->in.size() < s->enc.size();
    if (e == mpack_ok) {
        if (s->err != mpack_ok)
            BAD(s, "a session of its own: the handler was told %s but destroy says ok (%s)", err_name(s->err), what);
        return;
    }
    if (s->err != mpack_ok && s->err != e)
        BAD(s, "a session of its own: the handler was told %s but destroy says %s (%s)", err_name(s->err), err_name(e), what);
    if (e == mpack_error_memory && s->failed() > 0)
        return;
    if ((e == mpack_error_io || e == mpack_error_invalid || e == mpack_error_eof) && cut)
        return;
    BAD(s, "a session of its own failed with %s without a reason (%s)", err_name(e), what);
}
void arm(S* s) {
    s->err = mpack_ok;
    s->jump = coin(1, 3);
    memset(&s->ec, 0, sizeof(s->ec));
}
template <class F> void run(S* s, F&& f) {
    if (s->jump)
        guarded(s->ec, f);
    else
        f();
}
void write_session(S* s) {
    uint32_t how = draw(4);
    s->in = s->enc;
    s->out.clear();
    s->gdata = NULL;
    s->gsize = 0;
    arm(s);
    static const char* const names[] = {"flush", "growable", "fixed", "file"};
    ev("session: %s writer", names[how]);
    sim_stale(&s->w, sizeof(s->w));
    switch (how) {
        case 0: mpack_writer_init(&s->w, s->wbuf, 32 + draw(20)); break;
        case 1: mpack_writer_init_growable(&s->w, &s->gdata, &s->gsize); break;
        case 2: mpack_writer_init(&s->w, s->fixed, sizeof(s->fixed)); break;
        default: mpack_writer_init_filename(&s->w, s->path); break;
    }
    if (how != 3) {
        mpack_writer_set_context(&s->w, s);
        mpack_writer_set_error_handler(&s->w, w_error);
        if (how == 0 && mpack_writer_error(&s->w) == mpack_ok)
            mpack_writer_set_flush(&s->w, w_flush);
    } else
        s->jump = false;
    run(s, [=] { put(s, &s->w, s->v); });
    size_t used = how == 2 ? mpack_writer_buffer_used(&s->w) : 0;
    mpack_error_t e = mpack_ok;
    if (s->jump && !guarded(s->ec, [&] { e = mpack_writer_destroy(&s->w); })) // an error while destroying
        e = s->err;
    else if (!s->jump)
        e = mpack_writer_destroy(&s->w);
    check_error(s, e, names[how]);
    s->point();
    if (e != mpack_ok) {
        if (how == 1)
            WANT(s, s->gdata == NULL, "a growable writer that failed");
        return;
    }
    switch (how) {
        case 0: check_out(s, s->out.data(), s->out.size()); break;
        case 1:
            check_out(s, s->gdata, s->gsize);
            sim_free(s->gdata);
            break;
        case 2: check_out(s, s->fixed, used); break;
        default: {
            SimFile* f = fs_file(s->path, false);
            WANT(s, f != NULL, "a file writer");
            check_out(s, f->data.data(), f->data.size());
        }
    }
}

// ------------------------------------------------------------ reading
#define OK(r) (mpack_reader_error(r) == mpack_ok)
#define TRY(r) do { if (!OK(r)) return false; } while (0)
bool get_payload(S* s, mpack_reader_t* r, const Val& v) { // after the tag
    uint32_t n = (uint32_t)v.data.size();
    char b[128];
    int64_t sec;
    uint32_t ns;
    uint32_t how = draw(6);
    if (is_ts(v, &sec, &ns) && draw(4)) {
        mpack_timestamp_t t = mpack_read_timestamp(r, n);
        TRY(r);
        WANT(s, t.seconds == sec && t.nanoseconds == ns, "mpack_read_timestamp");
        return true; // it closes the element as well
    } else if (how == 0 && n <= s->bufsize) {
        const char* p = v.k == K_STR && utf8_safe(v) ? mpack_read_utf8_inplace(r, n) : mpack_read_bytes_inplace(r, n);
        TRY(r);
        WANT(s, same_data(v, p, n), "mpack_read_bytes_inplace");
    } else if (how == 1) {
        char* p = mpack_read_bytes_alloc(r, n);
        TRY(r);
        s->heap = p;
        s->point();
        WANT(s, same_data(v, p, n), "mpack_read_bytes_alloc");
        s->heap = NULL;
        sim_free(p);
    } else if (how == 2 && v.k == K_STR && cstr_safe(v) && n < sizeof(b)) {
        utf8_safe(v) && draw(2) ? mpack_read_utf8_cstr(r, b, n + 1, n) : mpack_read_cstr(r, b, n + 1, n);
        TRY(r);
        WANT(s, same_data(v, b, strlen(b)), "mpack_read_cstr");
    } else if (how == 3) {
        mpack_skip_bytes(r, n);
        TRY(r);
    } else {
        for (uint32_t i = 0; i < n;) {
            uint32_t k = how == 4 ? n : 1 + draw(n - i);
            if (k > sizeof(b))
                k = sizeof(b);
            if (how == 4 && k == n && v.k == K_STR && utf8_safe(v))
                mpack_read_utf8(r, b, k);
            else
                mpack_read_bytes(r, b, k);
            TRY(r);
            WANT(s, memcmp(b, v.data.data() + i, k) == 0, "mpack_read_bytes");
            i += k;
        }
    }
    v.k == K_STR ? mpack_done_str(r) : v.k == K_BIN ? mpack_done_bin(r) : mpack_done_ext(r);
    return OK(r);
}
bool get(S* s, mpack_reader_t* r, const Val& v);
bool get_kids(S* s, mpack_reader_t* r, const Val& v) {
    for (const Val& k : v.kids) {
        if (!get(s, r, k))
            return false;
    }
    v.k == K_ARR ? mpack_done_array(r) : mpack_done_map(r);
    return OK(r);
}
mpack_tag_t tag_of(const Val& v) {
    uint32_t n = (uint32_t)v.data.size();
    switch (v.k) {
        case K_NIL: return mpack_tag_make_nil();
        case K_BOOL: return mpack_tag_make_bool(v.b);
        case K_UINT: return mpack_tag_make_uint(v.u);
        case K_INT: return mpack_tag_make_int(v.i);
        case K_FLOAT: return mpack_tag_make_float(as_float(v.u));
        case K_DOUBLE: return mpack_tag_make_double(as_double(v.u));
        case K_STR: return mpack_tag_make_str(n);
        case K_BIN: return mpack_tag_make_bin(n);
        case K_EXT: return mpack_tag_make_ext(v.et, n);
        case K_ARR: return mpack_tag_make_array((uint32_t)v.kids.size());
        default: return mpack_tag_make_map((uint32_t)v.kids.size() / 2);
    }
}
bool get_tag(S* s, mpack_reader_t* r, const Val& v) {
    mpack_tag_t p = mpack_tag_make_nil();
    bool peek = coin(1, 3);
    if (peek)
        p = mpack_peek_tag(r);
    TRY(r);
    mpack_tag_t t = mpack_read_tag(r);
    TRY(r);
    bool nan = (v.k == K_FLOAT && v.u == 0x7fc00000) || (v.k == K_DOUBLE && v.u == 0x7ff8000000000000ull);
    if (!nan) {
        WANT(s, mpack_tag_equal(t, tag_of(v)), "mpack_read_tag");
        WANT(s, !peek || mpack_tag_equal(t, p), "mpack_peek_tag");
    }
    if (v.k == K_FLOAT)
        WANT(s, same_float(mpack_tag_float_value(&t), v.u), "mpack_tag_float_value");
    if (v.k == K_DOUBLE)
        WANT(s, same_double(mpack_tag_double_value(&t), v.u), "mpack_tag_double_value");
    if (v.k < K_STR)
        return true;
    return v.k >= K_ARR ? get_kids(s, r, v) : get_payload(s, r, v);
}
bool get_expect(S* s, mpack_reader_t* r, const Val& v) {
    uint32_t n = (uint32_t)v.data.size();
    char b[128];
    switch (v.k) {
        case K_NIL: mpack_expect_nil(r); return OK(r);
        case K_BOOL: {
            if (draw(2)) {
                v.b ? mpack_expect_true(r) : mpack_expect_false(r);
                return OK(r);
            }
            bool x = mpack_expect_bool(r);
            TRY(r);
            WANT(s, x == v.b, "mpack_expect_bool");
            return true;
        }
        case K_UINT:
        case K_INT: {
            if (v.k == K_UINT && draw(2)) {
                uint64_t x = v.u <= 0xff && draw(2) ? mpack_expect_u8(r) : v.u <= 0xffff && draw(2) ? mpack_expect_u16(r) :
                    v.u <= 0xffffffffu && draw(2) ? mpack_expect_u32_max(r, (uint32_t)v.u) : draw(2) ? mpack_expect_u64(r) : mpack_expect_u64_range(r, v.u, v.u);
                TRY(r);
                WANT(s, x == v.u, "mpack_expect_u64");
                return true;
            }
            if (v.k == K_UINT && v.u > INT64_MAX) {
                mpack_expect_uint_match(r, v.u);
                return OK(r);
            }
            int64_t i = v.k == K_INT ? v.i : (int64_t)v.u;
            int64_t x = i == (int8_t)i && draw(2) ? mpack_expect_i8(r) : i == (int16_t)i && draw(2) ? mpack_expect_i16(r) :
                i == (int32_t)i && draw(2) ? mpack_expect_i32(r) : draw(2) ? mpack_expect_i64(r) : mpack_expect_i64_range(r, i, i);
            TRY(r);
            WANT(s, x == i, "mpack_expect_i64");
            return true;
        }
        case K_FLOAT: {
            if (draw(2)) {
                float f = mpack_expect_float_strict(r);
                TRY(r);
                WANT(s, same_float(f, v.u), "mpack_expect_float_strict");
            } else {
                float f = mpack_expect_float(r);
                TRY(r);
                WANT(s, same_float(f, v.u), "mpack_expect_float");
            }
            return true;
        }
        case K_DOUBLE: {
            double d = draw(2) ? mpack_expect_double_strict(r) : mpack_expect_double(r);
            TRY(r);
            WANT(s, same_double(d, v.u), "mpack_expect_double");
            return true;
        }
        case K_STR: {
            uint32_t how = draw(7);
            bool cs = cstr_safe(v), us = utf8_safe(v);
            if (how == 0 && cs && n < sizeof(b)) {
                us && draw(2) ? mpack_expect_utf8_cstr(r, b, sizeof(b)) : mpack_expect_cstr(r, b, sizeof(b));
                TRY(r);
                WANT(s, same_data(v, b, strlen(b)), "mpack_expect_cstr");
                return true;
            }
            if (how == 1 && cs) {
                char* p = us && draw(2) ? mpack_expect_utf8_cstr_alloc(r, 200) : mpack_expect_cstr_alloc(r, 200);
                TRY(r);
                s->point();
                WANT(s, same_data(v, p, strlen(p)), "mpack_expect_cstr_alloc");
                sim_free(p);
                return true;
            }
            if (how == 2 && n <= sizeof(b)) {
                size_t k = us && draw(2) ? mpack_expect_utf8(r, b, sizeof(b)) : mpack_expect_str_buf(r, b, sizeof(b));
                TRY(r);
                WANT(s, same_data(v, b, k), "mpack_expect_str_buf");
                return true;
            }
            if (how == 3) {
                mpack_expect_str_match(r, n ? (const char*)v.data.data() : "", n);
                return OK(r);
            }
            if (how == 4 && cs && n <= s->bufsize) {
                std::string& t = s->text;
                t.assign((const char*)v.data.data(), n);
                const char* keys[] = {"nothing", t.c_str(), "value\x01"};
                size_t k = mpack_expect_enum(r, keys, 3);
                TRY(r);
                WANT(s, k == 1 || t == "nothing", "mpack_expect_enum");
                return true;
            }
            uint32_t k = n;
            if (draw(2))
                k = mpack_expect_str_max(r, n);
            else
                mpack_expect_str_length(r, n);
            TRY(r);
            WANT(s, k == n, "mpack_expect_str_max");
            return get_payload(s, r, v);
        }
        case K_BIN: {
            uint32_t how = draw(4);
            if (how == 0 && n <= sizeof(b)) {
                size_t k = mpack_expect_bin_buf(r, b, sizeof(b));
                TRY(r);
                WANT(s, same_data(v, b, k), "mpack_expect_bin_buf");
                return true;
            }
            if (how == 1) {
                size_t k = 999;
                char* p = mpack_expect_bin_alloc(r, 200, &k);
                TRY(r);
                s->point();
                WANT(s, same_data(v, p, k), "mpack_expect_bin_alloc");
                sim_free(p);
                return true;
            }
            uint32_t k = draw(2) ? mpack_expect_bin(r) : mpack_expect_bin_max(r, n);
            TRY(r);
            WANT(s, k == n, "mpack_expect_bin");
            return get_payload(s, r, v);
        }
        case K_EXT: {
            int64_t sec;
            uint32_t ns;
            if (is_ts(v, &sec, &ns)) { // mpack_expect_ext() and so on do not take timestamps
                if (draw(3)) {
                    mpack_timestamp_t t = mpack_expect_timestamp(r);
                    TRY(r);
                    WANT(s, t.seconds == sec && t.nanoseconds == ns, "mpack_expect_timestamp");
                } else {
                    int64_t t = mpack_expect_timestamp_truncate(r);
                    TRY(r);
                    WANT(s, t == sec, "mpack_expect_timestamp_truncate");
                }
                return true;
            }
            int8_t et = 99;
            uint32_t how = draw(3);
            if (how == 0 && n <= sizeof(b)) {
                size_t k = mpack_expect_ext_buf(r, &et, b, sizeof(b));
                TRY(r);
                WANT(s, et == v.et && same_data(v, b, k), "mpack_expect_ext_buf");
                return true;
            }
            if (how == 1) {
                size_t k = 999;
                char* p = mpack_expect_ext_alloc(r, &et, 200, &k);
                TRY(r);
                s->point();
                WANT(s, et == v.et && same_data(v, p, k), "mpack_expect_ext_alloc");
                sim_free(p);
                return true;
            }
            uint32_t k = mpack_expect_ext(r, &et);
            TRY(r);
            WANT(s, k == n && et == v.et, "mpack_expect_ext");
            return get_payload(s, r, v);
        }
        case K_ARR: {
            uint32_t c = (uint32_t)v.kids.size(), k = c;
            switch (draw(3)) {
                case 0: mpack_expect_array_match(r, c); break;
                case 1: k = mpack_expect_array_max(r, 100); break;
                default: k = mpack_expect_array(r); break;
            }
            TRY(r);
            WANT(s, k == c, "mpack_expect_array");
            return get_kids(s, r, v);
        }
        default: {
            uint32_t c = (uint32_t)v.kids.size() / 2, k = c;
            switch (draw(3)) {
                case 0: mpack_expect_map_match(r, c); break;
                case 1: k = mpack_expect_map_range(r, 0, 100); break;
                default: k = mpack_expect_map(r); break;
            }
            TRY(r);
            WANT(s, k == c, "mpack_expect_map");
            bool fit = true; // keys are read in place
            for (uint32_t i = 0; i < c; ++i)
                fit = fit && v.kids[2 * i].data.size() <= s->bufsize;
            if (c == 0 || !fit || draw(2))
                return get_kids(s, r, v);
            // by keys
            std::string names[8];
            const char* keys[8];
            bool found[8];
            memset(found, 0, sizeof(found));
            for (uint32_t i = 0; i < c; ++i) {
                names[i].assign((const char*)v.kids[2 * i].data.data(), v.kids[2 * i].data.size());
                keys[c - 1 - i] = names[i].c_str();
            }
            for (uint32_t i = 0; i < c; ++i) {
                size_t at = mpack_expect_key_cstr(r, keys, found, c);
                TRY(r);
                WANT(s, at == c - 1 - i && found[at], "mpack_expect_key_cstr");
                if (!get(s, r, v.kids[2 * i + 1]))
                    return false;
            }
            mpack_done_map(r);
            return OK(r);
        }
    }
}
bool get(S* s, mpack_reader_t* r, const Val& v) {
    if (coin(1, 12)) {
        mpack_discard(r);
        return OK(r);
    }
    return draw(2) ? get_tag(s, r, v) : get_expect(s, r, v);
}
void cut_input(S* s) {
    s->in = s->enc;
    if (s->enc.size() > 1 && coin(1, 4)) {
        s->in.resize(draw((uint32_t)s->enc.size()));
        HIT("probe:session-truncated");
    }
    s->pos = 0;
}
void drop_heap(S* s) {
    if (s->heap) {
        sim_free(s->heap);
        s->heap = NULL;
    }
}
void read_session(S* s) {
    uint32_t how = draw(4);
    static const char* const names[] = {"stream reader", "stream reader with skip", "data reader", "file reader"};
    ev("session: %s", names[how]);
    cut_input(s);
    arm(s);
    s->heap = NULL;
    s->bufsize = 32 + draw(40);
    sim_stale(&s->r, sizeof(s->r));
    if (how < 2)
        mpack_reader_init(&s->r, s->buf, s->bufsize, 0);
    else if (how == 2)
        mpack_reader_init_data(&s->r, (const char*)s->in.data(), s->in.size());
    else {
        fs_file(s->path, true)->data = s->in;
        mpack_reader_init_filename(&s->r, s->path);
        s->bufsize = MPACK_BUFFER_SIZE;
        s->jump = false;
    }
    if (how != 3) {
        mpack_reader_set_context(&s->r, s);
        mpack_reader_set_error_handler(&s->r, r_error);
        if (how < 2 && OK(&s->r)) {
            mpack_reader_set_fill(&s->r, r_fill);
            if (how == 1)
                mpack_reader_set_skip(&s->r, r_skip);
        }
    }
    bool got = false;
    run(s, [&] { got = get(s, &s->r, s->v); });
    drop_heap(s);
    mpack_error_t e = mpack_ok;
    if (!s->jump)
        e = mpack_reader_destroy(&s->r);
    else if (!guarded(s->ec, [&] { e = mpack_reader_destroy(&s->r); }))
        e = s->err;
    if (e == mpack_ok)
        WANT(s, got && s->in.size() == s->enc.size(), "a reader of truncated data");
    check_error(s, e, names[how]);
}

// ------------------------------------------------------------ trees
#define NOK(n) (mpack_node_error(n) == mpack_ok)
#define NTRY(n) do { if (!NOK(n)) return false; } while (0)
bool from_node(S* s, mpack_node_t x, const Val& v) {
    uint32_t n = (uint32_t)v.data.size();
    char b[128];
    static const mpack_type_t types[] = {mpack_type_nil, mpack_type_bool, mpack_type_uint, mpack_type_int, mpack_type_float,
        mpack_type_double, mpack_type_str, mpack_type_bin, mpack_type_ext, mpack_type_array, mpack_type_map};
    WANT(s, mpack_node_type(x) == types[v.k], "mpack_node_type");
    switch (v.k) {
        case K_NIL: mpack_node_nil(x); return NOK(x);
        case K_BOOL: WANT(s, mpack_node_bool(x) == v.b, "mpack_node_bool"); return true;
        case K_UINT: WANT(s, mpack_node_u64(x) == v.u, "mpack_node_u64"); return true;
        case K_INT: WANT(s, mpack_node_i64(x) == v.i, "mpack_node_i64"); return true;
        case K_FLOAT: WANT(s, same_float(mpack_node_float(x), v.u), "mpack_node_float"); return true;
        case K_DOUBLE: WANT(s, same_double(mpack_node_double(x), v.u), "mpack_node_double"); return true;
        case K_STR:
            if (draw(2) && cstr_safe(v)) {
                char* p = utf8_safe(v) && draw(2) ? mpack_node_utf8_cstr_alloc(x, 200) : mpack_node_cstr_alloc(x, 200);
                NTRY(x);
                s->heap = p;
                s->point();
                WANT(s, same_data(v, p, strlen(p)), "mpack_node_cstr_alloc");
                s->heap = NULL;
                sim_free(p);
                return true;
            }
            break;
        case K_BIN: break;
        case K_EXT: {
            int64_t sec;
            uint32_t ns;
            if (is_ts(v, &sec, &ns)) {
                mpack_timestamp_t t = mpack_node_timestamp(x);
                NTRY(x);
                WANT(s, t.seconds == sec && t.nanoseconds == ns, "mpack_node_timestamp");
            }
            WANT(s, mpack_node_exttype(x) == v.et, "mpack_node_exttype");
            break;
        }
        case K_ARR: {
            WANT(s, mpack_node_array_length(x) == v.kids.size(), "mpack_node_array_length");
            for (size_t i = 0; i < v.kids.size(); ++i)
                if (!from_node(s, mpack_node_array_at(x, i), v.kids[i]))
                    return false;
            return true;
        }
        case K_MAP: {
            WANT(s, mpack_node_map_count(x) == v.kids.size() / 2, "mpack_node_map_count");
            for (size_t i = 0; i < v.kids.size(); i += 2) {
                const Val& k = v.kids[i];
                mpack_node_t c = draw(2) ? mpack_node_map_str(x, (const char*)k.data.data(), k.data.size()) : mpack_node_map_value_at(x, i / 2);
                NTRY(x);
                if (!from_node(s, c, v.kids[i + 1]))
                    return false;
                if (!from_node(s, mpack_node_map_key_at(x, i / 2), k))
                    return false;
            }
            if (draw(2))
                WANT(s, !mpack_node_map_contains_cstr(x, "absent"), "mpack_node_map_contains_cstr");
            return true;
        }
    }
    switch (draw(3)) {
        case 0: WANT(s, same_data(v, mpack_node_data(x), mpack_node_data_len(x)), "mpack_node_data"); return true;
        case 1: {
            if (n > sizeof(b))
                return true;
            size_t k = mpack_node_copy_data(x, b, sizeof(b));
            NTRY(x);
            WANT(s, same_data(v, b, k), "mpack_node_copy_data");
            return true;
        }
        default: {
            char* p = mpack_node_data_alloc(x, 200);
            NTRY(x);
            s->heap = p;
            s->point();
            WANT(s, same_data(v, p, n), "mpack_node_data_alloc");
            s->heap = NULL;
            sim_free(p);
            return true;
        }
    }
}
void tree_session(S* s) {
    uint32_t how = draw(4);
    static const char* const names[] = {"data tree", "pool tree", "stream tree", "file tree"};
    ev("session: %s", names[how]);
    cut_input(s);
    arm(s);
    s->heap = NULL;
    sim_stale(&s->t, sizeof(s->t));
    switch (how) {
        case 0: mpack_tree_init_data(&s->t, (const char*)s->in.data(), s->in.size()); break;
        case 1: mpack_tree_init_pool(&s->t, (const char*)s->in.data(), s->in.size(), s->pool, 96); break;
        case 2: mpack_tree_init_stream(&s->t, t_read, s, 1u << 16, 1000); break;
        default:
            fs_file(s->path, true)->data = s->in;
            mpack_tree_init_filename(&s->t, s->path, 0);
            break;
    }
    if (how < 2)
        mpack_tree_set_context(&s->t, s);
    if (how < 3)
        mpack_tree_set_error_handler(&s->t, t_error);
    else
        s->jump = false;
    bool try_parse = how == 2 && draw(2) && s->in.size() == s->enc.size();
    run(s, [=] {
        if (try_parse) {
            while (!mpack_tree_try_parse(&s->t) && mpack_tree_error(&s->t) == mpack_ok)
                s->point();
        } else
            mpack_tree_parse(&s->t);
        if (mpack_tree_error(&s->t) == mpack_ok) {
            WANT(s, s->in.size() == s->enc.size(), "a tree of truncated data");
            if (how != 2)
                WANT(s, mpack_tree_size(&s->t) == s->enc.size(), "mpack_tree_size");
            from_node(s, mpack_tree_root(&s->t), s->v);
        }
    });
    drop_heap(s);
    mpack_error_t e = mpack_tree_destroy(&s->t);
    check_error(s, e, names[how]);
}
#if MPACK_DEBUG
// the text of this JSON-like printer is decided by D01; here only that it is
// complete although others print in between
void printed(void* ctx, const char* d, size_t n) {
    S* s = (S*)ctx;
    s->point();
    s->text.append(d, n);
}
void print_session(S* s) {
    static const char msg[] = {(char)0x93, 1, (char)0xa1, 'x', (char)0xc0, 2, 3, 4};
    ev("session: print");
    // complete, with bytes left over, or cut
    static const struct { size_t n; const char* text; } what[] = {
        {5, "[\n    1,\n    \"x\",\n    null\n]"},
        {8, "[\n    1,\n    \"x\",\n    null\n]\n<3 extra bytes at end of message>"},
        {4, "[\n    1,\n    \"x\",\n    \n<mpack parsing error mpack_error_invalid>"},
    };
    uint32_t k = draw(3);
    if (draw(2)) {
        s->text.clear();
        mpack_print_data_to_callback(msg, what[k].n, printed, s);
    } else {
        char b[128];
        mpack_print_data_to_buffer(msg, what[k].n, b, sizeof(b));
        s->text = b;
    }
    WANT(s, s->failed() || s->text == what[k].text, "printing");
}
#endif
}

void session_run(const char* cls, const char* path, uint64_t (*failed)(), void (*point)()) {
    S* s = new Session();
    live.insert(s);
    HIT("probe:session");
    s->cls = cls;
    s->path = path;
    s->failed = failed;
    s->point = point;
    gen(s);
    switch (draw(MPACK_DEBUG ? 8 : 7)) {
        case 0:
        case 1: write_session(s); break;
        case 2:
        case 3:
        case 4: read_session(s); break;
        case 5:
        case 6: tree_session(s); break;
#if MPACK_DEBUG
        default: print_session(s); break;
#endif
    }
    live.erase(s);
    delete s;
}
void session_cleanup() {
    for (Session* s : live)
        delete s;
    live.clear();
}

// ------------------------------------------------------------ nesting
static uint32_t nest_depth, nest_budget, nest_rate;
static uint64_t nest_failed_base[4];
static uint64_t nest_failed() { return g_alloc.failed - nest_failed_base[nest_depth]; }

static void nest_point() {
    if (!nest_budget || nest_depth >= 2 || !coin(1, nest_depth ? 12 : nest_rate))
        return;
    --nest_budget;
    ++nest_depth;
    HIT("probe:nested-session");
    ++g_nontrivial;
    AllocCtl a = g_alloc;
    FileCtl f = g_fs;
    uint64_t fired = g_fault_fired;
    int saved_errno = errno;
    size_t files = fs_open_count();
    memset(&g_fs, 0, sizeof(g_fs));
    g_fs.read_err_at = g_fs.write_err_at = -1;
    g_alloc.armed = coin(1, 4);
    g_alloc.fail_after = g_alloc.fail_count = 0;
    g_alloc.fail_rate = 12;
    g_alloc.cap = 64u << 20;
    nest_failed_base[nest_depth] = g_alloc.failed;
    ev("nested session {");
    session_run("nest.session", nest_depth == 1 ? "nested1.mp" : "nested2.mp", nest_failed, nest_point);
    ev("}");
    CHECK(g_alloc.live == a.live && g_alloc.live_bytes == a.live_bytes, "nest.leak", "a session of its own left %ld allocation(s) behind", (long)(g_alloc.live - a.live));
    CHECK(fs_open_count() == files, "nest.leak", "a session of its own left a file open");
    g_alloc = a;
    g_fs = f;
    g_fault_fired = fired;
    errno = saved_errno;
    --nest_depth;
}
void nest_reset(bool on) {
    session_cleanup();
    nest_depth = 0;
    nest_budget = 0;
    g_nest = NULL;
    if (!on)
        return;
    g_nest = nest_point;
    nest_budget = 1 + draw(8);
    static const uint32_t rates[] = {12, 4, 2, 40};
    nest_rate = rates[draw(4)];
}
#else
void session_run(const char*, const char*, uint64_t (*)(), void (*)()) {}
void session_cleanup() {}
void nest_reset(bool) {}
#endif
