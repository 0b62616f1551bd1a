// Whole-system engine: several simulated processes run the real library side
// by side in cooperative tasks, talking over simulated connections and a
// simulated disk. The scheduler switches tasks inside every callback and
// allocation of the library. See DESIGN.md.
#include "tasks.h"
#include <memory>

// ------------------------------------------------------------ values
static uint32_t kinds_mask() {
#if MPACK_EXTENSIONS
    return 0x7ff;
#else
    return 0x7ff & ~(1u << K_EXT);
#endif
}
static void normalise(Val& v) {
    if (v.k == K_FLOAT && (v.u & 0x7f800000) == 0x7f800000 && (v.u & 0x7fffff))
        v.u = 0x7fc00000; // NaN payloads are outside the scope here
    if (v.k == K_DOUBLE && (v.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v.u & 0xfffffffffffffull))
        v.u = 0x7ff8000000000000ull;
    for (Val& k : v.kids)
        normalise(k);
}
static GenCfg G;
static void gen_payload(Val& v) {
    v = Val();
    GenCfg g = G;
    g.next_content = G.next_content;
    gen_val(g, v, 0);
    G.next_content = g.next_content + 1000;
    normalise(v);
}
static void gen_init(bool small) {
    gen_cfg_draw(G);
    G.kinds &= kinds_mask();
    if (!(G.kinds & 0x1ff))
        G.kinds |= 1;
    if (small && G.budget > 900)
        G.budget = 300;
    if (G.budget > 5000)
        G.budget = 5000;
    if (G.max_depth > 12)
        G.max_depth = 12;
    for (int i = 0; i < 6; ++i)
        G.interesting[i] = 20 + 16 * (size_t)i;
}

// ------------------------------------------------------------ endpoints
enum SMode { S_PERSIST, S_PERMSG, S_GROW, S_FIXED, S_N };
enum RMode { R_READER, R_TREE, R_TRY, R_EXPECT, R_N };
static const char* const smode_name[] = {"persistent", "per-message", "growable", "fixed"};
static const char* const rmode_name[] = {"reader", "tree", "try-parse", "expect"};

// One end of a connection as a task uses it. Everything with a destructor
// lives here and not on task stacks, which are abandoned by a crash.
struct Conn {
    const char* name;
    Pipe* in;
    Pipe* out;
    SMode smode;
    RMode rmode;
    bool jump;               // error handlers jump out
    bool src_failed;         // the end of the connection has been reported
    bool use_skip, build, w_open, r_open, t_open, blocked_early;
    uint32_t skip_payload;
    ErrCtl ec;
    mpack_error_t werr, rerr; // first error of the sending / receiving side
    mpack_writer_t w;
    mpack_reader_t r;
    mpack_tree_t t;
    char wbuf[320], rbuf[320];
    size_t wsize, rsize;
    char* gdata;
    size_t gsize;
    bytes_t fixed;
    uint32_t teardowns_w, teardowns_r, teardowns_t;
    uint64_t sent_msgs, got_msgs;
    Val cur;                 // last received value
    Conn() { memset(&ec, 0, sizeof(ec)); }
};
static std::vector<Conn*> conns;
static std::vector<Pipe*> pipes;

static void conn_jump(Conn* c) {
    if (c->jump && c->ec.armed)
        longjmp(c->ec.jb, 1);
}
static void w_error(mpack_writer_t* w, mpack_error_t e) {
    Conn* c = (Conn*)mpack_writer_context(w);
    CHECK(w == &c->w, "err.handler-arg", "%s: error handler called with a wrong writer", c->name);
    ev("%s: writer error %s", c->name, err_name(e));
    CHECK(c->werr == mpack_ok, "err.twice", "%s: second writer error", c->name);
    c->werr = e;
    yield_point();
    conn_jump(c);
}
static void r_error(mpack_reader_t* r, mpack_error_t e) {
    Conn* c = (Conn*)mpack_reader_context(r);
    CHECK(r == &c->r, "err.handler-arg", "%s: error handler called with a wrong reader", c->name);
    ev("%s: reader error %s", c->name, err_name(e));
    CHECK(c->rerr == mpack_ok, "err.twice", "%s: second reader error", c->name);
    c->rerr = e;
    yield_point();
    conn_jump(c);
}
static void t_error(mpack_tree_t* t, mpack_error_t e) {
    Conn* c = (Conn*)mpack_tree_context(t);
    CHECK(t == &c->t, "err.handler-arg", "%s: error handler called with a wrong tree", c->name);
    ev("%s: tree error %s", c->name, err_name(e));
    CHECK(c->rerr == mpack_ok, "err.twice", "%s: second tree error", c->name);
    c->rerr = e;
    yield_point();
    conn_jump(c);
}
static void w_flush(mpack_writer_t* w, const char* data, size_t n) {
    Conn* c = (Conn*)mpack_writer_context(w);
    CHECK(w == &c->w, "flush.arg", "%s: flush called with a wrong writer", c->name);
    CHECK(mpack_writer_error(w) == mpack_ok, "flush.after-error", "%s: flush called on a writer in error", c->name);
    if (!pipe_send(*c->out, data, n))
        mpack_writer_flag_error(w, mpack_error_io);
    yield_point();
}
// The end of a connection is reported in any of the allowed ways.
static size_t source_result(Conn* c, size_t k) {
    if (k)
        return k;
    c->src_failed = true;
    return coin(1, 2) ? (size_t)-1 : 0;
}
static size_t r_fill(mpack_reader_t* r, char* buf, size_t n) {
    Conn* c = (Conn*)mpack_reader_context(r);
    CHECK(r == &c->r, "fill.arg", "%s: fill called with a wrong reader", c->name);
    CHECK(mpack_reader_error(r) == mpack_ok, "fill.after-error", "%s: fill called on a reader in error", c->name);
    CHECK(!c->src_failed, "fill.after-failure", "%s: fill called again although the connection has ended", c->name);
    return source_result(c, pipe_recv(*c->in, buf, n, true));
}
static void r_skip(mpack_reader_t* r, size_t n) {
    Conn* c = (Conn*)mpack_reader_context(r);
    CHECK(r == &c->r, "fill.arg", "%s: skip called with a wrong reader", c->name);
    char b[64];
    HIT("probe:net-skip");
    while (n) {
        size_t k = pipe_recv(*c->in, b, n < sizeof(b) ? n : sizeof(b), true);
        if (!k) {
            mpack_reader_flag_error(r, mpack_error_io);
            return;
        }
        n -= k;
    }
}
static size_t t_read(mpack_tree_t* t, char* buf, size_t n) {
    Conn* c = (Conn*)mpack_tree_context(t);
    CHECK(t == &c->t, "fill.arg", "%s: read called with a wrong tree", c->name);
    CHECK(mpack_tree_error(t) == mpack_ok, "fill.after-error", "%s: read called on a tree in error", c->name);
    CHECK(!c->src_failed, "fill.after-failure", "%s: read called again although the connection has ended", c->name);
    size_t k = pipe_recv(*c->in, buf, n, c->rmode == R_TREE);
    return c->rmode == R_TREE ? source_result(c, k) : k;
}
static void w_teardown(mpack_writer_t* w) {
    Conn* c = (Conn*)mpack_writer_context(w);
    CHECK(w == &c->w && ++c->teardowns_w == 1, "teardown.twice", "%s: writer teardown called twice or for another writer", c->name);
    yield_point();
}
static void r_teardown(mpack_reader_t* r) {
    Conn* c = (Conn*)mpack_reader_context(r);
    CHECK(r == &c->r && ++c->teardowns_r == 1, "teardown.twice", "%s: reader teardown called twice or for another reader", c->name);
    yield_point();
}
static void t_teardown(mpack_tree_t* t) {
    Conn* c = (Conn*)mpack_tree_context(t);
    CHECK(t == &c->t && ++c->teardowns_t == 1, "teardown.twice", "%s: tree teardown called twice or for another tree", c->name);
    yield_point();
}

template <class F> static bool conn_guard(Conn* c, F&& f) {
    if (!c->jump) {
        f();
        return true;
    }
    return guarded(c->ec, f);
}

static Conn* conn_new(const char* name, Pipe* in, Pipe* out) {
    Conn* c = new Conn();
    conns.push_back(c);
    c->name = name;
    c->in = in;
    c->out = out;
    c->smode = (SMode)draw(S_N);
    c->rmode = (RMode)draw(R_N);
    c->jump = draw(3) == 2;
    c->use_skip = draw(2);
    c->build = draw(3) == 2;
    c->w_open = c->r_open = c->t_open = c->blocked_early = false;
    c->werr = c->rerr = mpack_ok;
    c->wsize = 32 + (coin(1, 2) ? draw(20) : draw(280));
    c->rsize = 32 + (coin(1, 2) ? draw(20) : draw(280));
    c->gdata = NULL;
    c->gsize = 0;
    c->src_failed = false;
    c->teardowns_w = c->teardowns_r = c->teardowns_t = 0;
    c->sent_msgs = c->got_msgs = 0;
    return c;
}

static void open_writer(Conn* c) {
    c->teardowns_w = 0;
    sim_stale(&c->w, sizeof(c->w));
    mpack_writer_init(&c->w, c->wbuf, c->wsize);
    mpack_writer_set_context(&c->w, c);
    if (mpack_writer_error(&c->w) == mpack_ok)
        mpack_writer_set_flush(&c->w, w_flush);
    mpack_writer_set_teardown(&c->w, w_teardown);
    mpack_writer_set_error_handler(&c->w, w_error);
    c->w_open = true;
    c->werr = mpack_writer_error(&c->w); // tracking may run out of memory before there is a handler
}
static bool close_writer(Conn* c) {
    mpack_error_t e = mpack_ok;
    c->w_open = false;
    bool done = conn_guard(c, [&] { e = mpack_writer_destroy(&c->w); });
    if (!done) // jumped out of destroy
        done = conn_guard(c, [&] { e = mpack_writer_destroy(&c->w); });
    if (done)
        CHECK(e == c->werr, "err.destroy-result", "%s: destroy returned %s, the handler was told %s", c->name, err_name(e), err_name(c->werr));
    CHECK(c->teardowns_w == 1, "teardown.count", "%s: writer teardown called %u times", c->name, c->teardowns_w);
    return c->werr == mpack_ok;
}

// ------------------------------------------------------------ sending
static void put(mpack_writer_t* w, const Val& v, bool build) {
    uint32_t n = (uint32_t)v.data.size();
    const char* d = n ? (const char*)v.data.data() : "";
    switch (v.k) {
        case K_NIL: mpack_write_nil(w); break;
        case K_BOOL: mpack_write_bool(w, v.b); break;
        case K_UINT: mpack_write_uint(w, v.u); break;
        case K_INT: mpack_write_int(w, v.i); break;
        case K_FLOAT: {
#if MPACK_FLOAT
            uint32_t b = (uint32_t)v.u;
            float f;
            memcpy(&f, &b, 4);
            mpack_write_float(w, f);
#else
            mpack_write_raw_float(w, (uint32_t)v.u);
#endif
            break;
        }
        case K_DOUBLE: {
#if MPACK_DOUBLE
            double d2;
            memcpy(&d2, &v.u, 8);
            mpack_write_double(w, d2);
#else
            mpack_write_raw_double(w, v.u);
#endif
            break;
        }
        case K_STR:
        case K_BIN:
        case K_EXT:
            if (draw(3) != 2) {
                if (v.k == K_STR)
                    mpack_write_str(w, d, n);
                else if (v.k == K_BIN)
                    mpack_write_bin(w, d, n);
#if MPACK_EXTENSIONS
                else
                    mpack_write_ext(w, v.et, d, n);
#endif
            } else {
                if (v.k == K_STR)
                    mpack_start_str(w, n);
                else if (v.k == K_BIN)
                    mpack_start_bin(w, n);
#if MPACK_EXTENSIONS
                else
                    mpack_start_ext(w, v.et, n);
#endif
                for (uint32_t i = 0; i < n;) {
                    uint32_t k = 1 + draw(n - i);
                    mpack_write_bytes(w, d + i, k);
                    i += k;
                    yield_point();
                    if (mpack_writer_error(w) != mpack_ok)
                        return;
                }
                if (v.k == K_STR)
                    mpack_finish_str(w);
                else if (v.k == K_BIN)
                    mpack_finish_bin(w);
#if MPACK_EXTENSIONS
                else
                    mpack_finish_ext(w);
#endif
            }
            break;
        case K_ARR:
        case K_MAP: {
            bool b = build && draw(2) && MPACK_BUILDER;
            uint32_t count = (uint32_t)(v.k == K_MAP ? v.kids.size() / 2 : v.kids.size());
            if (b)
                v.k == K_MAP ? mpack_build_map(w) : mpack_build_array(w);
            else
                v.k == K_MAP ? mpack_start_map(w, count) : mpack_start_array(w, count);
            for (const Val& k : v.kids) {
                put(w, k, build);
                yield_point();
                if (mpack_writer_error(w) != mpack_ok)
                    return;
            }
            if (b)
                v.k == K_MAP ? mpack_complete_map(w) : mpack_complete_array(w);
            else
                v.k == K_MAP ? mpack_finish_map(w) : mpack_finish_array(w);
            break;
        }
    }
}
static void put_env(mpack_writer_t* w, uint32_t seq, const Val& v, bool build) {
    mpack_start_array(w, 2);
    mpack_write_u32(w, seq);
    put(w, v, build);
    mpack_finish_array(w);
}

// Sends [seq, v]. false: the connection (or the sender) failed.
static bool conn_send(Conn* c, uint32_t seq, const Val& v, bool flush) {
    if (c->werr != mpack_ok)
        return false;
    ev("%s: send #%u", c->name, seq);
    switch (c->smode) {
        case S_PERSIST:
            if (!c->w_open)
                open_writer(c);
            if (c->werr != mpack_ok) {
                close_writer(c);
                return false;
            }
            conn_guard(c, [&] {
                put_env(&c->w, seq, v, c->build);
                if (flush)
                    mpack_writer_flush_message(&c->w);
            });
            if (c->werr != mpack_ok) {
                close_writer(c);
                return false;
            }
            CHECK(mpack_writer_error(&c->w) == mpack_ok, "err.unreported", "%s: writer in error without a handler call", c->name);
            if (flush)
                CHECK(mpack_writer_buffer_used(&c->w) == 0, "flush_message.lost", "%s: %lu bytes left in the buffer after flush_message", c->name, (unsigned long)mpack_writer_buffer_used(&c->w));
            break;
        case S_PERMSG:
            open_writer(c);
            if (c->werr == mpack_ok)
                conn_guard(c, [&] { put_env(&c->w, seq, v, c->build); });
            if (!close_writer(c))
                return false;
            break;
        case S_FIXED:
        case S_GROW: {
            bool grow = c->smode == S_GROW;
            if (!grow) {
                // a fixed buffer first; the growable one when it is too small
                size_t n = 40 + draw(200);
                c->fixed.assign(n, 0);
                c->teardowns_w = 0;
                sim_stale(&c->w, sizeof(c->w));
                mpack_writer_init(&c->w, (char*)c->fixed.data(), n);
                mpack_writer_set_context(&c->w, c);
                mpack_writer_set_teardown(&c->w, w_teardown);
                put_env(&c->w, seq, v, c->build);
                size_t used = mpack_writer_buffer_used(&c->w);
                mpack_error_t e = mpack_writer_destroy(&c->w);
                CHECK(c->teardowns_w == 1, "teardown.count", "%s: writer teardown called %u times", c->name, c->teardowns_w);
                if (e == mpack_ok) {
                    if (!pipe_send(*c->out, (const char*)c->fixed.data(), used)) {
                        c->werr = mpack_error_io;
                        return false;
                    }
                    break;
                }
                if (e == mpack_error_memory && cur_alloc_failed() > 0) {
                    c->werr = e;
                    return false;
                }
                CHECK(e == mpack_error_too_big, "net.spurious", "%s: fixed buffer writer failed with %s", c->name, err_name(e));
                HIT("probe:net-fixed-too-big");
            }
            sim_stale(&c->w, sizeof(c->w));
            mpack_writer_init_growable(&c->w, &c->gdata, &c->gsize);
            if (mpack_writer_error(&c->w) != mpack_ok) { // before there was a handler
                c->werr = mpack_writer_error(&c->w);
                mpack_writer_destroy(&c->w);
                return false;
            }
            mpack_writer_set_context(&c->w, c);
            mpack_writer_set_error_handler(&c->w, w_error);
            conn_guard(c, [&] { put_env(&c->w, seq, v, c->build); });
            mpack_error_t e = mpack_ok;
            bool done = conn_guard(c, [&] { e = mpack_writer_destroy(&c->w); });
            if (!done) // jumped out of destroy
                done = conn_guard(c, [&] { e = mpack_writer_destroy(&c->w); });
            if (done)
                CHECK(e == c->werr, "err.destroy-result", "%s: destroy returned %s, the handler was told %s", c->name, err_name(e), err_name(c->werr));
            if (c->werr != mpack_ok)
                return false;
            bool ok = pipe_send(*c->out, c->gdata, c->gsize);
            sim_free(c->gdata);
            c->gdata = NULL;
            if (!ok) {
                c->werr = mpack_error_io;
                return false;
            }
            break;
        }
        default: break;
    }
    c->sent_msgs++;
    return true;
}
static bool conn_send_close(Conn* c) {
    bool ok = c->werr == mpack_ok;
    if (c->w_open)
        ok = close_writer(c);
    c->out->wclosed = true;
    ev("%s: closed for sending", c->name);
    return ok;
}

// ------------------------------------------------------------ receiving
static bool get(Conn* c, mpack_reader_t* r, Val& v, uint32_t depth) {
    v.kids.clear();
    v.data.clear();
    mpack_tag_t tag = mpack_read_tag(r);
    if (mpack_reader_error(r) != mpack_ok)
        return false;
    uint32_t n;
    switch (mpack_tag_type(&tag)) {
        case mpack_type_nil: v.k = K_NIL; return true;
        case mpack_type_bool: v.k = K_BOOL; v.b = mpack_tag_bool_value(&tag); return true;
        case mpack_type_uint: v.k = K_UINT; v.u = mpack_tag_uint_value(&tag); return true;
        case mpack_type_int: v.k = K_INT; v.i = mpack_tag_int_value(&tag); return true;
        case mpack_type_float:
            v.k = K_FLOAT;
            v.u = 0;
#if MPACK_FLOAT
            {
                float f = mpack_tag_float_value(&tag);
                uint32_t b;
                memcpy(&b, &f, 4);
                v.u = b;
            }
#else
            v.u = mpack_tag_raw_float_value(&tag);
#endif
            return true;
        case mpack_type_double:
            v.k = K_DOUBLE;
#if MPACK_DOUBLE
            {
                double d = mpack_tag_double_value(&tag);
                memcpy(&v.u, &d, 8);
            }
#else
            v.u = mpack_tag_raw_double_value(&tag);
#endif
            return true;
        case mpack_type_str: v.k = K_STR; break;
        case mpack_type_bin: v.k = K_BIN; break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: v.k = K_EXT; v.et = mpack_tag_ext_exttype(&tag); break;
#endif
        case mpack_type_array: v.k = K_ARR; break;
        case mpack_type_map: v.k = K_MAP; break;
        default: violate("net.corrupt", "%s: read a tag of impossible type %i", c->name, (int)mpack_tag_type(&tag));
    }
    if (v.k == K_ARR || v.k == K_MAP) {
        n = v.k == K_ARR ? mpack_tag_array_count(&tag) : mpack_tag_map_count(&tag);
        CHECK(n <= 20000 && depth < 200, "net.corrupt", "%s: received a container of %u elements at depth %u, none was sent", c->name, n, depth);
        n *= v.k == K_MAP ? 2 : 1;
        v.kids.resize(n);
        for (uint32_t i = 0; i < n; ++i) {
            if (!get(c, r, v.kids[i], depth + 1))
                return false;
            yield_point();
        }
        v.k == K_ARR ? mpack_done_array(r) : mpack_done_map(r);
        return mpack_reader_error(r) == mpack_ok;
    }
    n = mpack_tag_bytes(&tag);
    CHECK(n <= 100000, "net.corrupt", "%s: received %u bytes of %s, none was sent", c->name, n, kind_name(v.k));
    v.data.reserve(n + 1);
    v.data.resize(n);
    char* d = (char*)v.data.data();
    uint32_t how = draw(4);
    if (how == 0 && mpack_should_read_bytes_inplace(r, n)) {
        const char* p = mpack_read_bytes_inplace(r, n);
        if (mpack_reader_error(r) != mpack_ok)
            return false;
        if (n)
            memcpy(d, p, n);
        HIT("probe:net-inplace");
    } else if (how == 1) {
        for (uint32_t i = 0; i < n;) {
            uint32_t k = 1 + draw(n - i);
            mpack_read_bytes(r, d + i, k);
            i += k;
            yield_point();
            if (mpack_reader_error(r) != mpack_ok)
                return false;
        }
    } else if (how == 2) {
        char* p = mpack_read_bytes_alloc(r, n);
        if (mpack_reader_error(r) != mpack_ok)
            return false;
        yield_point();
        if (n)
            memcpy(d, p, n);
        sim_free(p);
    } else {
        mpack_read_bytes(r, d, n);
    }
    v.k == K_STR ? mpack_done_str(r) : v.k == K_BIN ? mpack_done_bin(r) :
#if MPACK_EXTENSIONS
        mpack_done_ext(r);
#else
        (void)0;
#endif
    return mpack_reader_error(r) == mpack_ok;
}

static void from_node(Conn* c, mpack_node_t n, Val& v, uint32_t depth) {
    v.kids.clear();
    v.data.clear();
    if (draw(8) == 7)
        yield_point();
    switch (mpack_node_type(n)) {
        case mpack_type_nil: v.k = K_NIL; return;
        case mpack_type_bool: v.k = K_BOOL; v.b = mpack_node_bool(n); return;
        case mpack_type_uint: v.k = K_UINT; v.u = mpack_node_u64(n); return;
        case mpack_type_int: v.k = K_INT; v.i = mpack_node_i64(n); return;
        case mpack_type_float: {
            v.k = K_FLOAT;
#if MPACK_FLOAT
            float f = mpack_node_float_strict(n);
            uint32_t b;
            memcpy(&b, &f, 4);
            v.u = b;
#else
            v.u = mpack_node_raw_float(n);
#endif
            return;
        }
        case mpack_type_double: {
            v.k = K_DOUBLE;
#if MPACK_DOUBLE
            double d = mpack_node_double_strict(n);
            memcpy(&v.u, &d, 8);
#else
            v.u = mpack_node_raw_double(n);
#endif
            return;
        }
        case mpack_type_str:
        case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
        {
            v.k = mpack_node_type(n) == mpack_type_str ? K_STR : mpack_node_type(n) == mpack_type_bin ? K_BIN : K_EXT;
#if MPACK_EXTENSIONS
            if (v.k == K_EXT)
                v.et = mpack_node_exttype(n);
#endif
            const char* p = mpack_node_data(n);
            uint32_t l = mpack_node_data_len(n);
            CHECK(l <= 100000, "net.corrupt", "%s: node of %u bytes, none was sent", c->name, l);
            v.data.assign(p, p + l);
            return;
        }
        case mpack_type_array: {
            v.k = K_ARR;
            size_t k = mpack_node_array_length(n);
            CHECK(k <= 20000 && depth < 200, "net.corrupt", "%s: node of %lu elements, none was sent", c->name, (unsigned long)k);
            v.kids.resize(k);
            for (size_t i = 0; i < k; ++i)
                from_node(c, mpack_node_array_at(n, i), v.kids[i], depth + 1);
            return;
        }
        case mpack_type_map: {
            v.k = K_MAP;
            size_t k = mpack_node_map_count(n);
            CHECK(k <= 20000 && depth < 200, "net.corrupt", "%s: node of %lu pairs, none was sent", c->name, (unsigned long)k);
            v.kids.resize(2 * k);
            for (size_t i = 0; i < k; ++i) {
                from_node(c, mpack_node_map_key_at(n, i), v.kids[2 * i], depth + 1);
                from_node(c, mpack_node_map_value_at(n, i), v.kids[2 * i + 1], depth + 1);
            }
            return;
        }
        default: violate("net.corrupt", "%s: node of impossible type %i", c->name, (int)mpack_node_type(n));
    }
}

static void open_receiver(Conn* c) {
    if (c->rmode == R_READER || c->rmode == R_EXPECT) {
        c->teardowns_r = 0;
        sim_stale(&c->r, sizeof(c->r));
        mpack_reader_init(&c->r, c->rbuf, c->rsize, 0);
        mpack_reader_set_context(&c->r, c);
        mpack_reader_set_fill(&c->r, r_fill);
        if (c->use_skip)
            mpack_reader_set_skip(&c->r, r_skip);
        mpack_reader_set_error_handler(&c->r, r_error);
        mpack_reader_set_teardown(&c->r, r_teardown);
        c->r_open = true;
        c->rerr = mpack_reader_error(&c->r); // as above
    } else {
        c->teardowns_t = 0;
        sim_stale(&c->t, sizeof(c->t));
        mpack_tree_init_stream(&c->t, t_read, c, 1u << 20, 1u << 16);
        mpack_tree_set_error_handler(&c->t, t_error);
        mpack_tree_set_teardown(&c->t, t_teardown);
        c->t_open = true;
    }
}
static bool close_receiver(Conn* c) {
    mpack_error_t e = mpack_ok;
    if (c->r_open) {
        c->r_open = false;
        bool done = conn_guard(c, [&] { e = mpack_reader_destroy(&c->r); });
        if (!done) // jumped out of destroy
            done = conn_guard(c, [&] { e = mpack_reader_destroy(&c->r); });
        CHECK(c->teardowns_r == 1, "teardown.count", "%s: reader teardown called %u times", c->name, c->teardowns_r);
        if (done)
            CHECK(e == c->rerr, "err.destroy-result", "%s: destroy returned %s, the handler was told %s", c->name, err_name(e), err_name(c->rerr));
    }
    if (c->t_open) {
        c->t_open = false;
        bool done = conn_guard(c, [&] { e = mpack_tree_destroy(&c->t); });
        if (!done) // jumped out of destroy
            done = conn_guard(c, [&] { e = mpack_tree_destroy(&c->t); });
        CHECK(c->teardowns_t == 1, "teardown.count", "%s: tree teardown called %u times", c->name, c->teardowns_t);
        if (done)
            CHECK(e == c->rerr, "err.destroy-result", "%s: destroy returned %s, the handler was told %s", c->name, err_name(e), err_name(c->rerr));
    }
    return c->rerr == mpack_ok;
}

// Receives [seq, v] into *seq and c->cur; skim: the payload is skipped.
// false: end of the connection or an error (c->rerr).
static bool conn_recv(Conn* c, uint32_t* seq, bool skim) {
    if (c->rerr != mpack_ok)
        return false;
    if (!c->r_open && !c->t_open)
        open_receiver(c);
    if (c->rerr != mpack_ok)
        return false;
    bool ok = false;
    uint32_t s = 0;
    Val& v = c->cur;
    if (c->r_open) {
        mpack_reader_t* r = &c->r;
        bool done = conn_guard(c, [&] {
            if (c->rmode == R_EXPECT) {
                mpack_expect_array_match(r, 2);
                s = mpack_expect_u32(r);
                if (mpack_reader_error(r) != mpack_ok)
                    return;
            } else {
                mpack_tag_t tag = mpack_read_tag(r);
                if (mpack_reader_error(r) != mpack_ok)
                    return;
                CHECK(mpack_tag_type(&tag) == mpack_type_array && mpack_tag_array_count(&tag) == 2, "net.corrupt", "%s: message does not start with its envelope", c->name);
                tag = mpack_read_tag(r);
                if (mpack_reader_error(r) != mpack_ok)
                    return;
                CHECK(mpack_tag_type(&tag) == mpack_type_uint && mpack_tag_uint_value(&tag) <= UINT32_MAX, "net.corrupt", "%s: message without sequence number", c->name);
                s = (uint32_t)mpack_tag_uint_value(&tag);
            }
            if (skim) {
                mpack_discard(r);
                if (mpack_reader_error(r) != mpack_ok)
                    return;
            } else if (!get(c, r, v, 0))
                return;
            mpack_done_array(r);
            ok = mpack_reader_error(r) == mpack_ok;
        });
        (void)done;
        if (!ok)
            CHECK(c->rerr != mpack_ok, "err.unreported", "%s: reader in error without a handler call", c->name);
    } else {
        mpack_tree_t* t = &c->t;
        conn_guard(c, [&] {
            if (c->rmode == R_TREE)
                mpack_tree_parse(t);
            else
                while (!mpack_tree_try_parse(t)) {
                    if (mpack_tree_error(t) != mpack_ok)
                        return;
                    HIT("probe:net-would-block");
                    block_until(pipe_can_read, c->in); // poll()
                    if (c->in->rxpos == c->in->rx.size() && pipe_can_read(c->in)) {
                        mpack_tree_flag_error(t, mpack_error_io); // the peer is gone
                        return;
                    }
                }
            if (mpack_tree_error(t) != mpack_ok)
                return;
            mpack_node_t root = mpack_tree_root(t);
            CHECK(mpack_node_type(root) == mpack_type_array && mpack_node_array_length(root) == 2, "net.corrupt", "%s: message is not its envelope", c->name);
            s = mpack_node_u32(mpack_node_array_at(root, 0));
            if (!skim)
                from_node(c, mpack_node_array_at(root, 1), v, 0);
            ok = mpack_tree_error(t) == mpack_ok;
        });
        if (!ok)
            CHECK(c->rerr != mpack_ok, "err.unreported", "%s: tree in error without a handler call", c->name);
    }
    if (ok) {
        *seq = s;
        c->got_msgs++;
        ev("%s: received #%u", c->name, s);
    }
    return ok;
}

// ------------------------------------------------------------ profiles
static Pipe* pipe_new(const char* name) {
    Pipe* p = new Pipe();
    pipe_init(*p, name);
    pipes.push_back(p);
    return p;
}
static std::vector<char*> names;
static const char* nm(const char* fmt, ...) {
    char* b = (char*)malloc(64);
    va_list va;
    va_start(va, fmt);
    vsnprintf(b, 64, fmt, va);
    va_end(va);
    names.push_back(b);
    return b;
}
static void expect_same(const char* who, uint32_t seq, const Val& got, const Val& want) {
    CHECK(val_equal(got, want), "net.corrupt", "%s: message #%u arrived with a different value", who, seq);
}
static void no_error(Conn* c, const char* what) {
    mpack_error_t e = c->rerr != mpack_ok ? c->rerr : c->werr;
    violate("net.spurious", "%s: %s failed with %s although nothing failed", c->name, what, err_name(e));
}

// Request/response over one connection; nothing fails.
static void setup_rpc(bool pipelined) {
    uint32_t clients = 1 + draw(3);
    for (uint32_t k = 0; k < clients; ++k) {
        Pipe* up = pipe_new(nm("c%u->s", k));
        Pipe* down = pipe_new(nm("s->c%u", k));
        Proc* pc = proc_new(nm("client%u", k));
        Proc* ps = proc_new(nm("server%u", k));
        uint32_t n = 1 + draw(6);
        std::shared_ptr<std::vector<Val>> msgs(new std::vector<Val>(n));
        for (Val& v : *msgs)
            gen_payload(v);
        Conn* cc = conn_new(nm("client%u", k), down, up);
        Conn* sc = conn_new(nm("server%u", k), up, down);
        std::shared_ptr<std::vector<uint8_t>> sk(new std::vector<uint8_t>(n));
        for (uint32_t i = 0; i < n; ++i)
            (*sk)[i] = draw(5) == 4;
        ev("client%u: %u messages, client %s/%s, server %s/%s", k, n, smode_name[cc->smode], rmode_name[cc->rmode], smode_name[sc->smode], rmode_name[sc->rmode]);
        static Val nil;
        auto receive = [=](uint32_t i) {
            uint32_t seq = 0;
            if (!conn_recv(cc, &seq, false))
                no_error(cc, "receiving a response");
            CHECK(seq == i + 1, "net.order", "%s: response #%u arrived where #%u was expected", cc->name, seq, i + 1);
            expect_same(cc->name, seq, cc->cur, (*sk)[i] ? nil : (*msgs)[i]);
        };
        if (!pipelined) {
            task_new(pc, "main", [=] {
                for (uint32_t i = 0; i < n; ++i) {
                    if (!conn_send(cc, i + 1, (*msgs)[i], true))
                        no_error(cc, "sending a request");
                    receive(i);
                    yield_point();
                }
                if (!conn_send_close(cc))
                    no_error(cc, "closing");
                if (!close_receiver(cc))
                    no_error(cc, "closing");
            });
        } else {
            bool nagle = cc->smode == S_PERSIST && draw(2);
            task_new(pc, "send", [=] {
                for (uint32_t i = 0; i < n; ++i)
                    if (!conn_send(cc, i + 1, (*msgs)[i], !nagle || coin(1, 3)))
                        no_error(cc, "sending a request");
                if (!conn_send_close(cc))
                    no_error(cc, "closing");
            });
            Conn* cr = conn_new(nm("client%u-recv", k), down, up); // own error state
            task_new(pc, "recv", [=] {
                for (uint32_t i = 0; i < n; ++i) {
                    uint32_t seq = 0;
                    if (!conn_recv(cr, &seq, false))
                        no_error(cr, "receiving a response");
                    CHECK(seq == i + 1, "net.order", "%s: response #%u arrived where #%u was expected", cr->name, seq, i + 1);
                    expect_same(cr->name, seq, cr->cur, (*sk)[i] ? nil : (*msgs)[i]);
                }
                // the server closes after the last response
                uint32_t seq = 0;
                CHECK(!conn_recv(cr, &seq, false), "net.extra", "%s: a message arrived after the last one", cr->name);
                CHECK(cr->rerr == mpack_error_io, "net.end-error", "%s: the end of the connection was reported as %s", cr->name, err_name(cr->rerr));
                close_receiver(cr);
            });
        }
        task_new(ps, "main", [=] {
            uint32_t seq = 0;
            for (uint32_t i = 0;; ++i) {
                bool skim = i < n && (*sk)[i];
                if (!conn_recv(sc, &seq, skim)) {
                    if (i < n)
                        no_error(sc, "receiving a request");
                    CHECK(sc->rerr == mpack_error_io, "net.end-error", "%s: the end of the connection was reported as %s", sc->name, err_name(sc->rerr));
                    break;
                }
                CHECK(i < n, "net.extra", "%s: a message arrived after the last one", sc->name);
                CHECK(seq == i + 1, "net.order", "%s: request #%u arrived where #%u was expected", sc->name, seq, i + 1);
                if (!skim)
                    expect_same(sc->name, seq, sc->cur, (*msgs)[i]);
                if (!conn_send(sc, seq, skim ? nil : sc->cur, true))
                    no_error(sc, "sending a response");
            }
            close_receiver(sc);
            if (!conn_send_close(sc))
                no_error(sc, "closing");
        });
    }
}

// Copies one value from a reader to a writer without storing it.
static bool transcode(Conn* in, Conn* out, uint32_t depth) {
    mpack_reader_t* r = &in->r;
    mpack_writer_t* w = &out->w;
    mpack_tag_t tag = mpack_read_tag(r);
    if (mpack_reader_error(r) != mpack_ok)
        return false;
    mpack_write_tag(w, tag);
    yield_point();
    uint32_t n = 0;
    mpack_type_t type = mpack_tag_type(&tag);
    switch (type) {
        case mpack_type_array: n = mpack_tag_array_count(&tag); break;
        case mpack_type_map: n = 2 * mpack_tag_map_count(&tag); break;
        case mpack_type_str:
        case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
        {
            char b[48];
            for (n = mpack_tag_bytes(&tag); n;) {
                uint32_t k = n < sizeof(b) ? n : (uint32_t)sizeof(b);
                if (k > 1 && draw(3) == 2)
                    k = 1 + draw(k);
                if (mpack_should_read_bytes_inplace(r, k) && draw(2)) {
                    const char* p = mpack_read_bytes_inplace(r, k);
                    if (mpack_reader_error(r) != mpack_ok)
                        return false;
                    mpack_write_bytes(w, p, k);
                } else {
                    mpack_read_bytes(r, b, k);
                    if (mpack_reader_error(r) != mpack_ok)
                        return false;
                    mpack_write_bytes(w, b, k);
                }
                n -= k;
                if (mpack_writer_error(w) != mpack_ok)
                    return false;
            }
            mpack_done_type(r, type);
            mpack_finish_type(w, type);
            return mpack_reader_error(r) == mpack_ok && mpack_writer_error(w) == mpack_ok;
        }
        default: return mpack_writer_error(w) == mpack_ok;
    }
    CHECK(depth < 200 && n < 40000, "net.corrupt", "%s: a container nobody sent arrived", in->name);
    for (uint32_t i = 0; i < n; ++i)
        if (!transcode(in, out, depth + 1))
            return false;
    mpack_done_type(r, type);
    mpack_finish_type(w, type);
    return mpack_reader_error(r) == mpack_ok && mpack_writer_error(w) == mpack_ok;
}

// A chain of relays between a source and a sink.
static void setup_relay() {
    uint32_t hops = 1 + draw(3);
    uint32_t n = 1 + draw(6);
    std::shared_ptr<std::vector<Val>> msgs(new std::vector<Val>(n));
    for (Val& v : *msgs)
        gen_payload(v);
    Pipe* prev = pipe_new("src->1");
    Conn* src = conn_new("source", NULL, prev);
    task_new(proc_new("source"), "main", [=] {
        for (uint32_t i = 0; i < n; ++i)
            if (!conn_send(src, i + 1, (*msgs)[i], draw(2)))
                no_error(src, "sending");
        if (!conn_send_close(src))
            no_error(src, "closing");
    });
    for (uint32_t h = 0; h < hops; ++h) {
        Pipe* next = pipe_new(nm("%u->%u", h + 1, h + 2));
        bool streaming = draw(2);
        Conn* in = conn_new(nm("relay%u", h + 1), prev, next);
        if (streaming) {
            in->rmode = R_READER;
            in->jump = false;
        }
        ev("relay%u: %s", h + 1, streaming ? "streaming" : rmode_name[in->rmode]);
        task_new(proc_new(nm("relay%u", h + 1)), "main", [=] {
            uint32_t count = 0;
            if (streaming) {
                open_receiver(in);
                open_writer(in);
                while (count < n) {
                    if (!transcode(in, in, 0))
                        no_error(in, "relaying");
                    ++count;
                    if (draw(2))
                        mpack_writer_flush_message(&in->w);
                }
                // the end of the stream
                mpack_read_tag(&in->r);
                CHECK(in->rerr != mpack_ok, "net.extra", "%s: a message arrived after the last one", in->name);
            } else {
                uint32_t seq = 0;
                while (conn_recv(in, &seq, false)) {
                    CHECK(count < n, "net.extra", "%s: a message arrived after the last one", in->name);
                    CHECK(seq == ++count, "net.order", "%s: message #%u arrived where #%u was expected", in->name, seq, count);
                    if (!conn_send(in, seq, in->cur, draw(2)))
                        no_error(in, "relaying");
                }
                if (count < n)
                    no_error(in, "receiving");
            }
            CHECK(in->rerr == mpack_error_io, "net.end-error", "%s: the end of the connection was reported as %s", in->name, err_name(in->rerr));
            close_receiver(in);
            if (!conn_send_close(in))
                no_error(in, "closing");
        });
        prev = next;
    }
    Conn* sink = conn_new("sink", prev, NULL);
    task_new(proc_new("sink"), "main", [=] {
        uint32_t seq = 0, count = 0;
        while (conn_recv(sink, &seq, false)) {
            CHECK(count < n, "net.extra", "sink: a message arrived after the last one");
            CHECK(seq == count + 1, "net.order", "sink: message #%u arrived where #%u was expected", seq, count + 1);
            expect_same("sink", seq, sink->cur, (*msgs)[count]);
            ++count;
        }
        if (count < n)
            no_error(sink, "receiving");
        CHECK(sink->rerr == mpack_error_io, "net.end-error", "sink: the end of the connection was reported as %s", err_name(sink->rerr));
        close_receiver(sink);
    });
}

#include "net_faulty.h"
#include "net_isolate.h"

static void net_run() {
    for (Conn* c : conns)
        delete c;
    for (Pipe* p : pipes)
        delete p;
    for (char* s : names)
        free(s);
    conns.clear();
    pipes.clear();
    names.clear();
    sched_reset();
    gen_init(prof("faulty"));
    if (prof("rpc"))
        setup_rpc(false);
    else if (prof("pipeline"))
        setup_rpc(true);
    else if (prof("relay"))
        setup_relay();
    else if (prof("faulty"))
        setup_faulty();
    else
        setup_isolate();
    sched_run("net.deadlock");
    g_alloc.on_call = NULL;
    if (prof("faulty"))
        finish_faulty();
    else if (prof("isolate"))
        finish_isolate();
    alloc_check_leaks("leak", "all tasks ended");
    CHECK(fs_open_count() == 0 || F.crashed, "file.leak", "%lu files are still open", (unsigned long)fs_open_count());
}
static EngineReg reg("net", net_run);
