// Engine "writer": programs against the Writer API over simulated sinks.
#include "common.h"

extern "C" {
void cgen_write_i64(mpack_writer_t* w, int64_t v, int width);
void cgen_write_u64(mpack_writer_t* w, uint64_t v, int width);
void cgen_write_cstr(mpack_writer_t* w, const char* s);
void cgen_kv_i64(mpack_writer_t* w, const char* key, int64_t v);
void cgen_kv_cstr(mpack_writer_t* w, const char* key, const char* s);
void cgen_write_double(mpack_writer_t* w, double v);
void cgen_write_bool(mpack_writer_t* w, bool v);
}

enum Sink { S_FIXED, S_FLUSH, S_GROW, S_STDFILE, S_STDFILE_CLOSE, S_FILENAME, S_NSINKS };
static const char* sink_names[] = {"fixed", "flush", "growable", "stdfile", "stdfile-close", "filename"};

struct WRun {
    mpack_writer_t w;
    ErrCtl ec;
    Sink sink;
    bool v4;
    bool stopped;          // the program stops writing
    bool live;             // writer initialised and not yet destroyed
    bool destroyed;
    size_t chain;          // depth of all chains of arrays
    bool ignore_errors;    // user code that only checks at the end
    bytes_t out;           // delivered through the flush callback
    size_t fail_flush_at;  // total delivered bytes at which flushing fails (SIZE_MAX never)
    mpack_error_t fail_code;
    bool fail_partial;
    mpack_error_t cause;   // first injected cause
    uint32_t flushes;
    bool in_flush;
    char* buf;             // user buffer (fixed/flush)
    size_t buf_size;
    char* grow_data;
    size_t grow_size;
    FILE* file;
    bytes_t expect;
    uint32_t teardowns;
    uint32_t builder_depth;
    uint32_t open_depth;
    uint32_t builds;
    uint32_t build_pct;    // of 8
    uint32_t finish_type_pct;
    bool builders_allowed;
    bool bug_break;        // misuse injected: break expected
    uint64_t ops;
    uint32_t alloc_failed_before;
};
static WRun* R;

static mpack_error_t cause_now() {
    if (R->cause != mpack_ok)
        return R->cause;
    return mpack_ok;
}

static void on_error(mpack_writer_t* w, mpack_error_t e) {
    nest();
    WRun& r = *R;
    ErrCtl& c = r.ec;
    CHECK(w == &r.w, "err.object", "error handler called for another writer");
    c.calls++;
    ev("error handler(%s)", err_name(e));
    CHECK(c.calls == 1, "err.twice", "the error handler was called %u times", c.calls);
    CHECK(e != mpack_ok, "err.ok", "the error handler was called with mpack_ok");
    CHECK(mpack_writer_error(w) == e, "err.mismatch", "handler got %s but the writer is in state %s", err_name(e), err_name(mpack_writer_error(w)));
    if (r.sink == S_FIXED || r.sink == S_FLUSH || r.sink == S_GROW)
        CHECK(mpack_writer_context(w) == (void*)&r, "err.context", "the error handler (%s) was called without the context of the writer", err_name(e));
    c.first = e;
    ++g_nontrivial;
    if (c.mode == H_DESTROY || c.mode == H_DESTROY_JUMP) {
        c.destroyed = true;
        r.destroyed = true;
        HIT("probe:destroy-in-handler");
        c.destroy_result = mpack_writer_destroy(w);
        CHECK(c.destroy_result == e, "err.sticky", "destroy in the handler returned %s, error was %s", err_name(c.destroy_result), err_name(e));
    }
    if ((c.mode == H_JUMP || c.mode == H_DESTROY_JUMP) && c.armed)
        longjmp(c.jb, 1);
}

static void flush_fn(mpack_writer_t* w, const char* data, size_t n) {
    WRun& r = *R;
    r.flushes++;
    ++g_nontrivial;
    ev("flush(%lu)", (unsigned long)n);
    CHECK(w == &r.w && mpack_writer_context(w) == (void*)&r, "flush.context", "flush called with the wrong writer or context");
    CHECK(mpack_writer_error(w) == mpack_ok, "flush.after-error", "flush called while the writer is in error state %s", err_name(mpack_writer_error(w)));
    CHECK(!r.in_flush, "flush.reentrant", "flush re-entered");
    step_guard(g_steps + 3000000);
    size_t take = n;
    sim_check_init(data, n, "flushed data");
    bool fail = r.out.size() + n > r.fail_flush_at || (r.fail_flush_at != SIZE_MAX && r.out.size() >= r.fail_flush_at);
    if (fail) {
        take = r.fail_flush_at > r.out.size() ? r.fail_flush_at - r.out.size() : 0;
        if (!r.fail_partial)
            take = 0;
    }
    r.out.insert(r.out.end(), (const uint8_t*)data, (const uint8_t*)data + take);
    nest();
    if (fail) {
        if (take) FAULT("flush-torn"); else FAULT("flush-error");
        if (r.cause == mpack_ok)
            r.cause = r.fail_code;
        mpack_writer_flag_error(w, r.fail_code);
    }
}

static void teardown_fn(mpack_writer_t* w) {
    nest();
    CHECK(w == &R->w && mpack_writer_context(w) == (void*)R, "err.context", "the teardown function was called without the context of the writer");
    R->teardowns++;
    ev("teardown");
    CHECK(R->teardowns == 1, "teardown.twice", "the teardown function was called %u times", R->teardowns);
}

static void note_causes() {
    WRun& r = *R;
    if (r.cause != mpack_ok)
        return;
    if (g_fs.open_fail_fired || g_fs.write_err_fired || g_fs.close_fail_fired)
        r.cause = mpack_error_io;
}

static void op_end(const char* what) {
    WRun& r = *R;
    r.ops++;
    if (r.destroyed || !r.live) {
        r.stopped = true;
        ev("op %s: writer destroyed in handler", what);
        return;
    }
    mpack_error_t e = mpack_writer_error(&r.w);
    state_point(hash64((uint64_t)r.sink * 64 + r.builder_depth % 8 * 8 + (e != mpack_ok), hash64(mpack_writer_buffer_left(&r.w), strlen(what) * 131 + (uint8_t)what[0] + (uint8_t)what[strlen(what) - 1])));
    ev("op %s -> %s", what, err_name(e));
    if (e == mpack_ok) {
        CHECK(r.ec.calls == 0, "err.lost", "an error was reported to the handler but the writer is not in an error state");
        if (r.ec.jumped)
            violate("err.lost", "handler jumped but the writer has no error");
        CHECK(mpack_writer_buffer_used(&r.w) + mpack_writer_buffer_left(&r.w) == mpack_writer_buffer_size(&r.w), "buffer.accounting", "used + left != size");
        if (r.builder_depth == 0 && r.open_depth == 0 && r.sink == S_FIXED)
            CHECK(mpack_writer_buffer_size(&r.w) == r.buf_size, "buffer.accounting", "fixed buffer size changed");
        if (r.sink == S_GROW)
            CHECK(r.grow_data == NULL, "growable.early", "growable data pointer set before destroy");
        return;
    }
    note_causes();
    if (r.ec.mode != H_NONE)
        CHECK(r.ec.calls == 1, "err.no-callback", "writer is in error state %s but the handler was called %u times", err_name(e), r.ec.calls);
    if (r.ec.calls)
        CHECK(e == r.ec.first, "err.sticky", "error changed from %s to %s", err_name(r.ec.first), err_name(e));
    if (r.ec.jumped)
        r.stopped = true;
    else if (!r.ignore_errors)
        r.stopped = true;
}

#define OP(what, expr) do { \
        if (!R->stopped) { \
            bool returned = guarded(R->ec, [&] { expr; }); \
            (void)returned; \
            op_end(what); \
        } \
    } while (0)

static void* cstr_dup(const bytes_t& d) {
    char* p = (char*)malloc(d.size() + 1);
    if (!d.empty())
        memcpy(p, d.data(), d.size());
    p[d.size()] = 0;
    return p;
}

static void w_chunks(const bytes_t& d) {
    mpack_writer_t* w = &R->w;
    size_t off = 0;
    uint32_t chunks = draw(4);
    while (off < d.size() && !R->stopped) {
        size_t n = d.size() - off;
        if (chunks) {
            chunks--;
            uint32_t style = draw(3);
            size_t k = style == 0 ? draw((uint32_t)(n + 1)) : style == 1 ? draw(8) : draw(64);
            if (k < n)
                n = k;
        }
        void* p = dup_bytes(d.data() + off, n);
        OP("write_bytes", mpack_write_bytes(w, (const char*)p, n));
        free(p);
        off += n;
    }
    if (d.empty() && coin(1, 3))
        OP("write_bytes0", mpack_write_bytes(w, NULL, 0));
}

static void w_int(const Val& v) {
    mpack_writer_t* w = &R->w;
    bool neg = v.k == K_INT && v.i < 0;
    uint64_t u = v.k == K_INT ? (uint64_t)v.i : v.u;
    int64_t s = (int64_t)u;
    bool fits_s = neg || u <= INT64_MAX;
    for (;;) {
        switch (draw(16)) {
            case 0:
                if (neg) OP("write_int", mpack_write_int(w, s));
                else OP("write_uint", mpack_write_uint(w, u));
                return;
            case 1: if (!neg && u <= 0xff) { OP("write_u8", mpack_write_u8(w, (uint8_t)u)); return; } break;
            case 2: if (!neg && u <= 0xffff) { OP("write_u16", mpack_write_u16(w, (uint16_t)u)); return; } break;
            case 3: if (!neg && u <= 0xffffffffu) { OP("write_u32", mpack_write_u32(w, (uint32_t)u)); return; } break;
            case 4: if (!neg) { OP("write_u64", mpack_write_u64(w, u)); return; } break;
            case 5: if (fits_s && s >= -128 && s <= 127) { OP("write_i8", mpack_write_i8(w, (int8_t)s)); return; } break;
            case 6: if (fits_s && s >= -32768 && s <= 32767) { OP("write_i16", mpack_write_i16(w, (int16_t)s)); return; } break;
            case 7: if (fits_s && s >= INT32_MIN && s <= INT32_MAX) { OP("write_i32", mpack_write_i32(w, (int32_t)s)); return; } break;
            case 8: if (fits_s) { OP("write_i64", mpack_write_i64(w, s)); return; } break;
            case 9: if (fits_s) { OP("tag_int", mpack_write_tag(w, mpack_tag_make_int(s))); return; } break;
            case 10: if (!neg) { OP("tag_uint", mpack_write_tag(w, mpack_tag_make_uint(u))); return; } break;
            case 11:
                if (fits_s) {
                    int width = (s >= -128 && s <= 127) ? 0 : (s >= -32768 && s <= 32767) ? 1 : (s >= INT32_MIN && s <= INT32_MAX) ? 2 : 3;
                    width += (int)draw((uint32_t)(4 - width));
                    OP("generic_i", cgen_write_i64(w, s, width));
                    return;
                }
                break;
            case 12:
                if (!neg) {
                    int width = u <= 0xff ? 0 : u <= 0xffff ? 1 : u <= 0xffffffffu ? 2 : 3;
                    width += (int)draw((uint32_t)(4 - width));
                    OP("generic_u", cgen_write_u64(w, u, width));
                    return;
                }
                break;
            case 13: if (fits_s) { OP("cpp_i64", mpack_write(w, (int64_t)s)); return; } break;
            case 14: if (!neg) { OP("cpp_u64", mpack_write(w, (uint64_t)u)); return; } break;
            default:
                if (fits_s && s >= -128 && s <= 127) { OP("cpp_i8", mpack_write(w, (int8_t)s)); return; }
                if (!neg && u <= 0xffff) { OP("cpp_u16", mpack_write(w, (uint16_t)u)); return; }
                break;
        }
        if (R->stopped)
            return;
    }
}

static void write_chain(const Val& v);
static void write_val(const Val& v);

static void w_object_bytes(const Val& v) {
    bytes_t e;
    Val copy = v;
    enc_canon(e, copy, R->v4);
    void* p = dup_bytes(e.data(), e.size());
    size_t n = e.size();
    bytes_t().swap(e);
    OP("object_bytes", mpack_write_object_bytes(&R->w, (const char*)p, n));
    free(p);
}

static void write_val(const Val& v) {
    if (R->stopped)
        return;
    mpack_writer_t* w = &R->w;
    size_t n = v.data.size();
    if (coin(1, 40) && v.end - v.beg < 4000) {
        w_object_bytes(v);
        return;
    }
    switch (v.k) {
        case K_NIL:
            switch (draw(3)) {
                case 0: OP("write_nil", mpack_write_nil(w)); break;
                case 1: OP("tag_nil", mpack_write_tag(w, mpack_tag_make_nil())); break;
                default: OP("cstr_or_nil", mpack_write_cstr_or_nil(w, NULL)); break;
            }
            return;
        case K_BOOL:
            switch (draw(4)) {
                case 0: OP("write_bool", mpack_write_bool(w, v.b)); break;
                case 1: if (v.b) OP("write_true", mpack_write_true(w)); else OP("write_false", mpack_write_false(w)); break;
                case 2: OP("tag_bool", mpack_write_tag(w, mpack_tag_make_bool(v.b))); break;
                default: if (draw(2)) OP("generic_bool", cgen_write_bool(w, v.b)); else OP("cpp_bool", mpack_write(w, (bool)v.b)); break;
            }
            return;
        case K_UINT:
        case K_INT: w_int(v); return;
        case K_FLOAT: {
            uint32_t bits = (uint32_t)v.u;
#if MPACK_FLOAT
            float f;
            memcpy(&f, &bits, 4);
            switch (draw(3)) {
                case 0: OP("write_float", mpack_write_float(w, f)); break;
                case 1: OP("tag_float", mpack_write_tag(w, mpack_tag_make_float(f))); break;
                default: OP("cpp_float", mpack_write(w, f)); break;
            }
#else
            if (draw(2)) OP("tag_raw_float", mpack_write_tag(w, mpack_tag_make_raw_float(bits)));
            else OP("write_raw_float", mpack_write_raw_float(w, bits));
#endif
            return;
        }
        case K_DOUBLE: {
#if MPACK_DOUBLE
            double d;
            memcpy(&d, &v.u, 8);
            switch (draw(4)) {
                case 0: OP("write_double", mpack_write_double(w, d)); break;
                case 1: OP("tag_double", mpack_write_tag(w, mpack_tag_make_double(d))); break;
                case 2: OP("generic_double", cgen_write_double(w, d)); break;
                default: OP("cpp_double", mpack_write(w, d)); break;
            }
#else
            if (draw(2)) OP("tag_raw_double", mpack_write_tag(w, mpack_tag_make_raw_double(v.u)));
            else OP("write_raw_double", mpack_write_raw_double(w, v.u));
#endif
            return;
        }
        case K_STR: {
            bool nul = !ref_no_nul(v.data.data(), n);
            bool utf8 = ref_utf8(v.data.data(), n);
            for (;;) {
                uint32_t c = draw(8);
                if (c == 0) {
                    void* p = dup_bytes(v.data.data(), n);
                    OP("write_str", mpack_write_str(w, (const char*)p, (uint32_t)n));
                    free(p);
                } else if (c == 1 && utf8) {
                    void* p = dup_bytes(v.data.data(), n);
                    OP("write_utf8", mpack_write_utf8(w, (const char*)p, (uint32_t)n));
                    free(p);
                } else if (c == 2 && !nul) {
                    void* p = cstr_dup(v.data);
                    if (draw(2)) OP("write_cstr_or_nil", mpack_write_cstr_or_nil(w, (const char*)p));
                    else OP("write_cstr", mpack_write_cstr(w, (const char*)p));
                    free(p);
                } else if (c == 3 && !nul && utf8) {
                    void* p = cstr_dup(v.data);
                    if (draw(2)) OP("write_utf8_cstr_or_nil", mpack_write_utf8_cstr_or_nil(w, (const char*)p));
                    else OP("write_utf8_cstr", mpack_write_utf8_cstr(w, (const char*)p));
                    free(p);
                } else if (c == 4 || c == 5) {
                    if (c == 4) OP("start_str", mpack_start_str(w, (uint32_t)n));
                    else OP("tag_str", mpack_write_tag(w, mpack_tag_make_str((uint32_t)n)));
                    w_chunks(v.data);
                    if (draw(2)) OP("finish_type_str", mpack_finish_type(w, mpack_type_str));
                    else OP("finish_str", mpack_finish_str(w));
                } else if (c == 6 && !nul) {
                    void* p = cstr_dup(v.data);
                    OP("generic_cstr", cgen_write_cstr(w, (const char*)p));
                    free(p);
                } else if (c == 7 && !nul) {
                    void* p = cstr_dup(v.data);
                    if (draw(2)) OP("cpp_cstr", mpack_write(w, (const char*)p));
                    else OP("cpp_mcstr", mpack_write(w, (char*)p));
                    free(p);
                } else
                    continue;
                return;
            }
        }
        case K_BIN: {
            uint32_t c = draw(3);
            if (c == 0) {
                void* p = dup_bytes(v.data.data(), n);
                OP("write_bin", mpack_write_bin(w, (const char*)p, (uint32_t)n));
                free(p);
            } else {
                if (c == 1) OP("start_bin", mpack_start_bin(w, (uint32_t)n));
                else OP("tag_bin", mpack_write_tag(w, mpack_tag_make_bin((uint32_t)n)));
                w_chunks(v.data);
                if (draw(2)) OP("finish_type_bin", mpack_finish_type(w, mpack_type_bin));
                else OP("finish_bin", mpack_finish_bin(w));
            }
            return;
        }
        case K_EXT: {
#if MPACK_EXTENSIONS
            int64_t s;
            uint32_t ns;
            if (v.et == -1 && timestamp_decode(v.data, &s, &ns)) {
                bytes_t canon;
                timestamp_encode(canon, s, ns);
                bool same = canon == v.data;
                bytes_t().swap(canon);
                if (same && coin(2, 3)) {
                    mpack_timestamp_t ts;
                    ts.seconds = s;
                    ts.nanoseconds = ns;
                    if (ns == 0 && draw(2)) OP("timestamp_s", mpack_write_timestamp_seconds(w, s));
                    else if (draw(2)) OP("timestamp_struct", mpack_write_timestamp_struct(w, ts));
                    else OP("timestamp", mpack_write_timestamp(w, s, ns));
                    return;
                }
            }
            uint32_t c = draw(3);
            if (c == 0) {
                void* p = dup_bytes(v.data.data(), n);
                OP("write_ext", mpack_write_ext(w, v.et, (const char*)p, (uint32_t)n));
                free(p);
            } else {
                if (c == 1) OP("start_ext", mpack_start_ext(w, v.et, (uint32_t)n));
                else OP("tag_ext", mpack_write_tag(w, mpack_tag_make_ext(v.et, (uint32_t)n)));
                w_chunks(v.data);
                if (draw(2)) OP("finish_type_ext", mpack_finish_type(w, mpack_type_ext));
                else OP("finish_ext", mpack_finish_ext(w));
            }
#endif
            return;
        }
        case K_ARR:
            if (v.chain) {
                write_chain(v);
                return;
            }
            // fallthrough
        case K_MAP: {
            bool map = v.k == K_MAP;
            uint32_t count = (uint32_t)(map ? v.kids.size() / 2 : v.kids.size());
#if MPACK_BUILDER
            bool build = R->builders_allowed && R->build_pct && coin(R->build_pct, 8);
#else
            bool build = false;
#endif
            uint32_t how = build ? 0 : draw(8);
            if (build) {
#if MPACK_BUILDER
                R->builds++;
                R->builder_depth++;
                if (map) OP("build_map", mpack_build_map(w));
                else OP("build_array", mpack_build_array(w));
                HIT("probe:builder-open");
                if (R->builder_depth > 1)
                    HIT("probe:builder-nested");
#endif
            } else {
                R->open_depth++;
                if (how < 6) {
                    if (map) OP("start_map", mpack_start_map(w, count));
                    else OP("start_array", mpack_start_array(w, count));
                } else {
                    if (map) OP("tag_map", mpack_write_tag(w, mpack_tag_make_map(count)));
                    else OP("tag_array", mpack_write_tag(w, mpack_tag_make_array(count)));
                }
                if (R->builder_depth)
                    HIT("probe:sized-in-builder");
            }
            for (size_t i = 0; i < v.kids.size() && !R->stopped; ++i) {
                // key/value helpers
                if (map && (i & 1) == 0 && v.kids[i].k == K_STR && ref_no_nul(v.kids[i].data.data(), v.kids[i].data.size()) && coin(1, 5)) {
                    const Val& kv = v.kids[i + 1];
                    bool done = false;
                    if ((kv.k == K_UINT && kv.u <= INT64_MAX) || kv.k == K_INT) {
                        int64_t s = kv.k == K_INT ? kv.i : (int64_t)kv.u;
                        void* p = cstr_dup(v.kids[i].data);
                        if (draw(2)) OP("cpp_kv_int", mpack_write_kv(w, (const char*)p, (int64_t)s));
                        else OP("c_kv_int", cgen_kv_i64(w, (const char*)p, s));
                        free(p);
                        done = true;
                    } else if (kv.k == K_STR && ref_no_nul(kv.data.data(), kv.data.size())) {
                        void* p = cstr_dup(v.kids[i].data);
                        void* q = cstr_dup(kv.data);
                        if (draw(2)) OP("cpp_kv_str", mpack_write_kv(w, (const char*)p, (const char*)q));
                        else OP("c_kv_str", cgen_kv_cstr(w, (const char*)p, (const char*)q));
                        free(p);
                        free(q);
                        done = true;
                    } else if (kv.k == K_BOOL) {
                        void* p = cstr_dup(v.kids[i].data);
                        OP("cpp_kv_bool", mpack_write_kv(w, (const char*)p, (bool)kv.b));
                        free(p);
                        done = true;
                    }
                    if (done) {
                        ++i;
                        continue;
                    }
                }
                write_val(v.kids[i]);
            }
            if (build) {
#if MPACK_BUILDER
                if (map) OP("complete_map", mpack_complete_map(w));
                else OP("complete_array", mpack_complete_array(w));
                R->builder_depth--;
#endif
            } else {
                if (coin(R->finish_type_pct, 8)) OP("finish_type", mpack_finish_type(w, map ? mpack_type_map : mpack_type_array));
                else if (map) OP("finish_map", mpack_finish_map(w));
                else OP("finish_array", mpack_finish_array(w));
                R->open_depth--;
            }
            return;
        }
    }
}

// Many arrays of one element inside each other, all pre-sized or mixed.
static void write_chain(const Val& v) {
    mpack_writer_t* w = &R->w;
    uint32_t mixed = 0;
#if MPACK_BUILDER
    if (R->builders_allowed && R->build_pct && v.chain < 1000)
        mixed = draw(3);
#endif
    std::vector<bool> builds(v.chain);
    HIT("probe:writer-chain");
    uint32_t i = 0;
    for (; i < v.chain && !R->stopped; ++i) {
#if MPACK_BUILDER
        if (mixed && coin(1, mixed == 1 ? 100 : 2)) {
            builds[i] = true;
            R->builds++;
            R->builder_depth++;
            OP("build_array", mpack_build_array(w));
            continue;
        }
#endif
        R->open_depth++;
        OP("start_array", mpack_start_array(w, 1));
    }
    Val c = v;
    c.chain = 0;
    if (!R->stopped)
        write_val(c);
    while (i > 0 && !R->stopped) {
        --i;
#if MPACK_BUILDER
        if (builds[i]) {
            OP("complete_array", mpack_complete_array(w));
            R->builder_depth--;
            continue;
        }
#endif
        OP("finish_array", mpack_finish_array(w));
        R->open_depth--;
    }
}

static bool is_prefix(const bytes_t& a, const bytes_t& b, size_t* diff) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i)
        if (a[i] != b[i]) {
            *diff = i;
            return false;
        }
    *diff = n;
    return a.size() <= b.size();
}

static void add_chain(Val& v) {
    Val* a = &v;
    for (uint32_t n = draw(4); n > 0; --n) {
        if (a->k < K_ARR || a->kids.empty())
            break;
        Val* c = &a->kids[draw((uint32_t)a->kids.size())];
        if (c->k == K_ARR)
            a = c;
    }
    if (a->k == K_ARR)
        R->chain += a->chain = coin(1, 12) ? 65532 + draw(8) : draw(2) ? 250 + draw(12) : 1 + draw(120);
}

static void strip_ext(Val& v) {
    if (v.k == K_EXT)
        v.k = K_BIN;
    for (auto& c : v.kids)
        strip_ext(c);
}

static bool wprof(const char* s) { return prof(s); }

static void engine_writer() {
    static WRun* mem = (WRun*)malloc(sizeof(WRun));
    R = new (mem) WRun();
    WRun& r = *R;
    r.fail_flush_at = SIZE_MAX;

    bool p_fault = wprof("fault");
    bool p_build = wprof("build");
    bool p_buildfault = wprof("buildfault");
    bool p_file = wprof("file");
    bool p_grow = wprof("grow");
    bool p_flushmsg = wprof("flushmsg");
    bool p_handler = wprof("handler");
    bool faults = p_fault || p_buildfault || p_handler || ((p_file || p_grow || p_flushmsg) && coin(2, 3));
#ifdef SIM_NO_MALLOC
    r.sink = (Sink)draw(2);
    if (p_file || p_grow)
        r.sink = S_FLUSH;
#else
    if (p_file)
        r.sink = (Sink)(S_STDFILE + draw(3));
    else if (p_grow)
        r.sink = S_GROW;
    else
        r.sink = (Sink)draw(S_NSINKS);
#if !MPACK_STDIO
    if (r.sink >= S_STDFILE)
        r.sink = S_FLUSH;
#endif
#endif
    if (p_flushmsg && r.sink == S_FIXED)
        r.sink = S_FLUSH;

    // ---- buffer
    r.buf_size = 0;
    if (r.sink == S_FLUSH) {
        static const uint32_t bs[] = {32, 33, 34, 40, 48, 64, 100, 256, 1024, 4096};
        r.buf_size = bs[draw(10)] + (coin(1, 3) ? draw(20) : 0);
    }

    // ---- workload
    GenCfg g;
    gen_cfg_draw(g);
    g.interesting[0] = r.buf_size ? r.buf_size : MPACK_BUFFER_SIZE;
    g.interesting[1] = MPACK_BUFFER_SIZE;
    g.interesting[2] = 32;
#if MPACK_BUILDER
    g.interesting[3] = MPACK_BUILDER_PAGE_SIZE;
    g.interesting[4] = MPACK_BUILDER_PAGE_SIZE - sizeof(mpack_builder_page_t) - sizeof(mpack_build_t);
    g.interesting[5] = MPACK_BUILDER_PAGE_SIZE - sizeof(mpack_builder_page_t);
    r.builders_allowed = p_build || p_buildfault || coin(1, 3);
    r.build_pct = r.builders_allowed ? ((p_build || p_buildfault) ? 3 + draw(6) : 1 + draw(6)) : 0;
#endif
    r.finish_type_pct = draw(4);
    uint32_t nmsg = 1 + (coin(1, 3) ? draw(6) : 0);
    if (p_flushmsg)
        nmsg = 1 + draw(10);
#if MPACK_COMPATIBILITY
    r.v4 = coin(1, 4);
#endif
    bool no_ext = r.v4;
#if !MPACK_EXTENSIONS
    no_ext = true;
#endif
    if (p_build || p_buildfault) {
        g.max_depth += 2;
        g.kinds |= (1u << K_ARR) | (1u << K_MAP) | 1u;
    }
    std::vector<Val> msgs(nmsg);
    size_t per = g.budget / nmsg + 8;
    std::vector<size_t> ends;
    for (auto& m : msgs) {
        g.budget = per;
        if ((p_build || p_buildfault) && !coin(1, 6)) {
            uint32_t save = g.kinds;
            (void)save;
        }
        gen_val(g, m);
        if (no_ext)
            strip_ext(m);
        if (coin(1, p_build || p_buildfault ? 40 : 300))
            add_chain(m);
        enc_canon(r.expect, m, r.v4);
        ends.push_back(r.expect.size());
    }
    bytes_t& E = r.expect;

    if (r.sink == S_FIXED) {
        uint32_t c = draw(4);
        if (c < 2)
            r.buf_size = E.size();
        else if (c == 2)
            r.buf_size = E.size() + draw(64);
        else
            r.buf_size = draw((uint32_t)E.size() + 1);
        if (r.buf_size < E.size())
            FAULT("fixed-buffer-too-small");
    }

    // ---- faults
    r.fail_code = mpack_error_io;
    if (faults) {
        if (r.sink == S_FLUSH && coin(1, 2)) {
            r.fail_flush_at = draw((uint32_t)E.size() + 1);
            r.fail_partial = draw(2);
            static const mpack_error_t codes[] = {mpack_error_io, mpack_error_memory, mpack_error_data, mpack_error_unsupported};
            r.fail_code = codes[draw(4)];
        }
        if (r.sink >= S_STDFILE) {
            uint32_t c = draw(5);
            if (c == 1 || c == 2)
                g_fs.write_err_at = (long)draw((uint32_t)E.size() + 1);
            g_fs.write_err_nospc = draw(2);
            if (c == 3)
                g_fs.close_fail = true;
            if (c == 4)
                g_fs.open_fail = coin(1, 3);
        }
        if (coin(1, 2) || p_buildfault) {
            if (coin(1, 4)) {
                g_alloc.fail_rate = 1 + draw(20);
            } else {
                g_alloc.fail_after = 1 + draw(coin(1, 2) ? 4 : 16);
                g_alloc.fail_count = draw(3);
            }
        }
        g_alloc.zero_null = draw(2);
    }
    if (r.sink >= S_STDFILE) {
        g_fs.short_io = coin(1, 4);
        g_fs.bufmode = draw(3);
    }
    r.ec.mode = draw_mode(true);
    r.ignore_errors = coin(2, 3);
    size_t cancel_at_msg = SIZE_MAX; // user cancels in the middle
    uint64_t cancel_depth = 0;
    if (faults && coin(1, 8)) {
        cancel_at_msg = draw(nmsg);
        cancel_depth = draw(3);
    }
    bool bad_utf8 = faults && coin(1, 10);
    bool user_sync_failed = false;
    ev("writer sink=%s bufsize=%lu msgs=%u bytes=%lu handler=%s v4=%d build=%u/8 faults=%d", sink_names[r.sink], (unsigned long)r.buf_size, nmsg,
            (unsigned long)E.size(), mode_name(r.ec.mode), (int)r.v4, r.build_pct, (int)faults);
    ev_bytes("expected", E.data(), E.size());
    HIT_N("probe:writer-bytes", E.size());

    // ---- init
    if (r.buf_size || r.sink == S_FIXED)
        r.buf = (char*)malloc(r.buf_size + 32);
    if (r.buf) {
        memset(r.buf, 0xEE, r.buf_size + 32);
        sim_poison(r.buf + 16, r.buf_size);
    }
    char* ubuf = r.buf ? r.buf + 16 : NULL;
    sim_stale(&r.w, sizeof(r.w));
    g_alloc.armed = true;
    alloc_set_watch();
    mpack_writer_t* w = &r.w;
    r.live = true;
    switch (r.sink) {
        case S_FIXED:
            mpack_writer_init(w, ubuf, r.buf_size);
            break;
        case S_FLUSH:
            mpack_writer_init(w, ubuf, r.buf_size);
            mpack_writer_set_flush(w, flush_fn);
            break;
        case S_GROW:
#ifndef SIM_NO_MALLOC
            r.grow_data = (char*)1;
            r.grow_size = 77;
            mpack_writer_init_growable(w, &r.grow_data, &r.grow_size);
            CHECK(r.grow_data == NULL, "growable.early", "init_growable did not clear the data pointer");
#endif
            break;
        case S_STDFILE:
        case S_STDFILE_CLOSE:
#if MPACK_STDIO && defined(MPACK_MALLOC)
            r.file = fs_open("out.mp", "wb");
            mpack_writer_init_stdfile(w, r.file, r.sink == S_STDFILE_CLOSE);
#endif
            break;
        default:
#if MPACK_STDIO && defined(MPACK_MALLOC)
            mpack_writer_init_filename(w, "out.mp");
#endif
            break;
    }
    if (r.v4) {
#if MPACK_COMPATIBILITY
        mpack_writer_set_version(w, mpack_version_v4);
#endif
    }
    if (r.sink == S_FIXED || r.sink == S_FLUSH || r.sink == S_GROW)
        mpack_writer_set_context(w, &r);
    mpack_error_t init_error = mpack_writer_error(w);
    ev("init -> %s", err_name(init_error));
    if (init_error != mpack_ok) {
        // failure during initialisation happens before a handler can be set
        CHECK(g_alloc.failed || g_fs.open_fail_fired, "err.spurious", "initialisation failed with %s but no fault was injected", err_name(init_error));
        CHECK(init_error == (g_fs.open_fail_fired ? mpack_error_io : mpack_error_memory), "err.code", "initialisation failed with %s", err_name(init_error));
        r.cause = init_error;
    }
    if (r.ec.mode != H_NONE && init_error == mpack_ok)
        mpack_writer_set_error_handler(w, on_error);
    bool user_teardown = (r.sink <= S_FLUSH) && draw(2);
    if (user_teardown)
        mpack_writer_set_teardown(w, teardown_fn);
    if (init_error != mpack_ok)
        r.ec.mode = H_NONE;
    if (init_error != mpack_ok && !r.ignore_errors)
        r.stopped = true;

    // ---- program
    for (size_t mi = 0; mi < msgs.size() && !r.stopped; ++mi) {
        if (mi == cancel_at_msg) {
            // cancel in the middle of a document: open some containers first
            mpack_error_t code = user_error();
            for (uint64_t d = 0; d < cancel_depth; ++d) {
#if MPACK_BUILDER
                if (r.builders_allowed && draw(2)) { r.builder_depth++; OP("build_array", mpack_build_array(w)); }
                else
#endif
                OP("start_array", mpack_start_array(w, 3));
            }
            if (!r.destroyed && mpack_writer_error(w) == mpack_ok && r.cause == mpack_ok) {
                r.cause = code;
                FAULT("user-cancel");
            }
            OP("flag_error", mpack_writer_flag_error(w, code));
            // the written tags make the delivered data a prefix of a different
            // document, so extend the expectation accordingly
            if (cancel_depth) {
                bytes_t head(E.begin(), E.begin() + (long)(mi ? ends[mi - 1] : 0));
                for (uint64_t d = 0; d < cancel_depth; ++d)
                    head.push_back(0x93);
                E = head;
            }
            r.stopped = true;
            break;
        }
        if (bad_utf8 && coin(1, 3) && !r.destroyed) {
            static const char* const bad[] = {"\xff", "a\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\x80",
                "ab\xc3", "\xe2", "\xf0\x9f", "z\xf0\x9f\x98", "\xf0", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xf5\x80\x80\x80", "\xc1\xbf", "\xe2\x82z", "\xf0\x9f\x98z"};
            const char* s = bad[draw(17)];
            size_t l = strlen(s);
            if (mpack_writer_error(w) == mpack_ok && r.cause == mpack_ok) {
                r.cause = mpack_error_invalid;
                FAULT("invalid-utf8");
            }
            void* p = dup_bytes(s, l);
            OP("write_utf8(bad)", mpack_write_utf8(w, (const char*)p, (uint32_t)l));
            free(p);
            if (!r.destroyed && r.live)
                CHECK(mpack_writer_error(w) != mpack_ok, "utf8.accepted", "mpack_write_utf8 accepted invalid UTF-8");
        }
        r.open_depth = r.builder_depth = 0;
        write_val(msgs[mi]);
        r.open_depth = r.builder_depth = 0;
        if (!r.stopped && r.sink != S_FIXED && (p_flushmsg ? coin(3, 4) : coin(1, 8))) {
            OP("flush_message", mpack_writer_flush_message(w));
            ++g_nontrivial;
            if (!r.stopped && mpack_writer_error(w) == mpack_ok) {
                HIT("probe:flush_message-ok");
                if (r.sink == S_FLUSH) {
                    CHECK(r.out.size() == ends[mi], "flush_message.lost", "after flush_message %lu bytes were delivered, %lu were written",
                            (unsigned long)r.out.size(), (unsigned long)ends[mi]);
                } else if (r.sink == S_STDFILE || r.sink == S_STDFILE_CLOSE) {
                    if (fflush(r.file) == 0) {
                        SimFile* f = fs_file("out.mp", false);
                        CHECK(f->data.size() == ends[mi], "flush_message.lost", "after flush_message the file has %lu bytes, %lu were written",
                                (unsigned long)f->data.size(), (unsigned long)ends[mi]);
                    } else {
                        user_sync_failed = true; // the user was told
                    }
                }
            }
        }
        if (!r.stopped && r.sink == S_FIXED && mpack_writer_error(w) == mpack_ok) {
            CHECK(mpack_writer_buffer_used(w) == ends[mi], "fixed.used", "buffer_used is %lu after writing %lu bytes",
                    (unsigned long)mpack_writer_buffer_used(w), (unsigned long)ends[mi]);
        }
    }
    // a few calls after an error must be no-ops
    if (!r.destroyed && r.live && mpack_writer_error(w) != mpack_ok && (!r.ec.jumped || draw(2))) {
        uint32_t flushes = r.flushes;
        size_t delivered = r.out.size();
        mpack_error_t e = mpack_writer_error(w);
        uint32_t n = draw(4);
        for (uint32_t i = 0; i < n; ++i) {
            bool ret = guarded(r.ec, [&] {
                switch (draw(6)) {
                    case 0: mpack_write_nil(w); break;
                    case 1: mpack_write_cstr(w, "after an error this must not be written anywhere at all"); break;
                    case 2: mpack_writer_flag_error(w, mpack_error_bug); break;
                    case 3: mpack_writer_flush_message(w); break;
                    case 4: mpack_start_array(w, 2); mpack_finish_array(w); break;
                    default: mpack_write_u64(w, 77); break;
                }
            });
            CHECK(ret && mpack_writer_error(w) == e, "err.sticky", "a call after the error changed the error state");
        }
        CHECK(r.flushes == flushes && r.out.size() == delivered, "flush.after-error", "data was delivered after an error");
    }

    // ---- destroy
    mpack_error_t result;
    if (!r.destroyed) {
        volatile mpack_error_t res = mpack_ok;
        size_t used = 0;
        if (r.sink == S_FIXED && mpack_writer_error(w) == mpack_ok)
            used = mpack_writer_buffer_used(w);
        bool returned = guarded(r.ec, [&] { res = mpack_writer_destroy(w); });
        note_causes();
        if (!returned && !r.ec.destroyed) {
            // jumped out of destroy: the object must be destroyed again
            HIT("probe:jump-out-of-destroy");
            ev("destroy again after jumping out of destroy");
            returned = guarded(r.ec, [&] { res = mpack_writer_destroy(w); });
            CHECK(returned, "err.twice", "the second destroy called the error handler");
        }
        if (r.ec.destroyed)
            res = r.ec.destroy_result;
        result = res;
        if (r.sink == S_FIXED && result == mpack_ok)
            { sim_check_init(ubuf, used, "the fixed buffer"); r.out.assign((uint8_t*)ubuf, (uint8_t*)ubuf + used); }
    } else {
        result = r.ec.destroy_result;
    }
    g_alloc.armed = false;
    r.live = false;
    note_causes();
    ev("destroy -> %s (handler calls %u)", err_name(result), r.ec.calls);
    if (r.ec.calls)
        CHECK(result == r.ec.first, "err.sticky", "destroy returned %s, but the error was %s", err_name(result), err_name(r.ec.first));
    if (r.ec.mode != H_NONE && result != mpack_ok && init_error == mpack_ok)
        CHECK(r.ec.calls == 1, "err.no-callback", "destroy returned %s but the handler was never called", err_name(result));
    if (user_teardown)
        CHECK(r.teardowns == 1, "teardown.missed", "the teardown function was called %u times", r.teardowns);

    // ---- delivered data
    bool mpack_closed = r.sink == S_STDFILE_CLOSE || r.sink == S_FILENAME;
    bool delivered_known = true;
    if (r.sink == S_GROW) {
        if (result == mpack_ok) {
            CHECK(r.grow_data != NULL, "growable.null", "growable writer succeeded with a NULL buffer");
            CHECK(alloc_is_live(r.grow_data), "growable.ownership", "growable writer returned a pointer that is not a live allocation");
            CHECK(alloc_size(r.grow_data) >= r.grow_size, "growable.size", "growable size %lu is larger than its allocation %lu",
                    (unsigned long)r.grow_size, (unsigned long)alloc_size(r.grow_data));
            sim_check_init(r.grow_data, r.grow_size, "the growable writer's data");
            r.out.assign((uint8_t*)r.grow_data, (uint8_t*)r.grow_data + r.grow_size);
            sim_free(r.grow_data);
        } else {
            CHECK(r.grow_data == NULL, "growable.on-error", "growable writer failed with %s but set the data pointer", err_name(result));
            delivered_known = false;
        }
        if (r.builds == 0) {
            size_t bound = 8 * (E.size() + MPACK_BUFFER_SIZE) + 4096;
#if MPACK_WRITE_TRACKING
            bound += 64 * (size_t)r.chain; // the tracking stack
#endif
            CHECK(g_alloc.peak_bytes <= bound, "growable.memory", "growable writer used %lu bytes of memory for %lu bytes of output",
                    (unsigned long)g_alloc.peak_bytes, (unsigned long)E.size());
        }
    }
    bool flush_failed = user_sync_failed;
    if (r.sink >= S_STDFILE) {
        if (r.sink == S_STDFILE && r.file) {
            CHECK(fs_is_open(r.file), "file-close", "the writer closed a FILE it was told not to close");
            flush_failed |= fs_close(r.file) != 0;
        } else if (r.sink == S_STDFILE_CLOSE) {
            CHECK(!fs_is_open(r.file), "file.leak", "the writer did not close its FILE");
        }
        CHECK(fs_open_count() == 0, "file.leak", "%lu FILE(s) still open after destroy", (unsigned long)fs_open_count());
        if (g_fs.close_fail_fired && mpack_closed)
            CHECK(result != mpack_ok, "file.close-ignored", "closing the file failed but the writer reports success");
        SimFile* f = fs_file("out.mp", false);
        if (f)
            r.out = f->data;
    }
    if (r.sink == S_FIXED && result != mpack_ok)
        delivered_known = false;
    if (delivered_known) {
        size_t diff;
        if (!is_prefix(r.out, E, &diff))
            violate(r.builds ? "out.wrong-build" : "out.wrong", "delivered %lu bytes differ from the expected %lu at offset %lu (sink %s, result %s)", (unsigned long)r.out.size(),
                    (unsigned long)E.size(), (unsigned long)diff, sink_names[r.sink], err_name(result));
        if (result == mpack_ok && !flush_failed && r.out.size() != E.size())
            violate(r.builds ? "out.lost-build" : "out.lost", "the writer reports success but delivered %lu of %lu bytes (sink %s)", (unsigned long)r.out.size(), (unsigned long)E.size(), sink_names[r.sink]);
    }
    if (r.buf) {
        for (int i = 0; i < 16; ++i)
            CHECK((uint8_t)r.buf[i] == 0xEE && (uint8_t)r.buf[16 + r.buf_size + (size_t)i] == 0xEE, "buffer.overrun", "wrote outside the user's buffer of %lu bytes", (unsigned long)r.buf_size);
    }

    // ---- was the error justified?
    mpack_error_t cause = cause_now();
    if (result == mpack_ok) {
        if (r.sink == S_FLUSH || r.cause == mpack_error_data || r.cause == mpack_error_invalid)
            CHECK(cause == mpack_ok || r.stopped, "err.swallowed", "a failure (%s) was flagged but destroy returned ok", err_name(cause));
        if (r.sink == S_FIXED)
            CHECK(E.size() <= r.buf_size, "fixed.overflow-ok", "%lu bytes reported as written into a %lu byte buffer", (unsigned long)E.size(), (unsigned long)r.buf_size);
    } else {
        bool ok = false;
        if (result == cause)
            ok = true;
        if (result == mpack_error_memory && g_alloc.failed)
            ok = true;
        if (r.sink == S_FIXED && result == mpack_error_too_big && E.size() > r.buf_size)
            ok = true;
        if (!ok)
            violate("err.spurious", "the writer failed with %s although %s (sink %s, %lu bytes, buffer %lu)", err_name(result),
                    cause == mpack_ok && !g_alloc.failed ? "nothing failed" : "the injected fault was different", sink_names[r.sink], (unsigned long)E.size(), (unsigned long)r.buf_size);
    }
    if (r.buf)
        sim_unpoison(r.buf, r.buf_size + 32);
    free(r.buf);
    alloc_check_leaks("leak", "writer destroy");
    r.~WRun();
    R = NULL;
}
static EngineReg reg("writer", engine_writer);
