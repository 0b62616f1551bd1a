// Engine "misuse": programs that break the rules of the API at some point, against a
// reference model of the open elements. Debug builds must notice exactly the illegal
// calls; some misuse is checked in every build.
#include "common.h"
#include "stream.h"

#ifndef MPACK_MALLOC
static void engine_misuse() {}
static EngineReg reg("misuse", engine_misuse);
#else

namespace {

struct Elem {
    mpack_type_t type;
    uint64_t left;
    bool builder, needs_value;
};

struct MRun {
    mpack_writer_t w;
    mpack_reader_t rd;
    mpack_tree_t tree;
    ErrCtl ec;
    std::vector<Elem> st;
    bytes_t out;
    Stream src;
    bytes_t data;
    size_t pos;          // of the reader in the data
    size_t buf_size;
    bool filled;         // the reader has a fill function
    int brk;             // break hits seen so far
    bool gone;           // destroyed in the handler
};
MRun* R;

const bool kDebug = MPACK_DEBUG != 0;

void note_error(mpack_error_t e, mpack_error_t state) {
    ErrCtl& c = R->ec;
    c.calls++;
    ++g_nontrivial;
    ev("error handler(%s)", err_name(e));
    CHECK(c.calls == 1, "err.twice", "the error handler was called %u times", c.calls);
    CHECK(e == state, "err.mismatch", "the handler got %s but the state is %s", err_name(e), err_name(state));
    c.first = e;
}

void werror(mpack_writer_t* w, mpack_error_t e) {
    note_error(e, mpack_writer_error(w));
    if (R->ec.mode >= H_DESTROY) {
        R->gone = true;
        R->ec.destroy_result = mpack_writer_destroy(w);
    }
    if ((R->ec.mode == H_JUMP || R->ec.mode == H_DESTROY_JUMP) && R->ec.armed)
        longjmp(R->ec.jb, 1);
}
void rerror(mpack_reader_t* r, mpack_error_t e) {
    note_error(e, mpack_reader_error(r));
    if ((R->ec.mode == H_JUMP || R->ec.mode == H_DESTROY_JUMP) && R->ec.armed)
        longjmp(R->ec.jb, 1);
}
void terror(mpack_tree_t* t, mpack_error_t e) {
    note_error(e, mpack_tree_error(t));
    if ((R->ec.mode == H_JUMP || R->ec.mode == H_DESTROY_JUMP) && R->ec.armed)
        longjmp(R->ec.jb, 1);
}

void wflush(mpack_writer_t* w, const char* p, size_t n) {
    CHECK(mpack_writer_error(w) == mpack_ok, "flush.after-error", "flushed in an error state");
    sim_check_init(p, n, "flushed data");
    R->out.insert(R->out.end(), (const uint8_t*)p, (const uint8_t*)p + n);
    ++g_nontrivial;
}
size_t rfill(mpack_reader_t* r, char* buf, size_t count) {
    CHECK(mpack_reader_error(r) == mpack_ok, "fill.after-error", "fill called in an error state");
    ++g_nontrivial;
    return stream_deliver(R->src, buf, count);
}

// ------------------------------------------------------------ the model
bool compound(mpack_type_t t) { return t == mpack_type_array || t == mpack_type_map; }

bool can_element() {
    if (R->st.empty())
        return true;
    const Elem& e = R->st.back();
    return compound(e.type) && (e.builder || e.left > 0 || e.needs_value);
}
void do_element() {
    if (R->st.empty())
        return;
    Elem& e = R->st.back();
    if (e.type == mpack_type_map) {
        e.needs_value = !e.needs_value;
        if (e.needs_value)
            return;
    }
    if (!e.builder)
        --e.left;
}
void push(mpack_type_t t, uint64_t left, bool builder) {
    Elem e = {t, left, builder, false};
    R->st.push_back(e);
}
bool can_pop(mpack_type_t t, bool builder) {
    if (R->st.empty())
        return false;
    const Elem& e = R->st.back();
    return e.type == t && !e.needs_value && e.left == 0 && e.builder == builder;
}
bool can_bytes(uint64_t n) {
    return !R->st.empty() && !compound(R->st.back().type) && R->st.back().left >= n;
}
bool can_all(uint64_t n) {
    return can_bytes(n) && R->st.back().type == mpack_type_str && R->st.back().left == n;
}
mpack_type_t draw_type() {
    static const mpack_type_t t[] = {mpack_type_array, mpack_type_map, mpack_type_str, mpack_type_bin,
#if MPACK_EXTENSIONS
        mpack_type_ext
#endif
    };
    return t[draw(sizeof(t) / sizeof(t[0]))];
}
// a number of bytes around what is left
uint32_t draw_n() {
    uint64_t left = !R->st.empty() && R->st.back().left < 1000 ? R->st.back().left : 0;
    switch (draw(6)) {
        case 0: return (uint32_t)left;
        case 1: return (uint32_t)left + 1;
        case 2: return left ? (uint32_t)left - 1 : 0;
        case 3: return draw(4);
        case 4: return (uint32_t)left + draw(40);
        default: return 0;
    }
}

// Runs one call and compares what happened with what the model says.
//   legal: the call follows the rules; other: errors it may give all the same
template <class F> void call(const char* what, bool legal, uint32_t others, mpack_error_t (*state)(), F&& f) {
    uint64_t failed = g_alloc.failed;
    int brk = g_break_hits;
    bool ret = guarded(R->ec, f);
    brk = g_break_hits - brk;
    mpack_error_t e = R->gone ? R->ec.first : state();
    ev("%s [depth %u] %s -> %s, %d breaks", what, (unsigned)R->st.size(), legal ? "legal" : "ILLEGAL", err_name(e), brk);
    state_point(hash64(hash64(strlen(what) * 977 + (uint8_t)what[0] * 31 + (uint8_t)what[strlen(what) - 1], R->st.size() * 4 + legal),
            R->st.empty() ? 0 : R->st.back().type * 16 + R->st.back().builder * 2 + R->st.back().needs_value + 32 * (R->st.back().left < 3 ? R->st.back().left : 3)));
    if (!legal) {
        HIT("fault:misuse");
        ++g_fault_fired;
        ++g_nontrivial;
        if (e != mpack_error_bug && !(others & (1u << e)))
            violate("misuse.missed", "%s is not allowed here, but it gave %s instead of mpack_error_bug", what, err_name(e));
        if (kDebug && e == mpack_error_bug)
            CHECK(brk > 0, "misuse.silent", "%s is not allowed here, but mpack_break() was not reached", what);
    } else {
        CHECK(brk == 0, "misuse.false", "%s is allowed here but mpack_break() was reached", what);
        CHECK(e != mpack_error_bug, "misuse.false", "%s is allowed here but it flagged mpack_error_bug", what);
        if (e != mpack_ok && !(e == mpack_error_memory && g_alloc.failed > failed) && !(others & (1u << e)))
            violate("misuse.false", "%s is allowed here but it gave %s", what, err_name(e));
    }
    if (e == mpack_ok)
        CHECK(R->ec.calls == 0 && ret, "err.lost", "an error was reported but the state is ok");
    else if (R->ec.mode != H_NONE)
        CHECK(R->ec.calls == 1, "err.no-callback", "error %s but the handler was called %u times", err_name(e), R->ec.calls);
}

mpack_error_t wstate() { return mpack_writer_error(&R->w); }
mpack_error_t rstate() { return mpack_reader_error(&R->rd); }
mpack_error_t tstate() { return mpack_tree_error(&R->tree); }

// calls after an error: no effect, no break, no second report
template <class F> void dead_call(mpack_error_t (*state)(), F&& f) {
    mpack_error_t e = state();
    int brk = g_break_hits;
    bool ret = guarded(R->ec, f);
    CHECK(ret && state() == e, "err.sticky", "a call after the error changed it from %s to %s", err_name(e), err_name(state()));
    CHECK(g_break_hits == brk, "misuse.false", "a call after an error (%s) reached mpack_break()", err_name(e));
}

// ------------------------------------------------------------ writer
const char kText[] = "0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ............";

enum WOp { W_ELEM, W_START, W_BUILD, W_BYTES, W_FINISH, W_COMPLETE, W_FLUSH, W_NOPS };

void w_op(uint32_t op) {
    mpack_writer_t* w = &R->w;
    bool el = can_element();
    switch (op) {
        case W_ELEM: {
            uint32_t k = draw(12);
            switch (k) {
                case 0: call("write_nil", el, 0, wstate, [&] { mpack_write_nil(w); }); break;
                case 1: call("write_u64", el, 0, wstate, [&] { mpack_write_u64(w, (uint64_t)1 << (draw(64))); }); break;
                case 2: call("write_i64", el, 0, wstate, [&] { mpack_write_i64(w, -((int64_t)1 << (draw(63)))); }); break;
                case 3: call("write_bool", el, 0, wstate, [&] { mpack_write_bool(w, true); }); break;
                case 4: call("write_str", el, 0, wstate, [&] { mpack_write_str(w, kText, draw(60)); }); break;
                case 5: call("write_cstr", el, 0, wstate, [&] { mpack_write_cstr(w, kText + draw(60)); }); break;
                case 6: call("write_bin", el, 0, wstate, [&] { mpack_write_bin(w, kText, draw(60)); }); break;
                case 7: call("write_utf8", el, 0, wstate, [&] { mpack_write_utf8(w, kText, draw(60)); }); break;
                case 8: call("write_object_bytes", el, 0, wstate, [&] { mpack_write_object_bytes(w, "\x93\x01\x02\x03", 4); }); break;
                case 9: call("write_tag", el, 0, wstate, [&] { mpack_write_tag(w, mpack_tag_make_uint(draw(300))); }); break;
#if MPACK_EXTENSIONS
                case 10: call("write_ext", el, 0, wstate, [&] { mpack_write_ext(w, 5, kText, draw(40)); }); break;
                case 11: call("write_timestamp", el, 0, wstate, [&] { mpack_write_timestamp(w, (int64_t)1 << draw(60), draw(2) ? 5 : 0); }); break;
#endif
                default: call("write_i8", el, 0, wstate, [&] { mpack_write_i8(w, -5); }); break;
            }
            if (el)
                do_element();
            break;
        }
        case W_START: {
            mpack_type_t t = draw_type();
            uint32_t n = t == mpack_type_array || t == mpack_type_map ? draw(5) : draw(50);
            if (coin(1, 20))
                n = 65530 + draw(12);
            bool by_tag = coin(1, 4);
            call("start", el, 0, wstate, [&] {
                if (by_tag) {
                    mpack_write_tag(w, t == mpack_type_array ? mpack_tag_make_array(n) : t == mpack_type_map ? mpack_tag_make_map(n) :
                            t == mpack_type_str ? mpack_tag_make_str(n) : t == mpack_type_bin ? mpack_tag_make_bin(n) :
#if MPACK_EXTENSIONS
                            mpack_tag_make_ext(9, n)
#else
                            mpack_tag_make_bin(n)
#endif
                            );
                    return;
                }
                switch (t) {
                    case mpack_type_array: mpack_start_array(w, n); break;
                    case mpack_type_map: mpack_start_map(w, n); break;
                    case mpack_type_str: mpack_start_str(w, n); break;
                    case mpack_type_bin: mpack_start_bin(w, n); break;
                    default:
#if MPACK_EXTENSIONS
                        mpack_start_ext(w, 9, n);
#endif
                        break;
                }
            });
            if (el) {
                do_element();
                push(t, n, false);
            }
            break;
        }
        case W_BUILD: {
#if MPACK_BUILDER
            bool map = draw(2);
            call(map ? "build_map" : "build_array", el, 0, wstate, [&] { if (map) mpack_build_map(w); else mpack_build_array(w); });
            if (el) {
                do_element();
                push(map ? mpack_type_map : mpack_type_array, 0, true);
            }
#endif
            break;
        }
        case W_BYTES: {
#if SIZE_MAX > 0xffffffff
            // more than any element can have, with the low bits of a legal count
            if (coin(1, 12)) {
                size_t huge = ((size_t)(1 + draw(3)) << 32) + (R->st.empty() || compound(R->st.back().type) ? draw(3) : (size_t)R->st.back().left);
                call("write_bytes (over 4 GB)", false, 0, wstate, [&] { mpack_write_bytes(w, kText, huge); });
                break;
            }
#endif
            uint32_t n = draw_n();
            bool ok = can_bytes(n);
            bytes_t b(n + 1, 'x');
            call("write_bytes", ok, 0, wstate, [&] { mpack_write_bytes(w, (const char*)b.data(), n); });
            if (ok)
                R->st.back().left -= n;
            break;
        }
        case W_FINISH: {
            mpack_type_t t = !R->st.empty() && !coin(1, 3) ? R->st.back().type : draw_type();
            bool ok = can_pop(t, false);
            bool generic = coin(1, 3);
            call("finish", ok, 0, wstate, [&] {
                if (generic) {
                    mpack_finish_type(w, t);
                    return;
                }
                switch (t) {
                    case mpack_type_array: mpack_finish_array(w); break;
                    case mpack_type_map: mpack_finish_map(w); break;
                    case mpack_type_str: mpack_finish_str(w); break;
                    case mpack_type_bin: mpack_finish_bin(w); break;
                    default:
#if MPACK_EXTENSIONS
                        mpack_finish_ext(w);
#endif
                        break;
                }
            });
            if (ok)
                R->st.pop_back();
            break;
        }
        case W_COMPLETE: {
#if MPACK_BUILDER
            bool map = R->st.empty() || coin(1, 3) ? draw(2) : R->st.back().type == mpack_type_map;
            bool ok = can_pop(map ? mpack_type_map : mpack_type_array, true);
            call(map ? "complete_map" : "complete_array", ok, 0, wstate, [&] { if (map) mpack_complete_map(w); else mpack_complete_array(w); });
            if (ok)
                R->st.pop_back();
#endif
            break;
        }
        default: {
            bool ok = R->st.empty();
            call("flush_message", ok, 0, wstate, [&] { mpack_writer_flush_message(w); });
            break;
        }
    }
}

// a call that the model says is legal
uint32_t w_legal() {
    if (R->st.empty())
        return draw(8) ? (draw(3) ? (draw(2) ? W_BUILD : W_START) : W_ELEM) : W_FLUSH;
    const Elem& e = R->st.back();
    if (!compound(e.type))
        return W_NOPS; // handled by w_close
    if (e.builder || e.left || e.needs_value) {
        uint32_t k = draw(8);
        return k < 4 ? W_ELEM : k < 6 ? W_START : W_BUILD;
    }
    return W_NOPS;
}

// closes the innermost element properly
void w_close() {
    mpack_writer_t* w = &R->w;
    while (!R->st.empty() && wstate() == mpack_ok) {
        Elem& e = R->st.back();
        if (!compound(e.type)) {
            uint32_t n = (uint32_t)e.left;
            bytes_t b(n + 1, 'y');
            if (n) {
                call("write_bytes", true, 0, wstate, [&] { mpack_write_bytes(w, (const char*)b.data(), n); });
                R->st.back().left = 0;
                if (R->gone || wstate() != mpack_ok)
                    return;
            }
        } else {
            while (R->st.back().needs_value || R->st.back().left) {
                call("write_nil", true, 0, wstate, [&] { mpack_write_nil(w); });
                do_element();
                if (R->gone || wstate() != mpack_ok)
                    return;
            }
        }
        mpack_type_t t = R->st.back().type;
        bool b = R->st.back().builder;
        call(b ? "complete" : "finish", true, 0, wstate, [&] {
#if MPACK_BUILDER
            if (b) {
                if (t == mpack_type_map) mpack_complete_map(w); else mpack_complete_array(w);
                return;
            }
#endif
            mpack_finish_type(w, t);
        });
        R->st.pop_back();
        if (R->gone || wstate() != mpack_ok || !coin(1, 2))
            return;
    }
}

void arm_alloc() {
    if (coin(1, 6)) {
        g_alloc.armed = true;
        g_alloc.fail_after = 1 + draw(12);
        g_alloc.fail_count = draw(2);
    }
}

void run_writer() {
    mpack_writer_t* w = &R->w;
    uint32_t sink = draw(2);
    char* grown = NULL;
    size_t grown_size = 0;
    GBuf buf(MPACK_WRITER_MINIMUM_BUFFER_SIZE + draw(80));
    R->ec.mode = draw_mode(true);
    ev("writer, %s, handler %s", sink ? "growable" : "flush", mode_name(R->ec.mode));
    arm_alloc();
    if (sink) {
        mpack_writer_init_growable(w, &grown, &grown_size);
    } else {
        mpack_writer_init(w, buf.p, buf.n);
        mpack_writer_set_flush(w, wflush);
    }
    mpack_error_t init = wstate();
    if (init != mpack_ok) {
        CHECK(init == mpack_error_memory && g_alloc.failed, "misuse.false", "init gave %s", err_name(init));
    } else if (R->ec.mode != H_NONE) {
        mpack_writer_set_error_handler(w, werror);
    }
    uint32_t ops = 1 + draw(coin(1, 3) ? 60 : 12);
    uint32_t misuse_at = coin(1, 5) ? 1000 : draw(ops);
    uint32_t limit = 1 + draw(coin(1, 4) ? 25 : 6);
    for (uint32_t i = 0; i < ops && !R->gone && wstate() == mpack_ok; ++i) {
        step_guard(2000000);
        if (i == misuse_at) {
            w_op(draw(W_NOPS));
            if (coin(1, 2))
                misuse_at = i + 1; // it may have been legal
            continue;
        }
        if (R->st.size() >= limit || coin(1, 5)) {
            w_close();
            continue;
        }
        uint32_t op = w_legal();
        if (op == W_NOPS)
            w_close();
        else
            w_op(op);
    }
    g_break_expected = 1;
    if (!R->gone && wstate() != mpack_ok) {
        for (uint32_t n = draw(5); n; --n)
            dead_call(wstate, [&] {
                switch (draw(7)) {
                    case 0: mpack_write_nil(w); break;
                    case 1: mpack_finish_array(w); break;
                    case 2: mpack_finish_type(w, draw_type()); break;
                    case 3: mpack_write_bytes(w, kText, 20); break;
                    case 4: mpack_start_map(w, 3); break;
#if MPACK_BUILDER
                    case 5: mpack_build_array(w); break;
                    case 6: mpack_complete_map(w); break;
#endif
                    default: mpack_writer_flush_message(w); break;
                }
            });
    } else if (!R->gone && coin(3, 4)) {
        while (!R->st.empty() && !R->gone && wstate() == mpack_ok)
            w_close();
    }
    // destroy
    if (!R->gone) {
        mpack_error_t before = wstate();
        int brk = g_break_hits;
        volatile mpack_error_t res = mpack_ok;
        uint64_t failed = g_alloc.failed;
        size_t delivered = R->out.size();
        bool ret = guarded(R->ec, [&] { res = mpack_writer_destroy(w); });
        mpack_error_t r = R->gone ? R->ec.destroy_result : (mpack_error_t)res;
        brk = g_break_hits - brk;
        if (!ret && !R->gone) {
            r = mpack_writer_destroy(w);
            CHECK(r == R->ec.first, "err.sticky", "the second destroy returned %s", err_name(r));
        }
        ev("destroy [depth %u] -> %s, %d breaks", (unsigned)R->st.size(), err_name(r), brk);
        if (before != mpack_ok) {
            CHECK(r == before, "err.sticky", "destroy returned %s instead of %s", err_name(r), err_name(before));
            CHECK(brk == 0, "misuse.false", "destroy after %s reached mpack_break()", err_name(before));
        } else if (R->st.empty()) {
            CHECK(brk == 0 && (r == mpack_ok || (r == mpack_error_memory && g_alloc.failed > failed)), "misuse.false",
                    "destroy with everything closed gave %s with %d breaks", err_name(r), brk);
        } else {
            FAULT("misuse");
            CHECK(!kDebug || brk > 0, "misuse.silent", "destroy with %u open elements did not reach mpack_break()", (unsigned)R->st.size());
            CHECK(r == mpack_error_bug, "misuse.missed", "destroy with %u open elements gave %s", (unsigned)R->st.size(), err_name(r));
            if (R->ec.mode != H_NONE)
                CHECK(R->ec.calls == 1, "err.no-callback", "destroy flagged a bug but the handler was called %u times", R->ec.calls);
            CHECK(R->out.size() == delivered, "flush.after-error", "destroy flushed a document with open elements");
            CHECK(grown == NULL, "growable.on-error", "destroy handed over a document with open elements");
        }
    }
    if (grown)
        sim_free(grown);
    buf.check("buffer.overrun");
}

// ------------------------------------------------------------ reader
void decode_tag(Val& v, size_t* len) {
    size_t p = R->pos;
    DecRes d = dec_tag(R->data.data(), R->data.size(), p, v, MPACK_EXTENSIONS != 0);
    CHECK(d == DEC_OK, "harness", "the model lost its place");
    *len = p - R->pos;
}
mpack_type_t type_of(const Val& v) {
    switch (v.k) {
        case K_NIL: return mpack_type_nil;
        case K_BOOL: return mpack_type_bool;
        case K_UINT: return mpack_type_uint;
        case K_INT: return mpack_type_int;
        case K_FLOAT: return mpack_type_float;
        case K_DOUBLE: return mpack_type_double;
        case K_STR: return mpack_type_str;
        case K_BIN: return mpack_type_bin;
#if MPACK_EXTENSIONS
        case K_EXT: return mpack_type_ext;
#endif
        case K_ARR: return mpack_type_array;
        default: return mpack_type_map;
    }
}
// the model after a tag was consumed
void tag_taken(const Val& v, size_t len) {
    do_element();
    R->pos += len;
    if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT || v.k == K_ARR || v.k == K_MAP)
        push(type_of(v), v.u, false);
}
void bytes_taken(uint64_t n) {
    R->st.back().left -= n;
    R->pos += (size_t)n;
}
const uint32_t kEnd = (1u << mpack_error_invalid) | (1u << mpack_error_io) | (1u << mpack_error_eof);

void r_tag() {
    mpack_reader_t* r = &R->rd;
    bool el = can_element(), end = R->pos >= R->data.size();
    Val v;
    size_t len = 0;
    if (el && !end)
        decode_tag(v, &len);
    uint32_t others = el && end ? kEnd : 0;
    uint32_t k = draw(16);
    bool take = true;
    uint32_t type_err = 1u << mpack_error_type;
    bool isarr = v.k == K_ARR, ismap = v.k == K_MAP, isstr = v.k == K_STR, isbin = v.k == K_BIN;
    switch (k) {
        default:
            call("read_tag", el, others, rstate, [&] {
                mpack_tag_t t = mpack_read_tag(r);
                if (el && !end && mpack_reader_error(r) == mpack_ok)
                    CHECK(mpack_tag_type(&t) == type_of(v), "read.tag", "read_tag returned a %s", mpack_type_to_string(mpack_tag_type(&t)));
            });
            break;
        case 8: case 9:
            call("peek_tag", el, others, rstate, [&] { mpack_peek_tag(r); });
            take = false;
            break;
        case 10: call("expect_nil", el, others | (v.k == K_NIL ? 0 : type_err), rstate, [&] { mpack_expect_nil(r); }); break;
        case 11: call("expect_u64", el, others | (v.k == K_UINT ? 0 : type_err), rstate, [&] { mpack_expect_u64(r); }); break;
        case 12: call("expect_str", el, others | (isstr ? 0 : type_err), rstate, [&] { mpack_expect_str(r); }); break;
        case 13: call("expect_bin", el, others | (isbin ? 0 : type_err), rstate, [&] { mpack_expect_bin(r); }); break;
        case 14: call("expect_array", el, others | (isarr ? 0 : type_err), rstate, [&] { mpack_expect_array(r); }); break;
        case 15: call("expect_map", el, others | (ismap ? 0 : type_err), rstate, [&] { mpack_expect_map(r); }); break;
    }
    if (el && !end && take && rstate() == mpack_ok)
        tag_taken(v, len);
}

void r_whole() { // discard, or calls that take a complete string
    mpack_reader_t* r = &R->rd;
    bool el = can_element(), end = R->pos >= R->data.size();
    uint32_t others = el && end ? kEnd : 0;
    Val v;
    size_t p = R->pos;
    if (el && !end) {
        DecRes d = dec_val(R->data.data(), R->data.size(), p, v, MPACK_EXTENSIONS != 0);
        CHECK(d == DEC_OK, "harness", "the model lost its place");
    }
    if (draw(2)) {
        call("discard", el, others, rstate, [&] { mpack_discard(r); });
    } else {
        char buf[64];
        memset(buf, 'q', sizeof(buf));
        bool fits = v.k == K_STR && v.data.size() < sizeof(buf) && ref_no_nul(v.data.data(), v.data.size());
        if (!fits)
            others |= (1u << mpack_error_type) | (v.k == K_STR ? 1u << mpack_error_too_big : 0);
        call("expect_cstr", el, others, rstate, [&] { mpack_expect_cstr(r, buf, sizeof(buf)); });
    }
    if (el && !end && rstate() == mpack_ok) {
        do_element();
        R->pos = p;
    }
}

void r_bytes(uint32_t n) {
    mpack_reader_t* r = &R->rd;
    bool ok = can_bytes(n), all = can_all(n);
    const uint8_t* d = R->data.data() + R->pos;
    bool utf8 = all && ref_utf8(d, n);
    bool nonul = all && ref_no_nul(d, n);
    uint32_t room = R->filled && n > R->buf_size ? 1u << mpack_error_too_big : 0;
    uint32_t type_err = 1u << mpack_error_type;
    // illegal calls still touch the destination
    bytes_t b(n + 2, 0);
    bool legal = ok;
    size_t bufsize = n + 1 - (n && coin(1, 6) ? 1 : 0);
    switch (draw(9)) {
        case 0: case 1: call("read_bytes", ok, 0, rstate, [&] {
                    mpack_read_bytes(r, (char*)b.data(), n);
                    if (ok && mpack_reader_error(r) == mpack_ok)
                        CHECK(memcmp(b.data(), d, n) == 0, "read.data", "read_bytes gave other bytes");
                });
                break;
        case 2: call("skip_bytes", ok, 0, rstate, [&] { mpack_skip_bytes(r, n); }); break;
        case 3: call("read_bytes_inplace", ok, room, rstate, [&] { mpack_read_bytes_inplace(r, n); }); break;
        case 4: legal = all; call("read_utf8", all, utf8 ? 0 : type_err, rstate, [&] { mpack_read_utf8(r, (char*)b.data(), n); }); break;
        case 5: legal = all; call("read_utf8_inplace", all, room | (utf8 ? 0 : type_err), rstate, [&] { mpack_read_utf8_inplace(r, n); }); break;
        case 6:
            legal = all;
            call("read_cstr", all, (nonul ? 0 : type_err) | (bufsize <= n ? 1u << mpack_error_too_big : 0), rstate,
                    [&] { mpack_read_cstr(r, (char*)b.data(), bufsize, n); });
            break;
        case 7:
            legal = all;
            call("read_utf8_cstr", all, (nonul && utf8 ? 0 : type_err) | (bufsize <= n ? 1u << mpack_error_too_big : 0), rstate,
                    [&] { mpack_read_utf8_cstr(r, (char*)b.data(), bufsize, n); });
            break;
        default: call("read_bytes_alloc", ok, 0, rstate, [&] { sim_free(mpack_read_bytes_alloc(r, n)); }); break;
    }
    if (legal && rstate() == mpack_ok)
        bytes_taken(n);
}

// more bytes than any element can have, with the low bits of a legal count
void r_huge() {
#if SIZE_MAX > 0xffffffff
    mpack_reader_t* r = &R->rd;
    size_t huge = ((size_t)(1 + draw(3)) << 32) + (R->st.empty() || compound(R->st.back().type) ? draw(3) : (size_t)R->st.back().left);
    switch (draw(3)) {
        case 0: call("skip_bytes (over 4 GB)", false, 0, rstate, [&] { mpack_skip_bytes(r, huge); }); break;
        case 1: call("read_bytes_inplace (over 4 GB)", false, 0, rstate, [&] { mpack_read_bytes_inplace(r, huge); }); break;
        default: call("read_utf8_inplace (over 4 GB)", false, 0, rstate, [&] { mpack_read_utf8_inplace(r, huge); }); break;
    }
#else
    r_bytes(draw_n());
#endif
}

void r_done() {
    mpack_reader_t* r = &R->rd;
    mpack_type_t t = !R->st.empty() && !coin(1, 3) ? R->st.back().type : draw_type();
    bool ok = can_pop(t, false), generic = coin(1, 3);
    call("done", ok, 0, rstate, [&] {
        if (generic) {
            mpack_done_type(r, t);
            return;
        }
        switch (t) {
            case mpack_type_array: mpack_done_array(r); break;
            case mpack_type_map: mpack_done_map(r); break;
            case mpack_type_str: mpack_done_str(r); break;
            case mpack_type_bin: mpack_done_bin(r); break;
            default:
#if MPACK_EXTENSIONS
                mpack_done_ext(r);
#endif
                break;
        }
    });
    if (ok && rstate() == mpack_ok)
        R->st.pop_back();
}

void r_timestamp() {
#if MPACK_EXTENSIONS
    mpack_reader_t* r = &R->rd;
    static const size_t sz[] = {4, 8, 12};
    size_t n = sz[draw(3)];
    bool ok = !R->st.empty() && R->st.back().type == mpack_type_ext && R->st.back().left == n;
    call("read_timestamp", ok, 1u << mpack_error_invalid, rstate, [&] { mpack_read_timestamp(r, n); });
    if (ok && rstate() == mpack_ok) {
        R->pos += n;
        R->st.pop_back();
    }
#else
    r_done();
#endif
}

void r_legal() {
    if (R->st.empty()) {
        if (coin(1, 8)) r_whole(); else r_tag();
        return;
    }
    Elem& e = R->st.back();
    if (e.left || e.needs_value) {
        if (!compound(e.type))
            r_bytes(coin(1, 2) ? (uint32_t)e.left : draw((uint32_t)(e.left < 100000 ? e.left : 100000) + 1));
        else if (coin(1, 8))
            r_whole();
        else
            r_tag();
    } else {
        mpack_reader_t* r = &R->rd;
        mpack_type_t t = e.type;
        call("done", true, 0, rstate, [&] { mpack_done_type(r, t); });
        if (rstate() == mpack_ok)
            R->st.pop_back();
    }
}

void run_reader() {
    mpack_reader_t* r = &R->rd;
    GenCfg g;
    gen_cfg_draw(g);
    if (g.budget > 3000)
        g.budget = 3000;
    g.allow_huge = false;
    if (!MPACK_EXTENSIONS) {
        g.kinds &= ~(1u << K_EXT);
        if (!g.kinds)
            g.kinds = 1u << K_STR;
    }
    uint32_t msgs = 1 + draw(3);
    for (uint32_t i = 0; i < msgs; ++i) {
        Val v;
        gen_val(g, v);
        enc_any(R->data, v, draw(3));
    }
    R->ec.mode = draw_mode(false);
    R->filled = draw(2);
    R->buf_size = MPACK_READER_MINIMUM_BUFFER_SIZE + draw(100);
    GBuf buf(R->buf_size);
    void* copy = dup_bytes(R->data.data(), R->data.size());
    ev("reader, %s, %lu bytes, handler %s", R->filled ? "fill" : "memory", (unsigned long)R->data.size(), mode_name(R->ec.mode));
    arm_alloc();
    if (R->filled) {
        R->src.data = R->data;
        R->src.limit = R->data.size();
        R->src.off = 0;
        stream_draw(R->src);
        mpack_reader_init(r, buf.p, buf.n, 0);
        if (rstate() == mpack_ok)
            mpack_reader_set_fill(r, rfill);
    } else {
        mpack_reader_init_data(r, (const char*)copy, R->data.size());
    }
    if (rstate() != mpack_ok)
        CHECK(rstate() == mpack_error_memory && g_alloc.failed, "misuse.false", "init gave %s", err_name(rstate()));
    else if (R->ec.mode != H_NONE)
        mpack_reader_set_error_handler(r, rerror);
    uint32_t ops = 1 + draw(coin(1, 3) ? 80 : 16);
    uint32_t misuse_at = coin(1, 5) ? 1000 : draw(ops);
    for (uint32_t i = 0; i < ops && rstate() == mpack_ok; ++i) {
        step_guard(2000000);
        if (i == misuse_at) {
            static const uint32_t w[] = {4, 2, 5, 5, 1, 1};
            switch (pickw(w)) {
                case 0: r_tag(); break;
                case 1: r_whole(); break;
                case 2: coin(1, 10) ? r_huge() : r_bytes(draw_n()); break;
                case 3: r_done(); break;
                case 4: r_timestamp(); break;
                default: {
                    bool ok = R->st.empty();
                    call("remaining", ok, 0, rstate, [&] { mpack_reader_remaining(r, NULL); });
                    break;
                }
            }
            if (coin(1, 2))
                misuse_at = i + 1;
            continue;
        }
        if (R->st.empty() && R->pos >= R->data.size())
            break;
        r_legal();
    }
    if (rstate() != mpack_ok) {
        for (uint32_t n = draw(5); n; --n)
            dead_call(rstate, [&] {
                char b[20];
                switch (draw(8)) {
                    case 0: mpack_read_tag(r); break;
                    case 1: mpack_peek_tag(r); break;
                    case 2: mpack_done_type(r, draw_type()); break;
                    case 3: mpack_read_bytes(r, b, sizeof(b)); break;
                    case 4: mpack_read_bytes_inplace(r, 5); break;
                    case 5: mpack_discard(r); break;
                    case 6: CHECK(mpack_reader_remaining(r, NULL) == 0, "remaining.on-error", "remaining after an error is not 0"); break;
                    default: mpack_read_cstr(r, b, sizeof(b), 10); break;
                }
            });
    } else if (coin(1, 2)) {
        // read the rest properly
        while (rstate() == mpack_ok && (!R->st.empty() || R->pos < R->data.size()))
            r_legal();
    }
    mpack_error_t before = rstate();
    int brk = g_break_hits;
    volatile mpack_error_t res = mpack_ok;
    bool ret = guarded(R->ec, [&] { res = mpack_reader_destroy(r); });
    brk = g_break_hits - brk;
    if (!ret)
        res = mpack_reader_destroy(r);
    ev("destroy [depth %u] -> %s, %d breaks", (unsigned)R->st.size(), err_name(res), brk);
    if (before != mpack_ok) {
        CHECK(res == before, "err.sticky", "destroy returned %s instead of %s", err_name(res), err_name(before));
        CHECK(brk == 0, "misuse.false", "destroy after %s reached mpack_break()", err_name(before));
    } else if (R->st.empty()) {
        CHECK(brk == 0 && res == mpack_ok, "misuse.false", "destroy with everything closed gave %s with %d breaks", err_name(res), brk);
    } else {
        FAULT("misuse");
        CHECK(!kDebug || brk > 0, "misuse.silent", "destroy with %u open elements did not reach mpack_break()", (unsigned)R->st.size());
        CHECK(res == mpack_error_bug, "misuse.missed", "destroy with %u open elements gave %s", (unsigned)R->st.size(), err_name(res));
        if (R->ec.mode != H_NONE)
            CHECK(R->ec.calls == 1, "err.no-callback", "destroy flagged a bug but the handler was called %u times", R->ec.calls);
    }
    free(copy);
    buf.check("buffer.overrun");
}

// ------------------------------------------------------------ misuse checked in every build
void write_filler(mpack_writer_t* w, uint32_t n) {
    for (uint32_t i = 0; i < n && wstate() == mpack_ok; ++i) {
        switch (draw(4)) {
            case 0: mpack_write_nil(w); break;
            case 1: mpack_write_u32(w, 70000); break;
            case 2: mpack_write_str(w, kText, draw(80)); break;
            default:
                mpack_start_array(w, 1);
                mpack_write_true(w);
                mpack_finish_array(w);
                break;
        }
    }
}

void always_writer(uint32_t what) {
    mpack_writer_t* w = &R->w;
    char* grown = NULL;
    size_t grown_size = 0;
    GBuf buf(1600 + draw(100));
    static const char* names[] = {"flush_message in a build", "flush_message without flush function", "complete_map after an odd number",
        "complete around an unfinished array", "destroy in a build", "timestamp nanoseconds", "v5 types in v4 mode", "write a missing tag", "small flush buffer"};
    uint32_t sink = what == 1 ? 0 : what == 8 ? 3 : draw(2) + 1; // fixed, flush, growable, tiny
    bool v4 = what == 6;
    R->ec.mode = draw_mode(true);
    ev("%s, sink %u, handler %s", names[what], sink, mode_name(R->ec.mode));
    if (sink == 2) {
        mpack_writer_init_growable(w, &grown, &grown_size);
    } else if (sink == 3) {
        mpack_writer_init(w, buf.p, draw(MPACK_WRITER_MINIMUM_BUFFER_SIZE));
    } else {
        mpack_writer_init(w, buf.p, buf.n);
        if (sink == 1)
            mpack_writer_set_flush(w, wflush);
    }
    if (R->ec.mode != H_NONE)
        mpack_writer_set_error_handler(w, werror);
#if MPACK_COMPATIBILITY
    if (v4)
        mpack_writer_set_version(w, mpack_version_v4);
#else
    if (v4)
        what = 7;
#endif
#if !MPACK_BUILDER
    if (what == 0 || what == 2 || what == 3 || what == 4)
        what = 7;
#endif
#if !MPACK_EXTENSIONS
    if (what == 5 || what == 6)
        what = 7;
#endif
    uint32_t fill = draw(6), nest = 1 + draw(4);
    if (what != 8 && wstate() == mpack_ok && !v4)
        write_filler(w, fill);
    bool destroyed = false;
    volatile mpack_error_t dres = mpack_ok;
    switch (what) {
#if MPACK_BUILDER
        case 0: case 4: {
            for (uint32_t i = 0; i < nest; ++i) {
                mpack_build_array(w);
                write_filler(w, draw(4));
            }
            if (what == 0) {
                call("flush_message in a build", false, 0, wstate, [&] { mpack_writer_flush_message(w); });
            } else {
                destroyed = true;
                call("destroy in a build", false, 0, wstate, [&] { dres = mpack_writer_destroy(w); });
            }
            break;
        }
        case 2: {
            for (uint32_t i = 1; i < nest; ++i) {
                mpack_build_array(w);
                write_filler(w, draw(4));
            }
            mpack_build_map(w);
            write_filler(w, 2 * draw(4) + 1);
            call("complete_map after an odd number of elements", false, 0, wstate, [&] { mpack_complete_map(w); });
            break;
        }
        case 3: {
            for (uint32_t i = 1; i < nest; ++i) {
                mpack_build_array(w);
                write_filler(w, draw(4));
            }
            mpack_build_array(w);
            uint32_t k = 1 + draw(3);
            for (uint32_t i = 0; i < k; ++i) {
                mpack_start_array(w, 3);
                write_filler(w, draw(3));
            }
            call("complete_array around an unfinished array", false, 0, wstate, [&] { mpack_complete_array(w); });
            break;
        }
#endif
        case 1: call("flush_message without a flush function", false, 0, wstate, [&] { mpack_writer_flush_message(w); }); break;
#if MPACK_EXTENSIONS
        case 5: call("write_timestamp with too many nanoseconds", false, 0, wstate, [&] {
                    uint32_t ns = draw(2) ? MPACK_TIMESTAMP_NANOSECONDS_MAX + 1 + draw(1000) : UINT32_MAX - draw(1000);
                    mpack_write_timestamp(w, (int64_t)draw(100000) - 50000, ns);
                });
                break;
        case 6: call("ext in v4 mode", false, 0, wstate, [&] {
                    switch (draw(4)) {
                        case 0: mpack_start_ext(w, 3, draw(20)); break;
                        case 1: mpack_write_timestamp(w, draw(1000), 0); break;
                        case 2: mpack_write_tag(w, mpack_tag_make_ext(3, draw(20))); break;
                        default: mpack_write_ext(w, 3, kText, draw(40)); break;
                    }
                });
                break;
#endif
        case 7: call("write_tag of a missing value", false, 0, wstate, [&] {
                    mpack_tag_t t = mpack_tag_nil();
                    t.type = mpack_type_missing;
                    mpack_write_tag(w, t);
                });
                break;
        case 8: call("set_flush with a small buffer", false, 0, wstate, [&] { mpack_writer_set_flush(w, wflush); }); break;
    }
    size_t delivered = R->out.size();
    if (!R->gone) {
        if (!destroyed || (R->ec.calls && (R->ec.mode == H_JUMP)))
            dres = mpack_writer_destroy(w);
    } else {
        dres = R->ec.destroy_result;
    }
    CHECK(dres == mpack_error_bug, "misuse.missed", "destroy returned %s after the misuse (%s)", err_name(dres), names[what]);
    CHECK(R->out.size() == delivered, "flush.after-error", "data was flushed after the misuse");
    CHECK(grown == NULL, "growable.on-error", "the growable writer handed over data after the misuse");
    buf.check("buffer.overrun");
}

void always_reader(uint32_t what) {
    mpack_reader_t* r = &R->rd;
    GBuf buf(200);
    R->ec.mode = draw_mode(false);
    static const uint8_t msg[] = {0xa3, 'a', 'b', 'c', 0x05, 0xc0};
    void* copy = dup_bytes(msg, sizeof(msg));
    if (what == 0) {
        mpack_reader_init(r, buf.p, draw(MPACK_READER_MINIMUM_BUFFER_SIZE - 1) + 1, 0);
    } else if (what == 1) {
        mpack_reader_init_data(r, (const char*)copy, sizeof(msg));
    } else if (draw(2)) {
        mpack_reader_init_data(r, (const char*)copy, sizeof(msg));
    } else {
        R->src.data.assign(msg, msg + sizeof(msg));
        R->src.limit = sizeof(msg);
        stream_draw(R->src);
        mpack_reader_init(r, buf.p, buf.n, 0);
        mpack_reader_set_fill(r, rfill);
    }
    if (R->ec.mode != H_NONE)
        mpack_reader_set_error_handler(r, rerror);
    bool found[2] = {false, false};
    switch (what) {
        case 0: case 1: call("set_fill without a proper buffer", false, 0, rstate, [&] { mpack_reader_set_fill(r, rfill); }); break;
        case 2: call("expect_cstr_alloc(0)", false, 0, rstate, [&] { CHECK(mpack_expect_cstr_alloc(r, 0) == NULL, "expect.on-error", "not NULL"); }); break;
        case 3: call("expect_utf8_cstr_alloc(0)", false, 0, rstate, [&] { CHECK(mpack_expect_utf8_cstr_alloc(r, 0) == NULL, "expect.on-error", "not NULL"); }); break;
        default: call("expect_key_uint with no keys", false, 0, rstate, [&] { CHECK(mpack_expect_key_uint(r, found, 0) == 0, "expect.on-error", "not count"); }); break;
    }
    mpack_error_t e = mpack_reader_destroy(r);
    CHECK(e == mpack_error_bug, "misuse.missed", "destroy returned %s after the misuse", err_name(e));
    free(copy);
    buf.check("buffer.overrun");
}

size_t tree_read(mpack_tree_t*, char* buf, size_t count) { return stream_deliver(R->src, buf, count); }

void always_tree(uint32_t what) {
    mpack_tree_t* t = &R->tree;
    R->ec.mode = draw_mode(false);
    static const uint8_t msg[] = {0x92, 0xa3, 'a', 'b', 'c', 0x05};
    void* copy = dup_bytes(msg, sizeof(msg));
    mpack_node_data_t pool[4];
    sim_stale(pool, sizeof(pool));
    bool handler = true;
    switch (what) {
        case 0: { // root before parsing
            uint32_t kind = draw(3);
            if (kind == 0) {
                mpack_tree_init_data(t, (const char*)copy, sizeof(msg));
            } else if (kind == 1) {
                mpack_tree_init_pool(t, (const char*)copy, sizeof(msg), pool, 4);
            } else {
                R->src.data.assign(msg, msg + sizeof(msg));
                stream_draw(R->src);
                R->src.limit = draw(sizeof(msg));
                R->src.fault = SF_NONE;
                mpack_tree_init_stream(t, tree_read, NULL, 1000, 1000);
                if (draw(2))
                    CHECK(!mpack_tree_try_parse(t), "tree.early", "try_parse succeeded without the whole message");
                if (mpack_tree_error(t) != mpack_ok) { // a stream that ends: no misuse to check
                    mpack_tree_destroy(t);
                    free(copy);
                    return;
                }
            }
            if (R->ec.mode != H_NONE)
                mpack_tree_set_error_handler(t, terror);
            call("root of a tree that was not parsed", false, 0, tstate, [&] {
                mpack_node_t n = mpack_tree_root(t);
                CHECK(mpack_node_type(n) == mpack_type_nil, "node.on-error", "the root is not nil");
            });
            break;
        }
        case 1:
            handler = false;
            R->ec.mode = H_NONE;
            call("an empty node pool", false, 0, tstate, [&] { mpack_tree_init_pool(t, (const char*)copy, sizeof(msg), pool, 0); });
            break;
        case 2:
        case 3: {
            mpack_tree_init_data(t, (const char*)copy, sizeof(msg));
            if (R->ec.mode != H_NONE)
                mpack_tree_set_error_handler(t, terror);
            mpack_tree_parse(t);
            mpack_node_t n = mpack_node_array_at(mpack_tree_root(t), draw(2));
            call("cstr_alloc(0)", false, 0, tstate, [&] {
                char* s = what == 2 ? mpack_node_cstr_alloc(n, 0) : mpack_node_utf8_cstr_alloc(n, 0);
                CHECK(s == NULL, "node.on-error", "cstr_alloc(0) returned something");
            });
            break;
        }
#if MPACK_STDIO
        default: {
            handler = false;
            R->ec.mode = H_NONE;
            SimFile* f = fs_file("in.mp", true);
            f->data.assign(msg, msg + sizeof(msg));
            size_t max = draw(2) ? SIZE_MAX : (size_t)LONG_MAX + 1 + draw(100);
            FILE* file = draw(2) ? fs_open("in.mp", "rb") : NULL;
            call("a size limit over LONG_MAX", false, 0, tstate, [&] {
                if (file)
                    mpack_tree_init_stdfile(t, file, max, draw(2));
                else
                    mpack_tree_init_filename(t, "in.mp", max);
            });
            if (file && fs_is_open(file))
                fs_close(file);
            CHECK(fs_open_count() == 0, "file.leak", "a file is still open");
            break;
        }
#endif
    }
    (void)handler;
    mpack_error_t e = mpack_tree_destroy(t);
    CHECK(e == mpack_error_bug, "misuse.missed", "destroy returned %s after the misuse", err_name(e));
    free(copy);
}

// ------------------------------------------------------------ objects that begin in an error state
const int kCtx = 7;
uint32_t g_teardowns;
template <class T> void born_teardown(T* o, void* ctx) {
    nest();
    CHECK(ctx == &kCtx, "teardown.context", "the context was lost before the teardown");
    CHECK(++g_teardowns == 1, "teardown.twice", "the teardown was called %u times", g_teardowns);
    (void)o;
}
void wteardown(mpack_writer_t* w) { born_teardown(w, mpack_writer_context(w)); }
void rteardown(mpack_reader_t* r) { born_teardown(r, mpack_reader_context(r)); }
void tteardown(mpack_tree_t* t) { born_teardown(t, mpack_tree_context(t)); }

void born_end(mpack_error_t e, mpack_error_t res, bool teardown) {
    ev("destroy -> %s", err_name(res));
    CHECK(res == e, "err.sticky", "born in error %s but destroy returned %s", err_name(e), err_name(res));
    CHECK(R->ec.calls == 0, "err.twice", "the handler was called for the error the object began in");
    CHECK(g_teardowns == (teardown ? 1 : 0), "teardown.missing", "%u teardown calls", g_teardowns);
    HIT("probe:init-error");
}

void born_writer() {
    mpack_writer_t* w = &R->w;
    mpack_error_t e = user_error();
    R->ec.mode = draw_mode(false);
    ev("writer in error %s, handler %s", err_name(e), mode_name(R->ec.mode));
    FAULT("init-error");
    mpack_writer_init_error(w, e);
    bool td = coin(1, 2);
    g_teardowns = 0;
    if (coin(1, 2)) {
        mpack_writer_set_context(w, (void*)&kCtx);
        if (td)
            mpack_writer_set_teardown(w, wteardown);
    } else {
        td = false;
    }
    if (R->ec.mode != H_NONE)
        mpack_writer_set_error_handler(w, werror);
    CHECK(wstate() == e, "err.mismatch", "born in %s, not %s", err_name(wstate()), err_name(e));
    for (uint32_t n = draw(12); n; --n)
        dead_call(wstate, [&] {
            switch (draw(19)) {
                case 0: mpack_write_nil(w); break;
                case 1: mpack_write_u64(w, (uint64_t)1 << draw(64)); break;
                case 2: mpack_write_i64(w, -((int64_t)1 << draw(63))); break;
                case 3: mpack_write_str(w, kText, draw(80)); break;
                case 4: mpack_write_bin(w, kText, draw(80)); break;
                case 5: mpack_start_array(w, draw(100000)); break;
                case 6: mpack_start_map(w, draw(100000)); break;
                case 7: mpack_finish_array(w); break;
                case 8: mpack_finish_map(w); break;
                case 9: mpack_start_str(w, draw(100)); break;
                case 10: mpack_write_bytes(w, kText, draw(80)); break;
                case 11: mpack_finish_type(w, draw_type()); break;
                case 12: mpack_write_tag(w, mpack_tag_make_uint(draw(70000))); break;
                case 13: mpack_write_object_bytes(w, kText, draw(80)); break;
                case 14: mpack_writer_flag_error(w, user_error()); break;
                case 15: mpack_write_utf8_cstr_or_nil(w, draw(2) ? kText : NULL); break;
#if MPACK_BUILDER
                case 16: draw(2) ? mpack_build_array(w) : mpack_build_map(w); break;
                case 17: draw(2) ? mpack_complete_array(w) : mpack_complete_map(w); break;
#endif
                default:
                    CHECK(mpack_writer_buffer_used(w) == 0 && mpack_writer_buffer_left(w) == 0 && mpack_writer_buffer_size(w) == 0, "out.on-error",
                        "a writer without a buffer has one");
                    break;
            }
        });
    born_end(e, mpack_writer_destroy(w), td);
    CHECK(R->out.empty(), "out.on-error", "data came out of a writer that began in an error");
}

void born_reader() {
    mpack_reader_t* r = &R->rd;
    mpack_error_t e = user_error();
    R->ec.mode = draw_mode(false);
    ev("reader in error %s, handler %s", err_name(e), mode_name(R->ec.mode));
    FAULT("init-error");
    mpack_reader_init_error(r, e);
    bool td = coin(1, 2);
    g_teardowns = 0;
    if (coin(1, 2)) {
        mpack_reader_set_context(r, (void*)&kCtx);
        if (td)
            mpack_reader_set_teardown(r, rteardown);
    } else {
        td = false;
    }
    if (R->ec.mode != H_NONE)
        mpack_reader_set_error_handler(r, rerror);
    CHECK(rstate() == e, "err.mismatch", "born in %s, not %s", err_name(rstate()), err_name(e));
    for (uint32_t n = draw(12); n; --n)
        dead_call(rstate, [&] {
            char b[40];
            size_t len = draw(sizeof(b)) + 1;
            memset(b, 1, sizeof(b));
            bool ok = true;
            switch (draw(22)) {
                case 0: ok = mpack_tag_equal(mpack_read_tag(r), mpack_tag_make_nil()); break;
                case 1: ok = mpack_tag_equal(mpack_peek_tag(r), mpack_tag_make_nil()); break;
                case 2: mpack_done_type(r, draw_type()); break;
                case 3: mpack_read_bytes(r, b, len); break;
                case 4: ok = mpack_read_bytes_inplace(r, len) == NULL; break;
                case 5: mpack_discard(r); break;
                case 6: mpack_skip_bytes(r, len); break;
                case 7: mpack_read_cstr(r, b, sizeof(b), len - 1); ok = b[0] == 0; break;
                case 8: mpack_reader_flag_error(r, user_error()); break;
                case 9: { const char* p = "x"; ok = mpack_reader_remaining(r, draw(2) ? &p : NULL) == 0; break; }
                case 10: mpack_read_utf8(r, b, len); break;
                case 11: ok = mpack_read_utf8_inplace(r, len) == NULL; break;
                case 12: ok = mpack_reader_error(r) == e; break;
#if MPACK_EXPECT
                case 13: ok = mpack_expect_u32(r) == 0 && mpack_expect_i64(r) == 0; break;
                case 14: ok = mpack_expect_array(r) == 0 && mpack_expect_map(r) == 0; break;
                case 15: ok = mpack_expect_str_buf(r, b, len) == 0; break;
                case 16: mpack_expect_cstr(r, b, len); ok = b[0] == 0; break;
                case 17: ok = !mpack_expect_bool(r) && mpack_expect_int_range(r, -3, 5) == -3; break;
                case 18: mpack_expect_nil(r); break;
                case 19: { uint32_t c = 9; ok = !mpack_expect_array_max_or_nil(r, 5, &c) && c == 0; break; }
                case 20: { bool f[2] = {false, false}; ok = mpack_expect_key_uint(r, f, 2) == 2 && !f[0] && !f[1]; break; }
#endif
                default: ok = mpack_reader_context(r) == NULL || mpack_reader_context(r) == &kCtx; break;
            }
            CHECK(ok, "read.on-error", "a call on a reader that began in an error gave something");
        });
    born_end(e, mpack_reader_destroy(r), td);
}

void born_tree() {
    mpack_tree_t* t = &R->tree;
    mpack_error_t e = user_error();
    R->ec.mode = draw_mode(false);
    ev("tree in error %s, handler %s", err_name(e), mode_name(R->ec.mode));
    FAULT("init-error");
    mpack_tree_init_error(t, e);
    bool td = coin(1, 2);
    g_teardowns = 0;
    if (coin(1, 2)) {
        mpack_tree_set_context(t, (void*)&kCtx);
        if (td)
            mpack_tree_set_teardown(t, tteardown);
    } else {
        td = false;
    }
    if (R->ec.mode != H_NONE)
        mpack_tree_set_error_handler(t, terror);
    CHECK(tstate() == e, "err.mismatch", "born in %s, not %s", err_name(tstate()), err_name(e));
    for (uint32_t n = draw(12); n; --n)
        dead_call(tstate, [&] {
            bool ok = true;
            mpack_node_t root = mpack_tree_root(t);
            char b[20];
            memset(b, 1, sizeof(b));
            switch (draw(14)) {
                case 0: mpack_tree_parse(t); break;
                case 1: ok = !mpack_tree_try_parse(t); break;
                case 2: ok = mpack_node_type(root) == mpack_type_nil; break;
                case 3: ok = mpack_tree_size(t) == 0; break;
                case 4: mpack_tree_flag_error(t, user_error()); break;
                case 5: mpack_node_flag_error(root, user_error()); break;
                case 6: ok = mpack_node_error(root) == e; break;
                case 7: ok = mpack_node_type(mpack_node_array_at(root, draw(5))) == mpack_type_nil; break;
                case 8: ok = mpack_node_type(mpack_node_map_cstr(root, "a")) == mpack_type_nil; break;
                case 9: ok = mpack_node_u64(root) == 0 && mpack_node_i16(root) == 0 && !mpack_node_bool(root); break;
                case 10: ok = mpack_node_str(root) == NULL && mpack_node_strlen(root) == 0 && mpack_node_data_len(root) == 0; break;
                case 11: mpack_node_copy_cstr(root, b, 1 + draw(sizeof(b))); ok = b[0] == 0; break;
                case 12: ok = mpack_node_cstr_alloc(root, 10) == NULL; break;
                default: ok = mpack_tag_equal(mpack_node_tag(root), mpack_tag_make_nil()); break;
            }
            CHECK(ok, "node.on-error", "a call on a tree that began in an error gave something");
        });
    born_end(e, mpack_tree_destroy(t), td);
}

void engine_misuse() {
    MRun run = MRun();
    R = &run;
    sim_stale(&run.w, sizeof(run.w));
    sim_stale(&run.rd, sizeof(run.rd));
    sim_stale(&run.tree, sizeof(run.tree));
    g_break_expected = 1;
    if (prof("always")) {
        uint32_t k = draw(23);
        if (k < 9)
            always_writer(k);
        else if (k < 14)
            always_reader(k - 9);
        else if (k == 19)
            born_writer();
        else if (k == 20 || k == 22)
            born_reader();
        else if (k == 21)
            born_tree();
        else
            always_tree(MPACK_STDIO ? k - 14 : (k - 14) % 4);
    } else if (prof("wtrack")) {
        run_writer();
    } else {
        run_reader();
    }
    g_alloc.armed = false;
    alloc_check_leaks("leak", "destroy");
    R = NULL;
}
EngineReg reg("misuse", engine_misuse);

}
#endif
