// Programs against a reader over simulated sources: shared by the engines
// "reader" (tag API) and "expect" (Expect API).
#pragma once
#include "stream.h"

enum Src { Q_DATA, Q_BUF, Q_FILL, Q_STDFILE, Q_STDFILE_CLOSE, Q_FILENAME, Q_N };
static const char* src_names[] = {"data", "buffer", "fill", "stdfile", "stdfile-close", "filename"};

struct RRun {
    mpack_reader_t rd;
    ErrCtl ec;
    Src src;
    Stream s;
    size_t pos;            // consumed, by the model
    bool stopped, destroyed, live;
    bool use_skip;
    char* buf;
    size_t buf_size;
    char* data_copy;
    FILE* file;
    size_t file_base;      // offset of the stream in the file
    uint64_t fills, skips;
    uint32_t teardowns;
    bool user_teardown;
    bool sloppy_skip;      // a seek may have jumped over the read fault
    bool ext_ok;
    uint64_t alloc_failed0;
    uint64_t elements;
    bool p_inplace, p_alloc, p_skip;
    uint32_t cancel_in;        // the program flags an error after this many steps (0: never)
    mpack_error_t cancel_code;
    bool in_error_tail;
    bool seeking_ok;
    mpack_tag_t tags[2];       // the last tags read
    Val vals[2];
    unsigned ntags;
};
static RRun* R;

static void on_error(mpack_reader_t* rd, mpack_error_t e) {
    nest();
    RRun& r = *R;
    ErrCtl& c = r.ec;
    CHECK(rd == &r.rd, "err.object", "error handler called for another reader");
    c.calls++;
    ev("error handler(%s)", err_name(e));
    CHECK(c.calls == 1, "err.twice", "the error handler was called %u times", c.calls);
    CHECK(e != mpack_ok, "err.ok", "the error handler was called with mpack_ok");
    CHECK(mpack_reader_error(rd) == e, "err.mismatch", "handler got %s but the reader is in state %s", err_name(e), err_name(mpack_reader_error(rd)));
    if (r.src <= Q_FILL)
        CHECK(mpack_reader_context(rd) == (void*)&r, "err.context", "the error handler (%s) was called without the context of the reader", err_name(e));
    c.first = e;
    ++g_nontrivial;
    if (c.mode == H_DESTROY || c.mode == H_DESTROY_JUMP) {
        c.destroyed = true;
        r.destroyed = true;
        HIT("probe:destroy-in-handler");
        c.destroy_result = mpack_reader_destroy(rd);
        CHECK(c.destroy_result == e, "err.sticky", "destroy in the handler returned %s, error was %s", err_name(c.destroy_result), err_name(e));
        // the reader is gone, so its buffer may be reused at once
        if (r.buf) {
            sim_free(r.buf);
            r.buf = NULL;
        }
    }
    if ((c.mode == H_JUMP || c.mode == H_DESTROY_JUMP) && c.armed)
        longjmp(c.jb, 1);
}

static size_t fill_fn(mpack_reader_t* rd, char* buffer, size_t count) {
    RRun& r = *R;
    Stream& s = r.s;
    r.fills++;
    s.calls++;
    ++g_nontrivial;
    CHECK(rd == &r.rd && mpack_reader_context(rd) == (void*)&r, "fill.context", "fill called with the wrong reader or context");
    CHECK(!r.destroyed && mpack_reader_error(rd) == mpack_ok, "fill.after-error", "fill called although the reader is in an error state or destroyed");
    CHECK(count > 0, "fill.zero", "fill called for zero bytes");
    CHECK(!s.failed, "fill.after-failure", "fill called again although it has reported a failure");
    step_guard(g_steps + 2000000);
    if (s.off >= s.need)
        violate("block.needless", "fill called with %lu bytes delivered although the operation needs only %lu", (unsigned long)s.off, (unsigned long)s.need);
    size_t n = stream_deliver(s, buffer, count);
    ev("fill(%lu) -> %lu", (unsigned long)count, (unsigned long)n);
    if (n == 0) {
        s.failed = true;
        switch (s.fault) {
            case SF_FLAG:
                FAULT("fill-error");
                mpack_reader_flag_error(rd, s.code);
                return draw(2) ? 0 : 1; // the count does not matter any more
            case SF_MINUS1:
                FAULT("fill-minus-one");
                return (size_t)-1;
            case SF_ZERO:
                FAULT("fill-zero");
                return 0;
            default:
                return 0;
        }
    }
    return n;
}

static void skip_fn(mpack_reader_t* rd, size_t count) {
    nest();
    RRun& r = *R;
    Stream& s = r.s;
    r.skips++;
    ++g_nontrivial;
    CHECK(rd == &r.rd && mpack_reader_context(rd) == (void*)&r, "fill.context", "skip called with the wrong reader or context");
    CHECK(!r.destroyed && mpack_reader_error(rd) == mpack_ok, "fill.after-error", "skip called although the reader is in an error state or destroyed");
    CHECK(!s.failed, "fill.after-failure", "skip called although the source has reported a failure");
    ev("skip(%lu)", (unsigned long)count);
    HIT("probe:skip-callback");
    step_guard(g_steps + 2000000);
    if (count > s.limit - s.off) {
        s.off = s.limit;
        s.failed = true;
        FAULT("skip-error");
        mpack_reader_flag_error(rd, s.fault == SF_FLAG ? s.code : mpack_error_io);
        return;
    }
    s.off += count;
    CHECK(s.off <= s.need, "skip.beyond", "skipped to offset %lu although the operation ends at %lu", (unsigned long)s.off, (unsigned long)s.need);
}

static void teardown_fn(mpack_reader_t* rd) {
    nest();
    CHECK(rd == &R->rd && mpack_reader_context(rd) == (void*)R, "err.context", "the teardown function was called without the context of the reader");
    R->teardowns++;
    ev("teardown");
    CHECK(R->teardowns == 1, "teardown.twice", "the teardown function was called %u times", R->teardowns);
}

// ---------------------------------------------------------------- expectations
static const uint32_t X_OK = 1u << 0, X_TRUNC = 1u << 1, X_INVALID = 1u << 2, X_UNSUP = 1u << 3, X_TYPE = 1u << 4, X_TOOBIG = 1u << 5, X_MEM = 1u << 6, X_USER = 1u << 7;

static bool is_file() { return R->src >= Q_STDFILE; }

static bool trunc_code_ok(mpack_error_t e) {
    RRun& r = *R;
    switch (r.src) {
        case Q_DATA: case Q_BUF: return e == mpack_error_invalid;
        case Q_FILL: return e == (r.s.fault == SF_FLAG ? r.s.code : mpack_error_io);
        default: return e == mpack_error_io || (e == mpack_error_eof && !g_fs.read_err_fired);
    }
}

// Begin an operation that needs the stream up to absolute offset `need`.
static size_t sat(size_t a, size_t b) { return b > SIZE_MAX - a ? SIZE_MAX : a + b; }
static void op_begin(size_t need) {
    R->s.need = need;
    R->alloc_failed0 = g_alloc.failed;
}

// Ends it; `expect` is a mask. Returns true if it succeeded.
static bool op_end(const char* what, uint32_t expect) {
    RRun& r = *R;
    if (r.destroyed) {
        r.stopped = true;
        ev("op %s: reader destroyed in handler", what);
        if (!(expect & ~X_OK) && g_alloc.failed == r.alloc_failed0)
            violate("err.spurious", "%s failed with %s although nothing went wrong", what, err_name(r.ec.first));
        return false;
    }
    mpack_error_t e = mpack_reader_error(&r.rd);
    ev("op %s -> %s", what, err_name(e));
    state_point(hash64((uint64_t)r.src * 64 + (e != mpack_ok) * 32 + (expect & 31), hash64((r.s.off - r.pos) % 512, strlen(what) * 131 + (uint8_t)what[0] + (uint8_t)what[strlen(what) - 1])));
    if (e == mpack_ok) {
        CHECK(r.ec.calls == 0 && !r.ec.jumped, "err.lost", "an error was reported to the handler but the reader is not in an error state");
        if (!(expect & X_OK)) {
            if (expect & X_TRUNC)
                violate("trunc.accepted", "%s succeeded although the stream ends at %lu of the %lu bytes it needs (source %s)", what, (unsigned long)r.s.limit, (unsigned long)r.s.need, src_names[r.src]);
            violate("bad.accepted", "%s succeeded at offset %lu although it must fail (mask %x)", what, (unsigned long)r.pos, expect);
        }
        return true;
    }
    r.stopped = true;
    if (r.ec.mode != H_NONE)
        CHECK(r.ec.calls == 1, "err.no-callback", "reader is in error state %s but the handler was called %u times", err_name(e), r.ec.calls);
    if (r.ec.calls)
        CHECK(e == r.ec.first, "err.sticky", "error changed from %s to %s", err_name(r.ec.first), err_name(e));
    bool ok = false;
    if ((expect & X_TRUNC) && trunc_code_ok(e)) ok = true;
    if ((expect & X_INVALID) && e == mpack_error_invalid) ok = true;
    if ((expect & X_UNSUP) && e == mpack_error_unsupported) ok = true;
    if ((expect & X_TYPE) && e == mpack_error_type) ok = true;
    if ((expect & X_TOOBIG) && e == mpack_error_too_big) ok = true;
    if ((expect & X_MEM) && e == mpack_error_memory) ok = true;
    if ((expect & X_USER) && e == R->cancel_code) ok = true;
    if (e == mpack_error_memory && g_alloc.failed > r.alloc_failed0) ok = true;
    if (e == mpack_error_io && g_fs.seek_fail_fired) ok = true;
    if (!ok) {
        if (expect == X_OK)
            violate("err.spurious", "%s at offset %lu failed with %s although nothing went wrong (source %s, delivered %lu)", what, (unsigned long)r.pos, err_name(e), src_names[r.src], (unsigned long)r.s.off);
        violate("err.code", "%s at offset %lu failed with %s, which is not the error that happened (mask %x, source %s)", what, (unsigned long)r.pos, err_name(e), expect, src_names[r.src]);
    }
    return false;
}

#define GUARDED(expr) guarded(R->ec, [&] { expr; })

// The program flags an error of its own. Always false.
static bool user_cancel() {
    op_begin(R->pos);
    FAULT("user-cancel");
    R->cancel_in = 0;
    GUARDED(mpack_reader_flag_error(&R->rd, R->cancel_code));
    op_end("flag_error", X_USER);
    return false;
}
// In the middle of elements, if the run has drawn that.
static bool cancel_due() { return R->cancel_in && --R->cancel_in == 0; }

static size_t lim() { return R->s.limit; }

static bool tag_is(mpack_tag_t t, const Val& v) {
    switch (v.k) {
        case K_NIL: return mpack_tag_type(&t) == mpack_type_nil;
        case K_BOOL: return mpack_tag_type(&t) == mpack_type_bool && mpack_tag_bool_value(&t) == v.b;
        case K_UINT: return mpack_tag_type(&t) == mpack_type_uint && mpack_tag_uint_value(&t) == v.u;
        case K_INT: return mpack_tag_type(&t) == mpack_type_int && mpack_tag_int_value(&t) == v.i;
        case K_FLOAT: {
            if (mpack_tag_type(&t) != mpack_type_float) return false;
            uint32_t b, c = (uint32_t)v.u;
            memcpy(&b, &t.v.f, 4);
            float x;
            memcpy(&x, &c, 4);
            return b == c || (x != x && (b & 0x7fbfffff) == (c & 0x7fbfffff));
        }
        case K_DOUBLE: {
            if (mpack_tag_type(&t) != mpack_type_double) return false;
            uint64_t b, c = v.u;
            memcpy(&b, &t.v.d, 8);
            double x;
            memcpy(&x, &c, 8);
            return b == c || (x != x && (b & 0x7ff7ffffffffffffull) == (c & 0x7ff7ffffffffffffull));
        }
        case K_STR: return mpack_tag_type(&t) == mpack_type_str && mpack_tag_str_length(&t) == v.u && mpack_tag_bytes(&t) == v.u;
        case K_BIN: return mpack_tag_type(&t) == mpack_type_bin && mpack_tag_bin_length(&t) == v.u && mpack_tag_bytes(&t) == v.u;
        case K_ARR: return mpack_tag_type(&t) == mpack_type_array && mpack_tag_array_count(&t) == v.u;
        case K_MAP: return mpack_tag_type(&t) == mpack_type_map && mpack_tag_map_count(&t) == v.u;
        case K_EXT:
#if MPACK_EXTENSIONS
            return mpack_tag_type(&t) == mpack_type_ext && mpack_tag_ext_length(&t) == v.u && mpack_tag_ext_exttype(&t) == v.et && mpack_tag_bytes(&t) == v.u;
#else
            return false;
#endif
    }
    return false;
}

// The same value from the constructor that fits it; numbers that fit both kinds of
// integers may come from either.
static mpack_tag_t tag_make(const Val& v, bool other) {
    switch (v.k) {
        case K_NIL: return mpack_tag_make_nil();
        case K_BOOL: return other ? mpack_tag_make_bool(v.b) : v.b ? mpack_tag_make_true() : mpack_tag_make_false();
        case K_UINT: return other && v.u <= INT64_MAX ? mpack_tag_make_int((int64_t)v.u) : mpack_tag_make_uint(v.u);
        case K_INT: return other && v.i >= 0 ? mpack_tag_make_uint((uint64_t)v.i) : mpack_tag_make_int(v.i);
        case K_STR: return mpack_tag_make_str((uint32_t)v.u);
        case K_BIN: return mpack_tag_make_bin((uint32_t)v.u);
        case K_ARR: return mpack_tag_make_array((uint32_t)v.u);
        case K_MAP: return mpack_tag_make_map((uint32_t)v.u);
#if MPACK_EXTENSIONS
        case K_EXT: return mpack_tag_make_ext(v.et, (uint32_t)v.u);
#endif
        default: return mpack_tag_t();
    }
}
static bool same_value(const Val& a, const mpack_tag_t& ta, const Val& b, const mpack_tag_t& tb) {
    bool ia = a.k == K_UINT || a.k == K_INT, ib = b.k == K_UINT || b.k == K_INT;
    if (ia && ib) {
        bool na = a.k == K_INT && a.i < 0, nb = b.k == K_INT && b.i < 0;
        return na == nb && (a.k == K_INT ? (uint64_t)a.i : a.u) == (b.k == K_INT ? (uint64_t)b.i : b.u);
    }
    if (a.k != b.k)
        return false;
    switch (a.k) {
        case K_NIL: return true;
        case K_BOOL: return a.b == b.b;
        case K_FLOAT: return memcmp(&ta.v.f, &tb.v.f, sizeof(ta.v.f)) == 0;
        case K_DOUBLE: return memcmp(&ta.v.d, &tb.v.d, sizeof(ta.v.d)) == 0;
        case K_EXT: return a.u == b.u && a.et == b.et;
        default: return a.u == b.u;
    }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// Compares a tag with what it should be and with the ones before it.
static void check_cmp(const mpack_tag_t& t, const Val& v) {
    RRun& r = *R;
    if (v.k != K_FLOAT && v.k != K_DOUBLE)
        for (int other = 0; other < 2; ++other) {
            mpack_tag_t m = tag_make(v, other != 0);
            CHECK(mpack_tag_cmp(t, m) == 0 && mpack_tag_equal(m, t), "read.tag-cmp", "a tag (%s %llu) is not equal to one made with the same value", kind_name(v.k),
                (unsigned long long)(v.k == K_INT ? (uint64_t)v.i : v.u));
        }
    CHECK(mpack_tag_equal(t, t), "read.tag-cmp", "a tag is not equal to itself");
    for (unsigned i = 0; i < r.ntags; ++i) {
        int c = sgn(mpack_tag_cmp(t, r.tags[i]));
        bool same = same_value(v, t, r.vals[i], r.tags[i]);
        CHECK((c == 0) == same && mpack_tag_equal(r.tags[i], t) == same, "read.tag-cmp", "tags (%s, %s) compare as %d but %s equal", kind_name(v.k), kind_name(r.vals[i].k), c, same ? "are" : "are not");
        CHECK(sgn(mpack_tag_cmp(r.tags[i], t)) == -c, "read.tag-cmp", "the order of two tags (%s, %s) depends on which one is given first", kind_name(v.k), kind_name(r.vals[i].k));
        if (i == 1) {
            int a = sgn(mpack_tag_cmp(t, r.tags[0])), b = sgn(mpack_tag_cmp(r.tags[0], r.tags[1]));
            CHECK(!(a == b && a != c) && !(a == 0 && b != c) && !(b == 0 && a != c), "read.tag-cmp", "the order of three tags (%s, %s, %s) is not consistent", kind_name(v.k),
                kind_name(r.vals[0].k), kind_name(r.vals[1].k));
        }
    }
    r.tags[1] = r.tags[0];
    r.vals[1] = r.vals[0];
    r.tags[0] = t;
    r.vals[0] = v;
    if (r.ntags < 2)
        ++r.ntags;
}

// What the model says about the tag at the current position.
static uint32_t model_tag(Val& v, size_t& next, size_t& need) {
    RRun& r = *R;
    next = r.pos;
    if (r.pos >= lim()) {
        need = r.pos + 1;
        return X_TRUNC;
    }
    DecRes d = dec_tag(r.s.data.data(), lim(), next, v, r.ext_ok);
    need = d == DEC_OK ? next : SIZE_MAX;
    if (d == DEC_INVALID || d == DEC_UNSUPPORTED)
        need = r.pos + 1;
    if (d == DEC_TRUNC)
        need = lim() + 16;
    return d == DEC_OK ? X_OK : d == DEC_TRUNC ? X_TRUNC : d == DEC_INVALID ? X_INVALID : X_UNSUP;
}

// Reads (or peeks) the next tag.
static bool r_tag(Val& v, bool peek) {
    RRun& r = *R;
    size_t next, need;
    uint32_t x = model_tag(v, next, need);
    mpack_tag_t t;
    memset(&t, 0x77, sizeof(t));
    op_begin(need);
    bool ret = GUARDED(t = peek ? mpack_peek_tag(&r.rd) : mpack_read_tag(&r.rd));
    bool ok = op_end(peek ? "peek_tag" : "read_tag", x);
    if (ret && !ok)
        CHECK(mpack_tag_type(&t) == mpack_type_nil, "read.on-error", "a failed tag read returned a non-nil tag");
    if (!ok)
        return false;
    if (!tag_is(t, v))
        violate("read.wrong", "%s at offset %lu returned the wrong tag: type %d, value %llu; the data is %s %llu", peek ? "peek_tag" : "read_tag", (unsigned long)r.pos,
                (int)mpack_tag_type(&t), (unsigned long long)t.v.u, kind_name(v.k), (unsigned long long)(v.k == K_INT ? (uint64_t)v.i : v.u));
    check_cmp(t, v);
    if (!peek) {
        r.pos = next;
        r.elements++;
    }
    return true;
}

static uint32_t need_bytes(size_t n) { return R->pos + n <= lim() && R->pos + n >= R->pos ? X_OK : X_TRUNC; }

// Skip over [pos, pos+n): FILE sources may seek across a bad region.
static uint32_t skip_mask(size_t n) {
    RRun& r = *R;
    uint32_t x = need_bytes(n);
    if (x == X_TRUNC && is_file() && g_fs.read_err_at >= 0 && r.pos + n <= r.s.data.size())
        x |= X_OK;
    return x;
}

static bool check_data(const char* what, const char* p, size_t n) {
    RRun& r = *R;
    if (memcmp(p, r.s.data.data() + r.pos, n) != 0) {
        size_t i = 0;
        while ((uint8_t)p[i] == r.s.data[r.pos + i])
            ++i;
        violate("read.wrong", "%s returned a wrong byte at stream offset %lu (byte %lu of %lu)", what, (unsigned long)(r.pos + i), (unsigned long)i, (unsigned long)n);
    }
    return true;
}

static bool r_bytes(size_t n) {
    RRun& r = *R;
    size_t cap = n > lim() + 64 ? lim() + 64 : n;
    if (cap < n) { // do not allocate gigabytes for a corrupt length
        n = cap;
    }
    GBuf b(n ? n : 1);
    op_begin(sat(r.pos, n));
    uint32_t x = need_bytes(n);
    GUARDED(mpack_read_bytes(&r.rd, b.p, n));
    b.check("read.overrun");
    if (!op_end("read_bytes", x))
        return false;
    check_data("read_bytes", b.p, n);
    r.pos += n;
    return true;
}

static uint32_t inplace_mask(size_t n) {
    RRun& r = *R;
    if (r.src == Q_DATA || r.src == Q_BUF)
        return need_bytes(n);
    size_t size = is_file() ? (size_t)MPACK_BUFFER_SIZE : r.buf_size;
    if (n > size)
        return X_TOOBIG;
    return need_bytes(n);
}

static bool r_inplace(size_t n, bool utf8) {
    RRun& r = *R;
    op_begin(sat(r.pos, n));
    uint32_t x = inplace_mask(n);
    if (x == X_OK && utf8 && !ref_utf8(r.s.data.data() + r.pos, n))
        x = X_TYPE;
    if (mpack_should_read_bytes_inplace(&r.rd, n))
        CHECK(!(x & X_TOOBIG), "inplace.should", "mpack_should_read_bytes_inplace(%lu) is true but the buffer is smaller", (unsigned long)n);
    const char* p = (const char*)0x1;
    bool ret = GUARDED(p = utf8 ? mpack_read_utf8_inplace(&r.rd, n) : mpack_read_bytes_inplace(&r.rd, n));
    bool ok = op_end(utf8 ? "utf8_inplace" : "bytes_inplace", x);
    HIT("probe:inplace");
    if (ret && !ok && !r.destroyed)
        CHECK(p == NULL, "read.on-error", "a failed in-place read returned a non-NULL pointer");
    if (!ok)
        return false;
    if (n) {
        CHECK(p != NULL, "read.wrong", "an in-place read of %lu bytes returned NULL without error", (unsigned long)n);
        check_data("in-place read", p, n);
    }
    r.pos += n;
    return true;
}

static bool r_alloc(size_t n) {
    RRun& r = *R;
    op_begin(sat(r.pos, n));
    uint32_t x = need_bytes(n);
    if (n > 0x1000000)
        x |= X_MEM;
    uint64_t f0 = g_alloc.failed;
    char* p = (char*)0x1;
#ifdef MPACK_MALLOC
    bool ret = GUARDED(p = mpack_read_bytes_alloc(&r.rd, n));
#else
    bool ret = true;
    violate("harness", "no allocation here");
#endif
    bool ok = op_end("bytes_alloc", x);
    HIT("probe:alloc-read");
    if (ret && !ok && !r.destroyed)
        CHECK(p == NULL, "read.on-error", "a failed allocating read returned a non-NULL pointer");
    if (!ok)
        return false;
    if (n == 0) {
        CHECK(p == NULL, "alloc.zero", "an allocating read of 0 bytes returned a pointer");
    } else {
        CHECK(g_alloc.failed == f0 && p != NULL, "alloc.failure-ignored", "allocation failed but the read of %lu bytes did not fail", (unsigned long)n);
        CHECK(alloc_is_live(p) && alloc_size(p) >= n, "alloc.size", "an allocating read of %lu bytes returned a bad block", (unsigned long)n);
        check_data("bytes_alloc", p, n);
        sim_free(p);
    }
    r.pos += n;
    return true;
}

static bool r_skip(size_t n) {
    RRun& r = *R;
    op_begin(sat(r.pos, n));
    uint32_t x = skip_mask(n);
    ++g_nontrivial;
    GUARDED(mpack_skip_bytes(&r.rd, n));
    if (!op_end("skip_bytes", x))
        return false;
    r.pos += n;
    return true;
}

static bool r_done(const char* what, mpack_type_t t) {
    RRun& r = *R;
    op_begin(r.pos);
    GUARDED(
        switch (t) {
            case mpack_type_str: mpack_done_str(&r.rd); break;
            case mpack_type_bin: mpack_done_bin(&r.rd); break;
            case mpack_type_array: mpack_done_array(&r.rd); break;
            case mpack_type_map: mpack_done_map(&r.rd); break;
#if MPACK_EXTENSIONS
            case mpack_type_ext: mpack_done_ext(&r.rd); break;
#endif
            default: break;
        });
    return op_end(what, X_OK);
}

static bool r_cstr(size_t n, bool utf8) {
    RRun& r = *R;
    size_t room = coin(1, 3) ? n + 1 : coin(1, 3) ? 1 + draw(40) : coin(1, 2) ? (n > 4096 ? 4096 : n) + draw(3) : 1 + n % 65536;
    if (room > 200000)
        room = 200000;
    if (room == 0)
        room = 1;
    GBuf b(room);
    uint32_t x;
    op_begin(sat(r.pos, n));
    if (n > room - 1)
        x = X_TOOBIG;
    else {
        x = need_bytes(n);
        const uint8_t* d = r.s.data.data() + r.pos;
        if (x == X_OK && (!ref_no_nul(d, n) || (utf8 && !ref_utf8(d, n))))
            x = X_TYPE;
    }
    bool ret = GUARDED(
        if (utf8) mpack_read_utf8_cstr(&r.rd, b.p, room, n);
        else mpack_read_cstr(&r.rd, b.p, room, n));
    (void)ret;
    b.check("read.overrun");
    bool ok = op_end(utf8 ? "read_utf8_cstr" : "read_cstr", x);
    HIT("probe:cstr-read");
    if (!ok) {
        CHECK(b.p[0] == 0, "cstr.not-empty", "a failed %s of %lu bytes into %lu did not leave an empty string", utf8 ? "read_utf8_cstr" : "read_cstr", (unsigned long)n, (unsigned long)room);
        return false;
    }
    CHECK(b.p[n] == 0, "cstr.terminator", "read_cstr did not add a null-terminator");
    check_data("read_cstr", b.p, n);
    r.pos += n;
    return true;
}

static bool r_utf8(size_t n) {
    RRun& r = *R;
    if (n > lim() + 64)
        return r_skip(n);
    GBuf b(n ? n : 1);
    op_begin(sat(r.pos, n));
    uint32_t x = need_bytes(n);
    if (x == X_OK && !ref_utf8(r.s.data.data() + r.pos, n))
        x = X_TYPE;
    GUARDED(mpack_read_utf8(&r.rd, b.p, n));
    b.check("read.overrun");
    if (!op_end("read_utf8", x))
        return false;
    check_data("read_utf8", b.p, n);
    r.pos += n;
    return true;
}

#if MPACK_EXTENSIONS
static bool r_timestamp(size_t n) {
    RRun& r = *R;
    op_begin(sat(r.pos, n));
    uint32_t x;
    int64_t sec = 0;
    uint32_t ns = 0;
    if (n != 4 && n != 8 && n != 12)
        x = X_INVALID;
    else {
        x = need_bytes(n);
        if (x == X_OK) {
            bytes_t d(r.s.data.begin() + (long)r.pos, r.s.data.begin() + (long)(r.pos + n));
            if (!timestamp_decode(d, &sec, &ns))
                x = X_INVALID;
        }
    }
    mpack_timestamp_t ts = {77, 77};
    bool ret = GUARDED(ts = mpack_read_timestamp(&r.rd, n));
    bool ok = op_end("read_timestamp", x);
    HIT("probe:timestamp-read");
    if (ret && !ok)
        CHECK(ts.seconds == 0 && ts.nanoseconds == 0, "read.on-error", "a failed timestamp read returned a non-zero timestamp");
    if (!ok)
        return false;
    CHECK(ts.seconds == sec && ts.nanoseconds == ns, "read.wrong", "read_timestamp returned %lld.%09u instead of %lld.%09u", (long long)ts.seconds, ts.nanoseconds, (long long)sec, ns);
    r.pos += n;
    return true;
}
#endif

// Consumes the body of a str/bin/ext of n bytes and closes it.
static bool r_body(const Val& v) {
    RRun& r = *R;
    size_t n = (size_t)v.u;
    mpack_type_t t = v.k == K_STR ? mpack_type_str : v.k == K_BIN ? mpack_type_bin :
#if MPACK_EXTENSIONS
        mpack_type_ext
#else
        mpack_type_bin
#endif
        ;
    const char* dn = v.k == K_STR ? "done_str" : v.k == K_BIN ? "done_bin" : "done_ext";
#if MPACK_EXTENSIONS
    if (v.k == K_EXT && v.et == MPACK_EXTTYPE_TIMESTAMP && coin(2, 3))
        return r_timestamp(n);
#endif
    if (v.k == K_STR && coin(1, 2)) {
        bool ok;
        switch (r.p_inplace ? 1 : draw(4)) {
            case 0: ok = r_cstr(n, draw(2)); break;
            case 1: ok = r_inplace(n, true); break;
            case 2: ok = r_utf8(n); break;
            default: ok = r_cstr(n, true); break;
        }
        return ok && r_done(dn, t);
    }
    size_t left = n;
    uint32_t pieces = draw(4);
    while (left > 0) {
        size_t k = left;
        if (pieces) {
            pieces--;
            uint32_t st = draw(4);
            k = st == 0 ? draw((uint32_t)(left > 0x7fffffff ? 0x7fffffff : left) + 1) : st == 1 ? draw(9) : st == 2 ? draw(66) : left;
            if (k > left)
                k = left;
        }
        if (cancel_due())
            return user_cancel();
        bool ok;
        uint32_t how = r.p_inplace && coin(3, 4) ? 1 : r.p_alloc && coin(3, 4) ? 2 : r.p_skip && coin(2, 3) ? 3 : draw(5);
        size_t before = r.pos;
        switch (how) {
            case 1: {
                size_t size = r.src == Q_FILL ? r.buf_size : is_file() ? (size_t)MPACK_BUFFER_SIZE : SIZE_MAX;
                if (k > size && coin(3, 4))
                    k = coin(1, 2) ? size : 1 + draw((uint32_t)size);
                ok = r_inplace(k, false);
                break;
            }
            case 2:
#ifdef MPACK_MALLOC
                ok = r_alloc(k);
#else
                ok = r_bytes(k);
#endif
                break;
            case 3: ok = r_skip(k); break;
            default: ok = r_bytes(k); break;
        }
        if (!ok)
            return false;
        left -= r.pos - before;
    }
    if (n == 0 && coin(1, 4)) {
        uint32_t how = draw(4);
        bool ok = how == 0 ? r_bytes(0) : how == 1 ? r_inplace(0, false) : how == 2 ? r_skip(0) :
#ifdef MPACK_MALLOC
            r_alloc(0);
#else
            r_bytes(0);
#endif
        if (!ok)
            return false;
    }
    return r_done(dn, t);
}

// End of the element at pos, by a scan that needs no recursion.
static uint32_t model_scan(size_t& end) {
    RRun& r = *R;
    size_t p = r.pos;
    uint64_t left = 1;
    while (left > 0) {
        left--;
        if (p >= lim()) {
            end = SIZE_MAX;
            return X_TRUNC;
        }
        Val v;
        DecRes d = dec_tag(r.s.data.data(), lim(), p, v, r.ext_ok);
        if (d == DEC_TRUNC) { end = SIZE_MAX; return X_TRUNC; }
        if (d != DEC_OK) {
            end = p + 1;
            return d == DEC_INVALID ? X_INVALID : X_UNSUP;
        }
        if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT) {
            if (v.u > lim() - p) { end = SIZE_MAX; return X_TRUNC; }
            p += (size_t)v.u;
        } else if (v.k == K_ARR)
            left += v.u;
        else if (v.k == K_MAP)
            left += 2 * v.u;
    }
    end = p;
    return X_OK;
}

static bool r_discard() {
    RRun& r = *R;
    size_t end;
    uint32_t x = model_scan(end);
    op_begin(end);
    if (x == X_TRUNC && is_file() && g_fs.read_err_at >= 0) {
        // seeking may have passed over the bad region
        size_t save = r.s.limit;
        r.s.limit = r.s.data.size();
        size_t end2;
        uint32_t x2 = model_scan(end2);
        r.s.limit = save;
        x |= x2 | X_TRUNC;
        end = end2;
    }
    HIT("probe:discard");
    GUARDED(mpack_discard(&r.rd));
    if (!op_end("discard", x))
        return false;
    r.pos = end;
    return true;
}

static bool r_element(uint32_t depth) {
    RRun& r = *R;
    if (r.stopped)
        return false;
    if (cancel_due())
        return user_cancel();
    Val v;
    if (coin(1, 5))
        for (uint32_t n = 1 + draw(2); n > 0; --n)
            if (!r_tag(v, true))
                return false;
    if ((r.p_skip && coin(1, 2)) || coin(1, 12) || depth > 300)
        return r_discard();
    if (!r_tag(v, false))
        return false;
    switch (v.k) {
        case K_STR: case K_BIN: case K_EXT:
            return r_body(v);
        case K_ARR: case K_MAP: {
            uint64_t n = v.k == K_ARR ? v.u : v.u * 2;
            for (uint64_t i = 0; i < n; ++i)
                if (!r_element(depth + 1))
                    return false;
            return v.k == K_ARR ? r_done("done_array", mpack_type_array) : r_done("done_map", mpack_type_map);
        }
        default:
            return true;
    }
}

static bool r_remaining(const char** data, size_t* n) {
    RRun& r = *R;
    op_begin(r.pos);
    *data = NULL;
    *n = 12345;
    GUARDED(*n = mpack_reader_remaining(&r.rd, data));
    if (!op_end("remaining", X_OK))
        return false;
    HIT("probe:remaining");
    if (r.src == Q_DATA || r.src == Q_BUF)
        CHECK(*n == r.s.limit - r.pos, "remaining.count", "remaining is %lu at offset %lu of %lu bytes", (unsigned long)*n, (unsigned long)r.pos, (unsigned long)r.s.limit);
    else if (r.src == Q_FILL)
        CHECK(*n == r.s.off - r.pos, "remaining.count", "remaining is %lu, but %lu bytes were delivered and %lu consumed", (unsigned long)*n, (unsigned long)r.s.off, (unsigned long)r.pos);
    else {
        CHECK(r.pos + *n <= r.s.data.size() && (*n <= (size_t)MPACK_BUFFER_SIZE), "remaining.count", "remaining is %lu at offset %lu of %lu", (unsigned long)*n, (unsigned long)r.pos, (unsigned long)r.s.data.size());
    }
    if (*n) {
        CHECK(*data != NULL, "remaining.data", "remaining data pointer was not set");
        CHECK(memcmp(*data, r.s.data.data() + r.pos, *n) == 0, "remaining.data", "the remaining data is not what follows offset %lu", (unsigned long)r.pos);
    }
    return true;
}

static void r_init(size_t prefill, const void* prefill_data);

// Hands the rest of the stream over to a new reader, as the documentation
// of mpack_reader_remaining() describes.
static bool r_handoff() {
    RRun& r = *R;
    const char* d;
    size_t n;
    if (!r_remaining(&d, &n))
        return false;
    bytes_t copy((const uint8_t*)d, (const uint8_t*)d + n);
    mpack_error_t e = mpack_ok;
    op_begin(r.pos);
    GUARDED(e = mpack_reader_destroy(&r.rd));
    ev("handoff with %lu bytes: destroy -> %s", (unsigned long)n, err_name(e));
    CHECK(e == mpack_ok, "err.spurious", "destroying a reader between messages returned %s", err_name(e));
    ++g_nontrivial;
    HIT("probe:handoff");
    if (r.user_teardown)
        CHECK(r.teardowns == 1, "teardown.missed", "the teardown function was called %u times", r.teardowns);
    r.teardowns = 0;
    bool armed = g_alloc.armed;
    g_alloc.armed = false;
    if (r.buf) {
        sim_free(r.buf);
        r.buf = NULL;
    }
    if (r.src == Q_FILL) {
        r.buf_size = 32 + draw(40);
        if (r.buf_size < n)
            r.buf_size = n + draw(10);
    }
    free(r.data_copy);
    r.data_copy = NULL;
    r_init(n, copy.data());
    g_alloc.armed = armed;
    return mpack_reader_error(&r.rd) == mpack_ok;
}

static void r_init(size_t prefill, const void* pre) {
    RRun& r = *R;
    sim_stale(&r.rd, sizeof(r.rd));
    switch (r.src) {
        case Q_DATA:
            r.data_copy = (char*)dup_bytes(pre, prefill);
            mpack_reader_init_data(&r.rd, r.data_copy, prefill);
            break;
        case Q_BUF: {
            r.buf = (char*)sim_malloc(r.buf_size);
            memcpy(r.buf, pre, prefill);
            mpack_reader_init(&r.rd, r.buf, r.buf_size, prefill);
            break;
        }
        case Q_FILL:
            r.buf = (char*)sim_malloc(r.buf_size);
            memset(r.buf, 0xB5, r.buf_size);
            sim_poison(r.buf, r.buf_size);
            if (prefill)
                memcpy(r.buf, pre, prefill);
            mpack_reader_init(&r.rd, r.buf, r.buf_size, prefill);
            mpack_reader_set_fill(&r.rd, fill_fn);
            if (r.use_skip)
                mpack_reader_set_skip(&r.rd, skip_fn);
            break;
#if MPACK_STDIO && defined(MPACK_MALLOC)
        case Q_STDFILE:
        case Q_STDFILE_CLOSE:
            r.file = fs_open("in.mp", "rb");
            if (r.file_base) {
                char junk[16];
                if (draw(2) && !g_fs.unseekable) {
                    uint32_t sf = g_fs.seek_fail_after;
                    g_fs.seek_fail_after = 0;
                    fseek(r.file, (long)r.file_base, SEEK_SET);
                    g_fs.seek_fail_after = sf;
                } else {
                    size_t got = fread(junk, 1, r.file_base, r.file);
                    (void)got;
                }
            }
            mpack_reader_init_stdfile(&r.rd, r.file, r.src == Q_STDFILE_CLOSE);
            break;
        case Q_FILENAME:
            mpack_reader_init_filename(&r.rd, "in.mp");
            break;
#endif
        default: break;
    }
    if (r.src <= Q_FILL)
        mpack_reader_set_context(&r.rd, &r);
    mpack_error_t e = mpack_reader_error(&r.rd);
    ev("init %s size=%lu prefill=%lu -> %s", src_names[r.src], (unsigned long)r.buf_size, (unsigned long)prefill, err_name(e));
    if (e != mpack_ok) {
        CHECK(g_alloc.failed || g_fs.open_fail_fired, "err.spurious", "initialisation failed with %s but no fault was injected", err_name(e));
        CHECK(e == (g_fs.open_fail_fired ? mpack_error_io : mpack_error_memory), "err.code", "initialisation failed with %s", err_name(e));
    }
    if (r.ec.mode != H_NONE && e == mpack_ok)
        mpack_reader_set_error_handler(&r.rd, on_error);
    r.user_teardown = r.src <= Q_FILL && draw(2);
    if (r.user_teardown)
        mpack_reader_set_teardown(&r.rd, teardown_fn);
}

static void mutate(bytes_t& b) {
    uint32_t n = 1 + draw(3);
    for (uint32_t i = 0; i < n; ++i) {
        size_t at = b.empty() ? 0 : draw((uint32_t)b.size());
        static const uint8_t nasty[] = {0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0xff, 0x91, 0x81, 0x00, 0xd8, 0xdc, 0xc7, 0xd4, 0xa5, 0xca, 0xcb};
        switch (draw(6)) {
            case 0: if (!b.empty()) b[at] ^= (uint8_t)(1u << draw(8)); break;
            case 1: if (!b.empty()) b[at] = nasty[draw(17)]; break;
            case 2: b.insert(b.begin() + (long)at, nasty[draw(17)]); break;
            case 3: if (!b.empty()) b.erase(b.begin() + (long)at); break;
            case 4: if (!b.empty()) b.resize(at); break;
            default: if (!b.empty()) b[at] = (uint8_t)draw(256); break;
        }
    }
    FAULT("corrupt-bytes");
}

struct ReaderProgram {
    bool (*element)(uint32_t depth);      // reads one element at R->pos
    void (*shape)(Val& v);                // adjusts a generated message (or NULL)
    void (*after_error)();                // one more call in the error state (or NULL)
    void (*cleanup)();                    // frees what the program still holds (or NULL)
};

static void run_reader(const ReaderProgram& P) {
    static RRun* mem = (RRun*)malloc(sizeof(RRun));
    R = new (mem) RRun();
    RRun& r = *R;
    bool p_fault = prof("fault"), p_corrupt = prof("corrupt"), p_file = prof("file"), p_handoff = prof("handoff"), p_handler = prof("handler");
    r.p_skip = prof("skip");
    r.p_inplace = prof("inplace");
    r.p_alloc = prof("alloc");
#if MPACK_EXTENSIONS
    r.ext_ok = true;
#endif
    bool faults = p_fault || p_handler || ((p_file || r.p_skip || r.p_inplace || r.p_alloc || p_corrupt) && coin(1, 2));
    r.src = (Src)draw(Q_N);
    if (p_file)
        r.src = (Src)(Q_STDFILE + draw(3));
    if (p_handoff || r.p_inplace)
        r.src = coin(4, 5) ? Q_FILL : (Src)draw(2);
    if (r.p_skip && r.src < Q_FILL)
        r.src = Q_FILL;
#if !MPACK_STDIO || !defined(MPACK_MALLOC)
    if (r.src > Q_FILL)
        r.src = Q_FILL;
#endif
    static const uint32_t bs[] = {32, 33, 34, 40, 48, 64, 100, 256, 1024, 4096};
    r.buf_size = bs[draw(10)] + (coin(1, 3) ? draw(20) : 0);

    // ---- the stream
    GenCfg g;
    gen_cfg_draw(g);
    g.interesting[0] = r.src == Q_FILL ? r.buf_size : MPACK_BUFFER_SIZE;
    g.interesting[1] = MPACK_BUFFER_SIZE;
    g.interesting[2] = 32;
    g.interesting[3] = r.buf_size / 16 + 1;
    g.interesting[4] = r.buf_size / 32 + 1;
    g.interesting[5] = r.buf_size * 2;
    uint32_t nmsg = 1 + (coin(1, 2) ? draw(6) : 0);
    size_t per = g.budget / nmsg + 8;
    bytes_t& B = r.s.data;
    std::vector<size_t> ends;
    if (p_corrupt && coin(1, 3)) {
        size_t n = draw(200);
        for (size_t i = 0; i < n; ++i)
            B.push_back((uint8_t)(coin(1, 2) ? draw(256) : 0x80 + draw(0x60)));
        nmsg = 8;
        FAULT("arbitrary-bytes");
    } else if (p_corrupt && coin(1, 8)) {
        // a header that claims a huge size
        static const uint8_t heads[] = {0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0xdd};
        static const uint32_t sizes[] = {0x10000000, 0x10000001, 0x40000001, 0x20000001, 0x80000000, 0xffffffff, 0x7fffffff, 0xfffffff0, 0x15555556, 0x0ccccccd};
        uint32_t n = sizes[draw(10)] + (coin(1, 3) ? draw(16) : 0);
        if (coin(1, 3))
            B.push_back(0x91);
        B.push_back(heads[draw(6)]);
        for (int i = 3; i >= 0; --i)
            B.push_back((uint8_t)(n >> (8 * i)));
        for (uint32_t i = draw(80); i > 0; --i)
            B.push_back((uint8_t)draw(128));
        nmsg = 1;
        FAULT("hostile-size");
    } else if (p_corrupt && coin(1, 200)) {
        // hostile nesting
        static const uint8_t nest[] = {0x91, 0x81, 0x92};
        uint8_t t = nest[draw(3)];
        size_t n = 1 + draw(400000);
        B.assign(n, t);
        if (draw(2))
            B.push_back(0xc0);
        nmsg = 1;
        r.p_skip = true;
        FAULT("hostile-nesting");
    } else {
        uint32_t wild = draw(9);
        for (uint32_t i = 0; i < nmsg; ++i) {
            g.budget = per;
            Val v;
            gen_val(g, v);
            if (P.shape)
                P.shape(v);
            enc_any(B, v, wild);
            ends.push_back(B.size());
        }
        if (p_corrupt)
            mutate(B);
    }
    stream_draw(r.s);
    r.use_skip = r.src == Q_FILL && (r.p_skip ? coin(2, 3) : coin(1, 3));

    // ---- faults
    if (faults) {
        if (r.src <= Q_BUF) {
            if (coin(1, 2)) {
                B.resize(draw((uint32_t)B.size() + 1));
                r.s.limit = B.size();
                FAULT("truncated-data");
            }
        } else if (r.src == Q_FILL) {
            if (coin(1, 2))
                stream_draw_fault(r.s);
        } else {
            uint32_t c = draw(6);
            if (c == 1) {
                B.resize(draw((uint32_t)B.size() + 1));
                r.s.limit = B.size();
                FAULT("truncated-file");
            } else if (c == 2 || c == 3)
                r.s.limit = draw((uint32_t)B.size() + 1);
            else if (c == 4)
                g_fs.close_fail = true;
            else if (c == 5)
                g_fs.open_fail = coin(1, 3);
            if (coin(1, 4))
                g_fs.seek_fail_after = 1 + draw(3);
        }
        if (coin(1, 2) || r.p_alloc) {
            if (coin(1, 4))
                g_alloc.fail_rate = 1 + draw(20);
            else {
                g_alloc.fail_after = 1 + draw(coin(1, 2) ? 3 : 12);
                g_alloc.fail_count = draw(3);
            }
        }
        g_alloc.zero_null = draw(2);
    }
    g_alloc.cap = 1u << 24;
    if (is_file()) {
        g_fs.short_io = coin(1, 4);
        g_fs.bufmode = draw(3);
        g_fs.unseekable = coin(1, 4);
        r.file_base = r.src == Q_FILENAME ? 0 : coin(1, 3) ? draw(16) : 0;
        SimFile* f = fs_file("in.mp", true);
        f->data.assign(r.file_base, 0x5C);
        f->data.insert(f->data.end(), B.begin(), B.end());
        if (r.s.limit < B.size())
            g_fs.read_err_at = (long)(r.file_base + r.s.limit);
    }
    r.ec.mode = draw_mode(true);
    if (p_handler && r.ec.mode == H_NONE)
        r.ec.mode = H_DESTROY;
    size_t cancel_at = faults && coin(1, 10) ? draw(nmsg) : SIZE_MAX;
    r.cancel_in = faults && coin(1, 12) ? 1 + draw(draw(2) ? 4 : 20) : 0;
    r.cancel_code = user_error();
    ev("reader src=%s bufsize=%lu bytes=%lu limit=%lu fault=%d chunks=%u skip=%d handler=%s", src_names[r.src], (unsigned long)r.buf_size, (unsigned long)B.size(),
            (unsigned long)r.s.limit, (int)r.s.fault, r.s.style, (int)r.use_skip, mode_name(r.ec.mode));
    ev_bytes("stream", B.data(), B.size());
    HIT_N("probe:reader-bytes", B.size());

    // ---- init
    size_t prefill = 0;
    if (r.src == Q_DATA)
        prefill = B.size();
    else if (r.src == Q_BUF) {
        prefill = B.size();
        r.buf_size = prefill + 1 + draw(40);
        if (coin(1, 2))
            r.buf_size = prefill ? prefill : 1;
    } else if (r.src == Q_FILL && coin(1, 3)) {
        size_t m = r.buf_size < r.s.limit ? r.buf_size : r.s.limit;
        prefill = draw((uint32_t)m + 1);
    }
    r.s.off = r.src <= Q_BUF ? B.size() : prefill;
    g_alloc.armed = r.src > Q_FILL;
    alloc_set_watch();
    r_init(prefill, B.data());
    g_alloc.armed = true;
    mpack_reader_t* rd = &r.rd;
    mpack_error_t init_error = mpack_reader_error(rd);
    if (init_error != mpack_ok) {
        r.ec.mode = H_NONE;
        r.stopped = true;
    }

    // ---- program
    bool ended = false;
    for (size_t mi = 0; mi < nmsg && !r.stopped; ++mi) {
        if (mi == cancel_at) {
            user_cancel();
            break;
        }
        if (!P.element(0))
            break;
        if ((p_handoff ? coin(1, 2) : coin(1, 10)) && r.src <= Q_FILL && !(r.src == Q_BUF)) {
            if (!r_handoff())
                break;
        } else if (coin(1, 6)) {
            const char* d;
            size_t n;
            r_remaining(&d, &n);
        }
    }
    if (!r.stopped && coin(1, 3) && cancel_at == SIZE_MAX && !p_corrupt && r.pos == B.size()) {
        // read on after the end of the stream
        Val v;
        ended = true;
        if (draw(2))
            r_tag(v, draw(2));
        else
            r_discard();
    }
    (void)ended;

    // ---- everything after an error is a no-op
    if (!r.destroyed && mpack_reader_error(rd) != mpack_ok && (!r.ec.jumped || draw(2))) {
        mpack_error_t e = mpack_reader_error(rd);
        uint32_t n = draw(4);
        for (uint32_t i = 0; i < n; ++i) {
            char b[8];
            memset(b, 0x55, sizeof(b));
            const char* d = NULL;
            bool ret = guarded(r.ec, [&] {
                if (P.after_error && draw(2)) {
                    P.after_error();
                    return;
                }
                switch (draw(9)) {
                    case 0: { mpack_tag_t t = mpack_read_tag(rd); CHECK(mpack_tag_type(&t) == mpack_type_nil, "read.on-error", "read_tag returned a value after an error"); break; }
                    case 1: { mpack_tag_t t = mpack_peek_tag(rd); CHECK(mpack_tag_type(&t) == mpack_type_nil, "read.on-error", "peek_tag returned a value after an error"); break; }
                    case 2: {
                        uint32_t k = 1 + draw(7);
                        mpack_read_bytes(rd, b, k);
                        for (uint32_t j = 0; j < k; ++j)
                            CHECK(b[j] == 0x55 || b[j] == 0, "read.on-error", "bytes were read after an error");
                        CHECK(b[k] == 0x55, "read.overrun", "reading after an error wrote behind the buffer");
                        break;
                    }
                    case 3: CHECK(mpack_read_bytes_inplace(rd, draw(2)) == NULL, "read.on-error", "an in-place read returned a pointer after an error"); break;
#ifdef MPACK_MALLOC
                    case 4: CHECK(mpack_read_bytes_alloc(rd, 3) == NULL, "read.on-error", "an allocating read returned a pointer after an error"); break;
#endif
                    case 5: mpack_read_cstr(rd, b, sizeof(b), 3); CHECK(b[0] == 0, "cstr.not-empty", "read_cstr after an error did not return an empty string"); break;
                    case 6: mpack_discard(rd); break;
                    case 7: mpack_reader_flag_error(rd, mpack_error_bug); break;
                    default: CHECK(mpack_reader_remaining(rd, &d) == 0, "remaining.count", "remaining is not 0 after an error"); break;
                }
            });
            CHECK(ret && mpack_reader_error(rd) == e, "err.sticky", "a call after the error changed the error state");
        }
    }

    // ---- destroy
    mpack_error_t result;
    bool closes = r.src == Q_STDFILE_CLOSE || r.src == Q_FILENAME;
    bool open_tags = mpack_reader_error(rd) == mpack_ok && !r.destroyed ? false : false;
    (void)open_tags;
    if (!r.destroyed) {
        mpack_error_t before = mpack_reader_error(rd);
        volatile mpack_error_t res = mpack_ok;
        bool returned = guarded(r.ec, [&] { res = mpack_reader_destroy(rd); });
        if (!returned && !r.ec.destroyed) {
            HIT("probe:jump-out-of-destroy");
            ev("destroy again after jumping out of destroy");
            returned = guarded(r.ec, [&] { res = mpack_reader_destroy(rd); });
            CHECK(returned, "err.twice", "the second destroy called the error handler");
        }
        if (r.ec.destroyed)
            res = r.ec.destroy_result;
        result = res;
        if (before != mpack_ok)
            CHECK(result == before, "err.sticky", "destroy returned %s, but the error was %s", err_name(result), err_name(before));
        else if (result != mpack_ok)
            CHECK(result == mpack_error_io && g_fs.close_fail_fired, "err.spurious", "destroy returned %s although nothing went wrong", err_name(result));
    } else {
        result = r.ec.destroy_result;
    }
    g_alloc.armed = false;
    ev("destroy -> %s (handler calls %u)", err_name(result), r.ec.calls);
    if (r.ec.calls)
        CHECK(result == r.ec.first, "err.sticky", "destroy returned %s, but the error was %s", err_name(result), err_name(r.ec.first));
    if (r.ec.mode != H_NONE && result != mpack_ok && init_error == mpack_ok)
        CHECK(r.ec.calls == 1, "err.no-callback", "destroy returned %s but the handler was never called", err_name(result));
    if (closes && g_fs.close_fail_fired && init_error == mpack_ok)
        CHECK(result != mpack_ok, "file.close-ignored", "closing the file failed but the reader reports success");
    if (r.user_teardown)
        CHECK(r.teardowns == 1, "teardown.missed", "the teardown function was called %u times", r.teardowns);
    if (r.src == Q_STDFILE && r.file) {
        CHECK(fs_is_open(r.file), "file-close", "the reader closed a FILE it was told not to close");
        fs_close(r.file);
    }
    if (is_file())
        CHECK(fs_open_count() == 0, "file.leak", "%lu FILE(s) still open after destroy", (unsigned long)fs_open_count());
    if (r.buf)
        sim_free(r.buf);
    free(r.data_copy);
    if (P.cleanup)
        P.cleanup();
    HIT_N("probe:reader-elements", r.elements);
    alloc_check_leaks("leak", "reader destroy");
    r.~RRun();
    R = NULL;
}
