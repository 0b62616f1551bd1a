// Engine "expect": programs against the Expect API over simulated sources.
// Every call is checked against what the reference decoder says about the
// bytes at the current position and against the documented contract.
#include "reader_core.h"

typedef long double num_t; // exact for every 64-bit integer on x86

static std::vector<void*> g_held; // arrays handed out by *_array_alloc
static bool p_keys, p_numbers, p_mismatch;

static void held_add(void* p) { g_held.push_back(p); }
static void held_free(void* p) {
    for (size_t i = 0; i < g_held.size(); ++i)
        if (g_held[i] == p) {
            g_held.erase(g_held.begin() + (long)i);
            break;
        }
    sim_free(p);
}
static void x_cleanup() {
    for (void* p : g_held)
        sim_free(p);
    g_held.clear();
}

// Runs one Expect call. ok: it succeeded; ret: it returned (did not longjmp).
struct XRes { bool ok, ret; };
template <class F> static XRes x_op(const char* name, uint32_t mask, size_t need, F&& f) {
    HIT("probe:expect-call");
    XRes r;
    op_begin(need);
    r.ret = guarded(R->ec, f);
    r.ok = op_end(name, mask);
    return r;
}
#define X_OP(name, mask, need, expr) x_op(name, mask, need, [&] { expr; })

// The tag at the current position and what reading it must do.
struct TagX {
    Val v;
    size_t next;  // position after the tag
    size_t need;
    uint32_t mask;
    bool ok() const { return mask == X_OK; }
};
static TagX x_tag() {
    TagX t;
    t.mask = model_tag(t.v, t.next, t.need);
    return t;
}
// Mask for a call on a value that does not match: the value may be refused as
// soon as its first byte is seen.
static uint32_t mismatch(const TagX& t) {
    if (t.ok())
        return X_TYPE;
    if (R->pos < lim())
        return t.mask | X_TYPE;
    return t.mask;
}
static void advance(const TagX& t) {
    R->pos = t.next;
    R->elements++;
}

// The body of n bytes at pos: whether it is all there.
static bool body_there(size_t pos, size_t n) { return pos <= lim() && n <= lim() - pos; }

static bool is_int(const Val& v) { return v.k == K_UINT || v.k == K_INT; }
static num_t int_value(const Val& v) { return v.k == K_UINT ? (num_t)v.u : (num_t)v.i; }

// ---------------------------------------------------------------- integers
template <class T> static T pick_bound(num_t near_, num_t lo, num_t hi) {
    num_t b;
    switch (draw(6)) {
        case 0: b = near_; break;
        case 1: b = near_ - 1; break;
        case 2: b = near_ + 1; break;
        case 3: b = lo; break;
        case 4: b = hi; break;
        default: b = (num_t)(int64_t)draw64(); break;
    }
    if (b < lo) b = lo;
    if (b > hi) b = hi;
    return (T)b;
}

template <class T> static void num_check(const char* name, const XRes& x, T got, bool okval, num_t want, T dflt) {
    if (x.ok) {
        CHECK(okval && (num_t)got == want, "expect.value", "%s returned %.0Lf, the value is %.0Lf", name, (num_t)got, want);
    } else if (x.ret)
        CHECK(got == dflt, "expect.on-error", "a failed %s returned %.0Lf instead of %.0Lf", name, (num_t)got, (num_t)dflt);
}

template <class T> static bool x_integer(const char* name, num_t lo, num_t hi, T (*f)(mpack_reader_t*),
        T (*frange)(mpack_reader_t*, T, T), T (*fmax)(mpack_reader_t*, T)) {
    TagX t = x_tag();
    num_t val = t.ok() && is_int(t.v) ? int_value(t.v) : 0;
    bool isint = t.ok() && is_int(t.v);
    uint32_t how = draw(3);
    T mn = (T)lo, mx = (T)hi, dflt = 0;
    char full[64];
    if (how == 1) {
        mn = pick_bound<T>(val, lo, hi);
        mx = pick_bound<T>(val, lo, hi);
        if (mn > mx) { T s = mn; mn = mx; mx = s; }
        dflt = mn;
    } else if (how == 2) {
        mn = 0;
        mx = pick_bound<T>(val, 0, hi);
    }
    snprintf(full, sizeof(full), "expect_%s%s", name, how == 0 ? "" : how == 1 ? "_range" : "_max");
    uint32_t mask = !t.ok() ? mismatch(t) : isint && val >= (num_t)mn && val <= (num_t)mx ? X_OK : X_TYPE;
    T got = (T)99;
    XRes x = X_OP(full, mask, t.need, got = how == 0 ? f(&R->rd) : how == 1 ? frange(&R->rd, mn, mx) : fmax(&R->rd, mx));
    num_check<T>(full, x, got, isint, val, dflt);
    if (x.ok)
        advance(t);
    return x.ok;
}

static bool x_int_fn(uint32_t which) {
    switch (which) {
        case 0: return x_integer<uint8_t>("u8", 0, UINT8_MAX, mpack_expect_u8, mpack_expect_u8_range, mpack_expect_u8_max);
        case 1: return x_integer<uint16_t>("u16", 0, UINT16_MAX, mpack_expect_u16, mpack_expect_u16_range, mpack_expect_u16_max);
        case 2: return x_integer<uint32_t>("u32", 0, UINT32_MAX, mpack_expect_u32, mpack_expect_u32_range, mpack_expect_u32_max);
        case 3: return x_integer<uint64_t>("u64", 0, (num_t)UINT64_MAX, mpack_expect_u64, mpack_expect_u64_range, mpack_expect_u64_max);
        case 4: return x_integer<unsigned int>("uint", 0, UINT32_MAX, mpack_expect_uint, mpack_expect_uint_range, mpack_expect_uint_max);
        case 5: return x_integer<int8_t>("i8", INT8_MIN, INT8_MAX, mpack_expect_i8, mpack_expect_i8_range, mpack_expect_i8_max);
        case 6: return x_integer<int16_t>("i16", INT16_MIN, INT16_MAX, mpack_expect_i16, mpack_expect_i16_range, mpack_expect_i16_max);
        case 7: return x_integer<int32_t>("i32", INT32_MIN, INT32_MAX, mpack_expect_i32, mpack_expect_i32_range, mpack_expect_i32_max);
        case 8: return x_integer<int64_t>("i64", (num_t)INT64_MIN, (num_t)INT64_MAX, mpack_expect_i64, mpack_expect_i64_range, mpack_expect_i64_max);
        default: return x_integer<int>("int", INT32_MIN, INT32_MAX, mpack_expect_int, mpack_expect_int_range, mpack_expect_int_max);
    }
}

// Picks a function wide enough for the value, usually.
static uint32_t int_fn_for(const Val& v) {
    uint32_t w = draw(10);
    static const num_t los[] = {0, 0, 0, 0, 0, INT8_MIN, INT16_MIN, INT32_MIN, (num_t)INT64_MIN, INT32_MIN};
    static const num_t his[] = {UINT8_MAX, UINT16_MAX, UINT32_MAX, (num_t)UINT64_MAX, UINT32_MAX, INT8_MAX, INT16_MAX, INT32_MAX, (num_t)INT64_MAX, INT32_MAX};
    if (coin(1, 12) || !is_int(v))
        return w;
    num_t x = int_value(v);
    for (uint32_t i = 0; i < 10; ++i) {
        uint32_t k = (w + i) % 10;
        if (x >= los[k] && x <= his[k])
            return k;
    }
    return w;
}

static bool x_int_match() {
    TagX t = x_tag();
    bool sgn = draw(2);
    num_t val = t.ok() && is_int(t.v) ? int_value(t.v) : 0;
    bool near_ = coin(1, 8);
    num_t lo = sgn ? (num_t)INT64_MIN : 0, hi = sgn ? (num_t)INT64_MAX : (num_t)UINT64_MAX;
    num_t want = near_ ? val + (draw(2) ? 1 : -1) : coin(1, 12) ? 0 : val;
    if (coin(1, 20))
        want = val + (num_t)4294967296.0L * (draw(2) ? 1 : -1);
    if (want < lo) want = lo;
    if (want > hi) want = hi;
    uint32_t mask = !t.ok() ? mismatch(t) : is_int(t.v) && val == want ? X_OK : X_TYPE;
    XRes x = X_OP(sgn ? "expect_int_match" : "expect_uint_match", mask, t.need,
            if (sgn) mpack_expect_int_match(&R->rd, (int64_t)want); else mpack_expect_uint_match(&R->rd, (uint64_t)want));
    if (x.ok)
        advance(t);
    return x.ok;
}

// ---------------------------------------------------------------- reals
static float as_f(const Val& v) { uint32_t b = (uint32_t)v.u; float f; memcpy(&f, &b, 4); return f; }
static double as_d(const Val& v) { double d; memcpy(&d, &v.u, 8); return d; }
template <class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }

#if MPACK_FLOAT
static float call_real(float, uint32_t how, float mn, float mx) {
    return how == 0 ? mpack_expect_float(&R->rd) : how == 1 ? mpack_expect_float_strict(&R->rd) : mpack_expect_float_range(&R->rd, mn, mx);
}
#endif
#if MPACK_DOUBLE
static double call_real(double, uint32_t how, double mn, double mx) {
    return how == 0 ? mpack_expect_double(&R->rd) : how == 1 ? mpack_expect_double_strict(&R->rd) : mpack_expect_double_range(&R->rd, mn, mx);
}
#endif
static float real_of(float, double d) { return ref_double_to_float(d); }
static double real_of(double, double d) { return d; }

#if !MPACK_FLOAT || !MPACK_DOUBLE
// Builds without floating point give the raw bits.
static bool x_raw(bool dbl) {
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == (dbl ? K_DOUBLE : K_FLOAT);
    uint64_t got = 1;
    XRes x = X_OP(dbl ? "expect_raw_double" : "expect_raw_float", is ? X_OK : mismatch(t), t.need,
            if (dbl) {
#if !MPACK_DOUBLE
                got = mpack_expect_raw_double(&R->rd);
#endif
            } else {
#if !MPACK_FLOAT
                got = mpack_expect_raw_float(&R->rd);
#endif
            });
    if (x.ok) {
        CHECK(got == t.v.u, "expect.value", "raw bits are %llx instead of %llx", (unsigned long long)got, (unsigned long long)t.v.u);
        advance(t);
    } else if (x.ret)
        CHECK(got == 0, "expect.on-error", "a failed read of raw bits returned %llx", (unsigned long long)got);
    return x.ok;
}
#endif

template <class T> static bool x_real(bool dbl) {
    TagX t = x_tag();
    uint32_t how = draw(3); // plain, strict, range
    const char* name = dbl ? how == 0 ? "expect_double" : how == 1 ? "expect_double_strict" : "expect_double_range"
                           : how == 0 ? "expect_float" : how == 1 ? "expect_float_strict" : "expect_float_range";
    volatile T want = 0;
    num_t exact = 0;
    bool isnum = false;
    if (t.ok()) {
        isnum = true;
        switch (t.v.k) {
            case K_UINT: want = (T)t.v.u; exact = (num_t)t.v.u; isnum = how != 1; break;
            case K_INT: want = (T)t.v.i; exact = (num_t)t.v.i; isnum = how != 1; break;
            case K_FLOAT: want = (T)as_f(t.v); exact = as_f(t.v); break;
            case K_DOUBLE: want = real_of(T(), as_d(t.v)); exact = as_d(t.v); isnum = how != 1 || dbl; break;
            default: isnum = false; break;
        }
    }
    T mn = 0, mx = 0, dflt = 0;
    uint32_t mask = !t.ok() ? mismatch(t) : isnum ? X_OK : X_TYPE;
    if (how == 2) {
        T base = want == want ? want : 0;
        if (!(base > (T)-1e30 && base < (T)1e30))
            base = draw(2) ? (T)1e30 : (T)-1e30;
        mn = coin(1, 4) ? base : base - (T)draw(3);
        mx = coin(1, 4) ? base : base + (T)draw(3);
        if (coin(1, 8)) { mn = (T)-10; mx = (T)10; }
        if (mn > mx) { T s = mn; mn = mx; mx = s; }
        volatile T vmn = mn, vmx = mx;
        mn = vmn;
        mx = vmx;
        dflt = mn;
        if (mask == X_OK) {
            bool in = want >= mn && want <= mx;
            bool in_exact = exact >= (num_t)mn && exact <= (num_t)mx;
            mask = in && in_exact ? X_OK : !in && !in_exact ? X_TYPE : X_OK | X_TYPE;
        }
    }
    volatile T got = 99;
    XRes x = X_OP(name, mask, t.need,
            got = call_real(T(), how, mn, mx));
    if (x.ok) {
        CHECK(same<T>(got, want), "expect.value", "%s returned %.17g, the value is %.17g", name, (double)got, (double)want);
        advance(t);
    } else if (x.ret)
        CHECK(same<T>(got, dflt), "expect.on-error", "a failed %s returned %.17g instead of %.17g", name, (double)got, (double)dflt);
    return x.ok;
}

static bool x_real_any(bool dbl) {
#if MPACK_DOUBLE
    if (dbl)
        return x_real<double>(true);
#endif
#if MPACK_FLOAT && MPACK_DOUBLE
    return x_real<float>(false);
#else
#if MPACK_FLOAT
    if (!dbl || coin(1, 2))
        return x_real<float>(false);
#endif
    return x_raw(dbl);
#endif
}

// ---------------------------------------------------------------- simple types
static bool x_nil() {
    TagX t = x_tag();
    uint32_t mask = t.ok() && t.v.k == K_NIL ? X_OK : mismatch(t);
    XRes x = X_OP("expect_nil", mask, t.need, mpack_expect_nil(&R->rd));
    if (x.ok)
        advance(t);
    return x.ok;
}

static bool x_bool() {
    TagX t = x_tag();
    bool isb = t.ok() && t.v.k == K_BOOL;
    uint32_t how = isb ? (coin(1, 2) ? 0 : coin(1, 8) ? 1 + draw(2) : t.v.b ? 1 : 2) : draw(3);
    uint32_t mask = !isb ? mismatch(t) : how == 0 || (how == 1) == t.v.b ? X_OK : X_TYPE;
    bool got = false;
    const char* name = how == 0 ? "expect_bool" : how == 1 ? "expect_true" : "expect_false";
    XRes x = X_OP(name, mask, t.need, if (how == 0) got = mpack_expect_bool(&R->rd); else if (how == 1) mpack_expect_true(&R->rd); else mpack_expect_false(&R->rd));
    if (how == 0) {
        if (x.ok)
            CHECK(got == t.v.b, "expect.value", "expect_bool returned %d, the value is %d", (int)got, (int)t.v.b);
        else if (x.ret)
            CHECK(!got, "expect.on-error", "a failed expect_bool returned true");
    }
    if (x.ok)
        advance(t);
    return x.ok;
}

static bool x_expect_tag() {
    TagX t = x_tag();
    Val w = t.ok() ? t.v : Val();
    bool tweak = coin(1, 8);
    if (tweak) {
        switch (draw(4)) {
            case 0: w.k = (VK)draw(K_MAP + 1); break;
            case 1: w.u ^= 1ull << draw(32); break;
            case 2: w.b = !w.b; w.et ^= 1; break;
            default: w.i ^= 1ll << draw(63); break;
        }
    }
    mpack_tag_t tag;
    bool eq = t.ok() && w.k == t.v.k;
    switch (w.k) {
        case K_NIL: tag = mpack_tag_make_nil(); break;
        case K_BOOL: tag = mpack_tag_make_bool(w.b); eq = eq && w.b == t.v.b; break;
        case K_UINT: tag = mpack_tag_make_uint(w.u); eq = t.ok() && is_int(t.v) && int_value(w) == int_value(t.v); break;
        case K_INT: tag = mpack_tag_make_int(w.i); eq = t.ok() && is_int(t.v) && int_value(w) == int_value(t.v); break;
#if MPACK_FLOAT
        case K_FLOAT:
            if (w.k == t.v.k && as_f(w) != as_f(w)) // NaN: representation is not ours to judge
                return x_real<float>(false);
            tag = mpack_tag_make_float(as_f(w));
            eq = eq && (uint32_t)w.u == (uint32_t)t.v.u;
            break;
#else
        case K_FLOAT: tag = mpack_tag_make_raw_float((uint32_t)w.u); eq = eq && (uint32_t)w.u == (uint32_t)t.v.u; break;
#endif
#if MPACK_DOUBLE
        case K_DOUBLE:
            if (w.k == t.v.k && as_d(w) != as_d(w))
                return x_real<double>(true);
            tag = mpack_tag_make_double(as_d(w));
            eq = eq && w.u == t.v.u;
            break;
#else
        case K_DOUBLE: tag = mpack_tag_make_raw_double(w.u); eq = eq && w.u == t.v.u; break;
#endif
        case K_STR: tag = mpack_tag_make_str((uint32_t)w.u); eq = eq && (uint32_t)w.u == t.v.u; break;
        case K_BIN: tag = mpack_tag_make_bin((uint32_t)w.u); eq = eq && (uint32_t)w.u == t.v.u; break;
        case K_ARR: tag = mpack_tag_make_array((uint32_t)w.u); eq = eq && (uint32_t)w.u == t.v.u; break;
        case K_MAP: tag = mpack_tag_make_map((uint32_t)w.u); eq = eq && (uint32_t)w.u == t.v.u; break;
#if MPACK_EXTENSIONS
        case K_EXT: tag = mpack_tag_make_ext(w.et, (uint32_t)w.u); eq = eq && (uint32_t)w.u == t.v.u && w.et == t.v.et; break;
#endif
        default: tag = mpack_tag_make_nil(); eq = t.ok() && t.v.k == K_NIL; break;
    }
    uint32_t mask = !t.ok() ? mismatch(t) : eq ? X_OK : X_TYPE;
    XRes x = X_OP("expect_tag", mask, t.need, mpack_expect_tag(&R->rd, tag));
    if (x.ok)
        advance(t);
    return x.ok;
}

#if MPACK_EXTENSIONS
static bool x_timestamp() {
    RRun& r = *R;
    TagX t = x_tag();
    bool trunc = draw(2);
    uint32_t mask;
    size_t need = t.need;
    int64_t sec = 0;
    uint32_t ns = 0;
    size_t n = (size_t)t.v.u;
    if (!t.ok() || t.v.k != K_EXT || t.v.et != MPACK_EXTTYPE_TIMESTAMP)
        mask = mismatch(t);
    else if (n != 4 && n != 8 && n != 12)
        mask = X_INVALID;
    else if (!body_there(t.next, n)) {
        mask = X_TRUNC;
        need = sat(t.next, n);
    } else {
        need = sat(t.next, n);
        bytes_t d(r.s.data.begin() + (long)t.next, r.s.data.begin() + (long)need);
        mask = timestamp_decode(d, &sec, &ns) ? X_OK : X_INVALID;
    }
    mpack_timestamp_t ts = {77, 77};
    int64_t s2 = 77;
    XRes x = X_OP(trunc ? "expect_timestamp_truncate" : "expect_timestamp", mask, need,
            if (trunc) s2 = mpack_expect_timestamp_truncate(&r.rd); else { ts = mpack_expect_timestamp(&r.rd); s2 = ts.seconds; });
    if (x.ok) {
        CHECK(s2 == sec && (trunc || ts.nanoseconds == ns), "expect.value", "expect_timestamp returned %lld.%09u, the value is %lld.%09u", (long long)s2, ts.nanoseconds, (long long)sec, ns);
        advance(t);
        r.pos = need;
    } else if (x.ret)
        CHECK(s2 == 0 && (trunc || ts.nanoseconds == 0), "expect.on-error", "a failed expect_timestamp returned a non-zero timestamp");
    return x.ok;
}
#endif

// ---------------------------------------------------------------- str, bin, ext
static size_t pick_size(size_t n, size_t cap) { // a limit near n
    size_t s;
    if (sizeof(cap) > 4 && cap > (size_t)UINT32_MAX && coin(1, 8)) // limits beyond 32 bits
        return huge_limit(n);
    switch (draw(6)) {
        case 0: case 1: s = n; break;
        case 2: s = n + 1; break;
        case 3: s = n ? n - 1 : 0; break;
        case 4: s = n + 2 + draw(40); break;
        default: s = draw(64); break;
    }
    return s > cap ? cap : s;
}

static const uint8_t* body_at(size_t pos) { return R->s.data.data() + pos; }


static uint32_t text_mask(size_t pos, size_t n, bool utf8, bool nul_ok) {
    if (!body_there(pos, n))
        return X_TRUNC;
    if (utf8 && !ref_utf8(body_at(pos), n))
        return X_TYPE;
    if (!nul_ok && !ref_no_nul(body_at(pos), n))
        return X_TYPE;
    return X_OK;
}

static void same_bytes(const char* what, const char* p, size_t pos, size_t n) {
    for (size_t i = 0; i < n; ++i)
        if ((uint8_t)p[i] != body_at(pos)[i])
            violate("expect.value", "%s returned a wrong byte at stream offset %lu (byte %lu of %lu)", what, (unsigned long)(pos + i), (unsigned long)i, (unsigned long)n);
}

static const size_t BODY_CAP = 300000;

static bool x_str_like(VK want) { // header-only functions for str/bin/ext followed by the body
    RRun& r = *R;
    TagX t = x_tag();
    uint32_t how = draw(3); // plain, max, exact
    bool is = t.ok() && t.v.k == want;
    uint32_t n = is ? (uint32_t)t.v.u : 0;
    uint32_t limit = (uint32_t)pick_size(n, UINT32_MAX);
    uint32_t mask = !is ? mismatch(t) : X_OK;
    if (is && want == K_EXT && t.v.et == -1)
        is = false, mask = X_TYPE;
    if (is && how == 1 && n > limit)
        mask = want == K_STR ? X_TOOBIG : X_TYPE;
    if (is && how == 2 && n != limit)
        mask = X_TYPE;
    uint32_t got = 0;
    int8_t et = 55;
    static const char* names[3][3] = {{"expect_str", "expect_str_max", "expect_str_length"}, {"expect_bin", "expect_bin_max", "expect_bin_size"}, {"expect_ext", "expect_ext_max", "expect_ext_size"}};
    const char* name = names[want == K_STR ? 0 : want == K_BIN ? 1 : 2][how];
    mpack_reader_t* rd = &r.rd;
    XRes x = X_OP(name, mask, t.need,
        if (want == K_STR) {
            if (how == 0) got = mpack_expect_str(rd); else if (how == 1) got = mpack_expect_str_max(rd, limit); else mpack_expect_str_length(rd, limit);
        } else if (want == K_BIN) {
            if (how == 0) got = mpack_expect_bin(rd); else if (how == 1) got = mpack_expect_bin_max(rd, limit); else mpack_expect_bin_size(rd, limit);
        } else {
#if MPACK_EXTENSIONS
            if (how == 0) got = mpack_expect_ext(rd, &et); else if (how == 1) got = mpack_expect_ext_max(rd, &et, limit); else mpack_expect_ext_size(rd, &et, limit);
#endif
        });
    if (!x.ok) {
        if (x.ret) {
            CHECK(got == 0, "expect.on-error", "a failed %s returned %u", name, got);
            if (want == K_EXT)
                CHECK(et == 0, "expect.on-error", "a failed %s left the ext type at %d", name, et);
        }
        return false;
    }
    if (how != 2)
        CHECK(got == n, "expect.value", "%s returned %u, the length is %u", name, got, n);
    if (want == K_EXT)
        CHECK(et == t.v.et, "expect.value", "%s returned ext type %d, it is %d", name, et, t.v.et);
    advance(t);
    return r_body(t.v);
}

// Reads into a buffer: str_buf, utf8, cstr, utf8_cstr, bin_buf, bin_size_buf, ext_buf
enum BufFn { B_STR, B_UTF8, B_CSTR, B_UTF8_CSTR, B_BIN, B_BIN_SIZE, B_EXT };
static bool x_buf(BufFn fn) {
    RRun& r = *R;
    static const char* names[] = {"expect_str_buf", "expect_utf8", "expect_cstr", "expect_utf8_cstr", "expect_bin_buf", "expect_bin_size_buf", "expect_ext_buf"};
    VK want = fn <= B_UTF8_CSTR ? K_STR : fn <= B_BIN_SIZE ? K_BIN : K_EXT;
    bool cstr = fn == B_CSTR || fn == B_UTF8_CSTR;
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == want && !(want == K_EXT && t.v.et == -1);
    size_t n = is ? (size_t)t.v.u : 0;
    size_t size = cstr ? pick_size(n + 1, BODY_CAP) : pick_size(n, BODY_CAP);
    if (cstr && size == 0)
        size = 1;
    uint32_t mask;
    size_t need = t.need;
    if (!is)
        mask = mismatch(t);
    else if (fn == B_BIN_SIZE ? n != size : cstr ? n > size - 1 : n > size) {
        mask = fn == B_BIN_SIZE ? X_TYPE : X_TOOBIG;
        if (fn == B_EXT)
            mask |= X_TYPE; // the documentation says so
    } else {
        need = sat(t.next, n);
        mask = want == K_STR ? text_mask(t.next, n, fn == B_UTF8 || fn == B_UTF8_CSTR, !cstr) : text_mask(t.next, n, false, true);
    }
    GBuf b(size ? size : 1);
    size_t got = 0;
    int8_t et = 55;
    mpack_reader_t* rd = &r.rd;
    XRes x = x_op(names[fn], mask, need, [&] {
        switch (fn) {
            case B_STR: got = mpack_expect_str_buf(rd, b.p, size); break;
            case B_UTF8: got = mpack_expect_utf8(rd, b.p, size); break;
            case B_CSTR: mpack_expect_cstr(rd, b.p, size); break;
            case B_UTF8_CSTR: mpack_expect_utf8_cstr(rd, b.p, size); break;
            case B_BIN: got = mpack_expect_bin_buf(rd, b.p, size); break;
            case B_BIN_SIZE: mpack_expect_bin_size_buf(rd, b.p, (uint32_t)size); break;
#if MPACK_EXTENSIONS
            case B_EXT: got = mpack_expect_ext_buf(rd, &et, b.p, size); break;
#endif
            default: break;
        }
    });
    b.check("read.overrun");
    if (size == 0)
        CHECK((uint8_t)b.p[0] == 0xA7, "read.overrun", "%s wrote into a buffer of size 0", names[fn]);
    if (!x.ok) {
        if (x.ret) {
            CHECK(got == 0, "expect.on-error", "a failed %s returned %lu", names[fn], (unsigned long)got);
            if (fn == B_EXT)
                CHECK(et == 0, "expect.on-error", "a failed expect_ext_buf left the ext type at %d", et);
        }
        if (cstr && x.ret)
            CHECK(b.p[0] == 0, "expect.on-error", "a failed %s did not leave an empty string", names[fn]);
        return false;
    }
    if (cstr)
        CHECK(b.p[n] == 0, "expect.value", "%s did not add a null-terminator", names[fn]);
    else if (fn != B_BIN_SIZE)
        CHECK(got == n, "expect.value", "%s returned %lu, the length is %lu", names[fn], (unsigned long)got, (unsigned long)n);
    if (fn == B_EXT)
        CHECK(et == t.v.et, "expect.value", "expect_ext_buf returned ext type %d, it is %d", et, t.v.et);
    same_bytes(names[fn], b.p, t.next, n);
    advance(t);
    r.pos = t.next + n;
    return true;
}

#ifdef MPACK_MALLOC
enum AllocFn { A_CSTR, A_UTF8_CSTR, A_BIN, A_EXT };
static bool x_alloc(AllocFn fn) {
    RRun& r = *R;
    static const char* names[] = {"expect_cstr_alloc", "expect_utf8_cstr_alloc", "expect_bin_alloc", "expect_ext_alloc"};
    VK want = fn <= A_UTF8_CSTR ? K_STR : fn == A_BIN ? K_BIN : K_EXT;
    bool cstr = fn <= A_UTF8_CSTR;
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == want && !(want == K_EXT && t.v.et == -1);
    size_t n = is ? (size_t)t.v.u : 0;
    size_t maxsize = coin(1, 4) ? (draw(2) ? SIZE_MAX : UINT32_MAX) : pick_size(cstr ? n + 1 : n, SIZE_MAX);
    if (cstr && maxsize == 0)
        maxsize = 1;
    uint32_t mask;
    size_t need = t.need;
    if (!is)
        mask = mismatch(t);
    else if (cstr ? n > maxsize - 1 : n > maxsize) {
        mask = cstr ? X_TOOBIG : X_TOOBIG | X_TYPE;
    } else {
        need = sat(t.next, n);
        mask = cstr ? text_mask(t.next, n, fn == A_UTF8_CSTR, false) : text_mask(t.next, n, false, true);
        if (n > 0x800000)
            mask |= X_MEM;
        if (cstr && n == UINT32_MAX)
            mask |= X_TOOBIG; // the null-terminator makes it 2^32 bytes
    }
    char* p = (char*)0x1;
    size_t size = 77;
    int8_t et = 55;
    mpack_reader_t* rd = &r.rd;
    size_t live0 = g_alloc.live;
    XRes x = x_op(names[fn], mask, need, [&] {
        switch (fn) {
            case A_CSTR: p = mpack_expect_cstr_alloc(rd, maxsize); break;
            case A_UTF8_CSTR: p = mpack_expect_utf8_cstr_alloc(rd, maxsize); break;
            case A_BIN: p = mpack_expect_bin_alloc(rd, maxsize, &size); break;
#if MPACK_EXTENSIONS
            case A_EXT: p = mpack_expect_ext_alloc(rd, &et, maxsize, &size); break;
#endif
            default: break;
        }
    });
    HIT("probe:expect-alloc");
    if (!x.ok) {
        if (x.ret) {
            CHECK(p == NULL, "expect.on-error", "a failed %s returned a pointer", names[fn]);
            if (!cstr)
                CHECK(size == 0, "expect.on-error", "a failed %s left the size at %lu", names[fn], (unsigned long)size);
            if (fn == A_EXT)
                CHECK(et == 0, "expect.on-error", "a failed expect_ext_alloc left the ext type at %d", et);
        }
        if (!r.destroyed && mpack_reader_error(rd) == mpack_error_memory)
            HIT("probe:expect-alloc-failed");
        // whatever was allocated for the value must be gone
        CHECK(g_alloc.live <= live0, "alloc.leak", "a failed %s left %lu more blocks allocated", names[fn], (unsigned long)(g_alloc.live - live0));
        return false;
    }
    if (n == 0 && !cstr) {
        CHECK(p == NULL, "expect.value", "%s of an empty value returned a pointer", names[fn]);
        CHECK(size == 0, "expect.value", "%s of an empty value returned size %lu", names[fn], (unsigned long)size);
    } else {
        CHECK(p != NULL && alloc_is_live(p) && alloc_size(p) >= n + cstr, "alloc.size", "%s of %lu bytes returned a bad block", names[fn], (unsigned long)n);
        same_bytes(names[fn], p, t.next, n);
        if (cstr)
            CHECK(p[n] == 0, "expect.value", "%s did not add a null-terminator", names[fn]);
        else
            CHECK(size == n, "expect.value", "%s returned size %lu, it is %lu", names[fn], (unsigned long)size, (unsigned long)n);
        sim_free(p);
    }
    if (fn == A_EXT)
        CHECK(et == t.v.et, "expect.value", "expect_ext_alloc returned ext type %d, it is %d", et, t.v.et);
    advance(t);
    r.pos = t.next + n;
    return true;
}
#endif

static bool x_str_match() {
    RRun& r = *R;
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == K_STR;
    size_t n = is ? (size_t)t.v.u : draw(4);
    bool there = is && body_there(t.next, n);
    // the string to match: the real one, or a near miss
    bytes_t s;
    if (is) {
        size_t have = there ? n : lim() > t.next ? lim() - t.next : 0;
        if (n > BODY_CAP)
            s.assign(5, 'x');
        else {
            s.assign(body_at(t.next), body_at(t.next) + have);
            s.resize(n, 'q');
        }
    } else
        s.assign(n, 'x');
    uint32_t tweak = coin(1, 6) ? 1 + draw(3) : 0;
    if (tweak == 1 && !s.empty())
        s[draw((uint32_t)s.size())] ^= (uint8_t)(1u << draw(8));
    else if (tweak == 2)
        s.push_back(0);
    else if (tweak == 3 && !s.empty())
        s.pop_back();
    bool use_cstr = ref_no_nul(s.data(), s.size()) && coin(1, 2);
    uint32_t mask;
    size_t need = t.need;
    if (!is)
        mask = mismatch(t);
    else if (s.size() != n)
        mask = X_TYPE;
    else {
        need = sat(t.next, n);
        size_t have = there ? n : lim() - t.next;
        bool differs = have && memcmp(s.data(), body_at(t.next), have) != 0;
        mask = there ? (differs ? X_TYPE : X_OK) : differs ? X_TYPE | X_TRUNC : X_TRUNC;
    }
    s.push_back(0);
    char* copy = (char*)dup_bytes(s.data(), s.size() - (use_cstr ? 0 : 1));
    XRes x = X_OP(use_cstr ? "expect_cstr_match" : "expect_str_match", mask, need,
            if (use_cstr) mpack_expect_cstr_match(&r.rd, copy); else mpack_expect_str_match(&r.rd, copy, s.size() - 1));
    free(copy);
    if (x.ok) {
        advance(t);
        r.pos = t.next + n;
    }
    return x.ok;
}

// ---------------------------------------------------------------- enums and keys
struct Table {
    std::vector<std::string> names;
    std::vector<const char*> ptrs;
    void seal() {
        ptrs.clear();
        for (auto& s : names)
            ptrs.push_back(s.c_str());
    }
    size_t find(const uint8_t* p, size_t n) const {
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i].size() == n && memcmp(names[i].data(), p, n) == 0)
                return i;
        return names.size();
    }
};

static void table_add(Table& tb, const uint8_t* p, size_t n) {
    if (ref_no_nul(p, n))
        tb.names.push_back(std::string((const char*)p, n));
}
// Strings that look like the given one but differ.
static void table_decoys(Table& tb, const uint8_t* p, size_t n) {
    std::string s((const char*)p, n);
    if (s.find('\0') != std::string::npos)
        s = "key";
    switch (draw(5)) {
        case 0: tb.names.push_back(s + "x"); break;
        case 1: if (!s.empty()) tb.names.push_back(s.substr(0, s.size() - 1)); break;
        case 2: if (!s.empty()) { s[s.size() - 1] = (char)(s[s.size() - 1] == 'z' ? 'y' : 'z'); tb.names.push_back(s); } break;
        case 3: tb.names.push_back(""); break;
        default: tb.names.push_back("other"); break;
    }
}
static void table_shuffle(Table& tb) {
    for (size_t i = 1; i < tb.names.size(); ++i)
        std::swap(tb.names[i], tb.names[draw((uint32_t)i + 1)]);
}

// A string read in place at t, looked up in the table.
static uint32_t enum_mask(const TagX& t, size_t& need) {
    RRun& r = *R;
    size_t save = r.pos;
    r.pos = t.next;
    uint32_t m = inplace_mask((size_t)t.v.u);
    r.pos = save;
    if (m == X_OK || m == X_TRUNC)
        need = sat(t.next, (size_t)t.v.u);
    return m;
}

static size_t call_key(const char* name, const Table& tb, bool optional, bool* found, uint32_t mask, size_t need, XRes& x) {
    size_t got = 12345;
    mpack_reader_t* rd = &R->rd;
    const char** names = const_cast<const char**>(tb.ptrs.data());
    x = X_OP(name, mask, need,
        if (found) got = mpack_expect_key_cstr(rd, names, found, tb.names.size());
        else if (optional) got = mpack_expect_enum_optional(rd, names, tb.names.size());
        else got = mpack_expect_enum(rd, names, tb.names.size()));
    return got;
}

static bool x_enum() {
    RRun& r = *R;
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == K_STR;
    bool optional = draw(2);
    Table tb;
    if (is && body_there(t.next, (size_t)t.v.u) && !coin(1, 6))
        table_add(tb, body_at(t.next), (size_t)t.v.u);
    for (uint32_t i = draw(3); i > 0; --i)
        if (is && body_there(t.next, (size_t)t.v.u))
            table_decoys(tb, body_at(t.next), (size_t)t.v.u);
        else
            tb.names.push_back("a");
    if (tb.names.empty())
        tb.names.push_back("zzz");
    table_shuffle(tb);
    tb.seal();
    uint32_t mask;
    size_t need = t.need, end = t.next, want = tb.names.size();
    if (is) {
        mask = enum_mask(t, need);
        end = t.next + (size_t)t.v.u;
        if (mask == X_OK) {
            want = tb.find(body_at(t.next), (size_t)t.v.u);
            if (want == tb.names.size() && !optional)
                mask = X_TYPE;
        }
    } else if (!optional)
        mask = mismatch(t);
    else {
        mask = model_scan(end);
        need = end;
        if (mask == X_TRUNC && is_file() && g_fs.read_err_at >= 0)
            return r_discard(); // seeks may pass over the bad region: covered by discard
    }
    const char* name = optional ? "expect_enum_optional" : "expect_enum";
    XRes x;
    size_t got = call_key(name, tb, optional, NULL, mask, need, x);
    HIT("probe:expect-enum");
    if (x.ok) {
        CHECK(got == want || (got < tb.names.size() && want < tb.names.size() && tb.names[got] == tb.names[want]), "expect.key", "%s returned %lu of %lu, the value is number %lu", name, (unsigned long)got, (unsigned long)tb.names.size(), (unsigned long)want);
        r.pos = end;
        r.elements++;
    } else if (x.ret)
        CHECK(got == tb.names.size(), "expect.on-error", "a failed %s returned %lu instead of the count", name, (unsigned long)got);
    return x.ok;
}

static bool x_element(uint32_t depth);

// A map read with mpack_expect_key_cstr() or mpack_expect_key_uint().
static bool x_keyed_map(uint64_t pairs, uint32_t depth) {
    RRun& r = *R;
    bool str = draw(2);
    Table tb;
    size_t count = 0;
    if (str) {
        // look ahead in the model for the keys that will come
        size_t save = r.pos;
        for (uint64_t i = 0; i < pairs && i < 12; ++i) {
            Val k;
            size_t p = r.pos;
            if (p >= lim() || dec_tag(r.s.data.data(), lim(), p, k, r.ext_ok) != DEC_OK)
                break;
            if (k.k == K_STR && body_there(p, (size_t)k.u)) {
                if (coin(3, 4) && tb.find(body_at(p), (size_t)k.u) == tb.names.size())
                    table_add(tb, body_at(p), (size_t)k.u);
                if (coin(1, 6))
                    table_decoys(tb, body_at(p), (size_t)k.u);
            }
            size_t end;
            if (model_scan(end) != X_OK)
                break;
            r.pos = end;
            if (r.pos < lim() && model_scan(end) == X_OK)
                r.pos = end;
            else
                break;
        }
        r.pos = save;
        if (tb.names.empty())
            tb.names.push_back("id");
        table_shuffle(tb);
        tb.seal();
        count = tb.names.size();
    } else
        count = 1 + draw(6);
    bool* found = (bool*)calloc(count, sizeof(bool));
    std::vector<bool> mfound(count, false);
    bool ok = true;
    for (uint64_t i = 0; ok && i < pairs; ++i) {
        TagX t = x_tag();
        uint32_t mask;
        size_t need = t.need, end = t.next, want = count;
        bool either = false;
        bool recog = t.ok() && t.v.k == (str ? K_STR : K_UINT);
        if (!t.ok())
            mask = t.mask;
        else if (str && recog) {
            mask = enum_mask(t, need);
            end = t.next + (size_t)t.v.u;
            if (mask == X_OK)
                want = tb.find(body_at(t.next), (size_t)t.v.u);
        } else if (recog) {
            mask = X_OK;
            want = t.v.u < count ? (size_t)t.v.u : count;
        } else {
            mask = model_scan(end);
            need = end;
            if (mask == X_TRUNC && is_file() && g_fs.read_err_at >= 0) {
                ok = r_discard() && x_element(depth + 1);
                continue;
            }
            if (!str && t.v.k == K_INT && t.v.i >= 0 && (uint64_t)t.v.i < count)
                either = true; // a small integer in a signed format: recognised or not
        }
        if (mask == X_OK && want < count && mfound[want])
            mask = X_INVALID;
        if (either && mfound[(size_t)t.v.i])
            mask |= X_INVALID;
        XRes x;
        size_t got = 12345;
        if (str)
            got = call_key("expect_key_cstr", tb, true, found, mask, need, x);
        else
            x = X_OP("expect_key_uint", mask, need, got = mpack_expect_key_uint(&r.rd, found, count));
        HIT("probe:expect-key");
        if (mask == X_INVALID)
            HIT("probe:duplicate-key");
        if (x.ok) {
            if (either && got == (size_t)t.v.i)
                want = got;
            bool alias = str && got < count && want < count && tb.names[got] == tb.names[want];
            CHECK(got == want || alias, "expect.key", "%s returned %lu of %lu, the key is number %lu", str ? "expect_key_cstr" : "expect_key_uint", (unsigned long)got, (unsigned long)count, (unsigned long)want);
            if (got < count)
                mfound[got] = true;
            r.pos = end;
            r.elements++;
        } else {
            if (x.ret)
                CHECK(got == count, "expect.on-error", "a failed key function returned %lu instead of the count", (unsigned long)got);
            ok = false;
        }
        for (size_t k = 0; k < count; ++k)
            CHECK(found[k] == mfound[k], "expect.key", "found[%lu] is %d after reading key %lu, it must be %d", (unsigned long)k, (int)found[k], (unsigned long)i, (int)mfound[k]);
        if (ok)
            ok = got < count ? x_element(depth + 1) : coin(1, 2) ? r_discard() : x_element(depth + 1);
    }
    free(found);
    return ok && r_done("done_map", mpack_type_map);
}

// ---------------------------------------------------------------- compound types
struct Elem16 { uint64_t a, b; };
static bool x_compound(bool map, uint32_t depth) {
    RRun& r = *R;
    TagX t = x_tag();
    bool is = t.ok() && t.v.k == (map ? K_MAP : K_ARR);
    bool nil = t.ok() && t.v.k == K_NIL;
    uint32_t n = is ? (uint32_t)t.v.u : 0;
    uint32_t how = draw(7);
    if (nil && coin(3, 4))
        how = 4 + draw(3);
#ifdef MPACK_MALLOC
    if (!map && (r.p_alloc ? coin(1, 2) : coin(1, 5)))
        how = 7 + (nil ? 1 : draw(2));
#endif
    mpack_reader_t* rd = &r.rd;
    uint32_t mask = is ? X_OK : mismatch(t);
    uint32_t got = 0, dflt = 0, count = 77;
    uint32_t mn = 0, mx = UINT32_MAX;
    bool has = false;
    static const char* names[2][9] = {
        {"expect_array", "expect_array_range", "expect_array_max", "expect_array_match", "expect_array_or_nil", "expect_array_max_or_nil", "expect_array_max_or_nil", "expect_array_alloc", "expect_array_or_nil_alloc"},
        {"expect_map", "expect_map_range", "expect_map_max", "expect_map_match", "expect_map_or_nil", "expect_map_max_or_nil", "expect_map_max_or_nil", "", ""}};
    const char* name = names[map][how];
    if (how == 1) {
        mn = (uint32_t)pick_size(n, UINT32_MAX);
        mx = (uint32_t)pick_size(n, UINT32_MAX);
        if (mn > mx) { uint32_t s = mn; mn = mx; mx = s; }
        dflt = mn;
    } else if (how == 2 || how >= 5)
        mx = coin(1, 8) ? UINT32_MAX : (uint32_t)pick_size(n, UINT32_MAX);
    else if (how == 3)
        mn = mx = (uint32_t)pick_size(n, UINT32_MAX);
    bool nil_ok = how >= 4 && how != 7;
    if (nil_ok && nil)
        mask = X_OK;
    if (is && (n < mn || n > mx))
        mask = X_TYPE;
#ifdef MPACK_MALLOC
    if (how >= 7) {
        uint32_t sz = draw(3);
        size_t es = sz == 0 ? 1 : sz == 1 ? 4 : sizeof(Elem16);
        if (mask == X_OK && (uint64_t)n * es > 0x800000)
            mask |= X_MEM;
        void* p = (void*)0x1;
        size_t live0 = g_alloc.live;
        XRes x = x_op(name, mask, t.need, [&] {
            if (how == 7)
                p = sz == 0 ? (void*)mpack_expect_array_alloc(rd, char, mx, &count) : sz == 1 ? (void*)mpack_expect_array_alloc(rd, uint32_t, mx, &count) : (void*)mpack_expect_array_alloc(rd, Elem16, mx, &count);
            else
                p = sz == 0 ? (void*)mpack_expect_array_or_nil_alloc(rd, char, mx, &count) : sz == 1 ? (void*)mpack_expect_array_or_nil_alloc(rd, uint32_t, mx, &count) : (void*)mpack_expect_array_or_nil_alloc(rd, Elem16, mx, &count);
        });
        HIT("probe:expect-array-alloc");
        if (!x.ok) {
            if (x.ret)
                CHECK(p == NULL && count == 0, "expect.on-error", "a failed %s returned %p with count %u", name, p, count);
            CHECK(g_alloc.live <= live0, "alloc.leak", "a failed %s left %lu more blocks allocated", name, (unsigned long)(g_alloc.live - live0));
            return false;
        }
        CHECK(count == n, "expect.value", "%s returned count %u, it is %u", name, count, n);
        advance(t);
        if (n == 0) {
            CHECK(p == NULL, "expect.value", "%s of no elements returned a pointer", name);
            if (how == 8)
                return true;
            return r_done("done_array", mpack_type_array);
        }
        CHECK(p != NULL && alloc_is_live(p) && alloc_size(p) / es >= n, "alloc.size", "%s of %u elements of %lu bytes returned a bad block of %lu bytes", name, n, (unsigned long)es, (unsigned long)(p ? alloc_size(p) : 0));
        memset(p, 0x3C, es * n);
        held_add(p);
        for (uint32_t i = 0; i < n; ++i)
            if (!x_element(depth + 1))
                return false;
        bool ok = r_done("done_array", mpack_type_array);
        held_free(p);
        return ok;
    }
#endif
    XRes x = x_op(name, mask, t.need, [&] {
        switch (how) {
            case 0: got = map ? mpack_expect_map(rd) : mpack_expect_array(rd); break;
            case 1: got = map ? mpack_expect_map_range(rd, mn, mx) : mpack_expect_array_range(rd, mn, mx); break;
            case 2: got = map ? mpack_expect_map_max(rd, mx) : mpack_expect_array_max(rd, mx); break;
            case 3: if (map) mpack_expect_map_match(rd, mx); else mpack_expect_array_match(rd, mx); break;
            case 4: has = map ? mpack_expect_map_or_nil(rd, &count) : mpack_expect_array_or_nil(rd, &count); break;
            default: has = map ? mpack_expect_map_max_or_nil(rd, mx, &count) : mpack_expect_array_max_or_nil(rd, mx, &count); break;
        }
    });
    if (!x.ok) {
        if (x.ret) {
            if (how < 3)
                CHECK(got == dflt, "expect.on-error", "a failed %s returned %u instead of %u", name, got, dflt);
            if (how >= 4)
                CHECK(!has && count == 0, "expect.on-error", "a failed %s returned %d with count %u", name, (int)has, count);
        }
        return false;
    }
    if (how < 3)
        CHECK(got == n, "expect.value", "%s returned %u, the count is %u", name, got, n);
    if (how >= 4)
        CHECK(has == is && count == n, "expect.value", "%s returned %d with count %u; it is %s with count %u", name, (int)has, count, nil ? "nil" : "present", n);
    advance(t);
    if (nil)
        return true;
    if (map && (p_keys ? coin(3, 4) : coin(1, 4)))
        return x_keyed_map(n, depth);
    uint64_t kids = map ? (uint64_t)n * 2 : n;
    for (uint64_t i = 0; i < kids; ++i)
        if (!x_element(depth + 1))
            return false;
    return r_done(map ? "done_map" : "done_array", map ? mpack_type_map : mpack_type_array);
}

// ---------------------------------------------------------------- programs
static bool x_some(uint32_t which, uint32_t depth) {
    switch (which) {
        case 0: return x_nil();
        case 1: return x_bool();
        case 2: return x_int_fn(draw(10));
        case 3: return x_int_match();
        case 4: return x_real_any(false);
        case 5: return x_real_any(true);
        case 6: return x_str_like(K_STR);
        case 7: return x_str_like(K_BIN);
        case 8: return x_buf((BufFn)draw(B_BIN_SIZE + 1));
#ifdef MPACK_MALLOC
        case 9: return x_alloc((AllocFn)draw(A_BIN + 1));
#endif
        case 10: return x_str_match();
        case 11: return x_enum();
        case 12: return x_compound(false, depth);
        case 13: return x_compound(true, depth);
#if MPACK_EXTENSIONS
        case 14: return x_timestamp();
        case 15: return x_str_like(K_EXT);
        case 16: return x_buf(B_EXT);
#ifdef MPACK_MALLOC
        case 17: return x_alloc(A_EXT);
#endif
#endif
        default: return x_nil();
    }
}

static bool x_element(uint32_t depth) {
    RRun& r = *R;
    if (r.stopped)
        return false;
    if (cancel_due())
        return user_cancel();
    if (depth > 300)
        return r_discard();
    if (coin(1, p_mismatch ? 12 : 60))
        return x_some(draw(18), depth);
    if (coin(1, 24))
        return r_element(depth); // mixed with the tag API
    TagX t = x_tag();
    if (!t.ok())
        return x_some(draw(18), depth);
    if (coin(1, 14)) {
        // exact tag, then whatever it opens
        size_t before = r.pos;
        if (!x_expect_tag())
            return false;
        (void)before;
        switch (t.v.k) {
            case K_STR: case K_BIN: case K_EXT: return r_body(t.v);
            case K_ARR: case K_MAP: {
                uint64_t n = t.v.k == K_ARR ? t.v.u : t.v.u * 2;
                for (uint64_t i = 0; i < n; ++i)
                    if (!x_element(depth + 1))
                        return false;
                return t.v.k == K_ARR ? r_done("done_array", mpack_type_array) : r_done("done_map", mpack_type_map);
            }
            default: return true;
        }
    }
    switch (t.v.k) {
        case K_NIL: return coin(2, 3) ? x_nil() : x_compound(draw(2), depth);
        case K_BOOL: return x_bool();
        case K_UINT: case K_INT:
            if (coin(1, 6))
                return x_int_match();
#if MPACK_FLOAT
            if (coin(1, 6))
                return x_real_any(MPACK_DOUBLE && !draw(2));
#endif
            return x_int_fn(int_fn_for(t.v));
        case K_FLOAT: return x_real_any(MPACK_DOUBLE && !draw(2));
        case K_DOUBLE: return x_real_any(!MPACK_FLOAT || draw(3));
        case K_STR:
            switch (draw(r.p_inplace ? 5 : 4)) {
                case 0: return x_buf((BufFn)draw(4));
#ifdef MPACK_MALLOC
                case 1: return x_alloc((AllocFn)draw(2));
#endif
                case 2: return x_str_match();
                case 3: return coin(1, 2) ? x_str_like(K_STR) : x_enum();
                default: return x_enum();
            }
        case K_BIN:
            switch (draw(3)) {
                case 0: return x_buf((BufFn)(B_BIN + draw(2)));
#ifdef MPACK_MALLOC
                case 1: return x_alloc(A_BIN);
#endif
                default: return x_str_like(K_BIN);
            }
        case K_EXT:
#if MPACK_EXTENSIONS
            if (t.v.et == -1 && !coin(1, 8))
                return x_timestamp();
            switch (draw(3)) {
                case 0: return x_buf(B_EXT);
#ifdef MPACK_MALLOC
                case 1: return x_alloc(A_EXT);
#endif
                default: return x_str_like(K_EXT);
            }
#else
            return x_nil();
#endif
        case K_ARR: return x_compound(false, depth);
        case K_MAP: return x_compound(true, depth);
        default: return x_nil();
    }
}

// Makes keys of maps small integers or repeats them, so that the key
// functions have something to find.
static void x_shape(Val& v) {
    if (v.k == K_MAP) {
        size_t pairs = v.kids.size() / 2;
        for (size_t i = 0; i < pairs; ++i) {
            Val& k = v.kids[2 * i];
            uint32_t c = p_keys ? draw(6) : draw(12);
            if (c == 5 || c == 4) {
                k = Val();
                k.k = K_UINT;
                k.u = draw(8);
                if (c == 4 && coin(1, 8)) {
                    k.k = K_INT;
                    k.i = (int64_t)draw(5) - 1;
                }
            } else if (c == 3) {
                k = Val();
                k.k = K_STR;
                static const char* words[] = {"id", "name", "value", "na\xC3\xAFve", "n", "", "compact", "schema"};
                const char* w = words[draw(8)];
                k.data.assign((const uint8_t*)w, (const uint8_t*)w + strlen(w));
            } else if (c == 2 && i > 0 && coin(1, 6))
                k = Val(v.kids[2 * draw((uint32_t)i)]);
        }
    }
    for (Val& k : v.kids)
        x_shape(k);
}

// In the error state every function returns its safe value.
static void x_after_error() {
    mpack_reader_t* rd = &R->rd;
    char b[8];
    memset(b, 0x55, sizeof(b));
    uint32_t count = 77;
    size_t size = 77;
    int8_t et = 55;
    bool found[2] = {false, false};
    const char* names[2] = {"a", ""};
#define SAFE(cond, name) CHECK(cond, "expect.on-error", name " after an error did not return a safe value")
    switch (draw(30)) {
        case 0: SAFE(mpack_expect_u8(rd) == 0, "expect_u8"); break;
        case 1: SAFE(mpack_expect_u64(rd) == 0, "expect_u64"); break;
        case 2: SAFE(mpack_expect_i64(rd) == 0, "expect_i64"); break;
        case 3: SAFE(mpack_expect_u16_range(rd, 3, 9) == 3, "expect_u16_range"); break;
        case 4: SAFE(mpack_expect_i32_range(rd, -7, 9) == -7, "expect_i32_range"); break;
        case 5: SAFE(mpack_expect_int_max(rd, 4) == 0, "expect_int_max"); break;
        case 6: mpack_expect_nil(rd); break;
        case 7: SAFE(!mpack_expect_bool(rd), "expect_bool"); break;
        case 8: mpack_expect_true(rd); break;
        case 9: mpack_expect_false(rd); break;
        case 10: SAFE(mpack_expect_map(rd) == 0, "expect_map"); break;
        case 11: SAFE(mpack_expect_array_range(rd, 2, 5) == 2, "expect_array_range"); break;
        case 12: SAFE(!mpack_expect_map_or_nil(rd, &count) && count == 0, "expect_map_or_nil"); break;
        case 13: SAFE(!mpack_expect_array_max_or_nil(rd, 4, &count) && count == 0, "expect_array_max_or_nil"); break;
        case 14: SAFE(mpack_expect_str(rd) == 0, "expect_str"); break;
        case 15: SAFE(mpack_expect_str_buf(rd, b, sizeof(b)) == 0, "expect_str_buf"); break;
        case 16: SAFE(mpack_expect_utf8(rd, b, sizeof(b)) == 0, "expect_utf8"); break;
        case 17: mpack_expect_cstr(rd, b, sizeof(b)); SAFE(b[0] == 0, "expect_cstr"); break;
        case 18: mpack_expect_utf8_cstr(rd, b, sizeof(b)); SAFE(b[0] == 0, "expect_utf8_cstr"); break;
        case 19: SAFE(mpack_expect_bin_buf(rd, b, sizeof(b)) == 0, "expect_bin_buf"); break;
        case 20: mpack_expect_bin_size_buf(rd, b, 3); break;
        case 21: mpack_expect_str_match(rd, "ab", 2); break;
        case 22: SAFE(mpack_expect_enum(rd, names, 2) == 2, "expect_enum"); break;
        case 23: SAFE(mpack_expect_enum_optional(rd, names, 2) == 2, "expect_enum_optional"); break;
        case 24: SAFE(mpack_expect_key_uint(rd, found, 2) == 2 && !found[0] && !found[1], "expect_key_uint"); break;
        case 25: SAFE(mpack_expect_key_cstr(rd, names, found, 2) == 2 && !found[0] && !found[1], "expect_key_cstr"); break;
#ifdef MPACK_MALLOC
        case 26: SAFE(mpack_expect_cstr_alloc(rd, draw(2) ? 1 : 100) == NULL, "expect_cstr_alloc"); break;
        case 27: SAFE(mpack_expect_bin_alloc(rd, 100, &size) == NULL && size == 0, "expect_bin_alloc"); break;
        case 28: SAFE(mpack_expect_array_alloc(rd, uint32_t, 10, &count) == NULL && count == 0, "expect_array_alloc"); break;
#endif
        default:
#if MPACK_EXTENSIONS
            if (draw(2))
                SAFE(mpack_expect_ext(rd, &et) == 0 && et == 0, "expect_ext");
            else
                SAFE(mpack_expect_timestamp_truncate(rd) == 0, "expect_timestamp_truncate");
#endif
            break;
    }
    (void)size;
    (void)et;
}

static void engine_expect() {
    p_keys = prof("keys");
    p_numbers = prof("numbers");
    p_mismatch = prof("mismatch");
    g_held.clear();
    static const ReaderProgram P = {x_element, x_shape, x_after_error, x_cleanup};
    run_reader(P);
}
static EngineReg reg("expect", engine_expect);
