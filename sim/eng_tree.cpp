// Tree (node API) engine: parses messages from every kind of source, under
// arbitrary delivery, limits, corruption and allocation/IO faults, and checks
// the resulting tree and its accessors against the reference decoder.
#include "stream.h"
#include <math.h>

enum TSrc { T_DATA, T_POOL, T_STREAM, T_STDFILE, T_STDFILE_CLOSE, T_FILENAME, T_N };
static const char* const src_names[] = {"data", "pool", "stream", "stdfile", "stdfile-close", "filename"};

struct NRef {
    mpack_node_t n;
    const Val* v; // NULL: missing node
};

enum { C_INVALID = 1, C_TRUNC = 2, C_TOOBIG = 4, C_UNSUP = 8 };

struct Exp {          // what the message at pos must lead to
    bool ok;
    uint32_t codes;   // acceptable reasons of failure
    size_t need;      // absolute offset of the data the message needs
    size_t end;
    size_t nodes;
    Val v;
};

struct TRun {
    mpack_tree_t t;
    TSrc src;
    Stream s;
    ErrCtl ec;
    bool ext_ok, nonblock, blocked, limit_faulted;
    uint32_t would_block;   // out of 16
    size_t pos, max_size, max_nodes, pool_count;
    uint32_t teardowns, reads_in_op;
    bool user_teardown, destroyed, stopped, dead_data;
    mpack_node_data_t* pool;
    char* data_copy;
    const char* data_ptr;
    FILE* file;
    uint64_t accesses, messages;
    size_t peak_nodes;
    bool check_need;
    std::vector<mpack_node_t> kept; // nodes of the last message, still valid
};
static TRun* R;

static bool is_file() { return R->src >= T_STDFILE; }

// ------------------------------------------------------------ callbacks
static void on_error(mpack_tree_t* t, mpack_error_t e) {
    nest();
    TRun& r = *R;
    CHECK(t == &r.t, "err.handler-arg", "error handler called with a wrong tree");
    CHECK(e != mpack_ok, "err.handler-arg", "error handler called with mpack_ok");
    CHECK(mpack_tree_error(t) == e, "err.handler-arg", "error handler called with %s but the tree has %s", err_name(e), err_name(mpack_tree_error(t)));
    r.ec.calls++;
    ev("handler(%s)", err_name(e));
    CHECK(r.ec.calls == 1, "err.twice", "error handler called %u times", r.ec.calls);
    r.ec.first = e;
    if (r.ec.mode == H_DESTROY || r.ec.mode == H_DESTROY_JUMP) {
        HIT("probe:destroy-in-handler");
        ev("destroy in handler");
        r.ec.destroyed = true;
        r.destroyed = true;
        r.ec.destroy_result = mpack_tree_destroy(t);
    }
    if ((r.ec.mode == H_JUMP || r.ec.mode == H_DESTROY_JUMP) && r.ec.armed)
        longjmp(r.ec.jb, 1);
    if (r.ec.mode == H_DESTROY && r.ec.armed)
        longjmp(r.ec.jb, 1); // the tree is gone: the only safe way out
}

static void teardown_fn(mpack_tree_t* t) {
    nest();
    CHECK(t == &R->t, "teardown.arg", "teardown called with a wrong tree");
    R->teardowns++;
    CHECK(R->teardowns == 1, "teardown.twice", "teardown called %u times", R->teardowns);
    ev("teardown");
}

static size_t read_fn(mpack_tree_t* t, char* buf, size_t count) {
    TRun& r = *R;
    CHECK(t == &r.t && mpack_tree_context(t) == &r, "fill.arg", "read function called with a wrong tree or context");
    CHECK(mpack_tree_error(t) == mpack_ok, "fill.after-error", "read function called in an error state");
    CHECK(count > 0, "fill.zero-count", "read function asked for zero bytes");
    CHECK(!r.s.failed, "fill.after-failure", "read function called again although it has reported a failure");
    r.s.calls++;
    r.reads_in_op++;
    ++g_steps;
    step_guard(4000000);
    CHECK(!r.check_need || r.s.off < r.s.need, "block.needless", "read function called although the whole message (ending at %lu) has been delivered (%lu bytes)",
            (unsigned long)r.s.need, (unsigned long)r.s.off);
    size_t buffered = r.s.off - r.pos;
    CHECK(buffered + count <= (r.max_size > MPACK_BUFFER_SIZE ? r.max_size : MPACK_BUFFER_SIZE) || r.max_size == SIZE_MAX || r.limit_faulted, "limit.read",
            "asked for %lu bytes with %lu buffered; the maximum message size is %lu", (unsigned long)count, (unsigned long)buffered, (unsigned long)r.max_size);
    if (r.s.yield)
        r.s.yield();
    if (r.nonblock && r.would_block && coin(r.would_block, 16)) {
        r.blocked = true;
        HIT("fault:would-block");
        ++g_nontrivial;
        ev("read(%lu) -> would block", (unsigned long)count);
        return 0;
    }
    if (r.s.off >= r.s.limit) {
        r.blocked = true;
        switch (r.s.fault) {
            case SF_MINUS1:
                FAULT("read-minus1");
                r.s.failed = true;
                ev("read(%lu) -> -1", (unsigned long)count);
                return (size_t)-1;
            case SF_FLAG:
                FAULT("read-flags-error");
                r.s.failed = true;
                ev("read(%lu) flags %s", (unsigned long)count, err_name(r.s.code));
                mpack_tree_flag_error(t, r.s.code);
                return 0;
            default:
                if (r.s.limit < r.s.data.size())
                    FAULT("read-ends-early");
                ev("read(%lu) -> 0 (end)", (unsigned long)count);
                return 0;
        }
    }
    size_t n = stream_deliver(r.s, buf, count);
    HIT("probe:tree-read");
    ++g_nontrivial;
    ev("read(%lu) -> %lu [off %lu]", (unsigned long)count, (unsigned long)n, (unsigned long)r.s.off);
    return n;
}

// ------------------------------------------------------------ message model
// Walks the message that starts at r.pos, accounting bytes like any parser that
// knows each element needs at least one byte.
static void predict(Exp& x) {
    TRun& r = *R;
    const uint8_t* p = r.s.data.data();
    size_t lim = r.s.limit, pos = r.pos;
    x.ok = true;
    x.codes = 0;
    x.nodes = 1;
    uint64_t left = 1;
    uint64_t need = 1;   // bytes of this message known to be needed
    uint64_t nodes = 1;
    uint64_t node_cap = r.max_nodes;
    if (r.src == T_POOL && r.pool_count < node_cap)
        node_cap = r.pool_count;
#define REQ() do { \
        if (need > lim - r.pos) x.codes |= C_TRUNC; \
        if (need > r.max_size) x.codes |= C_TOOBIG; \
        if (need > SIZE_MAX - 16) x.codes |= C_TOOBIG | C_INVALID; } while (0)
    REQ();
#ifndef MPACK_MALLOC
    std::vector<uint64_t> levels(1, 1); // nesting is limited without malloc()
#endif
    while (left > 0) {
        left--;
#ifndef MPACK_MALLOC
        while (levels.back() == 0)
            levels.pop_back();
        levels.back()--;
#endif
        if (pos >= lim) { x.codes |= C_TRUNC; break; }
        size_t at = pos;
        Val v;
        DecRes d = dec_tag(p, lim, pos, v, r.ext_ok);
        if (d == DEC_TRUNC) {
            x.codes |= C_TRUNC;
            need += 1;
            if (need > r.max_size) x.codes |= C_TOOBIG;
            // the header may be longer than what is there
            uint64_t more = 8;
            if (p[at] >= 0xc7 && p[at] <= 0xc9) { // the length may be there already
                size_t w = (size_t)1 << (p[at] - 0xc7);
                uint64_t l = 0;
                if (lim - at - 1 >= w)
                    for (size_t q = 0; q < w; ++q)
                        l = l << 8 | p[at + 1 + q];
                more += l;
            } else if (p[at] >= 0xd4 && p[at] <= 0xd8)
                more += 16;
            if (need + more > r.max_size) x.codes |= C_TOOBIG;
            if (need + more > SIZE_MAX - 16) x.codes |= C_TOOBIG | C_INVALID;
            break;
        }
        if (d == DEC_INVALID) { x.codes |= C_INVALID; break; }
        if (d == DEC_UNSUPPORTED) { x.codes |= C_UNSUP; break; }
        need += pos - at - 1;
        REQ();
        if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT) {
            need += v.u;
            REQ();
            if (v.u > lim - pos)
                break;
            pos += (size_t)v.u;
        } else if (v.k == K_ARR || v.k == K_MAP) {
            uint64_t c = v.k == K_ARR ? v.u : v.u * 2;
            nodes += c;
            if (nodes > node_cap) x.codes |= C_TOOBIG;
            need += c;
            left += c;
#ifndef MPACK_MALLOC
            if (c) {
                if (levels.size() == MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC) x.codes |= C_TOOBIG;
                levels.push_back(c);
            }
#endif
            REQ();
        }
        if (need > SIZE_MAX || nodes > SIZE_MAX) x.codes |= C_TOOBIG | C_INVALID;
    }
#undef REQ
    x.ok = x.codes == 0;
    x.nodes = (size_t)nodes;
    x.need = need > SIZE_MAX - r.pos ? SIZE_MAX : r.pos + (size_t)need;
    x.end = pos;
    if (x.ok) {
        size_t q = r.pos;
        DecRes d = dec_val(p, lim, q, x.v, r.ext_ok);
        if (d != DEC_OK || q != x.end)
            abort();
        x.need = x.end;
    } else if (x.codes & C_TRUNC)
        x.need = SIZE_MAX;
}

// Judges an error raised while parsing.
static void judge_parse_error(mpack_error_t e, const Exp& x, bool sync) {
    TRun& r = *R;
    bool ok = false;
    switch (e) {
        case mpack_error_invalid:
            ok = (x.codes & C_INVALID) || ((x.codes & C_TRUNC) && r.src != T_STREAM);
            break;
        case mpack_error_unsupported: ok = x.codes & C_UNSUP; break;
        case mpack_error_too_big: ok = x.codes & C_TOOBIG; break;
        case mpack_error_io:
            ok = r.src == T_STREAM && r.blocked && (sync || (r.s.failed && r.s.fault == SF_MINUS1));
            break;
        case mpack_error_memory: ok = g_alloc.failed > 0; break;
        default: break;
    }
    if (!ok && r.s.failed && r.s.fault == SF_FLAG && e == r.s.code)
        ok = true;
    if (!ok) {
        if (x.ok && !(r.s.failed) && !(g_alloc.failed))
            violate("err.spurious", "parsing a valid message of %lu bytes and %lu nodes (limits %lu bytes, %lu nodes) failed with %s", (unsigned long)(x.end - r.pos),
                    (unsigned long)x.nodes, (unsigned long)r.max_size, (unsigned long)r.max_nodes, err_name(e));
        violate("err.code", "parsing failed with %s (acceptable reasons: %s%s%s%s%s%s)", err_name(e), x.codes & C_INVALID ? "malformed " : "", x.codes & C_TRUNC ? "truncated " : "",
                x.codes & C_TOOBIG ? "limit " : "", x.codes & C_UNSUP ? "unsupported " : "", r.s.failed ? "stream-fault " : "", g_alloc.failed ? "allocation " : "");
    }
}

// After any operation: the error state must be consistent with the handler.
static void sync_error(mpack_error_t* out) {
    TRun& r = *R;
    mpack_error_t e = r.destroyed ? r.ec.destroy_result : mpack_tree_error(&r.t);
    if (r.ec.calls) {
        CHECK(e == r.ec.first, "err.sticky", "the error is %s but the handler was told %s", err_name(e), err_name(r.ec.first));
    } else if (r.ec.mode != H_NONE)
        CHECK(e == mpack_ok, "err.no-callback", "the tree is in error state %s but the handler was never called", err_name(e));
    *out = e;
}

// ------------------------------------------------------------ tree comparison
static uint64_t lcount;
static void check_bits_f(float f, uint32_t bits, const char* what) {
    uint32_t b;
    memcpy(&b, &f, 4);
    bool nan = (bits & 0x7f800000u) == 0x7f800000u && (bits & 0x7fffffu);
    CHECK(b == bits || (nan && f != f), "tree.value", "%s: got float bits %08x, expected %08x", what, b, bits);
}
static void check_bits_d(double d, uint64_t bits, const char* what) {
    uint64_t b;
    memcpy(&b, &d, 8);
    bool nan = (bits & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (bits & 0xfffffffffffffull);
    CHECK(b == bits || (nan && d != d), "tree.value", "%s: got double bits %llx, expected %llx", what, (unsigned long long)b, (unsigned long long)bits);
}

static mpack_type_t mtype(const Val* v) {
    if (!v)
        return mpack_type_missing;
    switch (v->k) {
        case K_NIL: return mpack_type_nil;
        case K_BOOL: return mpack_type_bool;
        case K_UINT: return mpack_type_uint;
        case K_INT: return mpack_type_int;
        case K_FLOAT: return mpack_type_float;
        case K_DOUBLE: return mpack_type_double;
        case K_STR: return mpack_type_str;
        case K_BIN: return mpack_type_bin;
#if MPACK_EXTENSIONS
        case K_EXT: return mpack_type_ext;
#endif
        case K_ARR: return mpack_type_array;
        case K_MAP: return mpack_type_map;
        default: return mpack_type_missing;
    }
}

static void check_data_ptr(const char* p, const Val& v) {
    TRun& r = *R;
    size_t n = v.data.size();
    CHECK(p != NULL || n == 0, "tree.data", "NULL data pointer for %lu bytes", (unsigned long)n);
    if (n)
        CHECK(memcmp(p, v.data.data(), n) == 0, "tree.data", "the node's %lu data bytes are wrong", (unsigned long)n);
    if (r.data_ptr)
        CHECK(p == r.data_ptr + v.end - n, "tree.data", "the node does not reference the original data");
}

static void compare(mpack_node_t n, const Val& v, uint32_t depth) {
    mpack_type_t ty = mpack_node_type(n);
    CHECK(ty == mtype(&v), "tree.type", "node at offset %lu is a %s, expected %s", (unsigned long)v.beg, mpack_type_to_string(ty), mpack_type_to_string(mtype(&v)));
    ++lcount;
    switch (v.k) {
        case K_NIL: CHECK(mpack_node_is_nil(n), "tree.value", "nil node is not nil"); break;
        case K_BOOL: CHECK(mpack_node_bool(n) == v.b, "tree.value", "bool node at %lu is not %d", (unsigned long)v.beg, v.b); break;
        case K_UINT: {
            uint64_t u = mpack_node_u64(n);
            CHECK(u == v.u, "tree.value", "uint node at %lu is %llu, expected %llu", (unsigned long)v.beg, (unsigned long long)u, (unsigned long long)v.u);
            break;
        }
        case K_INT: {
            int64_t i = mpack_node_i64(n);
            CHECK(i == v.i, "tree.value", "int node at %lu is %lld, expected %lld", (unsigned long)v.beg, (long long)i, (long long)v.i);
            break;
        }
#if MPACK_FLOAT
        case K_FLOAT: check_bits_f(mpack_node_float_strict(n), (uint32_t)v.u, "float node"); break;
#else
        case K_FLOAT: CHECK(mpack_node_raw_float(n) == (uint32_t)v.u, "tree.value", "raw float node"); break;
#endif
#if MPACK_DOUBLE
        case K_DOUBLE: check_bits_d(mpack_node_double_strict(n), v.u, "double node"); break;
#else
        case K_DOUBLE: CHECK(mpack_node_raw_double(n) == v.u, "tree.value", "raw double node"); break;
#endif
        case K_STR:
            CHECK(mpack_node_strlen(n) == v.data.size(), "tree.len", "str node at %lu has length %lu, expected %lu", (unsigned long)v.beg, (unsigned long)mpack_node_strlen(n), (unsigned long)v.data.size());
            check_data_ptr(mpack_node_str(n), v);
            break;
        case K_BIN:
            CHECK(mpack_node_bin_size(n) == v.data.size(), "tree.len", "bin node at %lu has size %lu, expected %lu", (unsigned long)v.beg, (unsigned long)mpack_node_bin_size(n), (unsigned long)v.data.size());
            check_data_ptr(mpack_node_bin_data(n), v);
            break;
        case K_EXT:
#if MPACK_EXTENSIONS
            CHECK(mpack_node_exttype(n) == v.et, "tree.value", "ext node at %lu has type %d, expected %d", (unsigned long)v.beg, mpack_node_exttype(n), v.et);
            CHECK(mpack_node_data_len(n) == v.data.size(), "tree.len", "ext node at %lu has size %lu, expected %lu", (unsigned long)v.beg, (unsigned long)mpack_node_data_len(n), (unsigned long)v.data.size());
            check_data_ptr(mpack_node_data(n), v);
#endif
            break;
        case K_ARR: {
            size_t c = mpack_node_array_length(n);
            CHECK(c == v.kids.size(), "tree.len", "array node at %lu has %lu elements, expected %lu", (unsigned long)v.beg, (unsigned long)c, (unsigned long)v.kids.size());
            for (size_t i = 0; i < c; ++i)
                compare(mpack_node_array_at(n, i), v.kids[i], depth + 1);
            break;
        }
        case K_MAP: {
            size_t c = mpack_node_map_count(n);
            CHECK(c == v.kids.size() / 2, "tree.len", "map node at %lu has %lu pairs, expected %lu", (unsigned long)v.beg, (unsigned long)c, (unsigned long)v.kids.size() / 2);
            for (size_t i = 0; i < c; ++i) {
                compare(mpack_node_map_key_at(n, i), v.kids[2 * i], depth + 1);
                compare(mpack_node_map_value_at(n, i), v.kids[2 * i + 1], depth + 1);
            }
            break;
        }
    }
}

// ------------------------------------------------------------ accessors
enum { E_TYPE = 1, E_DATA = 2, E_BIG = 4, E_INV = 8, E_MEM = 16 };

// Judges the error state after an accessor; returns true if it must have succeeded.
static bool acc_end(const char* what, uint32_t x) {
    TRun& r = *R;
    mpack_error_t e;
    sync_error(&e);
    ev("  %s -> %s", what, err_name(e));
    r.accesses++;
    if (e == mpack_ok) {
        CHECK(x == 0, "node.accepted", "%s succeeded, but should have failed", what);
        return true;
    }
    r.stopped = true;
    HIT("probe:node-error");
    if (e == mpack_error_memory && g_alloc.failed)
        return false;
    CHECK(x != 0, "node.spurious", "%s failed with %s, but should have succeeded", what, err_name(e));
    bool ok = (e == mpack_error_type && (x & E_TYPE)) || (e == mpack_error_data && (x & E_DATA)) || (e == mpack_error_too_big && (x & E_BIG)) ||
              (e == mpack_error_invalid && (x & E_INV)) || (e == mpack_error_memory && (x & E_MEM));
    CHECK(ok, "node.code", "%s failed with %s", what, err_name(e));
    return false;
}
#define ACC(call) (guarded(R->ec, [&] { call; }))

static bool int_val(const Val* v, bool* neg, uint64_t* u, int64_t* i) {
    if (v && v->k == K_UINT) { *neg = false; *u = v->u; *i = (int64_t)v->u; return true; }
    if (v && v->k == K_INT) { *neg = v->i < 0; *u = (uint64_t)v->i; *i = v->i; return true; }
    return false;
}

template <class T, class F> static void acc_int(const char* what, NRef nr, F f, int64_t lo, uint64_t hi) {
    bool neg;
    uint64_t u;
    int64_t i;
    uint32_t x = E_TYPE;
    T want = 0;
    if (int_val(nr.v, &neg, &u, &i) && (neg ? i >= lo : u <= hi)) {
        x = 0;
        want = neg ? (T)i : (T)u;
    }
    volatile T got = 0;
    bool ret = ACC(got = f(nr.n));
    if (acc_end(what, x))
        CHECK(got == want, "node.value", "%s returned %lld, expected %lld", what, (long long)got, (long long)want);
    else if (ret)
        CHECK(got == 0, "node.default", "%s failed but returned %lld", what, (long long)got);
}

static void put_random_utf8(bytes_t&) {}

static uint32_t str_errors(const NRef& nr, bool utf8, bool nonul) {
    if (!nr.v || nr.v->k != K_STR)
        return E_TYPE;
    const bytes_t& d = nr.v->data;
    uint32_t x = 0;
    if (utf8 && !ref_utf8(d.data(), d.size()))
        x |= E_TYPE;
    if (nonul && !ref_no_nul(d.data(), d.size()))
        x |= E_TYPE;
    return x;
}
static bool is_data(const Val* v) { return v && (v->k == K_STR || v->k == K_BIN || v->k == K_EXT); }

struct Key {
    int kind; // 0 int, 1 uint, 2 str
    int64_t i;
    uint64_t u;
    bytes_t s;
};
// Number of entries of map v matching the key, and the last match.
static size_t map_find(const Val& v, const Key& k, const Val** out) {
    size_t n = 0;
    for (size_t j = 0; j + 1 < v.kids.size(); j += 2) {
        const Val& c = v.kids[j];
        bool m = false;
        if (k.kind == 2)
            m = c.k == K_STR && c.data == k.s;
        else {
            bool neg;
            uint64_t u;
            int64_t i;
            if (int_val(&c, &neg, &u, &i)) {
                if (k.kind == 0)
                    m = k.i < 0 ? (neg && i == k.i) : (!neg && u == (uint64_t)k.i);
                else
                    m = !neg && u == k.u;
            }
        }
        if (m) {
            n++;
            *out = &v.kids[j + 1];
        }
    }
    return n;
}

static void draw_key(const NRef& nr, Key& k) {
    k.kind = (int)draw(3);
    k.i = (int64_t)draw(40) - 20;
    k.u = draw(200);
    size_t n = nr.v && nr.v->k == K_MAP ? nr.v->kids.size() / 2 : 0;
    if (n && coin(7, 8)) {
        const Val& c = nr.v->kids[2 * draw((uint32_t)n)];
        if (c.k == K_STR) {
            k.kind = 2;
            k.s = c.data;
            uint32_t z = draw(6);
            if (z == 4 && !k.s.empty())
                k.s.pop_back();
            if (z == 5)
                k.s.push_back('q');
        } else if (c.k == K_UINT) {
            k.u = c.u;
            k.i = (int64_t)c.u;
            k.kind = (int)draw(2);
        } else if (c.k == K_INT) {
            k.i = c.i;
            k.u = (uint64_t)c.i;
            k.kind = (int)draw(2);
        } else if (c.k == K_BIN || c.k == K_EXT) {
            k.kind = 2;
            k.s = c.data;
        }
    }
    if (k.kind == 2 && k.s.empty() && coin(1, 2))
        k.s.assign({'k', 'e', 'y'});
}

static void acc_lookup(std::vector<NRef>& set, NRef nr) {
    TRun& r = *R;
    Key k;
    draw_key(nr, k);
    const Val* hit = NULL;
    uint32_t x = 0;
    size_t n = 0;
    if (!nr.v || nr.v->k != K_MAP)
        x = E_TYPE;
    else {
        n = map_find(*nr.v, k, &hit);
        if (n > 1)
            x = E_DATA;
    }
    uint32_t how = draw(3); // 0 required, 1 optional, 2 contains
    bool ascstr = k.kind == 2 && ref_no_nul(k.s.data(), k.s.size()) && draw(2);
    std::string cs((const char*)k.s.data(), k.s.size());
    char* exact = (char*)dup_bytes(k.s.data(), k.s.size());
    char what[64];
    snprintf(what, sizeof(what), "map_%s_%s", how == 2 ? "contains" : how ? "optional" : "find", k.kind == 0 ? "int" : k.kind == 1 ? "uint" : ascstr ? "cstr" : "str");
    if (how == 2) {
        volatile bool got = false;
        bool ret = ACC(got = k.kind == 0 ? mpack_node_map_contains_int(nr.n, k.i)
                           : k.kind == 1 ? mpack_node_map_contains_uint(nr.n, k.u)
                           : ascstr ? mpack_node_map_contains_cstr(nr.n, cs.c_str()) : mpack_node_map_contains_str(nr.n, exact, k.s.size()));
        free(exact);
        if (acc_end(what, x))
            CHECK(got == (n == 1), "node.lookup", "%s returned %d, but the map has %lu such keys", what, (int)got, (unsigned long)n);
        else if (ret)
            CHECK(!got, "node.default", "%s failed but returned true", what);
        return;
    }
    if (how == 0 && n == 0)
        x |= x ? 0 : E_DATA;
    mpack_node_t got = nr.n;
    bool ret = ACC(if (how == 0) got = k.kind == 0 ? mpack_node_map_int(nr.n, k.i) : k.kind == 1 ? mpack_node_map_uint(nr.n, k.u)
                                     : ascstr ? mpack_node_map_cstr(nr.n, cs.c_str()) : mpack_node_map_str(nr.n, exact, k.s.size());
                   else got = k.kind == 0 ? mpack_node_map_int_optional(nr.n, k.i) : k.kind == 1 ? mpack_node_map_uint_optional(nr.n, k.u)
                            : ascstr ? mpack_node_map_cstr_optional(nr.n, cs.c_str()) : mpack_node_map_str_optional(nr.n, exact, k.s.size()));
    free(exact);
    if (acc_end(what, x)) {
        NRef nn = {got, n ? hit : NULL};
        CHECK(mpack_node_type(got) == mtype(nn.v), "node.lookup", "%s found a %s, expected a %s", what, mpack_type_to_string(mpack_node_type(got)), mpack_type_to_string(mtype(nn.v)));
        CHECK(mpack_node_is_missing(got) == (nn.v == NULL), "node.lookup", "%s: wrong is_missing", what);
        if (nn.v)
            compare(got, *nn.v, 0);
        set.push_back(nn);
        HIT("probe:lookup");
    } else if (ret && !r.destroyed) {
        CHECK(mpack_node_is_nil(got) && mpack_node_type(got) == mpack_type_nil, "node.default", "%s failed but did not return a nil node", what);
    }
}

static size_t cap_around(size_t n) {
    size_t c = n + draw(5);
    c = c >= 2 ? c - 2 : 0;
    return coin(1, 3) ? n + draw(40) : c;
}

static void acc_copy(NRef nr) {
    uint32_t kind = draw(7);
    size_t n = nr.v ? nr.v->data.size() : 0;
    size_t cap = cap_around(n);
    uint32_t x;
    const uint8_t* want = nr.v ? nr.v->data.data() : NULL;
    static const char* names[] = {"copy_data", "copy_utf8", "copy_cstr", "copy_utf8_cstr", "data_alloc", "cstr_alloc", "utf8_cstr_alloc"};
    bool cstr = kind == 2 || kind == 3 || kind >= 5;
    bool utf8 = kind == 1 || kind == 3 || kind == 6;
    if (cstr && cap == 0)
        cap = 1;
    if (kind == 0 || kind == 4)
        x = is_data(nr.v) ? 0 : E_TYPE;
    else
        x = str_errors(nr, utf8, cstr);
    if (nr.v && is_data(nr.v) && (kind == 0 || kind == 4 || nr.v->k == K_STR) && n + (cstr ? 1 : 0) > cap)
        x |= E_BIG | (kind == 2 || kind == 3 ? E_DATA : 0);
    HIT("probe:node-copy");
    if (kind < 4) {
        GBuf b(cap);
        volatile size_t got = 777;
        bool ret = ACC(switch (kind) {
            case 0: got = mpack_node_copy_data(nr.n, b.p, cap); break;
            case 1: got = mpack_node_copy_utf8(nr.n, b.p, cap); break;
            case 2: mpack_node_copy_cstr(nr.n, b.p, cap); break;
            default: mpack_node_copy_utf8_cstr(nr.n, b.p, cap); break;
        });
        b.check("node.copy-overflow");
        if (acc_end(names[kind], x)) {
            CHECK(n == 0 || memcmp(b.p, want, n) == 0, "node.data", "%s copied wrong bytes", names[kind]);
            if (cstr)
                CHECK(b.p[n] == 0, "node.cstr", "%s did not terminate the string", names[kind]);
            else
                CHECK(got == n, "node.value", "%s returned %lu, expected %lu", names[kind], (unsigned long)got, (unsigned long)n);
        } else {
            if (cstr)
                CHECK(b.p[0] == 0, "node.cstr", "%s failed but did not leave an empty string", names[kind]);
            else if (ret)
                CHECK(got == 0, "node.default", "%s failed but returned %lu", names[kind], (unsigned long)got);
        }
        return;
    }
#ifdef MPACK_MALLOC
    if (coin(1, 3))
        cap = draw(2) ? SIZE_MAX : huge_limit(n), x &= ~(uint32_t)(E_BIG | E_DATA);
    char* volatile got = NULL;
    bool ret = ACC(got = kind == 4 ? mpack_node_data_alloc(nr.n, cap) : kind == 5 ? mpack_node_cstr_alloc(nr.n, cap) : mpack_node_utf8_cstr_alloc(nr.n, cap));
    if (acc_end(names[kind], x)) {
        if (n || cstr)
            CHECK(got != NULL, "node.alloc", "%s returned NULL without an error", names[kind]);
        if (got) {
            CHECK(alloc_is_live(got) && alloc_size(got) >= n + (cstr ? 1 : 0), "node.alloc", "%s returned memory that is too small", names[kind]);
            CHECK(n == 0 || memcmp(got, want, n) == 0, "node.data", "%s copied wrong bytes", names[kind]);
            if (cstr)
                CHECK(got[n] == 0, "node.cstr", "%s did not terminate the string", names[kind]);
            sim_free(got);
        }
    } else if (ret)
        CHECK(got == NULL, "node.default", "%s failed but returned a pointer", names[kind]);
#endif
}

static void acc_enum(NRef nr) {
    const char* list[6];
    std::string hold[6];
    uint32_t n = draw(6);
    for (uint32_t i = 0; i < n; ++i) {
        static const char* words[] = {"a", "apple", "", "banana", "key", "zz"};
        hold[i] = words[draw(6)];
        if (nr.v && nr.v->k == K_STR && ref_no_nul(nr.v->data.data(), nr.v->data.size()) && coin(1, 3)) {
            hold[i].assign((const char*)nr.v->data.data(), nr.v->data.size());
            uint32_t z = draw(5);
            if (z == 3 && !hold[i].empty())
                hold[i].pop_back();
            if (z == 4)
                hold[i] += 'x';
        }
        list[i] = hold[i].c_str();
    }
    size_t want = n;
    if (nr.v && nr.v->k == K_STR)
        for (uint32_t i = 0; i < n; ++i)
            if (hold[i].size() == nr.v->data.size() && memcmp(hold[i].data(), nr.v->data.data(), hold[i].size()) == 0) {
                want = i;
                break;
            }
    bool opt = draw(2);
    volatile size_t got = 99;
    ACC(got = opt ? mpack_node_enum_optional(nr.n, list, n) : mpack_node_enum(nr.n, list, n));
    if (acc_end(opt ? "enum_optional" : "enum", opt || want < n ? 0 : E_TYPE) || !R->ec.jumped)
        CHECK(got == want || R->ec.jumped, "node.value", "enum returned %lu, expected %lu", (unsigned long)got, (unsigned long)want);
}

static void acc_tag(NRef nr) {
    if (!nr.v)
        return;
    const Val& v = *nr.v;
    mpack_tag_t t = mpack_node_tag(nr.n);
    CHECK(mpack_tag_type(&t) == mtype(nr.v), "tree.type", "mpack_node_tag has a wrong type");
    switch (v.k) {
        case K_BOOL: CHECK(mpack_tag_bool_value(&t) == v.b, "tree.value", "tag value"); break;
        case K_UINT: CHECK(mpack_tag_uint_value(&t) == v.u, "tree.value", "tag value"); break;
        case K_INT: CHECK(mpack_tag_int_value(&t) == v.i, "tree.value", "tag value"); break;
#if MPACK_FLOAT
        case K_FLOAT: check_bits_f(mpack_tag_float_value(&t), (uint32_t)v.u, "tag"); break;
#else
        case K_FLOAT: CHECK(mpack_tag_raw_float_value(&t) == (uint32_t)v.u, "tree.value", "raw float tag"); break;
#endif
#if MPACK_DOUBLE
        case K_DOUBLE: check_bits_d(mpack_tag_double_value(&t), v.u, "tag"); break;
#else
        case K_DOUBLE: CHECK(mpack_tag_raw_double_value(&t) == v.u, "tree.value", "raw double tag"); break;
#endif
        case K_STR: CHECK(mpack_tag_str_length(&t) == v.data.size(), "tree.len", "tag length"); break;
        case K_BIN: CHECK(mpack_tag_bin_length(&t) == v.data.size(), "tree.len", "tag length"); break;
#if MPACK_EXTENSIONS
        case K_EXT: CHECK(mpack_tag_ext_length(&t) == v.data.size() && mpack_tag_ext_exttype(&t) == v.et, "tree.len", "tag length"); break;
#endif
        case K_ARR: CHECK(mpack_tag_array_count(&t) == v.kids.size(), "tree.len", "tag count"); break;
        case K_MAP: CHECK(mpack_tag_map_count(&t) == v.kids.size() / 2, "tree.len", "tag count"); break;
        default: break;
    }
}

static void acc_one(std::vector<NRef>& set) {
    TRun& r = *R;
    NRef nr = set[draw((uint32_t)set.size())];
    if (coin(1, 2))
        nr = set.back();
    const Val* v = nr.v;
    size_t nk = v ? v->kids.size() : 0;
    bool neg = false;
    uint64_t u = 0;
    int64_t i = 0;
    bool isint = int_val(v, &neg, &u, &i);
    VK k = v ? v->k : K_NIL;
    switch (draw(44)) {
        case 0: { mpack_type_t t = mpack_node_type(nr.n); CHECK(t == mtype(v), "tree.type", "node type is %s, expected %s", mpack_type_to_string(t), mpack_type_to_string(mtype(v))); break; }
        case 1: CHECK(mpack_node_is_nil(nr.n) == (v && k == K_NIL), "node.value", "is_nil is wrong"); break;
        case 2: CHECK(mpack_node_is_missing(nr.n) == !v, "node.value", "is_missing is wrong"); break;
        case 3: if (coin(1, 4) || (v && k == K_NIL)) { ACC(mpack_node_nil(nr.n)); acc_end("nil", v && k == K_NIL ? 0 : E_TYPE); } break;
        case 4: if (coin(1, 4) || !v) { ACC(mpack_node_missing(nr.n)); acc_end("missing", v ? E_TYPE : 0); } break;
        case 5: {
            if (!(v && k == K_BOOL) && !coin(1, 4)) break;
            volatile bool got = false;
            bool ret = ACC(got = mpack_node_bool(nr.n));
            if (acc_end("bool", v && k == K_BOOL ? 0 : E_TYPE)) CHECK(got == v->b, "node.value", "bool returned %d", (int)got);
            else if (ret) CHECK(!got, "node.default", "bool failed but returned true");
            break;
        }
        case 6: if (coin(1, 4) || (v && k == K_BOOL)) { ACC(mpack_node_true(nr.n)); acc_end("true", v && k == K_BOOL && v->b ? 0 : E_TYPE); } break;
        case 7: if (coin(1, 4) || (v && k == K_BOOL)) { ACC(mpack_node_false(nr.n)); acc_end("false", v && k == K_BOOL && !v->b ? 0 : E_TYPE); } break;
        // integers: keep the type errors from ending most programs early
        case 8: if (isint || coin(1, 6)) acc_int<uint8_t>("u8", nr, mpack_node_u8, 0, UINT8_MAX); break;
        case 9: if (isint || coin(1, 6)) acc_int<int8_t>("i8", nr, mpack_node_i8, INT8_MIN, INT8_MAX); break;
        case 10: if (isint || coin(1, 6)) acc_int<uint16_t>("u16", nr, mpack_node_u16, 0, UINT16_MAX); break;
        case 11: if (isint || coin(1, 6)) acc_int<int16_t>("i16", nr, mpack_node_i16, INT16_MIN, INT16_MAX); break;
        case 12: if (isint || coin(1, 6)) acc_int<uint32_t>("u32", nr, mpack_node_u32, 0, UINT32_MAX); break;
        case 13: if (isint || coin(1, 6)) acc_int<int32_t>("i32", nr, mpack_node_i32, INT32_MIN, INT32_MAX); break;
        case 14: if (isint || coin(1, 6)) acc_int<uint64_t>("u64", nr, mpack_node_u64, 0, UINT64_MAX); break;
        case 15: if (isint || coin(1, 6)) acc_int<int64_t>("i64", nr, mpack_node_i64, INT64_MIN, INT64_MAX); break;
        case 16: if (isint || coin(1, 6)) acc_int<unsigned>("uint", nr, mpack_node_uint, 0, UINT_MAX); break;
        case 17: if (isint || coin(1, 6)) acc_int<int>("int", nr, mpack_node_int, INT_MIN, INT_MAX); break;
        case 18: case 19: case 20: case 21: {
            static const uint32_t avail[] = {
#if MPACK_FLOAT
                0, 2,
#else
                4,
#endif
#if MPACK_DOUBLE
                1, 3
#else
                5
#endif
            };
            uint32_t which = avail[draw(sizeof(avail) / sizeof(avail[0]))];
            static const char* nm[] = {"float", "double", "float_strict", "double_strict", "raw_float", "raw_double"};
            if (which >= 4) {
                bool is = v && k == (which == 4 ? K_FLOAT : K_DOUBLE);
                if (!is && !coin(1, 6)) break;
                volatile uint64_t raw = 1;
                bool ret = ACC(switch (which) {
#if !MPACK_FLOAT
                    case 4: raw = mpack_node_raw_float(nr.n); break;
#endif
#if !MPACK_DOUBLE
                    case 5: raw = mpack_node_raw_double(nr.n); break;
#endif
                    default: break;
                });
                if (acc_end(nm[which], is ? 0 : E_TYPE))
                    CHECK(raw == v->u, "node.value", "%s returned %llx", nm[which], (unsigned long long)raw);
                else if (ret)
                    CHECK(raw == 0, "node.default", "%s failed but did not return 0", nm[which]);
                break;
            }
            bool num = isint || (v && (k == K_FLOAT || k == K_DOUBLE));
            if (!num && !coin(1, 6)) break;
            uint32_t x = which < 2 ? (num ? 0 : E_TYPE) : which == 2 ? (v && k == K_FLOAT ? 0 : E_TYPE) : (v && (k == K_FLOAT || k == K_DOUBLE) ? 0 : E_TYPE);
            volatile double d = 1;
            volatile float f = 1;
            bool ret = ACC(switch (which) {
#if MPACK_FLOAT
                case 0: f = mpack_node_float(nr.n); break;
                case 2: f = mpack_node_float_strict(nr.n); break;
#endif
#if MPACK_DOUBLE
                case 1: d = mpack_node_double(nr.n); break;
                case 3: d = mpack_node_double_strict(nr.n); break;
#endif
                default: break;
            });
            if (acc_end(nm[which], x)) {
                double want;
                if (isint)
                    want = neg ? (double)i : (double)u;
                else if (k == K_FLOAT) { float t; uint32_t b = (uint32_t)v->u; memcpy(&t, &b, 4); want = (double)t; }
                else memcpy(&want, &v->u, 8);
                if (which == 0 || which == 2) {
                    volatile float wf = isint ? (neg ? (float)i : (float)u) : k == K_DOUBLE ? ref_double_to_float(want) : (float)want;
                    CHECK(f == wf || (f != f && wf != wf), "node.value", "%s returned %g, expected %g", nm[which], (double)f, (double)wf);
                } else {
                    volatile double wd = want;
                    CHECK(d == wd || (d != d && wd != wd), "node.value", "%s returned %g, expected %g", nm[which], (double)d, (double)wd);
                }
            } else if (ret)
                CHECK(which == 0 || which == 2 ? f == 0 : d == 0, "node.default", "%s failed but did not return 0", nm[which]);
            break;
        }
        case 22: case 23:
#if MPACK_EXTENSIONS
        {
            bool ext = v && k == K_EXT;
            if (!ext && !coin(1, 6)) break;
            int64_t ws = 0;
            uint32_t wn = 0;
            uint32_t x = !ext || v->et != -1 ? E_TYPE : timestamp_decode(v->data, &ws, &wn) ? 0 : E_INV;
            volatile int64_t s = 5;
            volatile uint32_t n = 5;
            uint32_t which = draw(3);
            bool ret = ACC(if (which == 0) { mpack_timestamp_t t = mpack_node_timestamp(nr.n); s = t.seconds; n = t.nanoseconds; }
                           else if (which == 1) s = mpack_node_timestamp_seconds(nr.n);
                           else n = mpack_node_timestamp_nanoseconds(nr.n));
            if (acc_end("timestamp", x)) {
                CHECK(which == 2 || s == ws, "node.value", "timestamp seconds %lld, expected %lld", (long long)s, (long long)ws);
                CHECK(which == 1 || n == wn, "node.value", "timestamp nanoseconds %u, expected %u", (unsigned)n, wn);
            } else if (ret) {
                CHECK((which == 2 || s == 0) && (which == 1 || n == 0), "node.default", "timestamp failed but did not return zero");
            }
            break;
        }
#else
            break;
#endif
        case 24:
#if MPACK_EXTENSIONS
            if ((v && k == K_EXT) || coin(1, 6)) {
                volatile int got = 3;
                bool ret = ACC(got = mpack_node_exttype(nr.n));
                if (acc_end("exttype", v && k == K_EXT ? 0 : E_TYPE)) CHECK(got == v->et, "node.value", "exttype");
                else if (ret) CHECK(got == 0, "node.default", "exttype failed but returned %d", (int)got);
            }
#endif
            break;
        case 25: if ((v && k == K_STR) || coin(1, 6)) { ACC(mpack_node_check_utf8(nr.n)); acc_end("check_utf8", str_errors(nr, true, false)); } break;
        case 26: if ((v && k == K_STR) || coin(1, 6)) { ACC(mpack_node_check_utf8_cstr(nr.n)); acc_end("check_utf8_cstr", str_errors(nr, true, true)); } break;
        case 27: case 28: {
            uint32_t which = draw(3);
            bool fits = which == 0 ? is_data(v) : which == 1 ? v && k == K_STR : v && k == K_BIN;
            if (!fits && !coin(1, 6)) break;
            volatile size_t got = 7;
            bool ret = ACC(got = which == 0 ? mpack_node_data_len(nr.n) : which == 1 ? mpack_node_strlen(nr.n) : mpack_node_bin_size(nr.n));
            if (acc_end("data length", fits ? 0 : E_TYPE)) CHECK(got == v->data.size(), "tree.len", "length is %lu", (unsigned long)got);
            else if (ret) CHECK(got == 0, "node.default", "length failed but returned %lu", (unsigned long)got);
            break;
        }
        case 29: case 30: {
            uint32_t which = draw(3);
            bool fits = which == 0 ? is_data(v) : which == 1 ? v && k == K_STR : v && k == K_BIN;
            if (!fits && !coin(1, 6)) break;
            const char* volatile got = "x";
            bool ret = ACC(got = which == 0 ? mpack_node_data(nr.n) : which == 1 ? mpack_node_str(nr.n) : mpack_node_bin_data(nr.n));
            if (acc_end("data pointer", fits ? 0 : E_TYPE)) check_data_ptr(got, *v);
            else if (ret) CHECK(got == NULL, "node.default", "data pointer failed but is not NULL");
            break;
        }
        case 31: case 32: case 33: if (is_data(v) || coin(1, 6)) acc_copy(nr); break;
        case 34: if ((v && k == K_ARR) || coin(1, 6)) {
            volatile size_t got = 7;
            bool ret = ACC(got = mpack_node_array_length(nr.n));
            if (acc_end("array_length", v && k == K_ARR ? 0 : E_TYPE)) CHECK(got == nk, "tree.len", "array length");
            else if (ret) CHECK(got == 0, "node.default", "array_length failed but returned %lu", (unsigned long)got);
            break;
        } break;
        case 35: if ((v && k == K_MAP) || coin(1, 6)) {
            volatile size_t got = 7;
            bool ret = ACC(got = mpack_node_map_count(nr.n));
            if (acc_end("map_count", v && k == K_MAP ? 0 : E_TYPE)) CHECK(got == nk / 2, "tree.len", "map count");
            else if (ret) CHECK(got == 0, "node.default", "map_count failed but returned %lu", (unsigned long)got);
            break;
        } break;
        case 36: case 37: case 38: {
            uint32_t which = draw(3); // array, map key, map value
            bool fits = which == 0 ? v && k == K_ARR : v && k == K_MAP;
            if (!fits && !coin(1, 6)) break;
            size_t count = which ? nk / 2 : nk;
            size_t idx = count && !coin(1, 8) ? draw((uint32_t)count) : count + draw(3);
            if (coin(1, 40)) idx = SIZE_MAX - draw(3);
            if (coin(1, 40)) idx = SIZE_MAX / 2 + draw(3);
            mpack_node_t got = nr.n;
            bool ret = ACC(got = which == 0 ? mpack_node_array_at(nr.n, idx) : which == 1 ? mpack_node_map_key_at(nr.n, idx) : mpack_node_map_value_at(nr.n, idx));
            if (acc_end("child access", !fits ? E_TYPE : idx >= count ? E_DATA : 0)) {
                const Val* c = which == 0 ? &v->kids[idx] : &v->kids[idx * 2 + (which - 1)];
                CHECK(mpack_node_type(got) == mtype(c), "tree.type", "child %lu is a %s, expected %s", (unsigned long)idx, mpack_type_to_string(mpack_node_type(got)), mpack_type_to_string(mtype(c)));
                NRef nn = {got, c};
                set.push_back(nn);
            } else if (ret && !r.destroyed)
                CHECK(mpack_node_is_nil(got), "node.default", "child access failed but did not return a nil node");
            break;
        }
        case 39: case 40: case 41: if ((v && k == K_MAP) || coin(1, 6)) acc_lookup(set, nr); break;
        case 42: if ((v && k == K_STR) || coin(1, 3)) acc_enum(nr); break;
        default: acc_tag(nr); break;
    }
    (void)put_random_utf8;
}

// Everything after an error returns its default value.
static void after_error() {
    TRun& r = *R;
    if (r.destroyed)
        return;
    mpack_error_t e = mpack_tree_error(&r.t);
    mpack_node_t n = mpack_tree_root(&r.t);
    CHECK(mpack_node_type(n) == mpack_type_nil && mpack_node_is_nil(n) && !mpack_node_is_missing(n), "node.on-error", "the root is not nil after an error");
    uint32_t c = draw(5);
    mpack_node_t root = n;
    for (uint32_t q = 0; q < c; ++q) {
        // nodes obtained before the error are as dead as the root
        n = root;
        if (!r.kept.empty() && coin(3, 4)) {
            n = r.kept[draw((uint32_t)r.kept.size())];
            HIT("probe:kept-node-after-error");
        }
        char b[4] = {'x', 'x', 'x', 'x'};
        bool ret = guarded(r.ec, [&] {
            switch (draw(19)) {
                case 13: CHECK(mpack_node_is_nil(mpack_node_map_key_at(n, 0)) && mpack_node_is_nil(mpack_node_map_value_at(n, draw(2))), "node.on-error", "map_key_at or map_value_at after an error"); break;
                case 14: CHECK(mpack_node_type(n) == mpack_type_nil && mpack_node_tag(n).type == mpack_type_nil && !mpack_node_is_missing(n), "node.on-error", "a type after an error"); break;
                case 15: CHECK(mpack_node_is_nil(mpack_node_map_int(n, 1)) && mpack_node_is_nil(mpack_node_map_uint_optional(n, 1)) && mpack_node_is_nil(mpack_node_map_str(n, "a", 1)) && mpack_node_is_nil(mpack_node_map_str_optional(n, "a", 1)), "node.on-error", "a lookup after an error"); break;
                case 16: {
                    static const char* names[] = {"a", "b"};
                    CHECK(mpack_node_enum(n, names, 2) == 2 && mpack_node_enum_optional(n, names, 2) == 2, "node.on-error", "an enum after an error");
                    mpack_node_copy_utf8_cstr(n, b, 4); CHECK(b[0] == 0, "node.on-error", "copy_utf8_cstr after an error");
                    break;
                }
                case 17:
                    mpack_node_nil(n);
                    mpack_node_true(n);
                    mpack_node_check_utf8(n);
                    mpack_node_check_utf8_cstr(n);
#if MPACK_EXTENSIONS
                    CHECK(mpack_node_exttype(n) == 0 && mpack_node_timestamp_seconds(n) == 0 && mpack_node_timestamp_nanoseconds(n) == 0 && mpack_node_timestamp(n).seconds == 0, "node.on-error", "an extension after an error");
#endif
#if MPACK_FLOAT
                    CHECK(mpack_node_float(n) == 0.0f && mpack_node_float_strict(n) == 0.0f, "node.on-error", "a float after an error");
#endif
#if MPACK_DOUBLE
                    CHECK(mpack_node_double(n) == 0.0 && mpack_node_double_strict(n) == 0.0, "node.on-error", "a double after an error");
#endif
                    break;
                case 0: CHECK(mpack_node_u64(n) == 0 && mpack_node_i8(n) == 0 && mpack_node_int(n) == 0, "node.on-error", "an integer accessor returned a value after an error"); break;
                case 1: CHECK(mpack_node_array_length(n) == 0 && mpack_node_map_count(n) == 0, "node.on-error", "a count after an error"); break;
                case 2: CHECK(mpack_node_str(n) == NULL && mpack_node_data(n) == NULL && mpack_node_bin_data(n) == NULL, "node.on-error", "a data pointer after an error"); break;
                case 3: CHECK(mpack_node_is_nil(mpack_node_array_at(n, 0)), "node.on-error", "array_at after an error"); break;
                case 4: CHECK(mpack_node_is_nil(mpack_node_map_cstr(n, "a")) && mpack_node_is_nil(mpack_node_map_cstr_optional(n, "a")), "node.on-error", "map_cstr after an error"); break;
                case 5: mpack_node_copy_cstr(n, b, 4); CHECK(b[0] == 0, "node.on-error", "copy_cstr after an error did not leave an empty string"); break;
                case 6: CHECK(mpack_node_copy_data(n, b, 4) == 0, "node.on-error", "copy_data after an error"); break;
#ifdef MPACK_MALLOC
                case 7: CHECK(mpack_node_cstr_alloc(n, 10) == NULL && mpack_node_data_alloc(n, 10) == NULL, "node.on-error", "alloc after an error"); break;
#endif
                case 8: CHECK(!mpack_tree_try_parse(&r.t), "node.on-error", "try_parse succeeded after an error"); break;
                case 9: mpack_tree_parse(&r.t); break;
                case 10: mpack_node_flag_error(n, mpack_error_bug); break;
                case 18: mpack_tree_flag_error(&r.t, mpack_error_bug); break;
                case 11: CHECK(mpack_node_data_len(n) == 0 && mpack_node_strlen(n) == 0 && mpack_node_bin_size(n) == 0, "node.on-error", "a length after an error"); break;
                case 12: CHECK(!mpack_node_bool(n) && mpack_node_i64(n) == 0, "node.on-error", "a value after an error"); break;
                default: CHECK(!mpack_node_map_contains_int(n, 0) && !mpack_node_map_contains_cstr(n, "a"), "node.on-error", "contains after an error"); break;
            }
        });
        CHECK(ret && mpack_tree_error(&r.t) == e, "err.sticky", "a call after the error changed the error state");
    }
}

static void t_mutate(bytes_t& b) {
    uint32_t n = 1 + draw(3);
    for (uint32_t i = 0; i < n; ++i) {
        size_t at = b.empty() ? 0 : draw((uint32_t)b.size());
        static const uint8_t nasty[] = {0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0xff, 0x91, 0x81, 0x00, 0xd8, 0xdc, 0xc7, 0xd4, 0xa5, 0xca, 0xcb};
        switch (draw(6)) {
            case 0: if (!b.empty()) b[at] ^= (uint8_t)(1u << draw(8)); break;
            case 1: if (!b.empty()) b[at] = nasty[draw(17)]; break;
            case 2: b.insert(b.begin() + (long)at, nasty[draw(17)]); break;
            case 3: if (!b.empty()) b.erase(b.begin() + (long)at); break;
            case 4: if (!b.empty()) b.resize(at); break;
            default: if (!b.empty()) b[at] = (uint8_t)draw(256); break;
        }
    }
    FAULT("corrupt-bytes");
}

// Rewrites some map keys so that lookups find duplicates and near misses.
static void tweak_maps(Val& v) {
    if (v.k == K_MAP) {
        size_t n = v.kids.size() / 2;
        uint32_t style = draw(6);
        for (size_t i = 0; i < n; ++i) {
            Val& k = v.kids[2 * i];
            if (!k.kids.empty() && style != 0)
                k = Val();
            if (style == 1 || style == 2) { // string keys
                k = Val();
                k.k = K_STR;
                size_t id = style == 1 ? i : draw((uint32_t)n + 2);
                char b[12];
                int l = snprintf(b, sizeof(b), "%lu", (unsigned long)id);
                k.data.assign(b, b + l);
                k.data.insert(k.data.begin(), draw(2), 'k');
            } else if (style == 3 || style == 4) { // integer keys
                k = Val();
                int64_t id = style == 3 ? (int64_t)i - 3 : (int64_t)draw((uint32_t)n + 3) - 3;
                if (id < 0) { k.k = K_INT; k.i = id; }
                else { k.k = K_UINT; k.u = (uint64_t)id; }
                if (coin(1, 10)) { k.k = K_UINT; k.u = (uint64_t)-1 - draw(4); }
            }
        }
    }
    for (auto& c : v.kids)
        tweak_maps(c);
}

static void engine_tree() {
    static TRun* mem = (TRun*)malloc(sizeof(TRun));
    R = new (mem) TRun();
    TRun& r = *R;
    bool p_stream = prof("stream"), p_limits = prof("limits"), p_corrupt = prof("corrupt"), p_oom = prof("oom"),
         p_access = prof("access"), p_file = prof("file"), p_handler = prof("handler");
#if MPACK_EXTENSIONS
    r.ext_ok = true;
#endif
    r.src = (TSrc)draw(T_N);
    if (p_stream)
        r.src = T_STREAM;
    if (p_limits)
        r.src = coin(1, 4) ? (TSrc)draw(2) : T_STREAM;
    if (p_file)
        r.src = (TSrc)(T_STDFILE + draw(3));
    if ((p_oom || p_corrupt) && coin(1, 2))
        r.src = T_STREAM;
#if !MPACK_STDIO
    if (r.src >= T_STDFILE)
        r.src = T_STREAM;
#endif
#ifndef MPACK_MALLOC
    r.src = T_POOL;
#endif
    bool faults = p_oom || p_handler || (p_file && coin(2, 3)) || (p_corrupt && coin(1, 3));

    // ---- the data
    GenCfg g;
    gen_cfg_draw(g);
    g.interesting[0] = MPACK_BUFFER_SIZE;
    g.interesting[1] = MPACK_NODE_PAGE_SIZE / 16;
    g.interesting[2] = 32;
    g.interesting[3] = MPACK_BUFFER_SIZE * 2;
    g.interesting[4] = MPACK_BUFFER_SIZE * 4;
    g.interesting[5] = MPACK_NODE_PAGE_SIZE / 8;
    if (p_access) {
        g.kinds = 0x7ff;
        if (g.budget > 5000)
            g.budget = 900;
    }
    uint32_t nmsg = 1 + (coin(1, 2) ? draw(6) : 0);
    size_t per = g.budget / nmsg + 8;
    bytes_t& B = r.s.data;
    std::vector<size_t> sizes, counts;
    if (p_corrupt && coin(1, 3)) {
        size_t n = draw(200);
        for (size_t i = 0; i < n; ++i)
            B.push_back((uint8_t)(coin(1, 2) ? draw(256) : 0x80 + draw(0x60)));
        nmsg = 8;
        FAULT("arbitrary-bytes");
    } else if (p_corrupt && coin(1, 200)) {
        static const uint8_t nest[] = {0x91, 0x81, 0x92};
        uint8_t t = nest[draw(3)];
        size_t n = 1 + draw(400000);
        B.assign(n, t);
        nmsg = 1;
        FAULT("hostile-nesting");
    } else {
        uint32_t wild = draw(9);
        for (uint32_t i = 0; i < nmsg; ++i) {
            g.budget = per;
            Val v;
            gen_val(g, v);
            if (p_access || coin(1, 3))
                tweak_maps(v);
            size_t b0 = B.size();
            enc_any(B, v, wild);
            sizes.push_back(B.size() - b0);
            counts.push_back(val_nodes(v));
        }
        if (p_corrupt)
            t_mutate(B);
    }
    stream_draw(r.s);
    r.s.check_need = true;
    r.check_need = true;

    // ---- faults
    if (faults) {
        if (r.src == T_STREAM) {
            if (coin(1, 2))
                stream_draw_fault(r.s);
        } else if (!is_file()) {
            if (coin(1, 2)) {
                B.resize(draw((uint32_t)B.size() + 1));
                r.s.limit = B.size();
                FAULT("truncated-data");
            }
        } else {
            uint32_t c = draw(8);
            if (c == 1) {
                B.resize(draw((uint32_t)B.size() + 1));
                FAULT("truncated-file");
            } else if (c == 2 || c == 3)
                g_fs.read_err_at = (long)draw((uint32_t)B.size() + 1);
            else if (c == 4)
                g_fs.close_fail = true;
            else if (c == 5)
                g_fs.open_fail = coin(1, 2);
            else if (c == 6)
                g_fs.seek_fail_after = 1 + draw(3);
            else if (c == 7)
                g_fs.unseekable = true;
        }
        if (coin(1, 2) || p_oom) {
            if (coin(1, 4))
                g_alloc.fail_rate = 1 + draw(20);
            else {
                g_alloc.fail_after = 1 + draw(coin(1, 2) ? 3 : 12);
                g_alloc.fail_count = draw(3);
            }
        }
        g_alloc.zero_null = draw(2);
    }
    if (p_access)
        g_alloc.zero_null = draw(2);
    r.s.limit = r.s.limit > B.size() ? B.size() : r.s.limit;
    if (r.src != T_STREAM)
        r.s.limit = B.size();

    // ---- limits
    r.max_size = r.max_nodes = SIZE_MAX;
    if (r.src == T_STREAM) {
        r.max_size = 1u << 20;
        r.max_nodes = 1u << 20;
    }
    bool set_limits = false;
    if (p_limits || (p_corrupt && coin(1, 3))) {
        size_t bs = 64, bn = 16;
        if (!sizes.empty()) {
            uint32_t w = draw((uint32_t)sizes.size());
            bs = sizes[w];
            bn = counts[w];
            if (coin(1, 2)) {
                for (size_t z : sizes) if (z > bs) bs = z;
                for (size_t z : counts) if (z > bn) bn = z;
            }
        }
        uint32_t c = draw(4);
        if (c != 1) {
            size_t d = coin(1, 2) ? draw(3) : draw(40);
            r.max_size = coin(1, 3) ? (bs > d ? bs - d : 1) : bs + d;
        }
        if (c != 0) {
            size_t d = coin(1, 2) ? draw(3) : draw(40);
            r.max_nodes = coin(1, 3) ? (bn > d ? bn - d : 1) : bn + d;
        }
        if (coin(1, 12))
            r.max_size = huge_limit(bs);
        if (coin(1, 12))
            r.max_nodes = huge_limit(bn);
        set_limits = true;
    }
    if (r.src == T_POOL) {
        size_t bn = 4;
        for (size_t z : counts) if (z > bn) bn = z;
        r.pool_count = coin(2, 3) ? bn + draw(3) : 1 + draw((uint32_t)bn + 2);
        if (r.pool_count > 100000)
            r.pool_count = 100000;
    }
    g_alloc.cap = 1u << 26;

    // ---- error handler, mode
    r.ec.mode = draw_mode(true);
    if (p_handler && r.ec.mode == H_NONE)
        r.ec.mode = H_DESTROY;
    r.nonblock = r.src == T_STREAM && (p_stream ? coin(3, 4) : coin(1, 2));
    r.would_block = r.nonblock ? draw(14) : 0;
    size_t file_max = 0;
    if (is_file() && coin(1, 2)) {
        size_t d = draw(4);
        file_max = coin(1, 3) ? (B.size() > d ? B.size() - d : 1) : B.size() + d;
        if (file_max == 0)
            file_max = 1;
        uint32_t h = draw(24);
        if (h == 1)
            file_max = huge_limit(B.size()) & LONG_MAX;
        else if (h == 2) // not a valid maximum
            file_max = SIZE_MAX - draw(2) * (SIZE_MAX / 2 - draw(3));
    }
    bool bad_max = is_file() && file_max > LONG_MAX;
    ev("tree src=%s bytes=%lu limit=%lu fault=%d chunks=%u max_size=%lu max_nodes=%lu pool=%lu nonblock=%d handler=%s", src_names[r.src], (unsigned long)B.size(), (unsigned long)r.s.limit,
            (int)r.s.fault, r.s.style, (unsigned long)r.max_size, (unsigned long)r.max_nodes, (unsigned long)r.pool_count, r.nonblock, mode_name(r.ec.mode));
    ev_bytes("stream", B.data(), B.size());
    HIT_N("probe:tree-bytes", B.size());

    // ---- init
    mpack_tree_t* t = &r.t;
    sim_stale(t, sizeof(*t));
    alloc_set_watch();
    g_alloc.armed = true;
    g_break_expected = bad_max;
    switch (r.src) {
#ifdef MPACK_MALLOC
        case T_DATA:
            r.data_copy = (char*)dup_bytes(B.data(), B.size());
            r.data_ptr = r.data_copy;
            mpack_tree_init_data(t, r.data_copy, B.size());
            break;
#endif
        case T_POOL:
            r.data_copy = (char*)dup_bytes(B.data(), B.size());
            r.data_ptr = r.data_copy;
            r.pool = (mpack_node_data_t*)malloc(sizeof(mpack_node_data_t) * r.pool_count);
            sim_stale(r.pool, sizeof(mpack_node_data_t) * r.pool_count);
            mpack_tree_init_pool(t, r.data_copy, B.size(), r.pool, r.pool_count);
            break;
#ifdef MPACK_MALLOC
        case T_STREAM:
            mpack_tree_init_stream(t, read_fn, &r, r.max_size, r.max_nodes);
            break;
#endif
        default: {
#if MPACK_STDIO && defined(MPACK_MALLOC)
            g_fs.short_io = coin(1, 4);
            g_fs.bufmode = draw(3);
            fs_file("in.mp", true)->data = B;
            if (faults && coin(1, 5)) // another process changes the file while it is loaded
                g_fs.resize_by = coin(1, 2) ? 1 + (int)draw(100) : -1 - (int)draw(20);
            if (r.src == T_FILENAME) {
                mpack_tree_init_filename(t, "in.mp", file_max);
            } else {
                r.file = fs_open("in.mp", "rb");
                mpack_tree_init_stdfile(t, r.file, file_max, r.src == T_STDFILE_CLOSE);
            }
#endif
            break;
        }
    }
    g_break_expected = 0;
    mpack_error_t init_error = mpack_tree_error(t);
    ev("init -> %s", err_name(init_error));
    if (bad_max) {
        CHECK(init_error == mpack_error_bug, "file.bad-limit", "a maximum file size of %lu led to %s", (unsigned long)file_max, err_name(init_error));
        HIT("probe:bad-file-limit");
    }
    if (is_file()) {
        bool io = g_fs.open_fail_fired || g_fs.read_err_fired || g_fs.seek_fail_fired || g_fs.unseekable || g_fs.shrunk;
        bool big = file_max && B.size() > file_max;
        if (init_error == mpack_ok) {
            CHECK(!g_fs.open_fail_fired && !g_fs.read_err_fired && !g_fs.seek_fail_fired && !g_fs.unseekable && !g_fs.shrunk, "file.error-ignored", "loading the file failed but no error was flagged");
            CHECK(!big, "file.limit", "a file of %lu bytes was loaded although the maximum is %lu", (unsigned long)B.size(), (unsigned long)file_max);
        } else {
            bool ok = bad_max || (init_error == mpack_error_io && io) || (init_error == mpack_error_memory && g_alloc.failed) || (init_error == mpack_error_too_big && big) ||
                      (init_error == mpack_error_invalid && B.empty());
            CHECK(ok, io || big || g_alloc.failed || B.empty() ? "err.code" : "err.spurious", "loading the file (%lu bytes, max %lu) failed with %s", (unsigned long)B.size(), (unsigned long)file_max, err_name(init_error));
            HIT("probe:tree-file-error");
        }
        if (r.src == T_STDFILE_CLOSE || r.src == T_FILENAME)
            CHECK(fs_open_count() == 0, "file.leak", "the file is still open after it was loaded");
        else
            CHECK(fs_is_open(r.file), "file-close", "a FILE that was not to be closed was closed");
        if (file_max && init_error == mpack_error_too_big)
            CHECK(g_alloc.max_request <= (file_max > 65536 ? file_max : 65536), "limit.memory", "allocated %lu bytes for a file above the limit", (unsigned long)g_alloc.max_request);
    } else {
        CHECK(init_error == mpack_ok, "err.spurious", "initialisation failed with %s", err_name(init_error));
    }
    if (init_error != mpack_ok)
        r.ec.mode = H_NONE;
    if (r.ec.mode != H_NONE)
        mpack_tree_set_error_handler(t, on_error);
    if (!is_file()) {
        mpack_tree_set_context(t, &r);
        r.user_teardown = draw(2);
        if (r.user_teardown)
            mpack_tree_set_teardown(t, teardown_fn);
    }
    if (set_limits)
        mpack_tree_set_limits(t, r.max_size, r.max_nodes);

    // ---- program
    size_t cancel_at = faults && coin(1, 10) ? draw(nmsg) : SIZE_MAX;
    bool stop = init_error != mpack_ok;
    if (stop) {
        after_error();
    }
    uint32_t total = nmsg + (coin(1, 3) ? 1 : 0);
    for (size_t mi = 0; mi < total && !stop; ++mi) {
        if (mi == cancel_at) {
            FAULT("user-cancel");
            mpack_error_t code = user_error();
            bool node = !r.kept.empty() && draw(2);
            guarded(r.ec, [&] {
                if (node)
                    mpack_node_flag_error(r.kept.back(), code);
                else
                    mpack_tree_flag_error(t, code);
            });
            mpack_error_t e;
            sync_error(&e);
            CHECK(e == code, "err.code", "the flagged error is %s", err_name(e));
            stop = true;
            after_error();
            break;
        }
        r.kept.clear();
        Exp x;
        predict(x);
        r.s.need = x.need;
        // malformed data: how far a parser must read is not determined
        r.check_need = !(x.codes & (C_INVALID | C_UNSUP));
        uint32_t attempts = 0;
        bool parsed = false;
        while (!parsed && !stop) {
            r.blocked = false;
            r.reads_in_op = 0;
            bool sync = !r.nonblock || (attempts > 60 && r.s.off < r.s.limit) || coin(1, 20);
            if (!r.nonblock)
                sync = !(r.src != T_STREAM && coin(1, 4));
            bool nb = r.nonblock;
            if (sync)
                r.nonblock = false;
            volatile bool got = false;
            guarded(r.ec, [&] {
                if (sync)
                    mpack_tree_parse(t);
                else
                    got = mpack_tree_try_parse(t);
            });
            r.nonblock = nb;
            attempts++;
            mpack_error_t e;
            sync_error(&e);
            ev("%s -> %s%s", sync ? "parse" : "try_parse", err_name(e), sync ? "" : got ? " true" : " false");
            if (e != mpack_ok) {
                CHECK(sync || !got, "tree.result", "try_parse returned true with an error");
                judge_parse_error(e, x, sync);
                if (!r.destroyed)
                    CHECK(mpack_tree_size(t) == 0, "tree.size", "the size is %lu after a parse error", (unsigned long)mpack_tree_size(t));
                HIT("probe:parse-error");
                stop = true;
                if (!r.ec.jumped || draw(2))
                    after_error();
                break;
            }
            if (sync || got) {
                parsed = true;
                break;
            }
            // incomplete
            CHECK(r.src == T_STREAM, "tree.result", "try_parse on complete data returned false without an error");
            CHECK(r.blocked, "live.stuck", "try_parse returned false although the stream did not run dry");
            HIT("probe:try-parse-again");
            state_point(hash64(r.s.off - r.pos, 77));
            if (r.s.off >= r.s.limit && r.s.limit <= r.s.need && coin(1, 3)) {
                stop = true; // the stream ended here: give up
                break;
            }
            if (attempts > 300) {
                CHECK(r.s.off >= r.s.limit, "live.stuck", "no progress after %u attempts", attempts);
                stop = true;
            }
        }
        if (stop || !parsed)
            break;
        if (!x.ok) {
            if (x.codes == C_TOOBIG)
                violate("limit.accepted", "a message beyond the limits (%lu nodes, max %lu; max size %lu; pool %lu) was accepted", (unsigned long)x.nodes, (unsigned long)r.max_nodes,
                        (unsigned long)r.max_size, (unsigned long)r.pool_count);
            violate(x.codes & C_TRUNC ? "trunc.accepted" : "bad.accepted", "a %s message was parsed successfully", x.codes & C_TRUNC ? "truncated" : "malformed");
        }
        r.messages++;
        CHECK(mpack_tree_size(t) == x.end - r.pos, "tree.size", "the message has %lu bytes, but mpack_tree_size is %lu", (unsigned long)(x.end - r.pos), (unsigned long)mpack_tree_size(t));
        mpack_node_t root = mpack_tree_root(t);
        r.stopped = false;
        if (r.data_ptr && r.src <= T_POOL) {
            // offsets in the model are absolute
        }
        if (!p_access || coin(1, 4))
            compare(root, x.v, 0);
        CHECK(mpack_tree_error(t) == mpack_ok, "node.spurious", "walking the tree flagged %s", err_name(mpack_tree_error(t)));
        // memory in proportion to what was received
        if (r.src == T_STREAM) {
            size_t buffered = r.max_size < (1u << 20) ? r.max_size : 2 * (x.need - (r.pos)) + 2 * (r.s.off - r.pos);
            size_t bound = 3 * (buffered + MPACK_BUFFER_SIZE) + 160 * (x.nodes + 2) + 4 * MPACK_NODE_PAGE_SIZE + 16384;
            CHECK(g_alloc.peak_bytes <= bound || mi > 0, "limit.memory", "parsing %lu bytes with %lu nodes took %lu bytes of memory", (unsigned long)(x.end - r.pos), (unsigned long)x.nodes, (unsigned long)g_alloc.peak_bytes);
        }
        uint32_t nacc = p_access ? 4 + draw(60) : draw(12);
        std::vector<NRef> set;
        NRef rr = {root, &x.v};
        set.push_back(rr);
        for (uint32_t a = 0; a < nacc && !r.stopped; ++a) {
            if (set.size() > 40)
                set.resize(1);
            acc_one(set);
        }
        if (!r.destroyed)
            for (auto& k : set)
                r.kept.push_back(k.n);
#if MPACK_DEBUG && MPACK_STDIO
        if (!r.stopped && coin(1, 6) && val_depth(x.v) < 60) {
            size_t n = 1 + draw(200);
            GBuf pb(n);
            mpack_node_print_to_buffer(root, pb.p, n);
            pb.check("node.copy-overflow");
            CHECK(memchr(pb.p, 0, n) != NULL, "print.unterminated", "the printed node is not null-terminated");
            CHECK(mpack_tree_error(t) == mpack_ok, "node.spurious", "printing a node flagged %s", err_name(mpack_tree_error(t)));
            HIT("probe:node-print");
        }
#endif
        state_point(hash64(hash64(x.nodes, (uint64_t)r.src), hash64(x.end - r.pos, r.s.off - x.end)));
        if (r.stopped) {
            if (!r.ec.jumped || draw(2))
                after_error();
            break;
        }
        r.pos = x.end;
        if (p_limits && coin(1, 4) && !sizes.empty()) {
            // change the limits between messages; buffered data may exceed them
            uint32_t w = draw((uint32_t)sizes.size());
            r.max_size = sizes[w] + draw(3);
            r.max_nodes = counts[w] + draw(3);
            r.limit_faulted = true;
            mpack_tree_set_limits(t, r.max_size, r.max_nodes);
            ev("set_limits(%lu, %lu)", (unsigned long)r.max_size, (unsigned long)r.max_nodes);
        }
    }

    // ---- destroy
    mpack_error_t result;
    if (!r.destroyed) {
        mpack_error_t before = mpack_tree_error(t);
        result = mpack_tree_destroy(t);
        CHECK(result == before, "err.sticky", "destroy returned %s, but the error was %s", err_name(result), err_name(before));
    } else
        result = r.ec.destroy_result;
    g_alloc.armed = false;
    ev("destroy -> %s (handler calls %u)", err_name(result), r.ec.calls);
    if (r.ec.calls)
        CHECK(result == r.ec.first, "err.sticky", "destroy returned %s, but the error was %s", err_name(result), err_name(r.ec.first));
    if (r.user_teardown)
        CHECK(r.teardowns == 1, "teardown.missed", "the teardown function was called %u times", r.teardowns);
    if (r.src == T_STDFILE && r.file) {
        CHECK(fs_is_open(r.file), "file-close", "the tree closed a FILE it was told not to close");
        fs_close(r.file);
    }
    if (is_file())
        CHECK(fs_open_count() == 0, "file.leak", "%lu FILE(s) still open", (unsigned long)fs_open_count());
    free(r.data_copy);
    if (r.pool)
        sim_unpoison(r.pool, sizeof(mpack_node_data_t) * r.pool_count);
    free(r.pool);
    HIT_N("probe:tree-messages", r.messages);
    HIT_N("probe:node-accesses", r.accesses);
    HIT_N("probe:tree-nodes", lcount);
    lcount = 0;
    alloc_check_leaks("leak", "tree destroy");
    r.~TRun();
    R = NULL;
}
static EngineReg reg("tree", engine_tree);
