#include "model.h"

const char* kind_name(VK k) {
    static const char* n[] = {"nil", "bool", "uint", "int", "float", "double", "str", "bin", "ext", "arr", "map"};
    return n[k];
}

void gen_cfg_draw(GenCfg& g) {
    memset(&g, 0, sizeof(g));
    g.kinds = 0x7ff;
    if (coin(1, 3)) { // swarm: drop some kinds
        g.kinds = draw(0x800);
        if (!(g.kinds & 0x1ff))
            g.kinds |= 1;
    }
    static const uint32_t w[] = {8, 8, 5, 2, 1};
    static const size_t b[] = {48, 200, 900, 5000, 70000};
    uint32_t c = pickw(w);
    g.budget = b[c];
    g.max_depth = 1 + draw(6);
    g.big_bias = draw(6);
    g.cseed = draw(1u << 16);
    g.str_style = draw(3);
    g.allow_huge = c == 4;
    g.deep = coin(1, 5);
    if (g.deep)
        g.max_depth += draw(20);
}

size_t gen_len(GenCfg& g) {
    size_t n;
    if (draw(8) >= g.big_bias) {
        n = draw(12);
    } else {
        uint32_t c = draw(8);
        static const size_t edge[] = {0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 257};
        if (c < 4)
            n = edge[draw(13)];
        else if (c < 7) {
            size_t base = g.interesting[draw(6)];
            n = base + draw(9);
            n = n >= 5 ? n - 5 : 0;
            if (coin(1, 4))
                n *= 1 + draw(3);
        } else if (g.allow_huge) {
            n = 65533 + draw(6);
        } else
            n = draw(700);
    }
    if (n > g.budget)
        n = g.budget;
    return n;
}

static void put_utf8(bytes_t& out, uint32_t c) {
    if (c < 0x80)
        out.push_back((uint8_t)c);
    else if (c < 0x800) {
        out.push_back((uint8_t)(0xc0 | c >> 6));
        out.push_back((uint8_t)(0x80 | (c & 63)));
    } else if (c < 0x10000) {
        out.push_back((uint8_t)(0xe0 | c >> 12));
        out.push_back((uint8_t)(0x80 | (c >> 6 & 63)));
        out.push_back((uint8_t)(0x80 | (c & 63)));
    } else {
        out.push_back((uint8_t)(0xf0 | c >> 18));
        out.push_back((uint8_t)(0x80 | (c >> 12 & 63)));
        out.push_back((uint8_t)(0x80 | (c >> 6 & 63)));
        out.push_back((uint8_t)(0x80 | (c & 63)));
    }
}

// style 0: arbitrary bytes, 1: valid UTF-8 possibly with NUL, 2: valid UTF-8
// without NUL, 3: printable ASCII
void gen_data(GenCfg& g, bytes_t& out, size_t n, uint32_t style) {
    uint64_t seed = hash64(g.cseed, ++g.next_content);
    out.clear();
    out.reserve(n);
    // Some of the arbitrary strings are UTF-8 with a single defect, often
    // right at the end.
    bool defect = style == 0 && n > 0 && n <= 4096 && hash64(seed, 77) % 3 == 0;
    if (style == 0 && !defect) {
        out.resize(n);
        fill_content(out.data(), n, seed);
        return;
    }
    for (uint64_t i = 0; out.size() < n; ++i) {
        uint64_t r = hash64(seed, i);
        size_t room = n - out.size();
        uint32_t c;
        if (style == 3) {
            c = 32 + (uint32_t)(r % 95);
        } else {
            switch (r >> 60 & 7) {
                case 0: c = 0x80 + (uint32_t)(r % 0x780); break;
                case 1: c = 0x800 + (uint32_t)(r % 0xf800); break;
                case 2: c = 0x10000 + (uint32_t)(r % 0x100000); break;
                case 3: {
                    static const uint32_t e[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 1};
                    c = e[r % 10];
                    break;
                }
                default: c = 32 + (uint32_t)(r % 95); break;
            }
            if (c >= 0xd800 && c <= 0xdfff)
                c = 0xd7ff;
            if (style <= 1 && (r >> 40 & 31) == 0 && !defect)
                c = 0;
        }
        size_t need = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        if (need > room)
            c = 'z';
        put_utf8(out, c);
    }
    if (defect) {
        static const char* const bad[] = {"\xc3", "\xe2", "\xe2\x82", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf",
            "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8", "\xff", "\xfe",
            "\xc3z", "\xe2z\x80", "\xe2\x82z", "\xf0z\x98\x80", "\xf0\x9fz\x80", "\xf0\x9f\x98z", "\xe2\x82\xc0", "\xc3\xc0"};
        uint64_t r = hash64(seed, 78);
        const char* b = bad[r % (r >> 62 ? 6 : sizeof(bad) / sizeof(bad[0]))];
        size_t len = strlen(b);
        if (len > n)
            len = n;
        size_t at = r >> 32 & 3 ? n - len : (r >> 40) % (n - len + 1);
        memcpy(&out[at], b, len);
    }
}

// An integer at or next to the midpoint of two neighbouring floats or doubles.
static uint64_t gen_midpoint() {
    uint32_t bits = draw(2) ? 53 : 24;
    uint32_t extra = 1 + draw(64 - bits);          // bits below the mantissa
    if (extra > 64 - bits)
        extra = 64 - bits;
    uint64_t m = (1ull << (bits - 1)) | (draw64() & ((1ull << (bits - 1)) - 1));
    uint64_t u = (m << extra) | (1ull << (extra - 1));
    switch (draw(4)) {
        case 0: return u;
        case 1: return u + (extra > 1 ? 1 : 0);
        case 2: return u - (extra > 1 ? 1 : 0);
        default: return extra > 2 ? u + draw(2) * 2 + 1 - 2 : u;
    }
}

static void gen_int(Val& v, bool neg) {
    static const uint64_t ue[] = {0, 1, 31, 32, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537,
        0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
    static const int64_t ie[] = {-1, -2, -31, -32, -33, -127, -128, -129, -130, -32767, -32768, -32769, -65536,
        -2147483647ll, -2147483648ll, -2147483649ll, INT64_MIN + 1, INT64_MIN};
    uint32_t c = draw(3);
    if (coin(1, 8)) {
        uint64_t u = gen_midpoint();
        v.k = neg ? K_INT : K_UINT;
        if (neg)
            v.i = -1 - (int64_t)((u >> 1 | (u & 1)) - 1);
        else
            v.u = u;
        return;
    }
    if (!neg) {
        v.k = K_UINT;
        if (c == 0)
            v.u = draw(128);
        else if (c == 1)
            v.u = ue[draw(22)];
        else
            v.u = draw64() >> draw(64);
    } else {
        v.k = K_INT;
        if (c == 0)
            v.i = -1 - (int64_t)draw(40);
        else if (c == 1)
            v.i = ie[draw(18)];
        else {
            v.i = -1 - (int64_t)((draw64() >> 1) >> draw(63));
        }
    }
}

static void gen_kind(GenCfg& g, Val& v, VK k, uint32_t depth) {
    v.k = k;
    switch (k) {
        case K_NIL: g.budget -= g.budget > 0; break;
        case K_BOOL: v.b = draw(2); g.budget -= g.budget > 0; break;
        case K_UINT: gen_int(v, false); g.budget -= g.budget > 2 ? 3 : g.budget; break;
        case K_INT: gen_int(v, true); g.budget -= g.budget > 2 ? 3 : g.budget; break;
        case K_FLOAT: {
            uint32_t c = draw(4);
            static const uint32_t e[] = {0, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u, 0x00000001u, 0x7f7fffffu, 0x40490fdbu};
            v.u = c == 0 ? e[draw(8)] : (draw64() & 0xffffffffu);
            // NaN payloads may be quieted by the FPU: keep to the quiet canonical NaN
            if ((v.u & 0x7f800000u) == 0x7f800000u && (v.u & 0x7fffffu))
                v.u = 0x7fc00000u;
            g.budget -= g.budget > 4 ? 5 : g.budget;
            break;
        }
        case K_DOUBLE: {
            uint32_t c = draw(4);
            static const uint64_t e[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull,
                0xfff0000000000000ull, 1, 0x7fefffffffffffffull, 0x400921fb54442d18ull};
            v.u = c == 0 ? e[draw(8)] : draw64();
            if ((v.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v.u & 0xfffffffffffffull))
                v.u = 0x7ff8000000000000ull;
            g.budget -= g.budget > 8 ? 9 : g.budget;
            break;
        }
        case K_STR: {
            size_t n = gen_len(g);
            uint32_t style = g.str_style == 0 ? draw(4) : g.str_style == 1 ? 1 + draw(2) : 2 + draw(2);
            gen_data(g, v.data, n, style);
            g.budget -= g.budget > n + 2 ? n + 2 : g.budget;
            break;
        }
        case K_BIN: {
            size_t n = gen_len(g);
            gen_data(g, v.data, n, 0);
            g.budget -= g.budget > n + 2 ? n + 2 : g.budget;
            break;
        }
        case K_EXT: {
            uint32_t c = draw(6);
            if (c == 5) {
                v.et = -1;
                static const uint64_t es[] = {0, 1, 0xffffffffull, 0x100000000ull, (1ull << 34) - 1, 1ull << 34, 1735689600};
                int64_t s = coin(1, 5) ? -1 - (int64_t)draw(100000) : (int64_t)es[draw(7)];
                static const uint32_t en[] = {0, 1, 999999999, 500000000};
                timestamp_encode(v.data, s, en[draw(4)]);
                g.budget -= g.budget > 14 ? 14 : g.budget;
                break;
            }
            size_t n;
            if (c < 3) {
                static const size_t fx[] = {1, 2, 4, 8, 16};
                n = fx[draw(5)];
            } else
                n = gen_len(g);
            v.et = (int8_t)(draw(256));
            if (v.et == -1)
                v.et = 7;
            gen_data(g, v.data, n, 0);
            g.budget -= g.budget > n + 3 ? n + 3 : g.budget;
            break;
        }
        case K_ARR:
        case K_MAP: {
            size_t n;
            uint32_t c = draw(8);
            if (g.deep)
                n = 1 + (c > 5 ? draw(3) : 0);
            else if (c < 6)
                n = draw(5);
            else if (c == 6)
                n = 14 + draw(4);
            else
                n = gen_len(g);
            if (g.allow_huge && k == K_ARR && c == 7 && coin(1, 4))
                n = 65534 + draw(4);
            g.budget -= g.budget > 1 ? 1 : g.budget;
            size_t per = k == K_MAP ? 2 : 1;
            if (n * per > g.budget)
                n = g.budget / per;
            v.kids.resize(n * per);
            for (size_t i = 0; i < n * per; ++i) {
                if (n > 600 || g.budget < 4) {
                    v.kids[i].k = K_UINT;
                    v.kids[i].u = i & 0x7f;
                    if (g.budget)
                        g.budget--;
                } else {
                    gen_val(g, v.kids[i], depth + 1);
                }
            }
            break;
        }
    }
}

void gen_scalar(GenCfg& g, Val& v) {
    uint32_t ks[16], n = 0;
    for (uint32_t k = 0; k < K_ARR; ++k)
        if (g.kinds & (1u << k))
            ks[n++] = k;
    if (!n)
        ks[n++] = K_NIL;
    gen_kind(g, v, (VK)ks[draw(n)], 0);
}

void gen_val(GenCfg& g, Val& v, uint32_t depth) {
    uint32_t ks[40], n = 0;
    for (uint32_t k = 0; k <= K_MAP; ++k) {
        if (!(g.kinds & (1u << k)))
            continue;
        if (k >= K_ARR && depth >= g.max_depth)
            continue;
        ks[n++] = k;
        if (k >= K_ARR && (depth == 0 || g.deep)) { // containers are more interesting
            ks[n++] = k;
            ks[n++] = k;
            if (g.deep) {
                ks[n++] = k;
                ks[n++] = k;
                ks[n++] = k;
            }
        }
    }
    if (!n)
        ks[n++] = K_NIL;
    gen_kind(g, v, (VK)ks[draw(n)], depth);
}

// ------------------------------------------------------------ encoding
static void be(bytes_t& o, uint64_t v, int n) {
    for (int i = n - 1; i >= 0; --i)
        o.push_back((uint8_t)(v >> (8 * i)));
}

void enc_canon(bytes_t& o, Val& v, bool v4) {
    v.beg = o.size();
    size_t n = v.data.size();
    switch (v.k) {
        case K_NIL: o.push_back(0xc0); break;
        case K_BOOL: o.push_back(v.b ? 0xc3 : 0xc2); break;
        case K_UINT:
            if (v.u < 128) o.push_back((uint8_t)v.u);
            else if (v.u <= 0xff) { o.push_back(0xcc); be(o, v.u, 1); }
            else if (v.u <= 0xffff) { o.push_back(0xcd); be(o, v.u, 2); }
            else if (v.u <= 0xffffffffu) { o.push_back(0xce); be(o, v.u, 4); }
            else { o.push_back(0xcf); be(o, v.u, 8); }
            break;
        case K_INT: {
            int64_t i = v.i;
            if (i >= 0) {
                Val t;
                t.k = K_UINT;
                t.u = (uint64_t)i;
                enc_canon(o, t, v4);
            } else if (i >= -32) o.push_back((uint8_t)i);
            else if (i >= -128) { o.push_back(0xd0); be(o, (uint64_t)i, 1); }
            else if (i >= -32768) { o.push_back(0xd1); be(o, (uint64_t)i, 2); }
            else if (i >= -2147483648ll) { o.push_back(0xd2); be(o, (uint64_t)i, 4); }
            else { o.push_back(0xd3); be(o, (uint64_t)i, 8); }
            break;
        }
        case K_FLOAT: o.push_back(0xca); be(o, v.u, 4); break;
        case K_DOUBLE: o.push_back(0xcb); be(o, v.u, 8); break;
        case K_STR:
            if (n < 32) o.push_back((uint8_t)(0xa0 | n));
            else if (n <= 0xff && !v4) { o.push_back(0xd9); be(o, n, 1); }
            else if (n <= 0xffff) { o.push_back(0xda); be(o, n, 2); }
            else { o.push_back(0xdb); be(o, n, 4); }
            break;
        case K_BIN:
            if (v4) { // the old spec has only "raw"
                if (n < 32) o.push_back((uint8_t)(0xa0 | n));
                else if (n <= 0xffff) { o.push_back(0xda); be(o, n, 2); }
                else { o.push_back(0xdb); be(o, n, 4); }
            } else if (n <= 0xff) { o.push_back(0xc4); be(o, n, 1); }
            else if (n <= 0xffff) { o.push_back(0xc5); be(o, n, 2); }
            else { o.push_back(0xc6); be(o, n, 4); }
            break;
        case K_EXT:
            if (n == 1) o.push_back(0xd4);
            else if (n == 2) o.push_back(0xd5);
            else if (n == 4) o.push_back(0xd6);
            else if (n == 8) o.push_back(0xd7);
            else if (n == 16) o.push_back(0xd8);
            else if (n <= 0xff) { o.push_back(0xc7); be(o, n, 1); }
            else if (n <= 0xffff) { o.push_back(0xc8); be(o, n, 2); }
            else { o.push_back(0xc9); be(o, n, 4); }
            o.push_back((uint8_t)v.et);
            break;
        case K_ARR: {
            o.insert(o.end(), v.chain, 0x91);
            size_t c = v.kids.size();
            if (c < 16) o.push_back((uint8_t)(0x90 | c));
            else if (c <= 0xffff) { o.push_back(0xdc); be(o, c, 2); }
            else { o.push_back(0xdd); be(o, c, 4); }
            break;
        }
        case K_MAP: {
            size_t c = v.kids.size() / 2;
            if (c < 16) o.push_back((uint8_t)(0x80 | c));
            else if (c <= 0xffff) { o.push_back(0xde); be(o, c, 2); }
            else { o.push_back(0xdf); be(o, c, 4); }
            break;
        }
    }
    v.body = o.size();
    if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT)
        o.insert(o.end(), v.data.begin(), v.data.end());
    for (auto& c : v.kids)
        enc_canon(o, c, v4);
    v.end = o.size();
}

void enc_any(bytes_t& o, Val& v, uint32_t wild) {
    if (!wild || !coin(wild, 8)) {
        // canonical tag, wild children
        if (v.kids.empty()) {
            enc_canon(o, v);
            return;
        }
    }
    bool w = wild && coin(wild, 8);
    size_t n = v.data.size();
    v.beg = o.size();
    switch (v.k) {
        case K_UINT: {
            int min = v.u <= 0xff ? 0 : v.u <= 0xffff ? 1 : v.u <= 0xffffffffu ? 2 : 3;
            if (!w) { enc_canon(o, v); return; }
            if (v.u <= INT64_MAX && coin(1, 4)) { // a non-negative value in a signed encoding
                v.k = K_INT;
                v.i = (int64_t)v.u;
                enc_any(o, v, 8);
                return;
            }
            int x = min + (int)draw((uint32_t)(4 - min));
            o.push_back((uint8_t)(0xcc + x));
            be(o, v.u, 1 << x);
            break;
        }
        case K_INT: {
            int64_t i = v.i;
            int min = (i >= -128 && i <= 127) ? 0 : (i >= -32768 && i <= 32767) ? 1 : (i >= -2147483648ll && i <= 2147483647ll) ? 2 : 3;
            if (!w && i < 0) { enc_canon(o, v); return; }
            int x = min + (int)draw((uint32_t)(4 - min));
            o.push_back((uint8_t)(0xd0 + x));
            be(o, (uint64_t)i, 1 << x);
            break;
        }
        case K_STR: {
            int min = n < 32 ? 0 : n <= 0xff ? 1 : n <= 0xffff ? 2 : 3;
            int x = min + (w ? (int)draw((uint32_t)(4 - min)) : 0);
            if (x == 0) o.push_back((uint8_t)(0xa0 | n));
            else { o.push_back((uint8_t)(0xd8 + x)); be(o, n, 1 << (x - 1)); }
            break;
        }
        case K_BIN: {
            int min = n <= 0xff ? 0 : n <= 0xffff ? 1 : 2;
            int x = min + (w ? (int)draw((uint32_t)(3 - min)) : 0);
            o.push_back((uint8_t)(0xc4 + x));
            be(o, n, 1 << x);
            break;
        }
        case K_EXT: {
            int min = n <= 0xff ? 0 : n <= 0xffff ? 1 : 2;
            if (!w) { enc_canon(o, v); return; }
            int x = min + (int)draw((uint32_t)(3 - min));
            o.push_back((uint8_t)(0xc7 + x));
            be(o, n, 1 << x);
            o.push_back((uint8_t)v.et);
            break;
        }
        case K_ARR:
        case K_MAP: {
            size_t c = v.k == K_ARR ? v.kids.size() : v.kids.size() / 2;
            int min = c < 16 ? 0 : c <= 0xffff ? 1 : 2;
            int x = min + (w ? (int)draw((uint32_t)(3 - min)) : 0);
            if (x == 0) o.push_back((uint8_t)((v.k == K_ARR ? 0x90 : 0x80) | c));
            else { o.push_back((uint8_t)((v.k == K_ARR ? 0xdb : 0xdd) + x)); be(o, c, x == 1 ? 2 : 4); }
            break;
        }
        default: enc_canon(o, v); return;
    }
    v.body = o.size();
    if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT)
        o.insert(o.end(), v.data.begin(), v.data.end());
    for (auto& c : v.kids)
        enc_any(o, c, wild);
    v.end = o.size();
}

// ------------------------------------------------------------ decoding
static uint64_t rd(const uint8_t* p, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i)
        v = v << 8 | p[i];
    return v;
}

DecRes dec_tag(const uint8_t* p, size_t n, size_t& pos, Val& v, bool ext_ok) {
    if (pos >= n)
        return DEC_TRUNC;
    uint8_t t = p[pos];
    const uint8_t* q = p + pos + 1;
    size_t left = n - pos - 1;
    v = Val();
    v.beg = pos;
#define NEED(x) if (left < (size_t)(x)) return DEC_TRUNC
    if (t <= 0x7f) { v.k = K_UINT; v.u = t; pos += 1; }
    else if (t <= 0x8f) { v.k = K_MAP; v.u = t & 15; pos += 1; }
    else if (t <= 0x9f) { v.k = K_ARR; v.u = t & 15; pos += 1; }
    else if (t <= 0xbf) { v.k = K_STR; v.u = t & 31; pos += 1; }
    else if (t >= 0xe0) { v.k = K_INT; v.i = (int8_t)t; pos += 1; }
    else switch (t) {
        case 0xc0: v.k = K_NIL; pos += 1; break;
        case 0xc1: return DEC_INVALID;
        case 0xc2: case 0xc3: v.k = K_BOOL; v.b = t & 1; pos += 1; break;
        case 0xc4: case 0xc5: case 0xc6: {
            int w = 1 << (t - 0xc4);
            NEED(w); v.k = K_BIN; v.u = rd(q, w); pos += 1 + (size_t)w; break;
        }
        case 0xc7: case 0xc8: case 0xc9: {
            if (!ext_ok) return DEC_UNSUPPORTED;
            int w = 1 << (t - 0xc7);
            NEED(w + 1); v.k = K_EXT; v.u = rd(q, w); v.et = (int8_t)q[w]; pos += 2 + (size_t)w; break;
        }
        case 0xca: NEED(4); v.k = K_FLOAT; v.u = rd(q, 4); pos += 5; break;
        case 0xcb: NEED(8); v.k = K_DOUBLE; v.u = rd(q, 8); pos += 9; break;
        case 0xcc: case 0xcd: case 0xce: case 0xcf: {
            int w = 1 << (t - 0xcc);
            NEED(w); v.k = K_UINT; v.u = rd(q, w); pos += 1 + (size_t)w; break;
        }
        case 0xd0: NEED(1); v.k = K_INT; v.i = (int8_t)q[0]; pos += 2; break;
        case 0xd1: NEED(2); v.k = K_INT; v.i = (int16_t)rd(q, 2); pos += 3; break;
        case 0xd2: NEED(4); v.k = K_INT; v.i = (int32_t)rd(q, 4); pos += 5; break;
        case 0xd3: NEED(8); v.k = K_INT; v.i = (int64_t)rd(q, 8); pos += 9; break;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8:
            if (!ext_ok) return DEC_UNSUPPORTED;
            NEED(1); v.k = K_EXT; v.u = 1u << (t - 0xd4); v.et = (int8_t)q[0]; pos += 2; break;
        case 0xd9: case 0xda: case 0xdb: {
            int w = 1 << (t - 0xd9);
            NEED(w); v.k = K_STR; v.u = rd(q, w); pos += 1 + (size_t)w; break;
        }
        case 0xdc: NEED(2); v.k = K_ARR; v.u = rd(q, 2); pos += 3; break;
        case 0xdd: NEED(4); v.k = K_ARR; v.u = rd(q, 4); pos += 5; break;
        case 0xde: NEED(2); v.k = K_MAP; v.u = rd(q, 2); pos += 3; break;
        case 0xdf: NEED(4); v.k = K_MAP; v.u = rd(q, 4); pos += 5; break;
    }
    v.body = pos;
    v.end = pos;
    return DEC_OK;
}

static DecRes dec_rec(const uint8_t* p, size_t n, size_t& pos, Val& v, bool ext_ok, size_t& nodes, uint32_t depth) {
    DecRes r = dec_tag(p, n, pos, v, ext_ok);
    if (r != DEC_OK)
        return r;
    if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT) {
        if (n - pos < v.u)
            return DEC_TRUNC;
        v.data.assign(p + pos, p + pos + v.u);
        pos += (size_t)v.u;
    } else if (v.k == K_ARR || v.k == K_MAP) {
        uint64_t c = v.k == K_ARR ? v.u : v.u * 2;
        for (uint64_t i = 0; i < c; ++i) {
            if (nodes-- == 0)
                return DEC_TRUNC;
            v.kids.emplace_back();
            Val kid;
            r = dec_rec(p, n, pos, kid, ext_ok, nodes, depth + 1);
            v.kids.back() = std::move(kid);
            if (r != DEC_OK)
                return r;
        }
    }
    v.end = pos;
    return DEC_OK;
}

DecRes dec_val(const uint8_t* p, size_t n, size_t& pos, Val& v, bool ext_ok, size_t max_nodes) {
    return dec_rec(p, n, pos, v, ext_ok, max_nodes, 0);
}

bool val_equal(const Val& a, const Val& b) {
    if (a.k != b.k)
        return false;
    switch (a.k) {
        case K_NIL: return true;
        case K_BOOL: return a.b == b.b;
        case K_UINT: case K_FLOAT: case K_DOUBLE: return a.u == b.u;
        case K_INT: return a.i == b.i;
        case K_EXT: if (a.et != b.et) return false; // fallthrough
        case K_STR: case K_BIN: return a.data == b.data;
        default: break;
    }
    if (a.kids.size() != b.kids.size())
        return false;
    for (size_t i = 0; i < a.kids.size(); ++i)
        if (!val_equal(a.kids[i], b.kids[i]))
            return false;
    return true;
}

bool ref_utf8(const uint8_t* p, size_t n) {
    size_t i = 0;
    while (i < n) {
        uint8_t c = p[i];
        uint32_t cp;
        size_t l;
        if (c < 0x80) { ++i; continue; }
        else if (c >= 0xc2 && c <= 0xdf) { l = 2; cp = c & 0x1f; }
        else if (c >= 0xe0 && c <= 0xef) { l = 3; cp = c & 0x0f; }
        else if (c >= 0xf0 && c <= 0xf4) { l = 4; cp = c & 7; }
        else return false;
        if (n - i < l) return false;
        for (size_t k = 1; k < l; ++k) {
            if ((p[i + k] & 0xc0) != 0x80) return false;
            cp = cp << 6 | (p[i + k] & 63);
        }
        if (l == 3 && cp < 0x800) return false;
        if (l == 4 && (cp < 0x10000 || cp > 0x10ffff)) return false;
        if (cp >= 0xd800 && cp <= 0xdfff) return false;
        i += l;
    }
    return true;
}
bool ref_no_nul(const uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i)
        if (!p[i])
            return false;
    return true;
}

void timestamp_encode(bytes_t& o, int64_t s, uint32_t ns) {
    o.clear();
    if (s >= 0 && (s >> 34) == 0) {
        uint64_t d = (uint64_t)ns << 34 | (uint64_t)s;
        if ((d & 0xffffffff00000000ull) == 0)
            be(o, d, 4);
        else
            be(o, d, 8);
    } else {
        be(o, ns, 4);
        be(o, (uint64_t)s, 8);
    }
}
bool timestamp_decode(const bytes_t& d, int64_t* s, uint32_t* ns) {
    if (d.size() == 4) { *s = (int64_t)rd(d.data(), 4); *ns = 0; }
    else if (d.size() == 8) { uint64_t x = rd(d.data(), 8); *s = (int64_t)(x & ((1ull << 34) - 1)); *ns = (uint32_t)(x >> 34); }
    else if (d.size() == 12) { *ns = (uint32_t)rd(d.data(), 4); *s = (int64_t)rd(d.data() + 4, 8); }
    else return false;
    return *ns <= 999999999;
}

size_t val_nodes(const Val& v) {
    size_t n = 1;
    for (auto& c : v.kids)
        n += val_nodes(c);
    return n;
}
uint32_t val_depth(const Val& v) {
    uint32_t d = 0;
    for (auto& c : v.kids) {
        uint32_t x = val_depth(c);
        if (x > d)
            d = x;
    }
    return d + 1;
}
