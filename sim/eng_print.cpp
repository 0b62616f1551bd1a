// Engine "print": the debug printers against a reference formatter. Data comes from
// memory, a tree or a simulated file (with disk and allocation faults); text goes to
// buffers of any size, callbacks or simulated files. Only in debug builds.
#include "common.h"
#include "stream.h"
#include <inttypes.h>

#if MPACK_DEBUG && MPACK_STDIO
namespace {

typedef std::string str_t;

struct PRun {
    str_t got;          // what the callback received
    int ctx;            // its context must point here
    uint64_t calls;
};
PRun* R;

void print_cb(void* ctx, const char* p, size_t n) {
    nest();
    CHECK(ctx == &R->ctx, "print.context", "the callback got a wrong context");
    sim_check_init(p, n, "printed text");
    R->calls++;
    if (R->calls > 1)
        ++g_nontrivial;
    R->got.append(p, n);
    ev("callback(%lu)", (unsigned long)n);
    CHECK(R->got.size() < (64u << 20), "hang", "the printer does not stop");
}

void addf(str_t& o, const char* fmt, ...) {
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    o += b;
}
void indent(str_t& o, size_t n) {
    for (size_t i = 0; i < n; ++i)
        o += "    ";
}

void scalar_text(const Val& v, const uint8_t* body, uint64_t len, uint64_t have, str_t& o) {
    switch (v.k) {
        case K_NIL: o += "null"; break;
        case K_BOOL: o += v.b ? "true" : "false"; break;
        case K_UINT: addf(o, "%" PRIu64, v.u); break;
        case K_INT: addf(o, "%" PRIi64, v.i); break;
        case K_FLOAT: {
#if MPACK_FLOAT
            float f;
            uint32_t b = (uint32_t)v.u;
            memcpy(&f, &b, 4);
            addf(o, "%f", f);
#else
            o += "<float>";
#endif
            break;
        }
        case K_DOUBLE: {
#if MPACK_DOUBLE
            double d;
            memcpy(&d, &v.u, 8);
            addf(o, "%f", d);
#else
            o += "<double>";
#endif
            break;
        }
        case K_BIN: case K_EXT:
            if (v.k == K_BIN)
                addf(o, "<binary data of length %" PRIu64, len);
            else
                addf(o, "<ext data of type %i and length %" PRIu64, (int)v.et, len);
            if (len) {
                o += ": ";
                for (uint64_t i = 0; i < len && i < 12 && i < have; ++i)
                    addf(o, "%02x", body[i]);
                if (len > 12)
                    o += "...";
            }
            o += ">";
            break;
        default: break;
    }
}
void str_text(const uint8_t* p, uint64_t n, str_t& o) {
    for (uint64_t i = 0; i < n; ++i)
        switch (p[i]) {
            case '\n': o += "\\n"; break;
            case '\\': o += "\\\\"; break;
            case '"': o += "\\\""; break;
            default: o += (char)p[i]; break;
        }
}

// Text of the element at pos. On an error `o` ends with what was printed before the
// element that failed.
DecRes render(const uint8_t* p, size_t lim, size_t& pos, size_t depth, str_t& o, uint32_t& level) {
    Val v;
    DecRes d = dec_tag(p, lim, pos, v, MPACK_EXTENSIONS != 0);
    if (d != DEC_OK)
        return d;
    switch (v.k) {
        case K_STR: {
            o += "\"";
            uint64_t n = v.u < lim - pos ? v.u : lim - pos;
            str_text(p + pos, n, o);
            pos += n;
            if (n < v.u)
                return DEC_TRUNC;
            o += "\"";
            return DEC_OK;
        }
        case K_BIN: case K_EXT:
            if (v.u > lim - pos)
                return DEC_TRUNC;
            scalar_text(v, p + pos, v.u, v.u, o);
            pos += v.u;
            return DEC_OK;
        case K_ARR: case K_MAP: {
            if (++level > 150)
                return DEC_UNSUPPORTED;
            o += v.k == K_ARR ? "[\n" : "{\n";
            for (uint64_t i = 0; i < v.u; ++i) {
                indent(o, depth + 1);
                d = render(p, lim, pos, depth + 1, o, level);
                if (d != DEC_OK)
                    return d;
                if (v.k == K_MAP) {
                    o += ": ";
                    d = render(p, lim, pos, depth + 1, o, level);
                    if (d != DEC_OK)
                        return d;
                }
                if (i != v.u - 1)
                    o += ",";
                o += "\n";
            }
            indent(o, depth);
            o += v.k == K_ARR ? "]" : "}";
            --level;
            return DEC_OK;
        }
        default:
            scalar_text(v, NULL, 0, 0, o);
            return DEC_OK;
    }
}

void val_text(const Val& v, size_t depth, str_t& o) {
    switch (v.k) {
        case K_STR:
            o += "\"";
            str_text(v.data.data(), v.data.size(), o);
            o += "\"";
            break;
        case K_ARR: case K_MAP: {
            size_t n = v.kids.size();
            o += v.k == K_ARR ? "[\n" : "{\n";
            for (size_t i = 0; i < n; ++i) {
                if (v.k == K_ARR || i % 2 == 0)
                    indent(o, depth + 1);
                val_text(v.kids[i], depth + 1, o);
                if (v.k == K_MAP && i % 2 == 0) {
                    o += ": ";
                    continue;
                }
                if (i != n - 1)
                    o += ",";
                o += "\n";
            }
            indent(o, depth);
            o += v.k == K_ARR ? "]" : "}";
            break;
        }
        default: scalar_text(v, v.data.data(), v.data.size(), v.data.size(), o); break;
    }
}

void mutate(bytes_t& b) {
    uint32_t n = 1 + draw(3);
    for (uint32_t i = 0; i < n; ++i) {
        size_t at = b.empty() ? 0 : draw((uint32_t)b.size());
        static const uint8_t nasty[] = {0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0xff, 0x91, 0x81, 0x00, 0xd8, 0xdc, 0xc7, 0xd4, 0xa5, 0xca, 0xcb};
        switch (draw(6)) {
            case 0: if (!b.empty()) b[at] ^= (uint8_t)(1u << draw(8)); break;
            case 1: if (!b.empty()) b[at] = nasty[draw(17)]; break;
            case 2: b.insert(b.begin() + (long)at, nasty[draw(17)]); break;
            case 3: if (!b.empty()) b.erase(b.begin() + (long)at); break;
            case 4: if (!b.empty()) b.resize(at); break;
            default: if (!b.empty()) b[at] = (uint8_t)draw(256); break;
        }
    }
    FAULT("corrupt-bytes");
}

const char* sinks[] = {"buffer", "callback", "file"};
const char* sources[] = {"data", "stdfile", "node"};

// What a full print may end with, given the bytes.
struct Want {
    str_t body;          // certain
    bool exact;          // the text ends after body + tail
    bool any_prefix;     // an allocation may have failed anywhere
    bool extra_any;      // any count of extra bytes up to `extra`, or none
    uint64_t extra;
    str_t tail;          // after the body
    str_t err_a, err_b;  // error suffixes (if !exact)
};

bool starts(const str_t& s, size_t at, const str_t& with) { return s.compare(at, with.size(), with) == 0 && s.size() >= at + with.size(); }

// Is `s` a text that `w` allows?
bool allowed(const Want& w, const str_t& s, str_t& why) {
    auto has_err = [&](const str_t& e, size_t from) {
        if (e.empty())
            return false;
        str_t full = "\n<mpack parsing error " + e + ">" + w.tail;
        if (s.size() < full.size() + from || !starts(s, s.size() - full.size(), full))
            return false;
        size_t mid = s.size() - full.size() - from;
        // a bin or ext that is cut short may be described or not
        return mid == 0 || (mid < 120 && s[from] == '<' && s[s.size() - full.size() - 1] == '>' && s.find('\n', from) == s.size() - full.size());
    };
    if (w.any_prefix) {
        str_t full = str_t("\n<mpack parsing error ") + mpack_error_to_string(mpack_error_memory) + ">" + w.tail;
        if (s.size() >= full.size() && starts(s, s.size() - full.size(), full)) {
            size_t k = s.size() - full.size(), same = 0;
            while (same < k && same < w.body.size() && s[same] == w.body[same])
                ++same;
            if (same == k || (s[same] == '<' && k - same < 120))
                return true;
        }
    }
    if (!starts(s, 0, w.body)) {
        why = "the text differs from the value";
        return false;
    }
    if (!w.exact) {
        if (has_err(w.err_a, w.body.size()) || has_err(w.err_b, w.body.size()))
            return true;
        why = "the parsing error is not shown as it should be";
        return false;
    }
    str_t rest = s.substr(w.body.size());
    if (rest == w.tail && (w.extra == 0 || w.extra_any))
        return true;
    if (w.extra) {
        char b[100];
        unsigned long n = 0;
        if (sscanf(rest.c_str(), "\n<%lu extra", &n) == 1 && n > 0 && (w.extra_any ? n <= w.extra : n == w.extra)) {
            snprintf(b, sizeof(b), "\n<%lu extra bytes at end of message>", n);
            if (rest == b + w.tail)
                return true;
        }
    }
    why = "the text does not end as it should";
    return false;
}

void describe_one() {
    GenCfg g;
    gen_cfg_draw(g);
    Val v;
    gen_val(g, v);
    mpack_tag_t t;
    str_t full;
    uint64_t n = 0;
    uint32_t len = draw(3) ? draw(40) : (uint32_t)draw64();
    switch (v.k) {
        case K_NIL: t = mpack_tag_nil(); full = "nil"; break;
        case K_BOOL: t = mpack_tag_bool(v.b); full = v.b ? "true" : "false"; break;
        case K_UINT: t = mpack_tag_uint(v.u); addf(full, "uint %" PRIu64, v.u); break;
        case K_INT: t = mpack_tag_int(v.i); addf(full, "int %" PRIi64, v.i); break;
        case K_STR: t = mpack_tag_str(len); addf(full, "str of %u bytes", len); break;
        case K_BIN: t = mpack_tag_bin(len); addf(full, "bin of %u bytes", len); break;
#if MPACK_EXTENSIONS
        case K_EXT: t = mpack_tag_ext(v.et, len); addf(full, "ext of type %i, %u bytes", (int)v.et, len); break;
#endif
        case K_ARR: t = mpack_tag_array(len); addf(full, "array of %u elements", len); break;
        case K_MAP: t = mpack_tag_map(len); addf(full, "map of %u key-value pairs", len); break;
        default: t = mpack_tag_nil(); full = "nil"; break;
    }
    (void)n;
    size_t size = 1 + draw(60);
    {
        GBuf b(size);
        mpack_tag_debug_describe(t, b.p, size);
        b.check("print.overrun");
        CHECK(memchr(b.p, 0, size) != NULL, "print.unterminated", "the description is not terminated");
        CHECK(str_t(b.p) == full.substr(0, size - 1), "print.text", "described as '%s' in %lu bytes instead of '%s'", b.p, (unsigned long)size, full.c_str());
    }
    {
        size = 1 + draw(80);
        uint8_t prefix[16];
        fill_content(prefix, 16, draw(1000));
        size_t pn = len < 12 ? len : 12;
        str_t pj;
        switch (v.k) {
            case K_STR: addf(pj, "<string of %u bytes>", len); break;
            case K_ARR: addf(pj, "<array of %u elements>", len); break;
            case K_MAP: addf(pj, "<map of %u key-value pairs>", len); break;
            case K_FLOAT: case K_DOUBLE: pj = "null"; break;
            default: scalar_text(v, prefix, len, pn, pj); break;
        }
#if !MPACK_EXTENSIONS
        if (v.k == K_EXT)
            pj = "null";
#endif
        void* exact = dup_bytes(prefix, pn);
        GBuf b(size);
        mpack_tag_debug_pseudo_json(t, b.p, size, (const char*)exact, pn);
        free(exact);
        b.check("print.overrun");
        CHECK(memchr(b.p, 0, size) != NULL, "print.unterminated", "the pseudo-JSON is not terminated");
        if (pj.size() < size)
            CHECK(str_t(b.p) == pj, "print.text", "printed '%s' instead of '%s'", b.p, pj.c_str());
    }
    HIT("probe:print-tag");
}

void engine_print() {
    PRun run = PRun();
    R = &run;
    if (coin(1, 12)) {
        describe_one();
        R = NULL;
        return;
    }
    bool faults = prof("fault");
    uint32_t source = draw(3), sink = draw(3);
    if (source == 1)
        sink = 1; // only a callback
    GenCfg g;
    gen_cfg_draw(g);
    if (g.max_depth > 24)
        g.max_depth = 24;
    g.interesting[0] = 1024;
    g.interesting[1] = 512;
    g.interesting[2] = MPACK_BUFFER_SIZE;
    bytes_t B;
    Val v;
    gen_val(g, v);
    enc_any(B, v, draw(4));
    uint64_t extra = 0;
    bool bad = source != 2 && coin(faults ? 3 : 1, 5);
    if (bad) {
        if (coin(1, 3)) {
            B.resize(draw((uint32_t)B.size()));
            FAULT("truncated");
        } else
            mutate(B);
    } else if (source != 2 && coin(1, 4)) {
        extra = 1 + draw(80);
        for (uint64_t i = 0; i < extra; ++i)
            B.push_back((uint8_t)draw(256));
    }
    // the callback's buffer is full inside the message about what follows or failed
    if (source != 2 && sink == 1 && coin(1, 8)) {
        size_t at = 1024 * (1 + draw(2)) - 1 - draw(70);
        B.clear();
        bad = coin(1, 2);
        B.push_back(0xda);
        size_t len = at - (bad ? 1 : 2); // the quotes
        if (bad)
            B[0] = 0xdc, len = (at - 6) / 10 + 1; // array of nils, one on each line
        B.push_back((uint8_t)(len >> 8));
        B.push_back((uint8_t)len);
        if (bad) {
            for (size_t i = 0; i + 1 < len; ++i)
                B.push_back(0xc0);
            B.push_back(0xc1);
            extra = 0;
        } else {
            B.insert(B.end(), len, 'x');
            extra = 1 + draw(2000);
            B.insert(B.end(), extra, 0);
        }
        HIT("probe:print-aligned-tail");
    }
    size_t lim = B.size();
    bool io_fault = false;
    if (source == 1 && faults && coin(1, 2)) {
        lim = draw((uint32_t)B.size() + 1);
        g_fs.read_err_at = (long)lim;
        io_fault = true;
        FAULT("file-read-error-armed");
    }
    size_t base_depth = sink == 2 ? 2 : 0;
    Want w;
    w.any_prefix = false;
    w.extra = 0;
    size_t pos = 0;
    uint32_t level = 0;
    indent(w.body, base_depth);
    DecRes d = render(B.data(), lim, pos, base_depth, w.body, level);
    if (d == DEC_UNSUPPORTED) { // too deep for a recursive printer, or no extensions
        R = NULL;
        return;
    }
    w.exact = d == DEC_OK;
    w.extra = w.exact ? B.size() - pos : 0;
    w.extra_any = source == 1;
    if (w.extra_any && lim < B.size())
        w.extra = lim - pos;
    if (d == DEC_TRUNC) {
        w.err_a = mpack_error_to_string(source == 1 ? mpack_error_io : mpack_error_invalid);
        if (source == 1 && !io_fault)
            w.err_b = mpack_error_to_string(mpack_error_eof);
    }
    if (d == DEC_INVALID)
        w.err_a = mpack_error_to_string(mpack_error_invalid);
    if (sink == 2)
        w.tail = "\n";
    if (w.exact && !bad && !io_fault && !extra && sink != 1) { // the two references must agree
        str_t o;
        indent(o, base_depth);
        val_text(v, base_depth, o);
        if (o != w.body)
            violate("harness", "reference formatters differ");
    }
    // fault plan: the reader's buffer and the tracking stack
    if (faults && coin(1, 3) && source != 2) {
        g_alloc.fail_after = 1 + draw(4);
        g_alloc.fail_count = draw(3);
        w.any_prefix = true;
    }
    ev("print %s to %s: %lu bytes, %s", sources[source], sinks[sink], (unsigned long)B.size(), d == DEC_OK ? "complete" : d == DEC_TRUNC ? "truncated" : "invalid");
    ev_bytes("data", B.data(), B.size());
    const char* data = (const char*)dup_bytes(B.data(), B.size());

    mpack_tree_t tree;
    mpack_node_t node;
    const Val* nv = &v;
    if (source == 2) {
        mpack_tree_init_data(&tree, data, B.size());
        mpack_tree_parse(&tree);
        CHECK(mpack_tree_error(&tree) == mpack_ok, "node.spurious", "parsing failed");
        node = mpack_tree_root(&tree);
        // any descendant
        while (!nv->kids.empty() && coin(1, 2)) {
            size_t i = draw((uint32_t)nv->kids.size());
            if (nv->k == K_ARR)
                node = mpack_node_array_at(node, i);
            else
                node = i % 2 ? mpack_node_map_value_at(node, i / 2) : mpack_node_map_key_at(node, i / 2);
            nv = &nv->kids[i];
        }
        w.body.clear();
        indent(w.body, base_depth);
        val_text(*nv, base_depth, w.body);
    }
    g_alloc.armed = true;
    str_t text;
    if (sink == 0) {
        // first learn the complete text through a callback, then truncate it
        size_t full = w.body.size() + 200;
        size_t n = coin(1, 3) ? 1 + draw((uint32_t)full) : coin(1, 2) ? w.body.size() + draw(3) : 1 + draw(40);
        if (n == 0)
            n = 1;
        GBuf b(n);
        GBuf whole(full);
        g_alloc.armed = false;
        if (source == 2)
            mpack_node_print_to_buffer(node, whole.p, full);
        else
            mpack_print_data_to_buffer(data, B.size(), whole.p, full);
        g_alloc.armed = true;
        uint64_t failed = g_alloc.failed;
        whole.check("print.overrun");
        CHECK(memchr(whole.p, 0, full) != NULL, "print.unterminated", "the text is not terminated");
        sim_check_init(whole.p, strlen(whole.p), "printed text");
        // embedded NULs end the text early; the buffer has all of it
        text.assign(whole.p, full - 1); // the last byte is always terminated
        size_t end = text.find_last_not_of((char)0xA7);
        CHECK(end != str_t::npos && text[end] == 0, "print.unterminated", "the text is not terminated at its end");
        text.resize(end);
        Want w2 = w;
        w2.any_prefix = false;
        str_t why;
        if (!allowed(w2, text, why))
            violate("print.text", "%s, printed to a large buffer: %s: '%.200s' expected '%.200s'", sources[source], why.c_str(), text.c_str(), w.body.c_str());
        if (source == 2)
            mpack_node_print_to_buffer(node, b.p, n);
        else
            mpack_print_data_to_buffer(data, B.size(), b.p, n);
        b.check("print.overrun");
        if (g_alloc.failed == failed) {
            size_t k = text.size() < n - 1 ? text.size() : n - 1;
            CHECK(memcmp(b.p, text.data(), k) == 0, "print.truncation", "printing to %lu bytes gave something else than the start of the complete text", (unsigned long)n);
            CHECK(b.p[k] == 0, "print.unterminated", "the text is not terminated where it ends");
            for (size_t i = k + 1; i < n; ++i)
                CHECK((uint8_t)b.p[i] == 0xA7 || i == n - 1, "print.overrun", "wrote after the terminator");
            sim_check_init(b.p, k, "printed text");
        } else {
            CHECK(memchr(b.p, 0, n) != NULL, "print.unterminated", "the text is not terminated");
        }
        state_point(hash64(n, text.size()));
        ++g_nontrivial;
    } else if (sink == 1) {
        if (source == 0)
            mpack_print_data_to_callback(data, B.size(), print_cb, &R->ctx);
        else if (source == 2)
            mpack_node_print_to_callback(node, print_cb, &R->ctx);
        else {
            fs_file("in.mp", true)->data = B;
            g_fs.short_io = coin(1, 4);
            g_fs.bufmode = draw(3);
            g_fs.unseekable = coin(1, 4);
            FILE* f = fs_open("in.mp", "rb");
            mpack_print_stdfile_to_callback(f, print_cb, &R->ctx);
            CHECK(fs_is_open(f), "file-close", "the printer closed a file it does not own");
            fs_close(f);
        }
        text = R->got;
    } else {
        bool disk_fault = faults && coin(1, 2);
        if (disk_fault) {
            g_fs.write_err_at = (long)draw((uint32_t)w.body.size() + 20);
            g_fs.write_err_nospc = draw(2);
        }
        g_fs.short_io = coin(1, 4);
        g_fs.bufmode = draw(3);
        FILE* f = fs_open("out.txt", "wb");
        bool std = draw(3) == 0;
        FILE* saved = stdout;
        if (std)
            stdout = f;
        if (source == 2 && std)
            mpack_node_print_to_stdout(node);
        else if (source == 2)
            mpack_node_print_to_file(node, f);
        else if (std)
            mpack_print_data_to_stdout(data, B.size());
        else
            mpack_print_data_to_file(data, B.size(), f);
        stdout = saved;
        CHECK(fs_is_open(f), "file-close", "the printer closed a file it does not own");
        fs_close(f);
        const bytes_t& o = fs_file("out.txt", true)->data;
        text.assign((const char*)o.data(), o.size());
        if (disk_fault && g_fs.write_err_fired) {
            HIT("probe:print-disk-fault");
            // what arrived is a part of the text, without anything in between
            size_t same = 0;
            while (same < text.size() && same < w.body.size() && text[same] == w.body[same])
                ++same;
            (void)same;
            text.clear();
        }
    }
    g_alloc.armed = false;
    if (sink != 0 && !(sink == 2 && g_fs.write_err_fired)) {
        str_t why;
        if (!allowed(w, text, why))
            violate("print.text", "%s printed to a %s: %s: got '%.300s' ... '%.100s' expected '%.300s' (%lu instead of %lu bytes, extra %lu)", sources[source], sinks[sink], why.c_str(), text.c_str(),
                    text.size() > 100 ? text.c_str() + text.size() - 100 : "", w.body.c_str(), (unsigned long)text.size(), (unsigned long)w.body.size(), (unsigned long)w.extra);
        state_point(hash64(text.size(), R->calls * 8 + sink * 3 + source));
    }
    if (source == 2) {
        CHECK(mpack_tree_error(&tree) == mpack_ok, "node.spurious", "printing flagged %s", err_name(mpack_tree_error(&tree)));
        if (coin(1, 6)) { // printing after an error must be harmless
            mpack_tree_flag_error(&tree, mpack_error_data);
            size_t n = 1 + draw(60);
            GBuf b(n);
            mpack_node_print_to_buffer(node, b.p, n);
            b.check("print.overrun");
            CHECK(memchr(b.p, 0, n) != NULL, "print.unterminated", "the text is not terminated");
            mpack_tree_destroy(&tree);
        } else
            CHECK(mpack_tree_destroy(&tree) == mpack_ok, "err.spurious", "destroying the tree failed");
    }
    HIT_N("probe:printed-bytes", text.size());
    free((void*)data);
    alloc_check_leaks("leak", "printing");
    CHECK(fs_open_count() == 0, "file.leak", "a file is still open");
    R = NULL;
}
EngineReg reg("print", engine_print);

}
#else
static void engine_print() {}
static EngineReg reg("print", engine_print);
#endif
