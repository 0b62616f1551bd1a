// Reference model: values, encoders and a decoder written from the
// MessagePack specification, independent of the code under test.
#pragma once
#include "sim.h"

enum VK : uint8_t { K_NIL, K_BOOL, K_UINT, K_INT, K_FLOAT, K_DOUBLE, K_STR, K_BIN, K_EXT, K_ARR, K_MAP };

struct Val {
    VK k;
    bool b;
    int8_t et;
    uint64_t u;      // uint value / float bits / double bits
    int64_t i;       // signed value (K_INT)
    bytes_t data;    // str/bin/ext
    std::vector<Val> kids; // arr: n, map: 2n (key, value, ...)
    size_t beg, end; // encoded range in the stream (set by encoders/decoder)
    size_t body;     // offset just after the tag
    uint32_t chain;  // K_ARR in the writer engine: arrays of one element around it
    Val() : k(K_NIL), b(false), et(0), u(0), i(0), beg(0), end(0), body(0), chain(0) {}
};

const char* kind_name(VK k);

struct GenCfg {
    uint32_t kinds;         // bit mask of allowed kinds
    size_t budget;          // approximate byte budget left
    uint32_t max_depth;
    uint32_t big_bias;      // 0..8: how often boundary/large lengths are chosen
    size_t interesting[6];  // interesting lengths (buffer sizes)
    uint32_t cseed;         // content seed base
    uint32_t next_content;
    uint32_t str_style;     // 0 mixed, 1 utf8 only, 2 cstr-safe utf8
    bool allow_huge;        // 64K boundaries
    bool deep;              // prefer nesting
};
void gen_cfg_draw(GenCfg& g);               // swarm
void gen_val(GenCfg& g, Val& v, uint32_t depth = 0);
void gen_scalar(GenCfg& g, Val& v);
size_t gen_len(GenCfg& g);
void gen_data(GenCfg& g, bytes_t& out, size_t n, uint32_t style);

// canonical encoding (smallest representation), v4 = old-spec compatibility
void enc_canon(bytes_t& out, Val& v, bool v4 = false);
// arbitrary valid encoding: widths chosen by draws
void enc_any(bytes_t& out, Val& v, uint32_t wild);

enum DecRes { DEC_OK, DEC_TRUNC, DEC_INVALID, DEC_UNSUPPORTED };
// Decodes one complete object at pos. On DEC_TRUNC the data is a proper prefix.
DecRes dec_val(const uint8_t* p, size_t n, size_t& pos, Val& v, bool ext_ok, size_t max_nodes = 2000000);
// Decodes a single tag; for str/bin/ext the length goes to u, for arr/map the count.
DecRes dec_tag(const uint8_t* p, size_t n, size_t& pos, Val& v, bool ext_ok);

bool val_equal(const Val& a, const Val& b);
bool ref_utf8(const uint8_t* p, size_t n);
bool ref_no_nul(const uint8_t* p, size_t n);
void timestamp_encode(bytes_t& out, int64_t s, uint32_t ns); // payload only
bool timestamp_decode(const bytes_t& d, int64_t* s, uint32_t* ns);
size_t val_nodes(const Val& v);
uint32_t val_depth(const Val& v);
