// A simulated byte stream peer: decides how the bytes arrive and when it fails.
#pragma once
#include "common.h"

enum StreamFault { SF_NONE, SF_ZERO, SF_MINUS1, SF_FLAG, SF_EOF };
struct Stream {
    bytes_t data;         // everything the peer will ever send
    size_t limit;         // bytes after which it fails or ends (== data.size(): end of data)
    size_t off;           // delivered so far
    size_t need;          // absolute offset the current operation needs
    bool check_need;
    uint32_t style;       // chunking
    uint32_t fixed;       // packet size for style 2
    StreamFault fault;    // what happens at the limit
    mpack_error_t code;   // for SF_FLAG
    bool scribble;        // fill the unused rest of the range with garbage
    uint64_t calls;
    bool failed;          // the fault fired
    void (*yield)();      // scheduling point
};
void stream_draw(Stream& s);                 // chunking choices
void stream_draw_fault(Stream& s);           // a fault or early end somewhere
size_t stream_chunk(Stream& s, size_t count);// how many bytes now (0: limit reached)
// Delivers into buf, scribbling over the rest of the range.
size_t stream_deliver(Stream& s, char* buf, size_t count);

// A buffer with guard bytes on both sides (exact-size under ASan).
struct GBuf {
    char* base;
    char* p;
    size_t n;
    explicit GBuf(size_t n, uint8_t fill = 0xA7);
    ~GBuf();
    void check(const char* cls) const;
    GBuf(const GBuf&) = delete;
};
