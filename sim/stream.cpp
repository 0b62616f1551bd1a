#include "stream.h"

void stream_draw(Stream& s) {
    s.style = draw(6);
    s.fixed = 1 + draw(40);
    s.scribble = draw(2);
    s.limit = s.data.size();
    s.fault = SF_EOF;
    s.need = SIZE_MAX;
}

void stream_draw_fault(Stream& s) {
    s.fault = (StreamFault)(1 + draw(3));
    static const mpack_error_t codes[] = {mpack_error_io, mpack_error_memory, mpack_error_data, mpack_error_unsupported, mpack_error_eof};
    s.code = codes[draw(5)];
    s.limit = draw((uint32_t)s.data.size() + 1);
}

size_t stream_chunk(Stream& s, size_t count) {
    nest();
    size_t avail = s.limit > s.off ? s.limit - s.off : 0;
    size_t n = avail < count ? avail : count;
    if (n <= 1)
        return n;
    size_t k = n;
    switch (s.style) {
        case 0: break;
        case 1: k = 1; break;
        case 2: k = s.fixed - s.off % s.fixed; break;
        case 3: k = 1 + draw((uint32_t)(n > 48 ? 48 : n)); break;
        case 4: k = coin(1, 2) ? n : 1 + draw(4); break;
        default: // just enough, or one short of it
            if (s.need != SIZE_MAX && s.need > s.off) {
                k = s.need - s.off;
                if (k > 1 && coin(1, 3))
                    k--;
            }
            break;
    }
    return k < n ? k : n;
}

size_t stream_deliver(Stream& s, char* buf, size_t count) {
    size_t n = stream_chunk(s, count);
    if (n) {
        memcpy(buf, s.data.data() + s.off, n);
        sim_unpoison(buf, n);
    }
    s.off += n;
    if (s.scribble && n < count)
        memset(buf + n, 0xDB, count - n > 4096 ? 4096 : count - n);
    return n;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
static const size_t GUARD =
#ifdef SIM_ASAN
    0;
#else
    16;
#endif
GBuf::GBuf(size_t size, uint8_t fill) : n(size) {
    base = (char*)malloc(n + 2 * GUARD + (n + GUARD == 0));
    p = base + GUARD;
    memset(base, 0xEE, GUARD);
    memset(p + n, 0xEE, GUARD);
    memset(p, fill, n);
    sim_poison(base, n + 2 * GUARD);
}
GBuf::~GBuf() {
    sim_unpoison(base, n + 2 * GUARD);
    free(base);
}
void GBuf::check(const char* cls) const {
    for (size_t i = 0; i < GUARD; ++i)
        CHECK((uint8_t)base[i] == 0xEE && (uint8_t)p[n + i] == 0xEE, cls, "wrote outside the given buffer of %lu bytes", (unsigned long)n);
}
