#include "common.h"
#include <math.h>
const char* mode_name(HandlerMode m) {
    static const char* n[] = {"none", "count", "longjmp", "destroy", "destroy+longjmp"};
    return n[m];
}
HandlerMode draw_mode(bool allow_destroy) {
    static const uint32_t w[] = {3, 4, 4, 2, 2};
    HandlerMode m = (HandlerMode)pickw(w);
    if (!allow_destroy && m >= H_DESTROY)
        m = H_JUMP;
    return m;
}
const char* err_name(mpack_error_t e) {
    switch (e) {
        case mpack_ok: return "ok";
        case mpack_error_io: return "io";
        case mpack_error_invalid: return "invalid";
        case mpack_error_unsupported: return "unsupported";
        case mpack_error_type: return "type";
        case mpack_error_too_big: return "too_big";
        case mpack_error_memory: return "memory";
        case mpack_error_bug: return "bug";
        case mpack_error_data: return "data";
        case mpack_error_eof: return "eof";
    }
    return "unknown";
}

float ref_double_to_float(double d) {
    volatile float f = (float)d;
#if !MPACK_DOUBLE
    // a build without doubles truncates, sets subnormals to zero and saturates to infinity
    if (d != d || f == 0 || d - d != 0)
        return f;
    volatile double a = d < 0 ? -d : d;
    if (a < 1.1754943508222875e-38)
        return d < 0 ? -0.0f : 0.0f;
    if (a >= 3.4028236692093846e38)
        return d < 0 ? -INFINITY : INFINITY;
    if ((f < 0 ? -(double)f : (double)f) > a)
        f = nextafterf(f, 0.0f);
#endif
    return f;
}

size_t huge_limit(size_t n) {
    uint64_t h = (uint64_t)1 << (32 + draw(31));
    uint64_t v = draw(4) == 0 ? SIZE_MAX - draw(4) : h + (draw(2) ? draw(4) : n + draw(3) - 1);
    return v > SIZE_MAX ? SIZE_MAX : (size_t)v;
}

mpack_error_t user_error() {
    static const mpack_error_t c[] = {mpack_error_data, mpack_error_io, mpack_error_invalid, mpack_error_unsupported,
        mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_eof};
    return draw(2) ? c[draw(9)] : mpack_error_data;
}
