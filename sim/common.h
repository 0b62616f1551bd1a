// Shared harness pieces: error-handler modes and guarded calls.
#pragma once
#define SIM_HARNESS 1
#include "sim.h"
#include "model.h"
#include "mpack/mpack.h"

#if !MPACK_BUILDER
// never called; lets one harness compile for every configuration
inline void mpack_build_map(mpack_writer_t*) {}
inline void mpack_build_array(mpack_writer_t*) {}
inline void mpack_complete_map(mpack_writer_t*) {}
inline void mpack_complete_array(mpack_writer_t*) {}
#endif

#ifndef MPACK_VERIF_VARIANT
#define MPACK_VERIF_VARIANT "?"
#endif

// What the user's error handler does when an error is flagged.
enum HandlerMode { H_NONE, H_COUNT, H_JUMP, H_DESTROY, H_DESTROY_JUMP };

struct ErrCtl {
    HandlerMode mode;
    uint32_t calls;
    mpack_error_t first;
    bool jumped;
    bool armed;          // a guarded call is active: jumping is allowed
    bool destroyed;      // the handler destroyed the object
    mpack_error_t destroy_result;
    jmp_buf jb;
};

const char* mode_name(HandlerMode m);
HandlerMode draw_mode(bool allow_destroy);

// Calls f under setjmp; returns false if the error handler jumped out.
template <class F> __attribute__((noinline)) bool guarded(ErrCtl& c, F&& f) {
    c.armed = true;
    if (setjmp(c.jb) == 0) {
        f();
        c.armed = false;
        return true;
    }
    c.armed = false;
    c.jumped = true;
    HIT("probe:handler-longjmp");
    return false;
}

inline void* dup_bytes(const void* p, size_t n) { // exact-size copy so that ASan sees over-reads
    void* q = malloc(n ? n : 1);
    if (n)
        memcpy(q, p, n);
    sim_unpoison(q, n);
    return q;
}
const char* err_name(mpack_error_t e);
mpack_error_t user_error(); // a code that a program may flag itself
size_t huge_limit(size_t n); // beyond 32 bits, with low bits near n
float ref_double_to_float(double d);  // as documented for this build
