/* The C11 type-generic write macros, exercised from C. */
#define SIM_HARNESS 1
#include "mpack/mpack.h"
#ifdef __cplusplus
extern "C" {
#endif
void cgen_write_i64(mpack_writer_t* w, int64_t v, int width) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    switch (width) {
        case 0: mpack_write(w, (int8_t)v); break;
        case 1: mpack_write(w, (int16_t)v); break;
        case 2: mpack_write(w, (int32_t)v); break;
        default: mpack_write(w, (int64_t)v); break;
    }
#else
    (void)width;
    mpack_write_i64(w, v);
#endif
}
void cgen_write_u64(mpack_writer_t* w, uint64_t v, int width) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    switch (width) {
        case 0: mpack_write(w, (uint8_t)v); break;
        case 1: mpack_write(w, (uint16_t)v); break;
        case 2: mpack_write(w, (uint32_t)v); break;
        default: mpack_write(w, (uint64_t)v); break;
    }
#else
    (void)width;
    mpack_write_u64(w, v);
#endif
}
void cgen_write_cstr(mpack_writer_t* w, const char* s) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    mpack_write(w, s);
#else
    mpack_write_cstr_or_nil(w, s);
#endif
}
void cgen_kv_i64(mpack_writer_t* w, const char* key, int64_t v) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    mpack_write_kv(w, key, v);
#else
    mpack_write_cstr(w, key);
    mpack_write_i64(w, v);
#endif
}
void cgen_kv_cstr(mpack_writer_t* w, const char* key, const char* s) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    mpack_write_kv(w, key, s);
#else
    mpack_write_cstr(w, key);
    mpack_write_cstr_or_nil(w, s);
#endif
}
#if MPACK_DOUBLE
void cgen_write_double(mpack_writer_t* w, double v) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    mpack_write(w, v);
#else
    mpack_write_double(w, v);
#endif
}
#endif
void cgen_write_bool(mpack_writer_t* w, bool v) {
#if MPACK_HAS_GENERIC || defined(__cplusplus)
    mpack_write(w, v);
#else
    mpack_write_bool(w, v);
#endif
}

#if MPACK_DEBUG
void sim_assert_fail(const char* message);
void mpack_assert_fail(const char* message) { sim_assert_fail(message); }
#endif
#ifdef __cplusplus
}
#endif
