/* MPack configuration used by every simulated build. All seams go through
 * here: the allocator is replaced, stdio opens are routed to the simulated
 * disk, and assertions/breaks are reported to the simulator. Everything that
 * varies between builds is given on the command line with -D. */
#ifndef VERIF_MPACK_CONFIG_H
#define VERIF_MPACK_CONFIG_H 1

#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif
void* sim_malloc(size_t size);
void* sim_realloc(void* p, size_t size);
void sim_free(void* p);
FILE* sim_fopen(const char* path, const char* mode);
int sim_fclose(FILE* file);
#ifdef __cplusplus
}
#endif

#ifndef SIM_NO_MALLOC
#define MPACK_MALLOC sim_malloc
#define MPACK_FREE sim_free
#ifndef SIM_NO_REALLOC
#define MPACK_REALLOC sim_realloc
#endif
#endif

#ifndef SIM_HARNESS
#undef fopen
#undef fclose
#define fopen sim_fopen
#define fclose sim_fclose
#endif

#endif
