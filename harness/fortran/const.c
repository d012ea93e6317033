/* Shared by the C and the Fortran driver: constants and aligned memory. */
#include "simint/simint.h"
#include "simint/vectorization/vectorization.h"
int verif_simd_len(void) { return SIMINT_SIMD_LEN; }
int verif_nshell_simd(void) { return SIMINT_NSHELL_SIMD; }
int verif_maxam(void) { return SIMINT_OSTEI_MAXAM; }
int verif_maxder(void) { return SIMINT_OSTEI_MAXDER; }
void * verif_alloc(size_t n) { return SIMINT_ALLOC(n); }
void verif_free(void * p) { SIMINT_FREE(p); }
