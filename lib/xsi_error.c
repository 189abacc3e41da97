/* error.h as a C program sees it that asks for POSIX only */
#undef _GNU_SOURCE
#define _POSIX_C_SOURCE 200112L
#include <coda/error.h>
const char *xsi_strerror(int e) { return coda_strerror(e); }
