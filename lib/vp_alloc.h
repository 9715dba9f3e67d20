/* the allocation wrappers of util/bytes.c (they only add an exit on failure; allocation never fails in the verification model) */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include <stdlib.h>
void* safe_malloc(size_t s) { return malloc(s); }
void* safe_calloc(size_t n, size_t s) { return calloc(n, s); }
#endif
