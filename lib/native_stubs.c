/* weak fallbacks for symbols the replayed functions never reach */
#include <stdio.h>
#include <stdlib.h>
#define STUB(n) __attribute__((weak)) void* n(void) { printf("VP-REPLAY-STUB " #n "\n"); fflush(stdout); _Exit(78); }
STUB(ssz_dump_to_str)
