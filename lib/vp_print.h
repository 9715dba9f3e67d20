/* Formatting of error messages is not part of any property here: in the verification build bprintf is replaced by a function that
 * leaves the buffer alone and returns an empty string (calls={"bprintf": "vp_bprintf"}). The replay uses the real one. */
#ifndef VP_PRINT_H
#define VP_PRINT_H
#include "bytes.h"
#ifndef VP_NATIVE
static char vp_empty_string[1];
char* vp_bprintf(buffer_t* buf, const char* fmt, ...) { return vp_empty_string; }
#endif
#endif
