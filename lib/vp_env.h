/* Environment of the verifier's upper layers: logging is off, the state keeps an error (text not modelled). Replay: the real ones. */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"
#include "vp_print.h"
#include "logger.h"
#include "state.h"
#ifndef VP_NATIVE
static char vp_error_text[2];
log_level_t       c4_get_log_level(void) { return 0; }
c4_stacksize_fn_t c4_get_stacksize_fn(void) { return NULL; }
c4_status_t       c4_state_add_error(c4_state_t* state, const char* error) {
  state->error = vp_error_text;
  return C4_ERROR;
}
#endif
#endif
