/* replays a counterexample: reads the drawn values (one per line) and runs the harness of the unit */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static FILE* in;
static int   drawn;
uint64_t vp_next(void) {
  uint64_t v = 0;
  if (!in || fscanf(in, "%" SCNu64, &v) != 1) v = 0; /* values the counterexample leaves open */
  drawn++;
  return v;
}
void vp_fail(const char* label) {
  fflush(stdout);
  printf("VP-REPLAY-FAIL %s\n", label);
  fflush(stdout);
  _Exit(1);
}
void vp_inapplicable(const char* why) {
  printf("VP-REPLAY-INAPPLICABLE %s\n", why);
  fflush(stdout);
  _Exit(77);
}
void VP_HARNESS(void);
int  main(int argc, char** argv) {
  in = argc > 1 ? fopen(argv[1], "r") : NULL;
  VP_HARNESS();
  printf("VP-REPLAY-OK %d values\n", drawn);
  return 0;
}
