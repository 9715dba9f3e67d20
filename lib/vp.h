/* Common prelude of every verification unit.
 *
 * A unit is compiled from the real sources of /repo in one of three modes:
 *   VP_T1     contract mode  : goto-cc + goto-instrument (function / loop contracts), unbounded
 *   VP_T2     direct mode    : goto-cc, bodies inlined, bounded unwinding, inputs drawn by vp_draw_*()
 *   VP_NATIVE replay mode    : gcc + ASan, the drawn inputs are read back from the counterexample
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#if defined(VP_NATIVE)
#include <stdio.h>
uint64_t vp_next(void);                       /* next drawn value of the counterexample */
void     vp_fail(const char* label);          /* prints VP-REPLAY-FAIL and exits 1 */
void     vp_inapplicable(const char* why);    /* exits 77 */
#define VP_ASSUME(c)       do { if (!(c)) vp_inapplicable(#c); } while (0)
#define VP_CHECK(c, label) do { if (!(c)) vp_fail(label); } while (0)
#define VP_REACH(c, label) do { (void) (c); } while (0)
static inline uint8_t  vp_draw_u8(void) { return (uint8_t) vp_next(); }
static inline uint16_t vp_draw_u16(void) { return (uint16_t) vp_next(); }
static inline uint32_t vp_draw_u32(void) { return (uint32_t) vp_next(); }
static inline uint64_t vp_draw_u64(void) { return (uint64_t) vp_next(); }
static inline bool     vp_draw_bool(void) { return vp_next() != 0; }
#else
uint8_t  nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
bool     nondet_bool(void);
static uint64_t vp_drawn; /* the trace of this variable is the input of the replay */
#define VP_ASSUME(c)       __CPROVER_assume(c)
#define VP_CHECK(c, label) __CPROVER_assert(c, "VP:" label)
/* must be falsifiable: the runner demands that this assertion FAILS (vacuity guard) */
#define VP_REACH(c, label) __CPROVER_assert(!(c), "VP_REACH:" label)
static inline uint8_t  vp_draw_u8(void) { uint8_t v = nondet_u8(); vp_drawn = v; return v; }
static inline uint16_t vp_draw_u16(void) { uint16_t v = nondet_u16(); vp_drawn = v; return v; }
static inline uint32_t vp_draw_u32(void) { uint32_t v = nondet_u32(); vp_drawn = v; return v; }
static inline uint64_t vp_draw_u64(void) { uint64_t v = nondet_u64(); vp_drawn = v; return v; }
static inline bool     vp_draw_bool(void) { uint8_t v = nondet_u8(); __CPROVER_assume(v <= 1); vp_drawn = v; return v; }

/* realloc keeps the content (CBMC's own model does not for growing objects) */
#ifdef VP_REALLOC
void* realloc(void* p, size_t n) {
  uint8_t* r = (uint8_t*) malloc(n);
  if (p) {
    size_t o = __CPROVER_OBJECT_SIZE(p);
    memcpy(r, p, o < n ? o : n);
    free(p);
  }
  return r;
}
#endif
#endif

/* n is a constant */
static inline void vp_draw_const(uint8_t* dst, size_t n) {
  for (size_t vp_i = 0; vp_i < n; vp_i++) dst[vp_i] = vp_draw_u8();
}
static inline void vp_draw_bytes(uint8_t* dst, size_t n) {
  for (size_t vp_i = 0; vp_i < n; vp_i++) dst[vp_i] = vp_draw_u8();
}
/* an exactly sized heap object with arbitrary content: any access outside is caught by CBMC / ASan.
   Contract mode: any size, content left open. Direct and replay mode: content drawn byte by byte. */
#if defined(VP_NATIVE) || defined(VP_T1)
static inline uint8_t* vp_draw_object(size_t n) {
  uint8_t* p = (uint8_t*) malloc(n);
#ifndef VP_T1
  vp_draw_bytes(p, n);
#endif
  return p;
}
#else
#ifndef VP_EXACT_MAX
#define VP_EXACT_MAX 64
#endif
static inline uint8_t* vp_draw_object(size_t n) {
  /* the slice ends exactly at the end of an object of constant size (symbolic sizes are far slower) */
  uint8_t* p = (uint8_t*) malloc(VP_EXACT_MAX) + (VP_EXACT_MAX - n);
  __CPROVER_assume(n <= VP_EXACT_MAX);
  for (size_t i = 0; i < VP_EXACT_MAX; i++)
    if (i < n) p[i] = vp_draw_u8();
  return p;
}
#endif

#endif
