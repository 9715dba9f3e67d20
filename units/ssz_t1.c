/* Contract mode of SSZ navigation: ssz_at (any list or vector), ssz_get_field (any container). */
#include "vp.h"
#include "ssz.h"
/* the type: for every field its size in the fixed part and whether it is dynamic (contract of ssz_fixed_length, ssz_is_dynamic) */
extern uint64_t spec_field_pos[__CPROVER_constant_infinity_uint]; /* position of the n-th slot in the fixed part */
extern uint32_t spec_field_len[__CPROVER_constant_infinity_uint];
#define spec_field_at(i) spec_field_pos[(size_t) (i)]
static int      spec_next_dynamic;
#define spec_no_field(r) ((r).def == NULL && (r).bytes.data == NULL && (r).bytes.len == 0)
static const ssz_def_t* vp_elements;
static int              vp_index;
static bool             vp_dyn;
static bool             vp_single; /* list / vector: one element type */
static uint32_t         vp_size;
bool vp_is_dynamic(const ssz_def_t* d) {
  if (vp_single) return vp_dyn;
  size_t i = d - vp_elements;
  if (i == (size_t) vp_index) return vp_dyn;
  if (i < (size_t) spec_next_dynamic && i > (size_t) vp_index) return false;
  return i == (size_t) spec_next_dynamic ? true : nondet_bool();
}
size_t vp_fixed_length(const ssz_def_t* d) {
  if (vp_single) return vp_dyn ? 4 : vp_size;
  size_t i = d - vp_elements;
  if ((i == (size_t) vp_index && vp_dyn) || i == (size_t) spec_next_dynamic) VP_ASSUME(spec_field_len[i] == 4);
  VP_ASSUME(spec_field_pos[i + 1] == spec_field_pos[i] + spec_field_len[i]); /* definition of the positions */
  return spec_field_len[i];
}
static inline uint32_t le32(const uint8_t* p) { return p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }
uint32_t vp_le32(uint8_t* p) { return le32(p); }
uint32_t vp_ssz_len;
#ifdef AT
#include REPO_SSZ
static void check_at(bool dyn, uint32_t size) {
  uint32_t l = nondet_u32(), i = nondet_u32(), n = nondet_u32();
  VP_ASSUME(l <= 0x7fffffff);
  ssz_def_t d = {0}, e = {0};
  d.type = SSZ_TYPE_LIST; d.def.vector.type = &e;
  vp_single = true; vp_dyn = dyn; vp_size = size; vp_ssz_len = n;
  uint8_t* p  = malloc(l);
  ssz_ob_t ob = {.bytes = bytes(p, l), .def = &d};
  ssz_ob_t c  = ssz_at(ob, i);
  VP_CHECK(c.bytes.len == 0 || (__CPROVER_same_object(c.bytes.data, p) && c.bytes.data >= p && (uint64_t) (c.bytes.data - p) + c.bytes.len <= l), "element inside the object");
  VP_CHECK(i < n || (c.def == NULL && c.bytes.len == 0), "no element behind the last one");
  if (dyn && i < n && 4 * (uint64_t) n <= l) {
    uint32_t o = le32(p + 4 * i), end = i + 1 < n ? le32(p + 4 * i + 4) : l;
    VP_CHECK(o > end || end > l || (c.def == &e && c.bytes.data == p + o && c.bytes.len == end - o), "the element between its offset and the next one");
#ifdef DYN
    VP_REACH(i == 2 && n == 5 && c.bytes.len == 7, "dynamic element");
#endif
  }
  if (!dyn && i < n && (uint64_t) size * (i + 1ul) <= l) {
    VP_CHECK(c.def == &e && c.bytes.data == p + (uint64_t) i * size && c.bytes.len == size, "the i-th element");
#ifndef DYN
    VP_REACH(i == 3 && n == 7, "fixed element");
#endif
  }
}
uint32_t vp_len(ssz_ob_t ob) { return vp_ssz_len; }
void h_at_dyn(void) { check_at(true, 4); }
void h_at_fix(void) {
  static const uint32_t size[] = {1, 2, 4, 8, 20, 32, 48, 96, 112, 256};
  for (int k = 0; k < 10; k++) check_at(false, size[k]);
}
#else
/* specification symbols of merkle_proof and merkle_get_data (same file, proved by units/merkle_proof.c) */
#define spec_value(p, g) true
#define spec_below(a, b) true
#define spec_found(w, t, g) true
#define spec_rebind(w, t)
#define spec_parent(g)
static uint8_t spec_node[32];
static bool    spec_merkle_proof(void* proof, gindex_t start, gindex_t end, uint8_t* out) { return false; }
#include REPO_SSZ_MERKLE
void h_field(void) {
  uint32_t l = nondet_u32(), k = nondet_u32();
  VP_ASSUME(l <= 0x7fffffff && k <= 0x10000);
  vp_elements = malloc(k * sizeof(ssz_def_t));
  ssz_def_t d = {0};
  d.type = SSZ_TYPE_CONTAINER;
  d.def.container.elements = vp_elements; d.def.container.len = k;
  vp_single = false;
  vp_index = (int) nondet_u32(); spec_next_dynamic = (int) nondet_u32(); vp_dyn = nondet_bool();
  VP_ASSUME(vp_index >= 0 && (uint32_t) vp_index < k && spec_next_dynamic > vp_index && (uint32_t) spec_next_dynamic <= k);
  VP_ASSUME(spec_field_at(0) == 0);
  VP_ASSUME(vp_elements[vp_index].type != SSZ_TYPE_UNION || vp_dyn);
  uint8_t* p  = malloc(l);
  ssz_ob_t ob = {.bytes = bytes(p, l), .def = &d};
  ssz_ob_t c  = ssz_get_field(&ob, vp_index);
  VP_CHECK(c.bytes.len == 0 || (__CPROVER_same_object(c.bytes.data, p) && c.bytes.data >= p && (uint64_t) (c.bytes.data - p) + c.bytes.len <= l), "field inside the container");
  uint64_t at = spec_field_at(vp_index);
  bool     un = vp_elements[vp_index].type == SSZ_TYPE_UNION;
  if (!vp_dyn && c.def) {
    VP_CHECK(c.def == vp_elements + vp_index && c.bytes.data == p + at && c.bytes.len == spec_field_len[(size_t) vp_index], "the fixed field");
    VP_REACH(vp_index == 3, "fixed field");
  }
  if (vp_dyn && !un && c.def && c.bytes.data && at + 4 <= l) {
    uint32_t o = le32(p + at);
    VP_CHECK(c.def == vp_elements + vp_index && c.bytes.data == p + o, "the dynamic field starts at its offset");
    if ((uint32_t) spec_next_dynamic == k) { VP_CHECK(c.bytes.len == l - o, "the last dynamic field ends with the container"); VP_REACH(vp_index == 2 && k == 5, "last dynamic"); }
    else {
      uint32_t e = le32(p + spec_field_at(spec_next_dynamic));
      VP_CHECK(c.bytes.len == (e < l ? e : l) - o, "the dynamic field ends at the next offset");
      VP_REACH(spec_next_dynamic == vp_index + 2 && c.bytes.len == 9, "dynamic field");
    }
  }
}
#endif
