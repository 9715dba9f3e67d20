/* SSZ validation and navigation: ssz_is_valid, ssz_at, ssz_get, ssz_len, ssz_union.
 * Real sources: src/util/ssz.c, src/util/ssz_merkle.c (ssz_get, ssz_get_field) */
#include "vp.h"
#include "vp_print.h"
#include "ssz.h"
#include "state.h"

#ifndef N
#define N 12
#endif
/* ---- the types ---- */
static const ssz_def_t D_BYTES3   = SSZ_BYTES("b", 3);
static const ssz_def_t E_PAIR[]   = {SSZ_UINT8("x"), SSZ_BYTES("y", 3)};
static const ssz_def_t D_PAIR     = SSZ_CONTAINER("pair", E_PAIR);
static const ssz_def_t E_FIX[]    = {SSZ_UINT16("x"), SSZ_BOOLEAN("y")};
static const ssz_def_t D_FIX      = SSZ_CONTAINER("fix", E_FIX);
static const ssz_def_t E_UNION[]  = {SSZ_NONE, SSZ_UINT16("u"), SSZ_BYTES("v", 3)};
static const ssz_def_t E_MIX[]    = {SSZ_UINT16("a"), SSZ_BYTES("b", 3), SSZ_BOOLEAN("c"), SSZ_BYTES("d", 4), SSZ_UINT8("e")};
static const ssz_def_t E_NEST[]   = {SSZ_UINT8("a"), SSZ_BYTES("u", 2), SSZ_CONTAINER("p", E_PAIR), SSZ_CONTAINER("f", E_FIX)};
static const ssz_def_t E_LISTS[]  = {SSZ_LIST("l", D_BYTES3, 2), SSZ_BIT_LIST("m", 10)};
static const ssz_def_t D_U16      = SSZ_UINT16("");
static const ssz_def_t D_BOOL     = SSZ_BOOLEAN("");
static const ssz_def_t DEFS[] = {
    SSZ_LIST("l0", D_BYTES3, 3),    /* 0: list of byte lists */
    SSZ_CONTAINER("c1", E_MIX),     /* 1: fixed and dynamic fields */
    SSZ_UNION("u2", E_UNION),       /* 2 */
    SSZ_LIST("l3", D_U16, 3),       /* 3 */
    SSZ_LIST("l4", D_BOOL, 4),      /* 4 */
    SSZ_VECTOR("v5", D_U16, 3),     /* 5 */
    SSZ_BIT_LIST("b6", 10),         /* 6 */
    SSZ_BIT_VECTOR("b7", 10),       /* 7 */
    SSZ_UINT("i8", 4),              /* 8 */
    SSZ_CONTAINER("c9", E_FIX),     /* 9 */
    SSZ_LIST("l10", D_PAIR, 2),     /* 10: list of dynamic containers */
    SSZ_CONTAINER("c11", E_NEST),   /* 11: containers in a container */
    SSZ_LIST("l12", D_FIX, 3),      /* 12 */
    SSZ_BIT_LIST("b13", 8),         /* 13 */
    SSZ_CONTAINER("c14", E_LISTS),  /* 14 */
    SSZ_BOOLEAN("b15"),             /* 15 */
};
static uint8_t* base;
static uint32_t total;
static uint32_t le32(const uint8_t* p) { return p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }

/* ---- the definition (SSZ specification): static properties of a type ---- */
static bool     dyn0(const ssz_def_t* d) { return d->type == SSZ_TYPE_LIST || d->type == SSZ_TYPE_BIT_LIST || d->type == SSZ_TYPE_UNION; }
static bool     dyn(const ssz_def_t* d) {
  if (d->type == SSZ_TYPE_CONTAINER)
    for (uint32_t i = 0; i < d->def.container.len; i++)
      if (dyn0(d->def.container.elements + i)) return true; /* containers inside containers of these types are listed in dyn_nested */
  return dyn0(d);
}
static uint32_t size0(const ssz_def_t* d) { /* fixed size of a type without nested containers */
  switch (d->type) {
    case SSZ_TYPE_BOOLEAN: return 1;
    case SSZ_TYPE_UINT: return d->def.uint.len;
    case SSZ_TYPE_BIT_VECTOR: return (d->def.vector.len + 7) / 8;
    default: return 4;
  }
}
static uint32_t fixpart(const ssz_def_t* d);
static uint32_t size(const ssz_def_t* d) {
  if (dyn(d)) return 4;
  if (d->type == SSZ_TYPE_VECTOR) return d->def.vector.len * (d->def.vector.type->type == SSZ_TYPE_CONTAINER ? fixpart(d->def.vector.type) : size0(d->def.vector.type));
  if (d->type == SSZ_TYPE_CONTAINER) return fixpart(d);
  return size0(d);
}
static uint32_t fixpart(const ssz_def_t* d) { /* of containers of basic types and lists */
  uint32_t s = 0;
  for (uint32_t i = 0; i < d->def.container.len; i++) {
    const ssz_def_t* e = d->def.container.elements + i;
    if (e->type == SSZ_TYPE_CONTAINER && !dyn(e))
      for (uint32_t j = 0; j < e->def.container.len; j++) s += size0(e->def.container.elements + j);
    else s += dyn(e) ? 4 : size0(e);
  }
  return s;
}
static bool valid0(const ssz_def_t* d, const uint8_t* p, uint32_t l) { /* no elements that are containers, lists or unions */
  switch (d->type) {
    case SSZ_TYPE_NONE: return true;
    case SSZ_TYPE_BOOLEAN: return l == 1 && p[0] <= 1;
    case SSZ_TYPE_UINT: return l == d->def.uint.len;
    case SSZ_TYPE_BIT_VECTOR: return l == (d->def.vector.len + 7) / 8;
    case SSZ_TYPE_BIT_LIST: {
      if (l == 0 || p[l - 1] == 0) return false;
      uint32_t bits = 8 * l - 8;
      for (uint32_t i = 0; i < 8; i++)
        if (p[l - 1] >> i > 1) bits++;
      return bits <= d->def.vector.len;
    }
    case SSZ_TYPE_LIST: {
      uint32_t s = size0(d->def.vector.type);
      if (l % s || l / s > d->def.vector.len) return false;
      if (d->def.vector.type->type == SSZ_TYPE_BOOLEAN)
        for (uint32_t i = 0; i < N; i++)
          if (i < l && p[i] > 1) return false;
      return true;
    }
    default: return false;
  }
}
/* a sequence of k slots, each fixed data or an offset; the offsets partition the bytes behind the fixed part */
typedef struct { const ssz_def_t* def; uint32_t from, len; } slot_t;
static slot_t  slots[8];
static bool    layout_container(const ssz_def_t* d, const uint8_t* p, uint32_t l) {
  uint32_t fix = fixpart(d), pos = 0, last = 99, expect = fix;
  if (l < fix) return false;
  for (uint32_t i = 0; i < d->def.container.len; i++) {
    const ssz_def_t* e = d->def.container.elements + i;
    slots[i].def       = e;
    if (!dyn(e)) { slots[i].from = pos; slots[i].len = size(e); pos += size(e); continue; }
    uint32_t o = le32(p + pos);
    pos += 4;
    if (o > l || (last == 99 ? o != fix : o < expect)) return false;
    if (last != 99) slots[last].len = o - slots[last].from;
    slots[i].from = o; slots[i].len = l - o;
    last = i; expect = o;
  }
  return last != 99 || l == fix;
}
static bool layout_list(const ssz_def_t* d, const uint8_t* p, uint32_t l, uint32_t* n) {
  *n = 0;
  if (l == 0) return true;
  if (l < 4) return false;
  uint32_t first = le32(p), prev = first;
  if (first > l || first % 4 || first == 0 || first / 4 > d->def.vector.len) return false;
  *n = first / 4;
  for (uint32_t i = 0; i < 4; i++)
    if (i < *n) {
      uint32_t o = le32(p + 4 * i), e = i + 1 < *n ? le32(p + 4 * i + 4) : l;
      if (o > e || e > l) return false;
      slots[i].def = d->def.vector.type; slots[i].from = o; slots[i].len = e - o;
    }
  return true;
}
static bool in_bounds(ssz_ob_t r) { return r.bytes.len == 0 || (r.bytes.data >= base && (size_t) (r.bytes.data - base) <= total && r.bytes.len <= total - (r.bytes.data - base)); }
static bool slice_is(ssz_ob_t r, const uint8_t* p, slot_t s) { return r.def == s.def && r.bytes.len == s.len && (s.len == 0 || r.bytes.data == p + s.from); }

#if defined(DEF)
/* what ssz_is_valid says, and what every accessor returns, for every byte string of up to N bytes */
static void check(uint8_t* p, uint32_t l) {
  const ssz_def_t* d    = DEFS + DEF;
  ssz_ob_t         ob   = {.bytes = bytes(p, l), .def = d};
  bool             want = false;
  uint32_t         n    = 0;
  bool             laid = false; /* the children are laid out properly */
  base = p; total = l;
  (void) laid;
#if DEF == 0 || DEF == 10
  laid = layout_list(d, p, l, &n);
  want = laid;
  for (uint32_t i = 0; i < 3; i++)
    if (want && i < n) {
#if DEF == 0
      want = valid0(slots[i].def, p + slots[i].from, slots[i].len);
#else
      const uint8_t* q  = p + slots[i].from;
      uint32_t       ql = slots[i].len;
      want = ql >= 5 && le32(q + 1) == 5 && ql <= 8;
#endif
    }
#elif DEF == 1 || DEF == 9 || DEF == 14 || DEF == 11
  n    = d->def.container.len;
  laid = layout_container(d, p, l);
  want = laid;
  for (uint32_t i = 0; i < 5; i++)
    if (want && i < n) {
      const uint8_t*   q  = p + slots[i].from;
      uint32_t         ql = slots[i].len;
      const ssz_def_t* e  = slots[i].def;
#if DEF == 11
      if (i == 2) want = ql >= 5 && le32(q + 1) == 5 && ql <= 8;
      else if (i == 3) want = ql == 3 && q[2] <= 1;
      else want = valid0(e, q, ql);
#elif DEF == 14
      if (i == 0) { /* list of at most two byte lists of at most 3 bytes */
        uint32_t f = ql >= 4 ? le32(q) : 0;
        want = ql == 0 || (f == 4 && ql <= 7) || (f == 8 && ql >= 8 && le32(q + 4) >= 8 && le32(q + 4) <= 11 && le32(q + 4) <= ql && ql - le32(q + 4) <= 3);
      }
      else want = valid0(e, q, ql);
#else
      want = valid0(e, q, ql);
#endif
    }
#elif DEF == 2
  want = l > 0 && p[0] < 3 && (p[0] == 0 || (p[0] == 1 ? l == 3 : l <= 4));
#elif DEF == 5
  want = l == 6;
#elif DEF == 12
  want = l % 3 == 0 && l <= 9;
  for (uint32_t i = 0; i < 3; i++)
    if (want && i * 3 < l && p[3 * i + 2] > 1) want = false;
#else
  want = valid0(d, p, l);
#endif
  bool ok = ssz_is_valid(ob, true, NULL);
  VP_CHECK(ok == want, "accepted exactly if the bytes are an encoding of the type");
  VP_REACH(ok, "accepted"); VP_REACH(!ok, "rejected");

  /* navigation, validated or not */
#if DEF == 0 || DEF == 10
  for (uint32_t i = 0; i < 5; i++) {
    ssz_ob_t c = ssz_at(ob, i);
    VP_CHECK(in_bounds(c), "element inside the list");
    VP_CHECK(!ok || i >= n || slice_is(c, p, slots[i]), "the element as encoded");
    VP_CHECK(!ok || i < n || c.bytes.len == 0, "no element behind the last one");
  }
  ssz_ob_t far = ssz_at(ob, vp_draw_u32());
  VP_CHECK(in_bounds(far), "any element inside the list");
  VP_CHECK(!ok || ssz_len(ob) == n, "number of elements");
#if N >= 18 || DEF == 0
  VP_REACH(ok && n == 2, "two elements");
#endif
#elif DEF == 1 || DEF == 9 || DEF == 14 || DEF == 11
  static const char* names[] = {
#if DEF == 1
      "a", "b", "c", "d", "e"
#elif DEF == 9
      "x", "y"
#elif DEF == 14
      "l", "m"
#else
      "a", "u", "p", "f"
#endif
  };
  for (uint32_t i = 0; i < sizeof(names) / sizeof(*names); i++) {
    ssz_ob_t c = ssz_get(&ob, names[i]);
    VP_CHECK(in_bounds(c), "field inside the container");
    VP_CHECK(!ok || slice_is(c, p, slots[i]), "the field as encoded");
  }
  ssz_ob_t none = ssz_get(&ob, "zz");
  VP_CHECK(none.def == NULL && none.bytes.len == 0, "unknown field");
#elif DEF == 2
  ssz_ob_t u = ssz_union(ob);
  VP_CHECK(in_bounds(u), "variant inside the union");
  if (ok) VP_CHECK(u.def == E_UNION + p[0] && (p[0] == 0 || (u.bytes.data == p + 1 && u.bytes.len == l - 1)), "the selected variant");
  else VP_CHECK(l == 0 || p[0] < 3 || (u.def == NULL && u.bytes.len == 0), "no variant");
#elif DEF == 3 || DEF == 4 || DEF == 5 || DEF == 12
  uint32_t s = size(d->def.vector.type), i = vp_draw_u32();
  ssz_ob_t c = ssz_at(ob, i);
  VP_CHECK(in_bounds(c), "element inside");
  VP_CHECK(!ok || (i < l / s ? c.def == d->def.vector.type && c.bytes.data == p + i * s && c.bytes.len == s : c.bytes.len == 0), "the element as encoded");
  VP_CHECK(!ok || ssz_len(ob) == l / s, "number of elements");
#elif DEF == 6 || DEF == 13
  uint32_t bits = ssz_len(ob); /* any bytes: only memory safety */
  if (ok) {
    uint32_t b = 8 * l - 8;
    for (uint32_t i = 0; i < 8; i++)
      if (p[l - 1] >> i > 1) b++;
    VP_CHECK(bits == b, "number of bits");
  }
#endif
}
#if DEF == 2
/* one case per length and selector: the definition of the variant is known in every case */
void h_ssz(void) {
  static uint8_t all[N];
  vp_draw_const(all, N);
  for (uint32_t l = 0; l <= N; l++)
    for (uint32_t c = 0; c < 5; c++)
    {
      static const uint8_t SEL[] = {0, 1, 2, 3, 255, 1, 1};
      uint8_t*             p     = malloc(l);
      for (uint32_t i = 0; i < l; i++) p[i] = all[i];
      if (l) p[0] = SEL[c];
      check(p, l);
    }
}
#else
void h_ssz(void) {
  uint32_t l = vp_draw_u8();
  VP_ASSUME(l <= N);
  check(vp_draw_object(l), l);
}
#endif
#endif
