/* Merkle proofs over generalised indices: ssz_verify_multi_merkle_proof, ssz_verify_single_merkle_proof.
 * Real source: src/util/ssz_merkle.c (+ bytes.c). */
#define VP_REALLOC
#ifdef VP_T2
#define VP_HASH_CASES
#endif
#include "vp.h"
#include "vp_hash.h"
#include "ssz.h"
#ifdef VP_T1
/* Specification: spec_V assigns a 32 byte value to every node of the (64 level) tree. It is any assignment that agrees with the
 * given leaves and witnesses and in which a parent is the hash of its children; spec_parent instantiates that axiom for one
 * parent. Soundness: an accepted proof yields spec_V[end], for every such assignment. */
extern bv256   spec_V[__CPROVER_constant_infinity_uint];
static uint8_t spec_node[32];
#define spec_value(p, g) (*(bv256*) (p) == spec_V[g])
/* node a is b or lies below b */
#define spec_below(a, b) ((b) >= 1 && (a) >= (b) && ((a) >> (__builtin_clzll(b) - __builtin_clzll(a))) == (b))
#define spec_found(w, t, g) ((w).data == NULL || ((w).data == (t) && (w).len == 32 && spec_value(t, g)))
/* no-op by the loop invariant; tells the verifier which object the pointer refers to */
#define spec_rebind(w, t) if ((w).data) { __CPROVER_assert((w).data == (t) && (w).len == 32, "VP:rebind"); (w) = bytes(t, 32); }
static inline void spec_parent(gindex_t g) {
  __CPROVER_assume(__CPROVER_uninterpreted_sha256_64(spec_V[g & ~(gindex_t) 1], spec_V[g | 1]) == spec_V[g >> 1]);
}
bool spec_merkle_proof(void* proof, gindex_t start, gindex_t end, uint8_t* out);
/* specification symbols of ssz_get_field (same file, proved by units/ssz_t1.c) */
#define spec_field_at(i) pos
static int      spec_next_dynamic;
#define spec_no_field(r) true
#endif
#include REPO_SSZ_MERKLE
#ifdef VP_T1
static gindex_t vp_end;
/* contract of merkle_proof, used for its recursive calls */
bool spec_merkle_proof(void* proof, gindex_t start, gindex_t end, uint8_t* out) {
  __CPROVER_assert(spec_below(start, end) && end >= 1, "VP:recursion starts below the node to compute");
  __CPROVER_assert(end > vp_end, "VP:recursion descends (terminates)");
  bool  r = nondet_bool();
  bv256 v;
  if (r) v = spec_V[end];
  *(bv256*) out = v;
  VP_REACH(r, "recursion succeeds");
  return r;
}
/* contract of merkle_get_data (proved by h_get_data; the value at a gindex of the proof is spec_V there by definition of spec_V) */
bytes_t vp_merkle_get_data(merkle_proof_data_t* proof, gindex_t idx) {
  if (nondet_bool()) return NULL_BYTES;
  *(bv256*) spec_node = spec_V[idx];
  return bytes(spec_node, 32);
}
static merkle_proof_data_t* vp_proof(void) {
  static merkle_proof_data_t p;
  p.leafes_len = nondet_u32(); p.witnesses_len = nondet_u32();
  VP_ASSUME(p.leafes_len <= 0x1000000 && p.witnesses_len <= 0x1000000);
  p.leafes_gindex = malloc(p.leafes_len * sizeof(gindex_t)); p.witnesses_gindex = malloc(p.witnesses_len * sizeof(gindex_t));
  p.leafes_data = bytes(malloc(p.leafes_len * 32), p.leafes_len * 32);
  p.witnesses_data = bytes(malloc(p.witnesses_len * 32), p.witnesses_len * 32);
  return &p;
}
void h_merkle_proof(void) {
  merkle_proof_data_t* p = vp_proof();
  gindex_t start = nondet_u64(), end = nondet_u64();
  VP_ASSUME(end >= 1 && spec_below(start, end));
  uint8_t* out = malloc(32);
  vp_end       = end;
  bool ok      = merkle_proof(p, start, end, out);
  VP_CHECK(!ok || spec_value(out, end), "computed node is the one fixed by leaves, witnesses and hash");
  VP_REACH(ok && start > 5 * end, "accepted"); VP_REACH(!ok, "rejected");
}
void h_get_data(void) {
  merkle_proof_data_t* p = vp_proof();
  gindex_t idx = nondet_u64();
  bytes_t  r   = merkle_get_data(p, idx);
  if (r.data) {
    bool     leaf = __CPROVER_same_object(r.data, p->leafes_data.data);
    bytes_t  all  = leaf ? p->leafes_data : p->witnesses_data;
    uint64_t off  = (uint64_t) (r.data - all.data);
    VP_CHECK(leaf || __CPROVER_same_object(r.data, p->witnesses_data.data), "data of the proof");
    VP_CHECK(off % 32 == 0 && off + 32 <= all.len && r.len == 32, "one whole node inside the proof data");
    VP_CHECK((leaf ? p->leafes_gindex : p->witnesses_gindex)[off / 32] == idx, "the node at that gindex");
    VP_REACH(leaf && off == 64, "leaf"); VP_REACH(!leaf && off == 96, "witness");
  }
  else VP_CHECK(r.len == 0, "absent");
  VP_REACH(!r.data, "absent");
}
#else

#ifndef D
#define D 4 /* depth of the tree: gindex < 2^D */
#endif
#ifndef L
#define L 2 /* number of leaves */
#endif
#define NODES (1 << D)
#define WMAX  (L * (D - 1))

static bool spec_root(const uint8_t* proof, uint32_t witnesses, const uint8_t* leaves, const gindex_t* g, uint32_t l, uint8_t* root) {
  /* the definition: a node is a leaf, a witness (its subtree has no leaf, its parent's has), or the hash of its children */
  static uint8_t val[NODES][32];
  bool           has[NODES], inner[NODES]; /* a leaf in the subtree / strictly below the node */
  uint32_t       used = 0;
  for (int n = NODES - 1; n >= 1; n--) {
    bool is_leaf = false;
    inner[n]     = n < NODES / 2 && (has[2 * n] || has[2 * n + 1]);
    has[n]       = inner[n];
    for (uint32_t i = 0; i < L; i++)
      if (i < l && g[i] == (gindex_t) n) { is_leaf = true; }
    has[n] |= is_leaf;
  }
  for (int n = NODES - 1; n >= 1; n--) {
    bool     is_leaf = false;
    uint32_t k       = 0;
    for (uint32_t i = 0; i < L; i++)
      if (i < l && g[i] == (gindex_t) n) { is_leaf = true; k = i; }
    if (is_leaf) memcpy(val[n], leaves + 32 * k, 32);
    else if (has[n]) sha256_merkle(bytes(val[2 * n], 32), bytes(val[2 * n + 1], 32), val[n]);
    else if (n > 1 && inner[n / 2]) {
      if (used >= witnesses) return false;
      memcpy(val[n], proof + 32 * used, 32);
      used++;
    }
  }
  memcpy(root, val[1], 32);
  return used == witnesses;
}

static bool below(gindex_t a, gindex_t b) { /* a is b or lies below b */
  for (; a >= b; a >>= 1)
    if (a == b) return true;
  return false;
}
static uint8_t leaves[32 * L], proof[32 * WMAX];
static void    check(uint32_t l, gindex_t* g) {
  for (uint32_t w = 0; w <= WMAX; w++) {
    vp_case++;
    uint8_t out[32] = {0}, want[32] = {0};
    bool    expect = spec_root(proof, w, leaves, g, l, want);
    if (!expect && w != 1 && w != 3) continue; /* wrong number of witnesses: two representatives */
    bool ok = ssz_verify_multi_merkle_proof(bytes(proof, w * 32), bytes(leaves, l * 32), g, out);
    VP_CHECK(ok == expect, "proof accepted iff it has exactly the sibling nodes");
    VP_CHECK(!ok || memcmp(out, want, 32) == 0, "root is the hash of all leaves and siblings at their positions");
    VP_REACH(ok, "accepted");
  }
}
/* every pair of leaves at different positions, none below the other; every number of witnesses, every content */
void h_multi(void) {
  vp_draw_const(leaves, 32 * L);
  vp_draw_const(proof, 32 * WMAX);
  gindex_t g[L];
  for (gindex_t a = A0; a < A1; a++)
    for (gindex_t b = 1; b < NODES; b++)
      if (!below(a, b) && !below(b, a)) {
        g[0] = a; g[1] = b;
        check(2, g);
      }
}
/* one leaf: the branch is folded from the leaf to the root; a branch of any other length is not accepted */
void h_single(void) {
  static uint8_t leaf[32], branch[32 * 8];
  vp_draw_const(leaf, 32);
  vp_draw_const(branch, 32 * 8);
  static const gindex_t at[] = {1, 3, 6, 13, 54};
  for (unsigned n = 0; n < sizeof(at) / sizeof(*at); n++) {
    gindex_t g     = at[n];
    uint32_t depth = 0;
    for (gindex_t t = g; t > 1; t >>= 1) depth++;
    uint8_t want[32], out[32] = {0}, none[32] = {0};
    vp_case++;
    memcpy(want, leaf, 32);
    for (uint32_t i = 0; i < depth; i++)
      if ((g >> i) & 1) sha256_merkle(bytes(branch + 32 * i, 32), bytes(want, 32), want);
      else sha256_merkle(bytes(want, 32), bytes(branch + 32 * i, 32), want);
    ssz_verify_single_merkle_proof(bytes(branch, depth * 32), leaf, g, out);
    VP_CHECK(memcmp(out, want, 32) == 0, "root is the leaf folded with its siblings");
    VP_REACH(depth > 2, "deep");
    memset(out, 0, 32);
    ssz_verify_single_merkle_proof(bytes(branch, (depth + 1) * 32), leaf, g, out);
    VP_CHECK(memcmp(out, none, 32) == 0, "branch too long: no root");
    if (depth) {
      ssz_verify_single_merkle_proof(bytes(branch, (depth - 1) * 32), leaf, g, out);
      VP_CHECK(memcmp(out, none, 32) == 0, "branch too short: no root");
    }
  }
}
#endif
