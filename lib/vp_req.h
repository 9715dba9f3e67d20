/* Environment of the request verifiers (account, tx, receipt, logs, block): the header check, the patricia proofs and the SSZ
 * merkle proofs are called by contract (properties C07, C02, C01), everything else is the real code.
 *  - c4_verify_header: any answer, recorded; must be asked about the header and the proof object of the request
 *  - ssz_verify_multi_merkle_proof: the specified root for exactly the specified leaves, positions and witnesses; anything otherwise
 *    (replay: the real function; the specified root is computed from the specified leaves and positions)
 *  - patricia_verify: for each proof list of the request a fixed root, result (a case of the job) and value for the specified path */
#ifndef VP_REQ_H
#define VP_REQ_H
#include "vp.h"
#include "vp_hash.h"
#include "vp_env.h"
#include "beacon_types.h"
#include "eth_verify.h"
#include "patricia.h"
#include "verify.h"
#include VERIFY_TYPES_C

static verify_ctx_t ctx;
static void put4(uint8_t* p, uint32_t v) { p[0] = v & 0xff; p[1] = (v >> 8) & 0xff; p[2] = 0; p[3] = 0; }
static void putn(uint8_t* d, const uint8_t* s, unsigned n) { for (unsigned i = 0; i < n; i++) d[i] = s[i]; }
static bool same_bytes(const uint8_t* a, const uint8_t* b, unsigned n) {
  bool r = true;
  for (unsigned i = 0; i < n; i++) if (a[i] != b[i]) r = false;
  return r;
}
/* v = base ^ drawn difference; tells whether they are equal. Replays of any counterexample then use real hashes. */
static bool put_delta(uint8_t* d, const uint8_t* base, unsigned n) {
  bool eq = true;
  for (unsigned i = 0; i < n; i++) {
    uint8_t x = vp_draw_u8();
    d[i]      = base[i] ^ x;
    if (x) eq = false;
  }
  return eq;
}

/* ---- header ---- */
#ifndef VP_NB
#define VP_NB 1 /* number of headers (blocks) in the proof */
#endif
#ifndef MAX_LEAVES
#define MAX_LEAVES 5
#endif
typedef struct {
  uint8_t *header, *header_owner; /* the header (112 bytes) and the object holding its proof */
  bool     accepted;
  struct { gindex_t g; uint8_t leaf[32]; } leaves[MAX_LEAVES];
  unsigned n_leaves;
  bytes_t  witnesses;
  uint8_t  root[32];
  bool     branch_ok;
} spec_block_t;
static spec_block_t sb[VP_NB];
static unsigned     n_header;
#define spec_header       sb[0].header
#define spec_header_owner sb[0].header_owner
#define header_ok         sb[0].accepted
#define spec_root         sb[0].root
#define spec_branch_ok    sb[0].branch_ok
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t block_proof) {
  uint8_t s = vp_draw_u8();
  VP_ASSUME(s <= 2);
  n_header++;
  for (unsigned b = 0; b < VP_NB; b++)
    if (block_proof.bytes.data == sb[b].header_owner) {
      VP_CHECK(header.bytes.len == 112 && (header.bytes.data == sb[b].header || same_bytes(header.bytes.data, sb[b].header, 112)), "the header of the proof is checked");
      if (s == 0) sb[b].accepted = true;
      if (s == 1) c4_state_add_error(&c->state, "header");
      return s == 0 ? C4_SUCCESS : (s == 1 ? C4_ERROR : C4_PENDING);
    }
  VP_CHECK(false, "with the signatures of the proof");
  return C4_ERROR;
}

/* ---- merkle proof of the body root ---- */
static void spec_leaf_of(unsigned b, gindex_t g, const uint8_t* data, unsigned n) {
  unsigned k = sb[b].n_leaves++;
  sb[b].leaves[k].g = g;
  for (unsigned i = 0; i < 32; i++) sb[b].leaves[k].leaf[i] = i < n ? data[i] : 0;
}
static void spec_leaf(gindex_t g, const uint8_t* data, unsigned n) { spec_leaf_of(0, g, data, n); }
#ifndef VP_NATIVE
bool vp_multi(bytes_t proof_data, bytes_t leafes, gindex_t* gindex, bytes32_t out) {
  for (unsigned b = 0; b < VP_NB; b++) {
    bool same = proof_data.data == sb[b].witnesses.data && proof_data.len == sb[b].witnesses.len && leafes.len == 32 * sb[b].n_leaves;
    if (same)
      for (unsigned i = 0; i < sb[b].n_leaves; i++) {
        bool found = false;
        for (unsigned j = 0; j < sb[b].n_leaves; j++)
          if (gindex[j] == sb[b].leaves[i].g && same_bytes(leafes.data + 32 * j, sb[b].leaves[i].leaf, 32)) found = true;
        if (!found) same = false;
      }
    if (same) {
      if (sb[b].branch_ok) putn(out, sb[b].root, 32);
      return sb[b].branch_ok;
    }
  }
  for (int i = 0; i < 32; i++) out[i] = nondet_u8();
  return nondet_bool();
}
void vp_single(bytes_t proof_data, bytes32_t leaf, gindex_t gindex, bytes32_t out) {
  uint8_t  l[32];
  gindex_t g = gindex;
  putn(l, leaf, 32);
  vp_multi(proof_data, bytes(l, 32), &g, out);
}
#endif
/* computes the specified root; all leaves are given */
static void spec_body_root_of(unsigned b, bytes_t witnesses) {
  sb[b].witnesses = witnesses;
#ifdef VP_NATIVE
  uint8_t  l[32 * MAX_LEAVES];
  gindex_t g[MAX_LEAVES];
  for (unsigned i = 0; i < sb[b].n_leaves; i++) { putn(l + 32 * i, sb[b].leaves[i].leaf, 32); g[i] = sb[b].leaves[i].g; }
  sb[b].branch_ok = ssz_verify_multi_merkle_proof(witnesses, bytes(l, 32 * sb[b].n_leaves), g, sb[b].root);
  if (!sb[b].branch_ok) vp_inapplicable("number of witnesses");
#else
  sb[b].branch_ok = nondet_bool();
  for (int i = 0; i < 32; i++) sb[b].root[i] = nondet_u8();
#endif
}
static void spec_body_root(bytes_t witnesses) { spec_body_root_of(0, witnesses); }

/* ---- patricia proofs ---- */
#ifndef MAX_TRIES
#define MAX_TRIES 2
#endif
static struct { uint8_t* proof; uint8_t path[32]; unsigned path_len; uint8_t root[32]; uint8_t result; bytes_t leaf; unsigned asked; } spec_trie[MAX_TRIES];
patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* value) {
  for (unsigned i = 0; i < MAX_TRIES; i++)
    if (spec_trie[i].proof == proof.bytes.data) {
      VP_CHECK(path.len == spec_trie[i].path_len && same_bytes(path.data, spec_trie[i].path, spec_trie[i].path_len), "the proof is followed along the path of the key");
      putn(root, spec_trie[i].root, 32);
      if (value) *value = spec_trie[i].result == PATRICIA_FOUND ? spec_trie[i].leaf : NULL_BYTES;
      spec_trie[i].asked++;
      return (patricia_result_t) spec_trie[i].result;
    }
  VP_CHECK(false, "only proofs of the request are used");
  return PATRICIA_INVALID;
}
#endif
