/* Authentication of beacon headers: c4_verify_header, c4_verify_blockroot_signature, eth_calculate_domain.
 * Real sources: beacon_header.c, beacon_types.c, verify_types.c, ssz.c, ssz_merkle.c. By contract: blst_verify (any answer),
 * c4_get_validators (any status; some key set for the requested period), sha256 of two nodes (uninterpreted). */
#define VP_SHA256
#include "vp.h"
#include "vp_hash.h"
#include "vp_env.h"
#include "verify.h"
#include "sync_committee.h"
#include "beacon_types.h"
#include "eth_verify.h"
#include "crypto.h"
#include VERIFY_TYPES_C
static const ssz_def_t E_PROOF[] = {SSZ_UNION("header_proof", ETH_HEADER_PROOFS_UNION)};
static const ssz_def_t D_PROOF   = SSZ_CONTAINER("proof", E_PROOF);

static verify_ctx_t ctx;

/* ---- what the code asked for ---- */
#define CALLS 4
static struct { uint32_t period; uint8_t* keys; bool deser; } got[CALLS];
static unsigned n_got, n_asked;
const c4_status_t c4_get_validators(verify_ctx_t* c, uint32_t period, c4_sync_validators_t* state, bytes32_t pubkey_hash) {
  uint8_t status = vp_draw_u8();
  VP_ASSUME(status <= 2);
  n_asked++;
  if (status != 0) return status == 1 ? C4_ERROR : C4_PENDING;
  VP_CHECK(n_got < CALLS, "bounded number of committees");
  state->validators   = bytes(malloc(1), 512 * 48);
  state->deserialized = vp_draw_bool();
  got[n_got].period = period; got[n_got].keys = state->validators.data; got[n_got].deser = state->deserialized;
  n_got++;
  return C4_SUCCESS;
}
/* ---- the specification ---- */
static uint8_t want_msg[32], want_sig[96], want_bits[64];
static uint32_t want_period;
static bool    signed_ok;
bool blst_verify(bytes32_t msg, bls_signature_t sig, uint8_t* keys, int num, bytes_t bits, bool deserialized) {
  bool r = vp_draw_bool();
  VP_CHECK(num == 512 && bits.len == 64, "all 512 members of the committee");
  VP_CHECK(memcmp(sig, want_sig, 96) == 0 && memcmp(bits.data, want_bits, 64) == 0, "signature and participation bits of the proof");
  VP_CHECK(n_got > 0 && got[n_got - 1].keys == keys && got[n_got - 1].deser == deserialized, "keys as returned by the committee store");
  VP_CHECK(got[n_got - 1].period == want_period || (want_period && got[n_got - 1].period == want_period - 1), "committee of the period of the signature (or the one before)");
  if (r && memcmp(msg, want_msg, 32) == 0) signed_ok = true;
  return r;
}
static void node(const uint8_t* a, const uint8_t* b, uint8_t* out) { sha256_merkle(bytes((uint8_t*) a, 32), bytes((uint8_t*) b, 32), out); }
#if defined(ROOTS) && !defined(VP_NATIVE)
/* contract of the tree hash (C15; for headers discharged by the direct jobs of this unit): a function of the object */
typedef unsigned __CPROVER_bitvector[896] bv896;
bv256 __CPROVER_uninterpreted_header_root(bv896 h);
static void header_root(const uint8_t* h, uint8_t* out) {
  bv896 v;
  memcpy(&v, h, 112);
  bv256 r = __CPROVER_uninterpreted_header_root(v);
  memcpy(out, &r, 32);
}
void vp_htr(ssz_ob_t ob, uint8_t* out) {
  uint8_t v[32] = {0};
  VP_CHECK(ob.def && ob.def->type == SSZ_TYPE_CONTAINER && (ob.bytes.len == 112 ? ob.def->def.container.elements == BEACON_BLOCK_HEADER : ob.def->def.container.len == 2 && (ob.bytes.len == 36 || ob.bytes.len == 64)), "roots of headers and pairs only");
  if (ob.bytes.len == 112) header_root(ob.bytes.data, out);
  else if (ob.bytes.len == 64) node(ob.bytes.data, ob.bytes.data + 32, out);
  else { memcpy(v, ob.bytes.data, 4); node(v, ob.bytes.data + 4, out); }
}
#else
static void header_root(const uint8_t* h, uint8_t* out) { /* slot, proposer, parent root, state root, body root */
  uint8_t a[32] = {0}, b[32] = {0}, z[32] = {0}, x[32], y[32], u[32];
  memcpy(a, h, 8); memcpy(b, h + 8, 8);
  node(a, b, x); node(h + 16, h + 48, y); node(x, y, u);
  node(h + 80, z, x); node(z, z, y); node(x, y, x);
  node(u, x, out);
}
#endif
static uint64_t le64(const uint8_t* p) { uint64_t r = 0; for (int i = 7; i >= 0; i--) r = r << 8 | p[i]; return r; }
#if CHAIN_NO == 1
static const uint64_t EPOCHS[] = {74240, 144896, 194048, 269568, 364032, 411392};
static const uint8_t  GENESIS[] = "\x4b\x36\x3d\xb9\x4e\x28\x61\x20\xd7\x6e\xb9\x05\x34\x0f\xdd\x4e\x54\xbf\xe9\xf0\x6b\xf3\x3f\xf6\xcf\x5a\xd2\x7f\x51\x1b\xfe\x95";
#define EPOCH_BITS 5
#define VERSION(f) {f, 0, 0, 0}
#elif CHAIN_NO == 11155111
static const uint64_t EPOCHS[] = {50, 100, 56832, 132608, 222464, 272640};
static const uint8_t  GENESIS[] = "\xd8\xea\x17\x1f\x3c\x94\xae\xa2\x1e\xbc\x42\xa1\xed\x61\x05\x2a\xcf\x3f\x92\x09\xc0\x0e\x4e\xfb\xaa\xdd\xac\x09\xed\x9b\x80\x78";
#define EPOCH_BITS 5
#define VERSION(f) {0x90, 0, 0, 0x6f + f}
#elif CHAIN_NO == 100
static const uint64_t EPOCHS[] = {512, 385536, 648704, 889856, 1337856};
static const uint8_t  GENESIS[] = "\xf5\xdc\xb5\x56\x4e\x82\x9a\xab\x27\x26\x4b\x9b\xec\xd5\xdf\xaa\x01\x70\x85\x61\x12\x24\xcb\x30\x36\xf5\x73\x36\x8d\xbb\x9d\x47";
#define EPOCH_BITS 4
#define VERSION(f) {f, 0, 0, 0x64}
#else
static const uint64_t EPOCHS[] = {90, 180, 244224, 516608, 948224};
static const uint8_t  GENESIS[] = "\x9d\x64\x2d\xac\x73\x05\x8f\xbf\x39\xc0\xae\x41\xab\x1e\x34\xe4\xd8\x89\x04\x3c\xb1\x99\x85\x1d\xed\x70\x95\xbc\x99\xeb\x4c\x1e";
#define EPOCH_BITS 4
#define VERSION(f) {f, 0, 0, 0x6f}
#endif
static void signing_message(const uint8_t* root, uint64_t sig_slot, uint8_t* out) {
  uint64_t epoch = (sig_slot - 1) >> EPOCH_BITS;
  uint8_t  fork  = 0;
  for (unsigned i = 0; i < sizeof(EPOCHS) / 8; i++)
    if (epoch >= EPOCHS[i]) fork = i + 1;
  VP_ASSUME(fork > 0); /* there are no sync committees before Altair */
  uint8_t v[] = VERSION(fork), f[32] = {0}, d[32], domain[32] = {7, 0, 0, 0};
  memcpy(f, v, 4);
  node(f, GENESIS, d);
  memcpy(domain + 4, d, 28);
  node(root, domain, out);
}
/* ---- the header proof of a proof object; layout fixed by the ssz type, content open ---- */
#ifdef VP_NATIVE
#define VP_TAIL 2100
#else
#define VP_TAIL 240
#endif
#define FIX 4 /* offset of the union */
static uint8_t proof[FIX + 1 + 4 + 112 + 8 + 64 + 96 + VP_TAIL];
static uint8_t hdr[112];
static ssz_ob_t block_proof(uint8_t selector, uint32_t len) {
  proof[0] = FIX; proof[FIX] = selector;
  return (ssz_ob_t) {.def = &D_PROOF, .bytes = bytes(proof, FIX + 1 + len)};
}
static c4_status_t verify(ssz_ob_t p, const uint8_t* signed_header) {
  uint8_t root[32];
  header_root(signed_header, root);
  uint64_t slot = le64(signed_header) + 1;
  VP_ASSUME(slot < 1ull << 44 && slot > 1);
  signing_message(root, slot, want_msg);
#ifndef VP_NATIVE
  uint8_t zero[32] = {0};
  VP_ASSUME(memcmp(want_msg, zero, 32) != 0); /* no preimage of zero: the cache of verified roots starts with zeros */
#endif
  want_period = slot >> 13;
  ssz_ob_t h = {.def = eth_ssz_type_for_denep(ETH_SSZ_BEACON_BLOCK_HEADER, C4_CHAIN_MAINNET), .bytes = bytes(hdr, 112)};
  ctx.chain_id = CHAIN_NO;
  return c4_verify_header(&ctx, h, p);
}
static void aggregate(uint8_t* p) {
  vp_draw_const(want_bits, 64); vp_draw_const(want_sig, 96);
  for (int i = 0; i < 64; i++) p[i] = want_bits[i];
  for (int i = 0; i < 96; i++) p[64 + i] = want_sig[i];
}
/* the signature is for the header itself */
void h_direct(void) {
  vp_draw_const(hdr, 112);
  aggregate(proof + FIX + 1);
  c4_status_t s = verify(block_proof(0, 160), hdr);
  VP_CHECK(s != C4_SUCCESS || signed_ok, "accepted only with a valid signature of the committee over the header");
  VP_CHECK(s == C4_SUCCESS || !signed_ok, "a valid signature is accepted");
  VP_REACH(s == C4_SUCCESS, "accepted"); VP_REACH(s == C4_ERROR && n_got == 2, "rejected"); VP_REACH(s == C4_PENDING, "pending");
}
/* two checks in a row: what the first one leaves behind never vouches for another header */
#ifdef TWICE
void h_twice(void) {
  bool first_ok;
  uint8_t first[32];
  vp_draw_const(hdr, 112);
  aggregate(proof + FIX + 1);
  c4_status_t s1 = verify(block_proof(0, 160), hdr);
  first_ok       = signed_ok;
  VP_CHECK(s1 != C4_SUCCESS || signed_ok, "accepted only with a valid signature of the committee over the header");
  memcpy(first, want_msg, 32);
  signed_ok = false; n_got = 0;
  uint8_t mask = vp_draw_u8();
  VP_ASSUME(mask < 112);
  hdr[mask] ^= vp_draw_u8(); /* the same header or one that differs in a byte */
  aggregate(proof + FIX + 1);
  c4_status_t s2 = verify(block_proof(0, 160), hdr);
  VP_CHECK(s2 != C4_SUCCESS || signed_ok || (first_ok && memcmp(first, want_msg, 32) == 0), "accepted only with a valid signature over this header, now or before");
  VP_REACH(s1 == C4_SUCCESS && s2 == C4_SUCCESS && !signed_ok, "known header"); VP_REACH(s1 == C4_ERROR && s2 == C4_SUCCESS, "second attempt");
}
#endif
/* a chain of headers leads from the header to the signed one */
void h_headers(void) {
  uint8_t* q = proof + FIX + 1;
  vp_draw_const(hdr, 112);
  q[0] = 4 + 112 + 160 % 256; q[1] = (4 + 112 + 160) >> 8;
  q[0] = (4 + 112 + 160) & 0xff;
  vp_draw_const(q + 4, 112);
  aggregate(q + 4 + 112);
  vp_draw_const(q + 4 + 112 + 160, 80 * HEADERS);
  uint8_t root[32];
  header_root(hdr, root);
  for (int i = 0; i < HEADERS; i++) {
    uint8_t* p = q + 4 + 112 + 160 + 80 * i;
    uint8_t  h[112];
    memcpy(h, p, 16); memcpy(h + 16, root, 32); memcpy(h + 48, p + 16, 64);
    header_root(h, root);
  }
  uint8_t delta[32];
  bool    forged = false;
  vp_draw_const(delta, 32);
  for (int i = 0; i < 32; i++) {
    q[4 + 16 + i] = root[i] ^ delta[i];
    if (delta[i]) forged = true;
  }
  c4_status_t s = verify(block_proof(2, 4 + 112 + 160 + 80 * HEADERS), q + 4);
  VP_CHECK(s != C4_SUCCESS || signed_ok, "accepted only with a valid signature of the committee over the signed header");
  VP_CHECK(s != C4_SUCCESS || memcmp(q + 4 + 16, root, 32) == 0, "accepted only if the headers form a chain up to the signed one");
  VP_CHECK(s == C4_SUCCESS || !signed_ok, "a valid signature is accepted");
  VP_CHECK(forged || n_asked > 0, "a correct chain is not rejected");
  VP_REACH(s == C4_SUCCESS, "accepted"); VP_REACH(s == C4_ERROR && forged && n_got == 0, "rejected");
}
/* the header root is a block root in the historical summaries of the state of the signed header */
#ifdef HISTORIC
static uint8_t spec_state_root[32], spec_leaf[32];
static bytes_t spec_branch;
static bool    spec_branch_ok;
#ifndef VP_NATIVE
/* contract of the merkle proof (property C01): the root belongs to exactly this leaf, position and branch */
bool vp_multi(bytes_t proof_data, bytes_t leafes, gindex_t* gindex, bytes32_t out) {
  if (!spec_branch_ok) return false;
  bool same = proof_data.len == spec_branch.len && proof_data.data == spec_branch.data && leafes.len == 32 && memcmp(leafes.data, spec_leaf, 32) == 0 && gindex[0] == le64(proof + FIX + 1 + 4 + 112);
  for (int i = 0; i < 32; i++) out[i] = same ? spec_state_root[i] : nondet_u8();
  return true;
}
#endif
void h_historic(void) {
  uint8_t* q = proof + FIX + 1;
  vp_draw_const(hdr, 112);
  q[0] = (4 + 112 + 8 + 160) & 0xff; q[1] = (4 + 112 + 8 + 160) >> 8;
  vp_draw_const(q + 4, 112 + 8);
  aggregate(q + 4 + 112 + 8);
  header_root(hdr, spec_leaf);
  gindex_t g = le64(q + 4 + 112);
  uint8_t  delta[32];
  bool     forged = false;
  vp_draw_const(delta, 32);
#ifdef VP_NATIVE
  uint32_t w = 0;
  for (gindex_t t = g; t > 1; t >>= 1) w++;
  spec_branch = bytes(q + 4 + 112 + 8 + 160, w * 32);
  spec_branch_ok = true;
  ssz_verify_single_merkle_proof(spec_branch, spec_leaf, g, spec_state_root);
#else
  uint32_t w = 2;
  spec_branch = bytes(q + 4 + 112 + 8 + 160, w * 32);
  spec_branch_ok = nondet_bool();
  for (int i = 0; i < 32; i++) spec_state_root[i] = nondet_u8();
  uint8_t zero[32] = {0};
#endif
  for (int i = 0; i < 32; i++) {
    q[4 + 48 + i] = spec_state_root[i] ^ delta[i];
    if (delta[i]) forged = true;
  }
#ifndef VP_NATIVE
  VP_ASSUME(memcmp(q + 4 + 48, zero, 32) != 0); /* no state has the root zero */
#endif
  c4_status_t s = verify(block_proof(1, 4 + 112 + 8 + 160 + 32 * w), q + 4);
  VP_CHECK(s != C4_SUCCESS || signed_ok, "accepted only with a valid signature of the committee over the signed header");
  VP_CHECK(s != C4_SUCCESS || (spec_branch_ok && memcmp(q + 4 + 48, spec_state_root, 32) == 0), "accepted only if the branch leads from the header root to the state root of the signed header");
  uint64_t top = (le64(q + 4) >> EPOCH_BITS) >= EPOCHS[4] ? 64 + 27 : 32 + 27; /* field historical_summaries of the state since electra / before */
  /* 1 bit: data (not length) of the list, 24 bits: period, 1 bit: block (not state) summary, 13 bits: slot */
  VP_CHECK(s != C4_SUCCESS || ((g >> 39) == top && ((g >> 38) & 1) == 0 && ((g >> 13) & 1) == 0), "the position of the branch is a block root in the historical summaries");
  VP_CHECK(s == C4_SUCCESS || !signed_ok, "a valid signature is accepted");
  VP_CHECK(forged || !spec_branch_ok || n_asked > 0 || (g >> 39) != top || ((g >> 38) & 1) || ((g >> 13) & 1), "a correct branch is not rejected");
  VP_REACH(s == C4_SUCCESS, "accepted"); VP_REACH(s == C4_ERROR && forged && n_got == 0, "rejected");
}
#endif
