/* Block requests: verify_block_proof and verify_block_number_proof with json.c, ssz.c, ssz_builder.c and the real proof types.
 * METHOD: 0 eth_getBlockByHash, 1 eth_getBlockByNumber, 2 eth_blockNumber, 3 another;  BLOCK: 0 "latest", 1 hash, 2 number
 * TXS: full transactions requested;  NT, NW: number of transactions and withdrawals;  GNOSIS: payload type;  GIVEN: a block is given as data
 * by contract: tree hash of payload and withdrawals (C15), trie over the transactions and their decoding (C12), branch, header */
#define VP_KECCAK_UF 32
#include "vp_req.h"
#include "eth_tx.h"
#ifndef NT
#define NT 0
#endif
#ifndef NW
#define NW 0
#endif
#ifndef TXS
#define TXS 0
#endif
#ifndef GNOSIS
#define GNOSIS 0
#endif
#define TL 6 /* length of a transaction */
#define XL 5 /* length of the extra data */
#define DL 7 /* length of the decoded transaction */
bool verify_block_proof(verify_ctx_t* ctx);
bool verify_block_number_proof(verify_ctx_t* ctx);
static const char* METHODS[] = {"eth_getBlockByHash", "eth_getBlockByNumber", "eth_blockNumber", "eth_getBalance"};
#define HASH "8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0"
#if BLOCK == 0
#define BARG "\"latest\""
#elif BLOCK == 1
#define BARG "\"0x" HASH "\""
#else
#define BARG "\"0x123456\""
#endif
static uint8_t hash[32], number[8] = {0x56, 0x34, 0x12};
static const uint8_t EMPTY_TRIE[] = "\x56\xe8\x1f\x17\x1b\xcc\x55\xa6\xff\x83\x45\xe6\x92\xc0\xf8\x6e\x5b\x48\xe0\x1b\x99\x6c\xad\xc0\x01\x62\x2f\xb5\xe3\x63\xb4\x21";
const uint8_t* EMPTY_ROOT_HASH = EMPTY_TRIE; /* as in eth_account.c */

/* ---- tree hashes by contract ---- */
static uint8_t payload_root[32], withdrawals_root[32];
#define O_PAYLOAD 124
#define O_P (O_PAYLOAD + 1)
#define P_TXS (528 + XL)
#define P_W (P_TXS + NT * (4 + TL))
#define P_SIZE (P_W + NW * 44)
#define O_WIT (O_P + P_SIZE)
#define O_HP (O_WIT + 4 * 32)
#define SIZE (O_HP + 1 + 160)
static uint8_t proof[SIZE];
#ifndef VP_NATIVE
void vp_htr(ssz_ob_t ob, bytes32_t out) {
  if (ob.bytes.data == proof + O_P && ob.bytes.len == P_SIZE && ob.def && ob.def->type == SSZ_TYPE_CONTAINER && ob.def->def.container.elements == (GNOSIS ? GNOSIS_EXECUTION_PAYLOAD : DENEP_EXECUTION_PAYLOAD)) putn(out, payload_root, 32);
  else if (ob.bytes.data == proof + O_P + P_W && ob.bytes.len == NW * 44) putn(out, withdrawals_root, 32);
  else for (int i = 0; i < 32; i++) out[i] = nondet_u8();
}
#endif
/* ---- trie and decoding of transactions by contract ---- */
static uint8_t txroot[32], txdata[NT + 1][DL], txhash[NT + 1][32];
static bool    in_trie[NT + 1];
static int     dummy;
bytes_t c4_eth_create_tx_path(uint32_t i, buffer_t* buf) {
  buf->data.data[0] = i ? (uint8_t) i : 0x80;
  buf->data.len     = 1;
  return buf->data;
}
void patricia_set_value(node_t** root, bytes_t path, bytes_t value) {
  for (unsigned i = 0; i < NT; i++)
    if (path.len == 1 && path.data[0] == (i ? i : 0x80)) {
      in_trie[i] = value.data == proof + O_P + P_TXS + 4 * NT + TL * i && value.len == TL;
      *root      = (node_t*) &dummy;
      return;
    }
  VP_CHECK(false, "only transactions of the block in the trie");
}
bytes_t patricia_get_root(node_t* root) {
  for (unsigned i = 0; i < NT; i++) VP_CHECK(in_trie[i], "all transactions of the block in the trie");
  return bytes(txroot, 32);
}
void patricia_node_free(node_t* n) {}
bool c4_write_tx_data_from_raw(verify_ctx_t* c, ssz_builder_t* b, bytes_t raw, bytes32_t th, bytes32_t bh, uint64_t bn, uint32_t i, uint64_t base_fee) {
  uint64_t n = 0, f = 0;
  for (int k = 7; k >= 0; k--) { n = (n << 8) | proof[O_P + 404 + k]; f = (f << 8) | proof[O_P + 440 + k]; }
  VP_CHECK(i < NT && raw.data == proof + O_P + P_TXS + 4 * NT + TL * i && raw.len == TL && same_bytes(th, txhash[i], 32), "transaction and its hash");
  VP_CHECK(same_bytes(bh, proof + O_P + 472, 32) && bn == n && base_fee == f, "block of the transaction");
  buffer_append(&b->fixed, bytes(txdata[i < NT ? i : 0], DL));
  return true;
}
#define R_FIXED (4+8+32+4+256+32+4+32+32+8+20+4+8*5+32+32+4+32*4+8+32)
static uint8_t res[R_FIXED + 1 + NT * (TXS ? 4 + DL : 32) + XL + NW * 44];
static uint8_t* out;
static void add(const uint8_t* d, unsigned n) { putn(out, d, n); out += n; }
static void off(unsigned v) { put4(out, v); out += 4; }
static const uint8_t zero[32];
static const uint8_t UNCLES[] = "\x1d\xcc\x4d\xe8\xde\xc7\x5d\x7a\xab\x85\xb5\x67\xb6\xcc\xd4\x1a\xd3\x12\x45\x1b\x94\x8a\x74\x13\xf0\xa1\x42\xfd\x40\xd4\x93\x47";
#ifdef GIVEN
static uint8_t given[R_FIXED];
#endif
void h_block(void) {
  bool     eq_block = true;
  uint8_t* p        = proof + O_P;
  for (int i = 0; i < 32; i++) hash[i] = 0x81 + i;
  ctx.chain_id = GNOSIS ? C4_CHAIN_GNOSIS : C4_CHAIN_MAINNET;
  ctx.method   = (char*) METHODS[METHOD];
  ctx.args     = json_parse(TXS ? "[" BARG ",true]" : "[" BARG ",false]");
  ctx.data     = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION};
#ifdef GIVEN
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + 7, .bytes = bytes(given, R_FIXED)};
#endif
  put4(proof, O_PAYLOAD); put4(proof + 4, O_WIT); put4(proof + 120, O_HP);
  vp_draw_const(proof + 8, 112);
  proof[O_PAYLOAD] = GNOSIS;
  vp_draw_const(p, 436); vp_draw_const(p + 440, 64); vp_draw_const(p + 512, 16 + XL);
  if (BLOCK == 1) eq_block = put_delta(p + 472, hash, 32);
  if (BLOCK == 2) eq_block = put_delta(p + 404, number, 8);
  put4(p + 436, 528); put4(p + 504, P_TXS); put4(p + 508, P_W);
  for (int i = 0; i < NT; i++) {
    put4(p + P_TXS + 4 * i, 4 * NT + TL * i);
    vp_draw_const(p + P_TXS + 4 * NT + TL * i, TL);
    vp_draw_const(txdata[i], DL);
    keccak(bytes(p + P_TXS + 4 * NT + TL * i, TL), txhash[i]);
  }
  vp_draw_const(p + P_W, NW * 44);
  vp_draw_const(txroot, 32);
  vp_draw_const(proof + O_WIT, 128);
  ctx.proof         = (ssz_ob_t) {.def = eth_ssz_verification_type(ETH_SSZ_VERIFY_BLOCK_PROOF), .bytes = bytes(proof, SIZE)};
  spec_header       = proof + 8;
  spec_header_owner = proof;
#ifdef VP_NATIVE
  { ssz_ob_t e = ssz_get(&ctx.proof, "executionPayload");
    ssz_hash_tree_root(e, payload_root);
    ssz_hash_tree_root(ssz_get(&e, "withdrawals"), withdrawals_root); }
#else
  for (int i = 0; i < 32; i++) { payload_root[i] = nondet_u8(); withdrawals_root[i] = nondet_u8(); }
#endif
  spec_leaf(25, payload_root, 32);
  spec_body_root(bytes(proof + O_WIT, 128));
  bool eq_body = put_delta(proof + 8 + 80, spec_root, 32);
#ifndef VP_NATIVE
  VP_ASSUME(!same_bytes(proof + 8 + 80, zero, 32)); /* no preimage of zero */
#endif

  bool ok = verify_block_proof(&ctx);

  bool fine = header_ok && eq_body && spec_branch_ok && eq_block && METHOD < 2;
  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD < 2, "a block proof answers no other method");
  VP_CHECK(!ok || header_ok, "accepted only with an accepted header");
  VP_CHECK(!ok || (eq_body && spec_branch_ok), "accepted only if the payload is the one of the header");
  VP_CHECK(!ok || eq_block, "accepted only for the requested block");
  if (ok) {
    static const uint8_t mask[4] = {0xff, 0xff, 0xff, 0xfd};
    unsigned             o       = R_FIXED;
    out                          = res;
    add(mask, 4); add(p + 404, 8); add(p + 472, 32); off(o); o += 1 + NT * (TXS ? 4 + DL : 32);
    add(p + 116, 256); add(p + 84, 32); off(o); o += XL;
    add(withdrawals_root, 32); add(p + 440, 32); add(zero, 8); add(p + 32, 20); off(o); o += NW * 44;
    add(p + 520, 8); add(zero, 8); add(p + 412, 8); add(p + 420, 8); add(p + 428, 8);
    add(p + 372, 32); add(p, 32); off(o); add(proof + 8 + 16, 32); add(UNCLES, 32);
    add(NT ? txroot : EMPTY_TRIE, 32); add(p + 52, 32); add(p + 512, 8);
    putn(out, ctx.data.bytes.data + (out - res), 32); out += 32; /* requests hash: not part of the result (mask) */
    *out++ = TXS;
    for (int i = 0; i < NT && TXS; i++) off(4 * NT + DL * i);
    for (int i = 0; i < NT; i++) add(TXS ? txdata[i] : txhash[i], TXS ? DL : 32);
    add(p + 528, XL); add(p + P_W, NW * 44);
    VP_CHECK(ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 7 && ctx.data.bytes.len == sizeof(res), "result: a block");
    VP_CHECK(same_bytes(ctx.data.bytes.data, res, sizeof(res)), "result: all fields of the proved payload");
  }
  VP_CHECK(ok || !fine, "a correct proof is accepted");
  VP_CHECK(n_header || !(eq_body && spec_branch_ok && METHOD < 2), "a correct proof is not rejected");
#ifdef EXPECT_REJECT
  VP_REACH(!ok, "rejected");
#else
  VP_REACH(ok, "accepted");
  VP_REACH(!ok && n_header, "rejected");
#endif
}

/* block number: {number 8, timestamp 8, witnesses, header 112, header proof} */
#define NWIT 11
#define B_HP (136 + 32 * NWIT)
static uint8_t bproof[B_HP + 1 + 160];
void h_number(void) {
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = (char*) METHODS[METHOD];
  ctx.args     = json_parse("[]");
  ctx.data     = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION};
  vp_draw_const(bproof, 16); put4(bproof + 16, 136);
  vp_draw_const(bproof + 20, 112); put4(bproof + 132, B_HP);
  vp_draw_const(bproof + 136, 32 * NWIT);
  ctx.proof         = (ssz_ob_t) {.def = eth_ssz_verification_type(ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF), .bytes = bytes(bproof, sizeof(bproof))};
  spec_header       = bproof + 20;
  spec_header_owner = bproof;
  spec_leaf(806, bproof, 8);
  spec_leaf(809, bproof + 8, 8);
  spec_body_root(bytes(bproof + 136, 32 * NWIT));
  bool eq_body = put_delta(bproof + 20 + 80, spec_root, 32);

  bool ok = verify_block_number_proof(&ctx);

  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD == 2, "a block number proof answers no other method");
  VP_CHECK(!ok || header_ok, "accepted only with an accepted header");
  VP_CHECK(!ok || (eq_body && spec_branch_ok), "accepted only if number and timestamp are those of the header");
  VP_CHECK(!ok || (ctx.data.def && ctx.data.def->type == SSZ_TYPE_UINT && ctx.data.bytes.len == 8 && same_bytes(ctx.data.bytes.data, bproof, 8)), "result: the proved number");
  VP_CHECK(ok || !(header_ok && eq_body && spec_branch_ok && METHOD == 2), "a correct proof is accepted");
  VP_CHECK(n_header || !(eq_body && spec_branch_ok && METHOD == 2), "a correct proof is not rejected");
#ifdef EXPECT_REJECT
  VP_REACH(!ok, "rejected");
#else
  VP_REACH(ok, "accepted");
  VP_REACH(!ok && n_header, "rejected");
#endif
}
