/* Transaction requests: verify_tx_proof with c4_tx_verify_tx_hash, json.c, ssz.c, ssz_builder.c and the real proof types.
 * METHOD: 0 eth_getTransactionByHash, 1 ..ByBlockHashAndIndex, 2 ..ByBlockNumberAndIndex, 3 another, -1 none;  GIVEN: a transaction is given as data
 * by contract: tree hash of the raw transaction (C15), decoding of the transaction (job tx_decode), branch (C01), header (C07) */
#define VP_KECCAK_UF 96
#include "vp_req.h"
#include "eth_tx.h"
#define DL 7 /* length of the decoded transaction */
#define INDEX 5
bool verify_tx_proof(verify_ctx_t* ctx);
bool secp256k1_recover(const bytes32_t digest, bytes_t signature, uint8_t* pubkey) { return false; } /* the transaction is a deposit without signature */
#define HASH "8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0"
static const char* METHODS[] = {"eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex", "eth_getTransactionReceipt"};
#if METHOD == 1
#define ARGS "[\"0x" HASH "\",\"0x5\"]"
#elif METHOD == 2
#define ARGS "[\"0x123456\",\"0x5\"]"
#else
#define ARGS "[\"0x" HASH "\"]"
#endif
#define RAW 83
#define WITNESSES 32
#define O_RAW 176
#define O_WIT (O_RAW + RAW)
#define O_HP (O_WIT + 32 * WITNESSES)
#define SIZE (O_HP + 161)
static uint8_t proof[SIZE], hash[32], number[8] = {0x56, 0x34, 0x12}, index_[4] = {INDEX}, tx_root[32], decoded[DL], tx_hash[32], given[4];
static char    args[sizeof(ARGS)] = ARGS;
static uint64_t le(const uint8_t* p, int n) { uint64_t r = 0; while (n--) r = (r << 8) | p[n]; return r; }
#ifndef VP_NATIVE
void vp_htr(ssz_ob_t ob, bytes32_t out) {
  if (ob.bytes.data == proof + O_RAW && ob.bytes.len == RAW && ob.def == &ssz_transactions_bytes) putn(out, tx_root, 32);
  else for (int i = 0; i < 32; i++) out[i] = nondet_u8();
}
static bool decodes;
bool vp_write(verify_ctx_t* c, ssz_builder_t* b, bytes_t raw, bytes32_t th, bytes32_t bh, uint64_t bn, uint32_t i, uint64_t base_fee) {
  VP_CHECK(raw.data == proof + O_RAW && raw.len == RAW && same_bytes(th, tx_hash, 32), "the proved transaction and its hash");
  VP_CHECK(same_bytes(bh, proof + 16, 32) && bn == le(proof + 8, 8) && base_fee == le(proof + 48, 8) && i == le(proof + 4, 4), "block and index of the transaction");
  buffer_append(&b->fixed, bytes(decoded, DL));
  return decodes;
}
#endif
void h_tx(void) {
  uint8_t* raw = proof + O_RAW;
  bool     eq_hash = true, eq_block = true, eq_index;
  for (int i = 0; i < 32; i++) hash[i] = 0x81 + i;
  ctx.chain_id = C4_CHAIN_MAINNET;
#if METHOD >= 0
  ctx.method = (char*) METHODS[METHOD];
#endif
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION};
#ifdef GIVEN
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + 4, .bytes = bytes(given, 4)};
#endif
  put4(proof, O_RAW); put4(proof + 56, O_WIT); put4(proof + 172, O_HP);
  eq_index = put_delta(proof + 4, index_, 4);
  vp_draw_const(proof + 8, 48);
  if (METHOD == 1) eq_block = put_delta(proof + 16, hash, 32);
  if (METHOD == 2) eq_block = put_delta(proof + 8, number, 8);
  vp_draw_const(proof + 60, 112);
  /* a deposit: sourceHash, from, to, mint, value, gas, isSystemTx, data */
  raw[0] = 0x7e; raw[1] = 0xf8; raw[2] = 80;
  raw[3] = 0xa0; vp_draw_const(raw + 4, 32);
  raw[36] = 0x94; vp_draw_const(raw + 37, 20);
  raw[57] = 0x94; vp_draw_const(raw + 58, 20);
  raw[78] = 0x80; raw[79] = 0x01; raw[80] = 0x02; raw[81] = 0x80; raw[82] = 0x03;
  vp_draw_const(proof + O_WIT, 32 * WITNESSES);
  ctx.proof         = (ssz_ob_t) {.def = eth_ssz_verification_type(ETH_SSZ_VERIFY_TRANSACTION_PROOF), .bytes = bytes(proof, SIZE)};
  spec_header       = proof + 60;
  spec_header_owner = proof;
  keccak(bytes(raw, RAW), tx_hash);
  {
    uint8_t req[32];
    if (METHOD == 0) eq_hash = put_delta(req, tx_hash, 32);
#ifdef VP_NATIVE
    ssz_hash_tree_root(ssz_ob(ssz_transactions_bytes, bytes(raw, RAW)), tx_root);
    if (METHOD == 0) for (int i = 0; i < 32; i++) { args[4 + 2 * i] = "0123456789abcdef"[req[i] >> 4]; args[5 + 2 * i] = "0123456789abcdef"[req[i] & 15]; }
#else
    decodes = nondet_bool();
    for (int i = 0; i < 32; i++) tx_root[i] = nondet_u8();
    for (int i = 0; i < DL; i++) decoded[i] = nondet_u8();
    if (METHOD == 0) for (int i = 0; i < 32; i++) VP_ASSUME(req[i] == hash[i]);
#endif
  }
  ctx.args       = json_parse(args);
  uint32_t index = (uint32_t) le(proof + 4, 4);
#ifdef VP_NATIVE
  if (index > 1000) vp_inapplicable("number of witnesses");
#endif
  spec_leaf(806, proof + 8, 8);
  spec_leaf(812, proof + 16, 32);
  spec_leaf(811, proof + 48, 8);
  spec_leaf(1704984576ULL + index, tx_root, 32);
  spec_body_root(bytes(proof + O_WIT, 32 * WITNESSES));
  bool eq_body = put_delta(proof + 60 + 80, spec_root, 32);

  bool ok = verify_tx_proof(&ctx);

  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD < 3, "a transaction proof answers no other method");
  VP_CHECK(!ok || header_ok, "accepted only with an accepted header");
  VP_CHECK(!ok || (eq_body && spec_branch_ok), "transaction, block number, block hash and base fee belong to the body of the header");
  VP_CHECK(!ok || eq_hash, "the transaction has the requested hash");
  VP_CHECK(!ok || eq_block, "the transaction is in the requested block");
  VP_CHECK(!ok || (METHOD != 1 && METHOD != 2) || eq_index, "the transaction has the requested index");
  VP_CHECK(!ok || index < 1048576, "the index is the index of a transaction");
#ifdef VP_NATIVE
  ssz_builder_t b = ssz_builder_for_type(ETH_SSZ_DATA_TX);
  c4_write_tx_data_from_raw(&ctx, &b, bytes(raw, RAW), tx_hash, proof + 16, le(proof + 8, 8), index, le(proof + 48, 8));
  ssz_ob_t res = ssz_builder_to_bytes(&b);
  VP_CHECK(!ok || (ctx.data.def == res.def && ctx.data.bytes.len == res.bytes.len && same_bytes(ctx.data.bytes.data, res.bytes.data, res.bytes.len)), "the answer is the decoded transaction");
#else
  VP_CHECK(!ok || (decodes && ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 4 && ctx.data.bytes.len == DL && same_bytes(ctx.data.bytes.data, decoded, DL)), "the answer is the decoded transaction");
  VP_CHECK(!ok || (ctx.flags & VERIFY_FLAG_FREE_DATA), "the answer is owned by the context");
#ifdef EXPECT_REJECT
  VP_CHECK(!ok, "rejected");
#else
  VP_CHECK(ok || !((!n_header || header_ok) && eq_body && spec_branch_ok && eq_hash && eq_block && (eq_index || METHOD <= 0) && index < 1048576 && decodes), "a correct proof is accepted");
  VP_REACH(ok, "accepted");
#endif
#endif
}
