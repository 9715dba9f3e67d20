/* Receipt and log requests: verify_receipt_proof / verify_logs_proof with c4_tx_verify_receipt_data, c4_tx_verify_log_data, c4_tx_verify_receipt_proof,
 * c4_tx_verify_tx_hash, rlp.c, json.c, ssz.c and the real proof types.
 * T: type of the transaction;  TOL: length of its target;  NLOG logs with NT topics and DLEN bytes of data (both items);  STATUS: 0x01 or 0x80 (0)
 * METHOD: 0 eth_getTransactionReceipt, 1 eth_getTransactionByHash, 2 eth_getLogs, 3 eth_verifyLogs, 4 another, -1 none;  DT: type of the data
 * by contract: tree hash of the raw transaction (C15), sender (job tx_decode), path of an index (job tx_path), patricia proof (C02), branch (C01), header (C07) */
#ifndef T
#define T 2
#endif
#ifndef TOL
#define TOL 20
#endif
#ifndef NT
#define NT 1
#endif
#ifndef NLOG
#define NLOG 1
#endif
#ifndef DLEN
#define DLEN 3
#endif
#ifndef RNT /* topics and length of the data of the logs in the answer */
#define RNT NT
#endif
#ifndef RDL
#define RDL DLEN
#endif
#ifndef STATUS
#define STATUS 0x01
#endif
#ifndef NTX /* transactions in the logs proof */
#define NTX 1
#endif
#ifndef BLOCKS /* blocks in the logs proof */
#define BLOCKS 1
#endif
#ifndef NRES /* logs in the answer */
#define NRES 1
#endif
#define VP_KECCAK_UF (T == 0x7e ? 96 : 64)
#define MAX_TRIES (BLOCKS * NTX)
#define VP_NB BLOCKS
#include "vp_req.h"
#include "eth_tx.h"
bool verify_receipt_proof(verify_ctx_t* ctx);
bool verify_logs_proof(verify_ctx_t* ctx);
static const char* METHODS[] = {"eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_getLogs", "eth_verifyLogs", "eth_getBalance"};
#define HASH "8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0"
static char    args[] = "[\"0x" HASH "\"]";
static uint8_t hash[32], pub[64];
bool secp256k1_recover(const bytes32_t d, bytes_t s, uint8_t* p) { putn(p, pub, 64); return true; }
static uint64_t le(const uint8_t* p, int n) { uint64_t r = 0; while (n--) r = (r << 8) | p[n]; return r; }
static uint8_t* w; /* cursor */
static void hdr(unsigned base, unsigned n) {
  if (n < 56) *w++ = base + n;
  else if (n < 256) { *w++ = base + 56; *w++ = n; }
  else { *w++ = base + 57; *w++ = n >> 8; *w++ = n & 0xff; }
}
#define HL(n) ((n) < 56 ? 1 : ((n) < 256 ? 2 : 3))
static uint8_t* item(unsigned n) {
  hdr(0x80, n);
  uint8_t* p = w;
  vp_draw_const(p, n);
  w += n;
  return p;
}
/* ---- a raw transaction: only the target and the signature are used ---- */
#if T == 0x7e
#define TX_BODY (33 + 21 + TOL + 1 + 5)
#elif T == 0
#define TX_BODY (3 + (TOL + 1) + 2 + 3)
#elif T == 1
#define TX_BODY (4 + (TOL + 1) + 3 + 3)
#elif T == 2
#define TX_BODY (5 + (TOL + 1) + 3 + 3)
#else
#define TX_BODY (5 + (TOL + 1) + (T == 3 ? 5 : 4) + 3)
#endif
#define TX_LEN ((T ? 1 : 0) + HL(TX_BODY) + TX_BODY)
static uint8_t* put_tx(uint8_t* at) { /* returns the target */
  uint8_t* to;
  w = at;
  if (T) *w++ = T;
  hdr(0xc0, TX_BODY);
#if T == 0x7e
  item(32); item(20); to = item(TOL); for (int i = 0; i < 5; i++) *w++ = 0x80;
#else
  for (int i = 0; i < (T == 0 ? 3 : (T == 1 ? 4 : 5)); i++) *w++ = 0x02;
  to = item(TOL);
  *w++ = 0x80; *w++ = 0x80;
  if (T) *w++ = 0xc0;
  if (T == 3) *w++ = 0x80;
  if (T >= 3) *w++ = 0xc0;
  *w++ = T ? 0x80 : 27; *w++ = 0x01; *w++ = 0x01;
#endif
  return to;
}
/* ---- a receipt ---- */
#define L_BODY (21 + HL(33 * NT) + 33 * NT + HL(DLEN) + DLEN)
#define L_LEN (HL(L_BODY) + L_BODY)
#define R_BODY (1 + 4 + 259 + HL(NLOG * L_LEN) + NLOG * L_LEN + (T == 0x7e ? 4 : 0))
#define R_LEN ((T ? 1 : 0) + HL(R_BODY) + R_BODY)
typedef struct { uint8_t buf[R_LEN], *gas, *bloom, *addr[NLOG + 1], *topics[NLOG + 1], *data[NLOG + 1], *nonce; } receipt_t;
static void put_receipt(receipt_t* r) {
  w = r->buf;
  if (T) *w++ = T;
  hdr(0xc0, R_BODY);
  *w++ = STATUS; r->gas = item(3); r->bloom = item(256);
  hdr(0xc0, NLOG * L_LEN);
  for (int i = 0; i < NLOG; i++) {
    hdr(0xc0, L_BODY); r->addr[i] = item(20); hdr(0xc0, 33 * NT);
    r->topics[i] = w + 1;
    for (int k = 0; k < NT; k++) item(32);
    r->data[i] = item(DLEN);
  }
  if (T == 0x7e) { r->nonce = item(2); *w++ = 1; }
}
/* ---- a log in the answer ---- */
#define S_LOG (109 + 32 * RNT + RDL)
static bool s_log(uint8_t* d, const uint8_t* bh, const uint8_t* bn, const uint8_t* th, const uint8_t* idx, receipt_t* r, unsigned i) {
  bool ok = put_delta(d, bh, 32);
  ok = put_delta(d + 32, bn, 8) && ok;
  ok = put_delta(d + 40, th, 32) && ok;
  ok = put_delta(d + 72, idx, 4) && ok;
  ok = put_delta(d + 76, r->addr[i], 20) && ok;
  vp_draw_const(d + 96, 4); /* the position of the log is not proved */
  d[100] = 0;
  put4(d + 101, 109); put4(d + 105, 109 + 32 * RNT);
  for (int k = 0; k < RNT; k++) {
    if (k < NT) ok = put_delta(d + 109 + 32 * k, r->topics[i] + 33 * k, 32) && ok;
    else vp_draw_const(d + 109 + 32 * k, 32);
  }
  if (RDL > DLEN) vp_draw_const(d + 109 + 32 * RNT + DLEN, RDL - DLEN);
  return put_delta(d + 109 + 32 * RNT, r->data[i], RDL < DLEN ? RDL : DLEN) && ok && RNT == NT && RDL == DLEN;
}
#ifndef VP_NATIVE
static uint8_t* raws[BLOCKS * NTX];
static uint8_t  tx_roots[BLOCKS * NTX][32], from_[20];
void vp_htr(ssz_ob_t ob, bytes32_t out) {
  for (unsigned i = 0; i < BLOCKS * NTX; i++)
    if (ob.bytes.data == raws[i] && ob.bytes.len == TX_LEN && ob.def && ob.def->type == SSZ_TYPE_LIST && ob.def->def.vector.len == 1073741824 && ob.def->def.vector.type->type == SSZ_TYPE_UINT) { putn(out, tx_roots[i], 32); return; }
  for (int i = 0; i < 32; i++) out[i] = nondet_u8();
}
bool vp_from(verify_ctx_t* c, bytes_t raw, uint8_t* address) {
  for (unsigned i = 0; i < BLOCKS * NTX; i++)
    if (raw.data == raws[i] && raw.len == TX_LEN) { putn(address, from_, 20); return true; }
  return false;
}
bytes_t vp_path(uint32_t i, buffer_t* buf) {
  for (int k = 0; k < 4; k++) buf->data.data[k] = (i >> (8 * k)) & 0xff;
  buf->data.len = 4;
  return buf->data;
}
#endif
static void spec_tx(unsigned i, uint8_t* raw, uint8_t* th, uint8_t* root, uint32_t index, uint8_t* list, receipt_t* r, unsigned result) {
  keccak(bytes(raw, TX_LEN), th);
#ifdef VP_NATIVE
  uint8_t  tmp[32];
  buffer_t b = {.data = {.data = tmp, .len = 0}, .allocated = -32};
  bytes_t  p = c4_eth_create_tx_path(index, &b);
  if (index >= 1048576) vp_inapplicable("number of witnesses");
  ssz_hash_tree_root(ssz_ob(ssz_transactions_bytes, bytes(raw, TX_LEN)), root);
  spec_trie[i].path_len = p.len;
  putn(spec_trie[i].path, p.data, p.len);
#else
  raws[i] = raw;
  for (int k = 0; k < 32; k++) root[k] = tx_roots[i][k] = nondet_u8();
  spec_trie[i].path_len = 4;
  for (int k = 0; k < 4; k++) spec_trie[i].path[k] = (index >> (8 * k)) & 0xff;
#endif
  spec_trie[i].proof  = list;
  spec_trie[i].result = result;
  spec_trie[i].leaf   = bytes(r->buf, R_LEN);
}
#define WITNESSES 32
#ifndef PR /* result of the patricia proof */
#define PR 1
#endif
#ifndef DT
#define DT 5
#endif

/* ---- eth_getTransactionReceipt ---- */
#define O_RAW 172
#define O_LIST (O_RAW + TX_LEN)
#define O_WIT (O_LIST + 8)
#define O_HP (O_WIT + 32 * WITNESSES)
#define SIZE (O_HP + 161)
#define O_LOGS (402 + TOL)
#ifdef RECEIPT
static uint8_t proof[SIZE], data[O_LOGS + NLOG * (4 + S_LOG)];
void h_receipt(void) {
  receipt_t r;
  uint8_t  *to, th[32], root[32], sender[20], v[8];
  bool      eq_hash = true, eq = true;
  for (int i = 0; i < 32; i++) hash[i] = 0x81 + i;
  ctx.chain_id = C4_CHAIN_MAINNET;
#if METHOD >= 0
  ctx.method = (char*) METHODS[METHOD];
#endif
  put4(proof, O_RAW); put4(proof + 48, O_LIST); put4(proof + 52, O_WIT); put4(proof + 168, O_HP);
  vp_draw_const(proof + 4, 44);
  vp_draw_const(proof + 56, 112);
  vp_draw_const(pub, 64);
  to = put_tx(proof + O_RAW);
  put_receipt(&r);
  put4(proof + O_LIST, 4);
  vp_draw_const(proof + O_WIT, 32 * WITNESSES);
  uint32_t index    = (uint32_t) le(proof + 4, 4);
  ctx.proof         = (ssz_ob_t) {.def = eth_ssz_verification_type(ETH_SSZ_VERIFY_RECEIPT_PROOF), .bytes = bytes(proof, SIZE)};
  spec_header       = proof + 56;
  spec_header_owner = proof;
  spec_tx(0, proof + O_RAW, th, root, index, proof + O_LIST, &r, PR);
  vp_draw_const(spec_trie[0].root, 32);
#ifdef VP_NATIVE
  if (T == 0x7e) putn(sender, proof + O_RAW + 1 + HL(TX_BODY) + 34, 20);
  else { uint8_t h[32]; keccak(bytes(pub, 64), h); putn(sender, h + 12, 20); }
#else
  for (int i = 0; i < 20; i++) sender[i] = from_[i] = nondet_u8();
#endif
  if (METHOD >= 0) {
    uint8_t req[32];
    eq_hash = put_delta(req, th, 32);
#ifdef VP_NATIVE
    for (int i = 0; i < 32; i++) { args[4 + 2 * i] = "0123456789abcdef"[req[i] >> 4]; args[5 + 2 * i] = "0123456789abcdef"[req[i] & 15]; }
#else
    for (int i = 0; i < 32; i++) VP_ASSUME(req[i] == hash[i]);
#endif
  }
  ctx.args = json_parse(args);
  spec_leaf(806, proof + 8, 8);
  spec_leaf(812, proof + 16, 32);
  spec_leaf(803, spec_trie[0].root, 32);
  spec_leaf(1704984576ULL + index, root, 32);
  spec_body_root(bytes(proof + O_WIT, 32 * WITNESSES));
  bool eq_body = put_delta(proof + 56 + 80, spec_root, 32);
  /* the answer given by the prover */
  put4(data, 0); /* mask */
  eq = put_delta(data + 4, proof + 16, 32) && eq;
  eq = put_delta(data + 36, proof + 8, 8) && eq;
  eq = put_delta(data + 44, th, 32) && eq;
  eq = put_delta(data + 76, proof + 4, 4) && eq;
  v[0] = T; eq = put_delta(data + 80, v, 1) && eq;
  eq = put_delta(data + 81, sender, 20) && eq;
  put4(data + 101, 402);
  for (int i = 0; i < 8; i++) v[i] = i < 3 ? r.gas[2 - i] : 0;
  eq = put_delta(data + 105, v, 8) && eq;
  vp_draw_const(data + 113, 8);  /* gasUsed: not proved */
  put4(data + 121, O_LOGS);
  eq = put_delta(data + 125, r.bloom, 256) && eq;
  v[0] = STATUS & 1; eq = put_delta(data + 381, v, 1) && eq;
  vp_draw_const(data + 382, 20); /* effectiveGasPrice: not proved; the last two fields only for deposits */
#if T == 0x7e
  for (int i = 0; i < 8; i++) v[i] = i < 2 ? r.nonce[1 - i] : 0;
  eq = put_delta(data + 390, v, 8) && eq;
  for (int i = 0; i < 4; i++) v[i] = i ? 0 : 1;
  eq = put_delta(data + 398, v, 4) && eq;
#endif
  eq = put_delta(data + 402, to, TOL) && eq;
  for (int i = 0; i < NLOG; i++) {
    put4(data + O_LOGS + 4 * i, 4 * NLOG + i * S_LOG);
    eq = s_log(data + O_LOGS + 4 * NLOG + i * S_LOG, proof + 16, proof + 8, th, proof + 4, &r, i) && eq;
  }
#ifdef FEWER /* the answer lacks the last log */
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + DT, .bytes = bytes(data, O_LOGS)};
#else
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + DT, .bytes = bytes(data, sizeof(data))};
#endif
  uint8_t* given = ctx.data.bytes.data;

  bool ok = verify_receipt_proof(&ctx);

  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD <= 0, "a receipt proof answers no other method");
  VP_CHECK(!ok || header_ok, "accepted only with an accepted header");
  VP_CHECK(!ok || (eq_body && spec_branch_ok && index < 1048576), "transaction, receipts root, block number and block hash belong to the body of the header");
  VP_CHECK(!ok || (PR == 1 && spec_trie[0].asked), "the receipt is proved at the index of the transaction");
  VP_CHECK(!ok || eq_hash, "the transaction has the requested hash");
  VP_CHECK(!ok || (DT == 5 && eq && ctx.data.bytes.data == given), "the answer is the proved receipt");
#ifdef EXPECT_REJECT
  VP_CHECK(!ok, "rejected");
#elif !defined(VP_NATIVE)
  VP_CHECK(ok || !((!n_header || header_ok) && eq_body && spec_branch_ok && eq_hash && eq && index < 1048576), "a correct proof is accepted");
  VP_REACH(ok, "accepted");
#endif
}
#endif

/* ---- eth_getLogs, eth_verifyLogs ---- */
#ifdef LOGS
#undef WITNESSES
#define WITNESSES (33 - NTX)
#define L_WIT 164
#define L_HP (L_WIT + 32 * WITNESSES)
#define L_TXS (L_HP + 161)
#define TX_SIZE (12 + TX_LEN + 8)
#define B_SIZE (L_TXS + NTX * (4 + TX_SIZE))
#ifndef CLAIM /* position of each log of the answer: block, transaction, log (4 bits each) */
#define CLAIM 0x000
#endif
static uint8_t   proof[BLOCKS * (4 + B_SIZE)], data[NRES * (4 + S_LOG) + 1];
static receipt_t r[BLOCKS * NTX];
static uint8_t   th[BLOCKS * NTX][32], root[BLOCKS * NTX][32];
#ifndef VP_NATIVE
static bool converts;
ssz_ob_t vp_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
  VP_CHECK(json.start == ctx.args.start && json.len == ctx.args.len && def == C4_ETH_REQUEST_DATA_UNION + 6, "the logs of the request");
  if (!converts) c4_state_add_error(state, "json");
  return (ssz_ob_t) {.def = def, .bytes = bytes(data, NRES * (4 + S_LOG))};
}
#endif
void h_logs(void) {
  bool eq_all = true, proved = true, small = true, distinct = true;
  ctx.chain_id = C4_CHAIN_MAINNET;
#if METHOD >= 0
  ctx.method = (char*) METHODS[METHOD];
#endif
  vp_draw_const(pub, 64);
  for (int b = 0; b < BLOCKS; b++) {
    uint8_t* p = proof + 4 * BLOCKS + b * B_SIZE;
    put4(proof + 4 * b, 4 * BLOCKS + b * B_SIZE);
    vp_draw_const(p, 40);
    put4(p + 40, L_WIT); put4(p + 156, L_HP); put4(p + 160, L_TXS);
    vp_draw_const(p + 44, 112);
    vp_draw_const(p + L_WIT, 32 * WITNESSES);
    sb[b].header       = p + 44;
    sb[b].header_owner = p;
    spec_leaf_of(b, 806, p, 8);
    spec_leaf_of(b, 812, p + 8, 32);
    for (int t = 0; t < NTX; t++) {
      int      i    = b * NTX + t;
      uint8_t *x    = p + L_TXS + 4 * NTX + t * TX_SIZE, idx[4] = {5 - t, 0, 0, 0};
      put4(p + L_TXS + 4 * t, 4 * NTX + t * TX_SIZE);
      put4(x, 12); put_delta(x + 4, idx, 4); put4(x + 8, 12 + TX_LEN);
#if defined(VP_NATIVE) || defined(ROOTS) /* the number of witnesses of two transactions depends on their distance: replayed with neighbours */
      if (NTX > 1) putn(x + 4, idx, 4);
#endif
      put_tx(x + 12);
      put_receipt(&r[i]);
      put4(x + 12 + TX_LEN, 4);
      uint32_t index = (uint32_t) le(x + 4, 4);
      if (index >= 1048576) small = false;
      if (t && index == (uint32_t) le(x - TX_SIZE + 4, 4)) distinct = false;
      spec_tx(i, x + 12, th[i], root[i], index, x + 12 + TX_LEN, &r[i], PR);
      if (t) putn(spec_trie[i].root, spec_trie[b * NTX].root, 32);
      else vp_draw_const(spec_trie[i].root, 32);
#ifdef ROOTS /* the receipts are proved for different roots */
      if (t) proved = put_delta(spec_trie[i].root, spec_trie[b * NTX].root, 32) && proved;
#endif
      if (!t) spec_leaf_of(b, 803, spec_trie[i].root, 32);
      spec_leaf_of(b, 1704984576ULL + index, root[i], 32);
    }
    spec_body_root_of(b, bytes(p + L_WIT, 32 * WITNESSES));
    eq_all = put_delta(p + 44 + 80, sb[b].root, 32) && eq_all;
    if (!sb[b].branch_ok) eq_all = false;
#ifndef VP_NATIVE
    static const uint8_t zero[32];
    VP_ASSUME(!same_bytes(spec_trie[b * NTX].root, zero, 32)); /* no preimage of zero */
#endif
  }
  /* the answer */
  for (int k = 0; k < NRES; k++) {
    int      c = (CLAIM >> (12 * k)), b = (c >> 8) & 15, t = (c >> 4) & 15, i = b * NTX + t;
    uint8_t* p = proof + 4 * BLOCKS + b * B_SIZE;
    put4(data + 4 * k, 4 * NRES + k * S_LOG);
    s_log(data + 4 * NRES + k * S_LOG, p + 8, p, th[i], p + L_TXS + 4 * NTX + t * TX_SIZE + 4, &r[i], c & 15);
  }
  /* each log of the answer is a log of the transaction with its index in the block with its number */
  for (int k = 0; k < NRES; k++) {
    bool     found = false;
    uint8_t* d     = data + 4 * NRES + k * S_LOG;
    for (int b = 0; b < BLOCKS; b++)
      for (int t = 0; t < NTX; t++)
        for (int l = 0; l < NLOG; l++) {
          uint8_t *p = proof + 4 * BLOCKS + b * B_SIZE, *x = p + L_TXS + 4 * NTX + t * TX_SIZE;
          int      i = b * NTX + t;
          bool     m = RNT == NT && RDL == DLEN && same_bytes(d, p + 8, 32) && same_bytes(d + 32, p, 8) && same_bytes(d + 40, th[i], 32) && same_bytes(d + 72, x + 4, 4) && same_bytes(d + 76, r[i].addr[l], 20) && (RDL != DLEN || same_bytes(d + 109 + 32 * RNT, r[i].data[l], DLEN));
          for (int q = 0; q < NT && q < RNT; q++) if (!same_bytes(d + 109 + 32 * q, r[i].topics[l] + 33 * q, 32)) m = false;
          if (m) found = true;
        }
    if (!found) proved = false;
  }
  ctx.proof = (ssz_ob_t) {.def = C4_REQUEST_PROOFS_UNION + 4, .bytes = bytes(proof, sizeof(proof))};
  ctx.data  = METHOD == 3 ? (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION} : (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + DT, .bytes = bytes(data, NRES * (4 + S_LOG))};
#ifdef GIVEN
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + 6, .bytes = bytes(data, 0)};
#endif
#ifdef VP_NATIVE
  ctx.args = json_parse(METHOD == 3 ? ssz_dump_to_str((ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + 6, .bytes = bytes(data, NRES * (4 + S_LOG))}, false, true) : "[]");
#else
  ctx.args = json_parse("[]");
  converts = nondet_bool();
#endif

  bool ok = verify_logs_proof(&ctx);
#ifdef VP_NATIVE
  if (!ok) printf("rejected: %s\n", ctx.state.error ? ctx.state.error : "");
#endif

  bool all = true;
  for (int b = 0; b < BLOCKS; b++) all = all && sb[b].accepted;
  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD == 2 || METHOD == 3 || METHOD == -1, "a logs proof answers no other method");
  VP_CHECK(!ok || all, "accepted only with accepted headers");
  VP_CHECK(!ok || (eq_all && small), "transactions, receipts root, block number and block hash belong to the body of the header");
  VP_CHECK(!ok || PR == 1, "the receipts are proved");
  VP_CHECK(!ok || proved, "each log of the answer is a log of the transaction it names");
#ifdef EXPECT_REJECT
  VP_CHECK(!ok, "rejected");
#elif !defined(VP_NATIVE)
#ifndef INCOMPLETE
  VP_CHECK(ok || !((n_header < BLOCKS || all) && eq_all && small && distinct && proved && (METHOD != 3 || converts)), "a correct proof is accepted");
#endif
  VP_REACH(ok, "accepted");
#endif
}
#endif
