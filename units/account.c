/* Account requests: verify_account_proof with eth_account.c, rlp.c, json.c, ssz.c, ssz_builder.c and the real proof types.
 * METHOD: 0 eth_getBalance, 1 eth_getTransactionCount, 2 eth_getCode, 3 eth_getStorageAt, 4 eth_getProof, 5 another method
 * BLOCK:  0 "latest", 1 block hash, 2 block number;  NST: number of storage proofs;  NL, BL, SHL, CHL: lengths of the account items;
 * SVL: length of the storage value;  CODE: length of the code in the data, -1: no data */
#define VP_KECCAK_UF 32
#define MAX_TRIES 3
#include "vp_req.h"
#ifndef AR /* result of the account proof and of the storage proofs: 0 invalid, 1 found, 2 not existing */
#define AR 1
#endif
#ifndef SR
#define SR 1
#endif
#ifndef NL
#define NL 2
#endif
#ifndef BL
#define BL 8
#endif
#ifndef SHL
#define SHL 32
#endif
#ifndef CHL
#define CHL 32
#endif
#ifndef SVL
#define SVL 3
#endif
#ifndef NST
#define NST 0
#endif
#ifndef DT /* type of the data */
#define DT 2
#endif
#ifndef CODE
#define CODE -1
#endif
bool verify_account_proof(verify_ctx_t* ctx);
#define ADDR "0102030405060708090a0b0c0d0e0f1011121314"
#define KEY  "4142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60"
#define HASH "8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0"
#if BLOCK == 0
#define BARG "\"latest\""
#define BLEN 0
#define WITNESSES 9
#elif BLOCK == 1
#define BARG "\"0x" HASH "\""
#define BLEN 32
#define WITNESSES 11
#else
#define BARG "\"0x123456\""
#define BLEN 8
#define WITNESSES 10
#endif
#if METHOD == 3
#define ARGS "[\"0x" ADDR "\",\"0x" KEY "\"," BARG "]"
#elif METHOD == 4
#define ARGS "[\"0x" ADDR "\",[]," BARG "]"
#else
#define ARGS "[\"0x" ADDR "\"," BARG "]"
#endif
static const char* METHODS[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof", "eth_call"};

/* offsets in the proof */
#define O_ACC 32
#define O_ST  (O_ACC + 5)
#define ST_SIZE 41
#define O_STATE (O_ST + 4 * NST + ST_SIZE * NST)
#define O_HEADER (O_STATE + 8)
#define O_BLOCK (O_STATE + 124)
#define O_WIT (O_BLOCK + 1 + BLEN)
#define O_HP (O_WIT + 32 * WITNESSES)
#define SIZE (O_HP + 1 + 160)
static uint8_t proof[SIZE];
/* the account: rlp([nonce, balance, storage hash, code hash]) */
#define ACC (2 + 1 + NL + 1 + BL + 1 + SHL + 1 + CHL)
static uint8_t account[ACC], nonce[NL + 1], balance[BL + 1], storage_hash[SHL + 1], code_hash[CHL + 1];
static uint8_t svalue[NST + 1][1 + SVL];
static uint8_t* item(uint8_t* p, const uint8_t* d, unsigned n) {
  *p++ = 0x80 + n;
  for (unsigned i = 0; i < n; i++) p[i] = d[i];
  return p + n;
}
static const uint8_t EMPTY_CODE[] = "\xc5\xd2\x46\x01\x86\xf7\x23\x3c\x92\x7e\x7d\xb2\xdc\xc7\x03\xc0\xe5\x00\xb6\x53\xca\x82\x27\x3b\x7b\xfa\xd8\x04\x5d\x85\xa4\x70";
static const uint8_t EMPTY_TRIE[] = "\x56\xe8\x1f\x17\x1b\xcc\x55\xa6\xff\x83\x45\xe6\x92\xc0\xf8\x6e\x5b\x48\xe0\x1b\x99\x6c\xad\xc0\x01\x62\x2f\xb5\xe3\x63\xb4\x21";
#if CODE >= 0
static uint8_t code[CODE + 1];
#endif
static uint8_t address[20], hash[32], number[8] = {0x56, 0x34, 0x12}, key[NST + 1][32], reqkey[32];
/* 32 bytes, right aligned */
static void pad(uint8_t* out, const uint8_t* d, unsigned n) { for (unsigned i = 0; i < 32; i++) out[i] = i < 32 - n ? 0 : d[i - (32 - n)]; }
static bool is_le(bytes_t v, const uint8_t* be) { /* the integer be (32 bytes, big endian) as ssz uint256 */
  bool r = v.len == 32;
  if (r) for (unsigned i = 0; i < 32; i++) if (v.data[i] != be[31 - i]) r = false;
  return r;
}
void h_account(void) {
  bool eq_block = true, eq_code = true, eq_key = true, eq_storage = true;
  /* the request */
  for (int i = 0; i < 20; i++) address[i] = i + 1;
  for (int i = 0; i < 32; i++) { reqkey[i] = 0x41 + i; hash[i] = 0x81 + i; }
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = (char*) METHODS[METHOD];
  ctx.args     = json_parse(ARGS);
  ctx.data     = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION};
  /* the proof */
  put4(proof, O_ACC); put4(proof + 24, O_ST); put4(proof + 28, O_STATE);
  bool eq_addr = put_delta(proof + 4, address, 20);
  put4(proof + O_ACC, 4);
  for (int i = 0; i < NST; i++) {
    uint8_t* s = proof + O_ST + 4 * NST + ST_SIZE * i;
    put4(proof + O_ST + 4 * i, 4 * NST + ST_SIZE * i);
    bool eq = put_delta(s, reqkey, 32);
    if (i == 0) eq_key = eq;
    put4(s + 32, 36);
    put4(s + 36, 4);
  }
  put4(proof + O_STATE, 124); put4(proof + O_STATE + 4, 124 + 1 + BLEN); put4(proof + O_STATE + 120, O_HP - O_STATE);
  vp_draw_const(proof + O_HEADER, 112);
  proof[O_BLOCK] = BLOCK;
  if (BLOCK == 1) eq_block = put_delta(proof + O_BLOCK + 1, hash, 32);
  if (BLOCK == 2) eq_block = put_delta(proof + O_BLOCK + 1, number, 8);
  ctx.proof         = (ssz_ob_t) {.def = eth_ssz_verification_type(ETH_SSZ_VERIFY_ACCOUNT_PROOF), .bytes = bytes(proof, SIZE)};
  spec_header       = proof + O_HEADER;
  spec_header_owner = proof + O_STATE;
  /* the state: root, account, storage */
  spec_trie[0].proof = proof + O_ACC;
  keccak(bytes(proof + 4, 20), spec_trie[0].path);
  spec_trie[0].path_len = 32;
  vp_draw_const(spec_trie[0].root, 32);
  spec_trie[0].result = AR;
  vp_draw_const(nonce, NL); vp_draw_const(balance, BL); vp_draw_const(storage_hash, SHL); vp_draw_const(code_hash, CHL);
#if CODE >= 0
  vp_draw_const(code, CODE);
  ctx.data = (ssz_ob_t) {.def = C4_ETH_REQUEST_DATA_UNION + DT, .bytes = bytes(code, CODE)};
  { uint8_t h[32]; keccak(bytes(code, CODE), h); eq_code = put_delta(code_hash, h, 32); }
#endif
  static const uint8_t zero[32];
  uint8_t root[32], noacc[32] = {0};
  pad(root, storage_hash, SHL > 32 ? 32 : SHL);
  for (int i = 0; i < NST; i++) {
    spec_trie[1 + i].proof = proof + O_ST + 4 * NST + ST_SIZE * i + 36;
    keccak(bytes(proof + O_ST + 4 * NST + ST_SIZE * i, 32), spec_trie[1 + i].path);
    spec_trie[1 + i].path_len = 32;
    spec_trie[1 + i].result = SR;
    if (!put_delta(spec_trie[1 + i].root, root, 32)) eq_storage = false;
    VP_ASSUME(!same_bytes(spec_trie[1 + i].root, zero, 32)); /* a hash is never zero */
    svalue[i][0] = 0x80 + SVL;
    vp_draw_const(svalue[i] + 1, SVL);
    spec_trie[1 + i].leaf = bytes(svalue[i], 1 + SVL);
  }
  uint8_t* p = account;
  *p++ = 0xf8; *p++ = ACC - 2;
  p = item(p, nonce, NL); p = item(p, balance, BL); p = item(p, storage_hash, SHL); p = item(p, code_hash, CHL);
  spec_trie[0].leaf = bytes(account, ACC);
  /* the block */
  spec_leaf(802, spec_trie[0].root, 32);
  if (BLOCK == 1) spec_leaf(812, proof + O_BLOCK + 1, 32);
  if (BLOCK == 2) spec_leaf(806, proof + O_BLOCK + 1, 8);
  spec_body_root(bytes(proof + O_WIT, 32 * WITNESSES));
  bool eq_body = put_delta(proof + O_HEADER + 80, spec_root, 32);
#ifndef VP_NATIVE
  VP_ASSUME(!same_bytes(proof + O_HEADER + 80, zero, 32)); /* no preimage of zero */
  VP_ASSUME(!same_bytes(root, zero, 32));
#endif

  bool ok = verify_account_proof(&ctx);

  /* what the proof says */
  bool    exists = spec_trie[0].result == PATRICIA_FOUND;
  uint8_t want[32];
  VP_CHECK(ok == ctx.success && (!ok || !ctx.state.error), "success is reported by result and context");
  VP_CHECK(!ok || METHOD != 5, "an account proof answers no other method");
  VP_CHECK(!ok || header_ok, "accepted only with an accepted header");
  VP_CHECK(!ok || (eq_body && spec_branch_ok), "accepted only if state root and block are those of the header");
  VP_CHECK(!ok || spec_trie[0].result != PATRICIA_INVALID, "accepted only with a valid account proof");
  VP_CHECK(!ok || eq_addr, "accepted only for the requested address");
  VP_CHECK(!ok || eq_block, "accepted only for the requested block");
  bool st_ok = true;
  bool empty = !exists || same_bytes(root, EMPTY_TRIE, 32);
  for (int i = 0; i < NST; i++)
    if (spec_trie[1 + i].result == PATRICIA_INVALID || !eq_storage || empty) st_ok = false;
  VP_CHECK(!ok || st_ok, "accepted only if the storage proofs start at the storage root of the account");
  bool result_ok = false, sane = NL <= 32 && BL <= 32 && SHL <= 32 && CHL <= 32 && SVL <= 32;
  if (ok) {
#if METHOD == 0 || METHOD == 1
    if (exists) pad(want, METHOD == 0 ? balance : nonce, METHOD == 0 ? BL : NL); else pad(want, zero, 0);
    VP_CHECK(ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 3 && is_le(ctx.data.bytes, want), "result: the balance (nonce) of the account, zero if there is none");
#elif METHOD == 2
    VP_CHECK(CODE >= 0 && ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 2, "result: bytes");
#if CODE >= 0
    uint8_t h[32];
    keccak(bytes(code, CODE), h);
    VP_CHECK(ctx.data.bytes.data == code && ctx.data.bytes.len == CODE && (exists ? eq_code : same_bytes(h, EMPTY_CODE, 32)), "result: the code with the code hash of the account, empty if there is none");
#endif
#elif METHOD == 3
    if (NST && spec_trie[NST ? 1 : 0].result == PATRICIA_FOUND) pad(want, svalue[0] + 1, SVL); else pad(want, zero, 0);
    VP_CHECK(NST ? eq_key : empty, "result: proved for the requested key, no proof only if the account has no storage");
    VP_CHECK(ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 1 && ctx.data.bytes.len == 32 && same_bytes(ctx.data.bytes.data, want, 32), "result: the value of the key");
#elif METHOD == 4
    /* the canonical encoding of the result */
    static uint8_t res[136 + 5 + NST * (4 + 68 + 5)];
    unsigned       n = exists ? NST : 0;
    pad(want, balance, exists ? BL : 0);
    for (int i = 0; i < 32; i++) res[i] = want[31 - i];
    pad(want, nonce, exists ? NL : 0);
    for (int i = 0; i < 32; i++) res[64 + i] = want[31 - i];
    putn(res + 32, exists ? code_hash : EMPTY_CODE, 32);
    putn(res + 96, exists ? root : EMPTY_TRIE, 32);
    put4(res + 128, 136); put4(res + 132, 141);
    putn(res + 136, proof + O_ACC, 5);
    for (unsigned i = 0; i < n; i++) {
      uint8_t* e = res + 141 + 4 * n + 73 * i;
      put4(res + 141 + 4 * i, 4 * n + 73 * i);
      putn(e, proof + O_ST + 4 * NST + ST_SIZE * i, 32);
      pad(e + 32, svalue[i] + 1, spec_trie[1 + i].result == PATRICIA_FOUND ? SVL : 0);
      put4(e + 64, 68);
      putn(e + 68, proof + O_ST + 4 * NST + ST_SIZE * i + 36, 5);
    }
    VP_CHECK(ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 8 && ctx.data.bytes.len == 141 + n * 77, "result: a proof");
    VP_CHECK(same_bytes(ctx.data.bytes.data, res, 141 + n * 77), "result: balance, nonce, code and storage hash of the account, keys and values of the storage, and their proofs");
#endif
  }
  bool fine = header_ok && eq_body && spec_branch_ok && spec_trie[0].result != PATRICIA_INVALID && eq_addr && eq_block && st_ok && sane && METHOD != 5;
  if (METHOD == 2) fine = fine && CODE >= 0 && ctx.data.def == C4_ETH_REQUEST_DATA_UNION + 2 && exists && eq_code;
  if (METHOD == 3) fine = fine && (NST ? eq_key : empty);
  VP_CHECK(ok || !fine, "a correct proof is accepted");
  VP_CHECK(n_header || !(eq_body && spec_branch_ok && spec_trie[0].result != PATRICIA_INVALID && eq_addr && eq_block && st_ok && sane && eq_key && METHOD != 5) || (METHOD == 3 && NST == 0 && !empty), "a correct proof is not rejected");
#ifdef EXPECT_REJECT
  VP_REACH(!ok, "rejected");
#else
  VP_REACH(ok, "accepted");
  VP_REACH(!ok && n_header, "rejected");
#endif
}
