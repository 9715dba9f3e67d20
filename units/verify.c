/* Entry of the verifier: verify.c and eth_verify.c (dispatch) with the real request type; the handlers, the update from sync data and the
 * validation of the request (C04) by contract: any answer.  PT: kind of proof, M: method, CHAIN_NO, EMPTY: no request bytes */
#include "vp.h"
#include "vp_print.h"
#include "beacon_types.h"
#include "eth_verify.h"
#include "sync_committee.h"
#include "logger.h"
#include "state.h"
#include "verify.h"
#include VERIFY_TYPES_C
#ifndef VP_NATIVE
log_level_t       c4_get_log_level(void) { return 0; }
c4_stacksize_fn_t c4_get_stacksize_fn(void) { return NULL; }
char* vp_message(buffer_t* buf, const char* fmt, ...) { char* m = malloc(1); __CPROVER_assume(m != NULL); *m = 0; return m; }
#endif
#ifndef CHAIN_NO
#define CHAIN_NO 1
#endif
#ifndef BAD /* 1: invalid request, 2..: request for another kind of chain */
#define BAD 0
#endif
static bool valid;
static uint8_t request[16 + 1 + 7 + 6];
static bool vp_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
  VP_CHECK(ob.bytes.data == request && ob.bytes.len == sizeof(request) && ob.def == &C4_REQUEST_CONTAINER && recursive, "the complete request is validated");
  if (!valid) c4_state_add_error(state, "invalid");
  return valid;
}
#define ssz_is_valid vp_valid
#include REPO_VERIFY
#undef ssz_is_valid

/* ---- handlers: answer 0 success, 1 error, 2 needs data, 3 refused without a word ---- */
enum { NONE, ACCOUNT, TX, RECEIPT, LOGS, CALL, SIMULATE, BLOCK, BLOCK_NUMBER, LOCAL };
static int            called = NONE, n_called, n_sync;
static uint8_t        answer, sync_answer;
static data_request_t req;
static bool           ask(verify_ctx_t* c, uint8_t a) {
  if (a == 1) c4_state_add_error(&c->state, "no");
  if (a == 2) { req.next = c->state.requests; c->state.requests = &req; }
  return a == 0;
}
static bool handler(verify_ctx_t* c, int id) {
  called = id;
  n_called++;
  VP_CHECK(n_sync == 1 && sync_answer == 0, "proofs are checked after the sync data");
  c->success = ask(c, answer);
  return c->success;
}
bool verify_account_proof(verify_ctx_t* c) { return handler(c, ACCOUNT); }
bool verify_tx_proof(verify_ctx_t* c) { return handler(c, TX); }
bool verify_receipt_proof(verify_ctx_t* c) { return handler(c, RECEIPT); }
bool verify_logs_proof(verify_ctx_t* c) { return handler(c, LOGS); }
bool verify_call_proof(verify_ctx_t* c) { return handler(c, CALL); }
bool verify_simulate_proof(verify_ctx_t* c) { return handler(c, SIMULATE); }
bool verify_block_proof(verify_ctx_t* c) { return handler(c, BLOCK); }
bool verify_block_number_proof(verify_ctx_t* c) { return handler(c, BLOCK_NUMBER); }
bool verify_eth_local(verify_ctx_t* c) { return handler(c, LOCAL); }
bool c4_update_from_sync_data(verify_ctx_t* c) {
  n_sync++;
  return ask(c, sync_answer);
}
static const char* METHODS[] = {"eth_getBalance", "colibri_simulateTransaction", "eth_chainId", "eth_gasPrice", "no_method", "eth_call", "eth_blockNumber"};
static int spec_handler(void) {
  switch (PT) {
    case 1: return ACCOUNT;
    case 2: return TX;
    case 3: return RECEIPT;
    case 4: return LOGS;
    case 5: return M == 1 ? SIMULATE : CALL;
    case 7: return BLOCK;
    case 8: return BLOCK_NUMBER;
    default: return M == 2 ? LOCAL : NONE;
  }
}
#ifndef VP_NATIVE
/* verification build with the union in ssz_def_t as struct: the lookup of types reads another member than the one written, so it is called by
 * contract: the table which h_types proves for the real function */
const ssz_def_t* vp_type(eth_ssz_type_t t) {
  switch (t) {
    case ETH_SSZ_VERIFY_REQUEST: return &C4_REQUEST_CONTAINER;
    case ETH_SSZ_VERIFY_ACCOUNT_PROOF: return C4_REQUEST_PROOFS_UNION + 1;
    case ETH_SSZ_VERIFY_TRANSACTION_PROOF: return C4_REQUEST_PROOFS_UNION + 2;
    case ETH_SSZ_VERIFY_RECEIPT_PROOF: return C4_REQUEST_PROOFS_UNION + 3;
    case ETH_SSZ_VERIFY_LOGS_PROOF: return C4_REQUEST_PROOFS_UNION + 4;
    case ETH_SSZ_VERIFY_CALL_PROOF: return C4_REQUEST_PROOFS_UNION + 5;
    case ETH_SSZ_VERIFY_SYNC_PROOF: return C4_REQUEST_PROOFS_UNION + 6;
    case ETH_SSZ_VERIFY_BLOCK_PROOF: return C4_REQUEST_PROOFS_UNION + 7;
    case ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF: return C4_REQUEST_PROOFS_UNION + 8;
    case ETH_SSZ_VERIFY_WITNESS_PROOF: return C4_REQUEST_PROOFS_UNION + 9;
    default: VP_CHECK(false, "no other type is needed"); return NULL;
  }
}
#endif
static void put4(uint8_t* p, uint32_t v) { p[0] = v; p[1] = p[2] = p[3] = 0; }
void h_entry(void) {
  static verify_ctx_t ctx;
  bool                known = CHAIN_NO == 1 || CHAIN_NO == 100 || CHAIN_NO == 11155111 || CHAIN_NO == 10200;
  valid       = BAD != 1;
  answer      = vp_draw_u8() & 3;
  sync_answer = vp_draw_u8() & 3;
  vp_draw_const(request, sizeof(request));
  put4(request + 4, 16); put4(request + 8, 17); put4(request + 12, 24);
  request[16] = 0; request[17] = PT; request[24] = 0;
  request[0] = BAD >= 2 ? BAD - 1 : 0; /* kind of chain */
  ctx.success     = true; /* whatever was there before */
  ctx.state.error = (char*) request;
#ifdef EMPTY
  bytes_t r = NULL_BYTES;
#else
  bytes_t r = bytes(request, sizeof(request));
#endif
  json_t      args = {.type = JSON_TYPE_ARRAY, .start = "[]", .len = 2};
  c4_status_t s    = c4_verify_from_bytes(&ctx, r, M < 0 ? NULL : (char*) METHODS[M < 0 ? 0 : M], args, CHAIN_NO);

#ifdef EMPTY
  int  h     = M == 2 ? LOCAL : NONE;
  bool enter = known && (M == 2 || M == 3);
#else
  int  h     = spec_handler();
  bool enter = known && M >= 0 && request[0] == 0 && valid;
#endif
  bool pass = enter && sync_answer == 0;
  VP_CHECK(n_sync == (enter ? 1 : 0) && n_called == (pass && h != NONE ? 1 : 0) && (n_called == 0 || called == h), "exactly the handler of the proof type is called, for valid requests of the chain only");
  VP_CHECK(!enter || (ctx.chain_id == CHAIN_NO && ctx.method == METHODS[M < 0 ? 0 : M] && ctx.args.start == args.start), "the handler sees the request");
#ifndef EMPTY
  VP_CHECK(!enter || (ctx.proof.def == C4_REQUEST_PROOFS_UNION + PT && ctx.proof.bytes.data == request + 18 && ctx.proof.bytes.len == 6), "the handler sees the proof");
  VP_CHECK(!enter || (ctx.sync_data.def == C4_ETH_REQUEST_SYNCDATA_UNION && ctx.data.def == C4_ETH_REQUEST_DATA_UNION), "the handler sees data and sync data");
#endif
  VP_CHECK((s == C4_SUCCESS) == (pass && h != NONE && answer == 0), "success exactly if the handler accepted the proof");
  VP_CHECK(s != C4_SUCCESS || (ctx.success && !ctx.state.error), "success is set");
  VP_CHECK((s == C4_PENDING) == (enter && (sync_answer == 2 || (pass && h != NONE && answer == 2))), "pending exactly if data is missing");
  VP_CHECK(s == C4_SUCCESS || s == C4_PENDING || (s == C4_ERROR && ctx.state.error && !ctx.success), "an error comes with a message");
#ifdef EXPECT_REJECT
  VP_REACH(s == C4_ERROR, "rejected");
#else
  VP_REACH(s == C4_SUCCESS, "accepted");
  VP_REACH(s == C4_ERROR, "rejected");
  VP_REACH(s == C4_PENDING, "pending");
#endif
  if (s == C4_PENDING) { /* again, with the data, after a failed request or without */
    uint8_t g   = vp_draw_u8() & 3;
    bool    got = g == 1 || g == 2;
    if (g == 1) req.response = bytes(request, 1);
    if (g == 2) req.error = (char*) request;
    answer      = vp_draw_u8() & 3;
    VP_ASSUME(answer != 2);
    sync_answer = 0;
    int before  = n_called;
    n_sync      = 0;
    s           = c4_verify(&ctx);
    VP_CHECK(got ? n_called == before + (h != NONE ? 1 : 0) : n_called == before && s == C4_PENDING, "no verification as long as data is missing");
    VP_CHECK(!got || (s == C4_SUCCESS) == (h != NONE && answer == 0), "success exactly if the handler accepted the proof");
    VP_CHECK(s != C4_ERROR || (ctx.state.error && !ctx.success), "an error comes with a message");
  }
}

void h_types(void) { /* union as it is */
  static const eth_ssz_type_t P[] = {ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_VERIFY_TRANSACTION_PROOF, ETH_SSZ_VERIFY_RECEIPT_PROOF, ETH_SSZ_VERIFY_LOGS_PROOF, ETH_SSZ_VERIFY_CALL_PROOF, ETH_SSZ_VERIFY_SYNC_PROOF, ETH_SSZ_VERIFY_BLOCK_PROOF, ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF, ETH_SSZ_VERIFY_WITNESS_PROOF};
  static const eth_ssz_type_t D[] = {ETH_SSZ_DATA_NONE, ETH_SSZ_DATA_HASH32, ETH_SSZ_DATA_BYTES, ETH_SSZ_DATA_UINT256, ETH_SSZ_DATA_TX, ETH_SSZ_DATA_RECEIPT, ETH_SSZ_DATA_LOGS, ETH_SSZ_DATA_BLOCK, ETH_SSZ_DATA_PROOF, ETH_SSZ_DATA_SIMULATION};
  VP_CHECK(eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) == &C4_REQUEST_CONTAINER, "type of the request");
  for (int i = 0; i < 9; i++) VP_CHECK(eth_ssz_verification_type(P[i]) == C4_REQUEST_PROOFS_UNION + i + 1, "type of the proof");
  for (int i = 0; i < 10; i++) VP_CHECK(eth_ssz_verification_type(D[i]) == C4_ETH_REQUEST_DATA_UNION + i, "type of the data");
  VP_REACH(true, "end");
}

static bool refuse(verify_ctx_t* ctx) { RETURN_VERIFY_ERROR(ctx, "refused"); }
void h_refuse(void) { /* the macro all handlers refuse with, with and without messages, and the end of the context */
  verify_ctx_t ctx   = {0};
  int          times = (vp_draw_u8() & 1) + 1;
  ctx.success        = true;
  for (int i = 0; i < times; i++) VP_CHECK(!refuse(&ctx), "refused");
  VP_CHECK(!ctx.success && ctx.state.error, "an error comes with a message");
  VP_REACH(times == 2, "refused by handler and caller");
  c4_verify_free_data(&ctx);
}
