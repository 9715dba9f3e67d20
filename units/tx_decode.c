/* Decoding of a raw transaction into the fields of the answer and recovery of its sender: c4_write_tx_data_from_raw and
 * c4_tx_create_from_address with rlp.c, ssz_builder.c and the real types; the curve operation is a stub that demands the specified
 * digest and signature.   T: type;  V: v or parity;  lengths: NL nonce, GL gas, PL prices, TOL to, VL value, IL input, RL and SL signature,
 * NA entries with NK keys in the access list, NB blob hashes, NU authorizations */
#define VP_KECCAK_UF 320
#include "vp_req.h"
#include "eth_tx.h"
#include "rlp.h"
#ifndef NL
#define NL 2
#endif
#ifndef GL
#define GL 3
#endif
#ifndef PL
#define PL 5
#endif
#ifndef TOL
#define TOL 20
#endif
#ifndef VL
#define VL 9
#endif
#ifndef IL
#define IL 4
#endif
#ifndef RL
#define RL 32
#endif
#ifndef SL
#define SL 32
#endif
#ifndef NA
#define NA 0
#endif
#ifndef NK
#define NK 0
#endif
#ifndef NB
#define NB 0
#endif
#ifndef NU
#define NU 0
#endif
#ifndef V
#define V 0
#endif
#ifndef CHAINID
#define CHAINID 0x2a01
#endif
#define MAXRAW 700
static uint8_t raw[MAXRAW], *w;        /* the transaction, written from its second half; the header is put in front */
static uint8_t sig_r[32], sig_s[32], pub[64], digest[32], sender[20];
static unsigned n_recover;
bool secp256k1_recover(const bytes32_t d, bytes_t s, uint8_t* pubkey) {
  n_recover++;
#if V < 2
#define PARITY V
#else
#define PARITY ((V + 1) % 2)
#endif
  VP_CHECK(s.len == 65 && same_bytes(d, digest, 32), "the signed message is the transaction without its signature");
  VP_CHECK(same_bytes(s.data, sig_r, 32) && same_bytes(s.data + 32, sig_s, 32) && (s.data[64] == PARITY || s.data[64] == 27 + PARITY), "the signature of the transaction");
  putn(pubkey, pub, 64);
  return true;
}
static void hdr(unsigned base, unsigned n) {
  if (n < 56) *w++ = base + n;
  else if (n < 256) { *w++ = base + 56; *w++ = n; }
  else { *w++ = base + 57; *w++ = n >> 8; *w++ = n & 0xff; }
}
static unsigned hl(unsigned n) { return n < 56 ? 1 : (n < 256 ? 2 : 3); }
static uint8_t* item(unsigned n) { /* n != 1 */
  hdr(0x80, n);
  uint8_t* p = w;
  vp_draw_const(p, n);
  w += n;
  return p;
}
static void number(uint64_t v) { /* constant */
  unsigned n = 0;
  while (n < 8 && (v >> (8 * n))) n++;
  if (n == 1 && v < 0x80) { *w++ = v; return; }
  hdr(0x80, n);
  for (int i = (int) n - 1; i >= 0; i--) *w++ = (v >> (8 * i)) & 0xff;
}
static uint64_t be(const uint8_t* p, unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; i++) r = (r << 8) | p[i]; return r; }
static uint8_t  want[336 + TOL + IL + NA * (4 + 24 + 32 * NK) + 32 * NB + 97 * NU + 8], *out;
static void add(const uint8_t* d, unsigned n) { putn(out, d, n); out += n; }
static void le(uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) *out++ = (v >> (8 * i)) & 0xff; }
static void zeros(unsigned n) { for (unsigned i = 0; i < n; i++) *out++ = 0; }
static void left(const uint8_t* d, unsigned n) { zeros(32 - n); add(d, n); }
static void rev(const uint8_t* d, unsigned n) { for (unsigned i = 0; i < n; i++) *out++ = d[n - 1 - i]; zeros(32 - n); }
/* sizes of the lists */
#define AE (21 + (NK * 33 < 56 ? 1 : 2) + NK * 33) /* content of an entry of the access list */
#define UE (3 + 21 + 3 + 1 + 33 + 31)              /* content of an authorization */
void h_decode(void) {
  uint8_t  *nonce, *prio = 0, *maxfee, *gas, *to, *value, *input, *mint = 0, *source = 0, *from = 0, *akey[NA + 1], *aaddr[NA + 1], *bh[NB + 1], *u[NU + 1][5], *rp, *sp, *body, *unsigned_end;
  uint8_t   th[32], blkh[32], blob[2];
  uint64_t  number_ = vp_draw_u64(), base_fee = vp_draw_u64();
  uint32_t  index = vp_draw_u32();
  ctx.chain_id    = C4_CHAIN_MAINNET;
  vp_draw_const(th, 32); vp_draw_const(blkh, 32); vp_draw_const(pub, 64);
  w = body = raw + 4;
#if T == 0x7e
  source = item(32); from = item(20); to = item(TOL); mint = item(VL); value = item(VL); gas = item(GL); number(V); input = item(IL);
  unsigned_end = w;
#else
  if (T) number(CHAINID);
  nonce = item(NL);
  if (T >= 2) prio = item(PL);
  maxfee = item(PL); gas = item(GL); to = item(TOL); value = item(VL); input = item(IL);
  if (T) {
    hdr(0xc0, NA * (hl(AE) + AE));
    for (int i = 0; i < NA; i++) {
      hdr(0xc0, AE); aaddr[i] = item(20); hdr(0xc0, NK * 33); akey[i] = w;
      for (int k = 0; k < NK; k++) item(32);
    }
  }
  if (T == 3) { item(3); hdr(0xc0, NB * 33); for (int i = 0; i < NB; i++) bh[i] = item(32); }
  if (T == 4) {
    hdr(0xc0, NU * (hl(UE) + UE));
    for (int i = 0; i < NU; i++) { hdr(0xc0, UE); u[i][0] = item(2); u[i][1] = item(20); u[i][2] = item(2); number(1); u[i][3] = item(32); u[i][4] = item(30); }
  }
  unsigned_end = w;
  number(V);
  rp = item(RL); sp = item(SL);
#if RL <= 32 && SL <= 32
  putn(sig_r + 32 - RL, rp, RL); putn(sig_s + 32 - SL, sp, SL);
#endif
#endif
  uint8_t *end = w, *start;
  unsigned n   = (unsigned) (end - body);
  w = start = body - hl(n) - (T ? 1 : 0);
  if (T) *w++ = T;
  hdr(0xc0, n);
#if T != 0x7e
  { /* the signed message */
    static uint8_t msg[MAXRAW];
    unsigned m = (unsigned) (unsigned_end - body);
    uint8_t* e;
    putn(msg + 8, body, m);
    w = msg + 8 + m;
    if (T == 0 && V > 28) { number((V - 35) / 2); *w++ = 0x80; *w++ = 0x80; }
    e = w; m = (unsigned) (e - msg - 8);
    w = msg + 8 - hl(m);
    uint8_t* s = w;
    hdr(0xc0, m);
    if (T) { s--; *s = T; }
    keccak(bytes(s, (uint32_t) (e - s)), digest);
  }
  { uint8_t h[32]; keccak(bytes(pub, 64), h); putn(sender, h + 12, 20); }
#else
  putn(sender, from, 20);
#endif
  /* the answer */
  out = want;
  le(T == 0x7e ? 0x781f0fe : 0x7ffffe, 4);
  add(blkh, 32); le(number_, 8); add(th, 32); le(index, 4); le(T, 1);
  le(T == 0x7e ? 0 : be(nonce, NL), 8);
  le(336, 4);
#if T == 0x7e
  zeros(64); le(0, 4); le(0, 8);
#else
  add(sig_r, 32); add(sig_s, 32);
  le(T ? CHAINID : (V < 35 ? 1 : (V - 35) / 2), 4); le(V, 8);
#endif
  le(be(gas, GL), 8); add(sender, 20); le(336 + IL, 4); rev(value, VL);
#if T == 0x7e
  zeros(24);
#else
  uint64_t mf = be(maxfee, PL), mp = T >= 2 ? be(prio, PL) : 0, price = T >= 2 ? (mp < mf - base_fee ? base_fee + mp : mf) : mf;
  if (T >= 2) VP_ASSUME(base_fee <= mf); /* a transaction of the block pays the base fee */
  le(price, 8); le(T >= 2 ? mf : 0, 8); le(mp, 8);
#endif
  unsigned o = 336 + IL + TOL;
  le(o, 4); o += NA * (4 + 24 + 32 * NK); le(o, 4); o += NU * 97; le(o, 4);
  le(T == 0x7e ? 0 : PARITY, 1);
#if T == 0x7e
  add(source, 32); rev(mint, VL); le(V, 1); le(1, 1);
#else
  zeros(66);
#endif
  add(input, IL); add(to, TOL);
  for (int i = 0; i < NA; i++) le(4 * NA + i * (24 + 32 * NK), 4);
  for (int i = 0; i < NA; i++) { add(aaddr[i], 20); le(24, 4); for (int k = 0; k < NK; k++) add(akey[i] + 33 * k + 1, 32); }
  for (int i = 0; i < NU; i++) { add(u[i][1], 20); le(be(u[i][0], 2), 4); le(be(u[i][2], 2), 8); add(u[i][3], 32); left(u[i][4], 30); le(1, 1); }
  for (int i = 0; i < NB; i++) add(bh[i], 32);

  ssz_builder_t b = ssz_builder_for_type(ETH_SSZ_DATA_TX);
  bool ok = c4_write_tx_data_from_raw(&ctx, &b, bytes(start, (uint32_t) (end - start)), th, blkh, number_, index, base_fee);
#ifdef EXPECT_REJECT
  VP_CHECK(!ok, "rejected");
#else
  VP_CHECK(ok && !ctx.state.error, "a transaction is decoded");
  ssz_ob_t res = ssz_builder_to_bytes(&b);
  VP_CHECK(res.bytes.len == (uint32_t) (out - want) && same_bytes(res.bytes.data, want, (unsigned) (out - want)), "all fields of the transaction");
  VP_CHECK(n_recover == (T == 0x7e ? 0 : 1), "the sender is the signer");
  VP_REACH(ok, "decoded");
#endif
}
