/* Hash functions of util/crypto.h.
 * Verification: uninterpreted functions (equal inputs give equal outputs, nothing else is known), so every result holds
 * for any hash function and a match of hashes means a match of the hashed expressions.
 * Replay: the real sha256 / keccak of libs/crypto (lib/native_hash.c). */
#ifndef VP_HASH_H
#define VP_HASH_H
#include "vp.h"
#include "crypto.h"
#ifndef VP_NATIVE
typedef unsigned __CPROVER_bitvector[256] bv256;
typedef unsigned __CPROVER_bitvector[512] bv512;
bv256 __CPROVER_uninterpreted_sha256_64(bv256 a, bv256 b);
static unsigned vp_case;
#ifdef VP_HASH_CASES
/* cases that are independent of each other use different functions (keeps the number of instances of functional consistency low) */
bv256 __CPROVER_uninterpreted_sha256_64c(unsigned c, bv256 a, bv256 b);
#define VP_SHA256_64(a, b) __CPROVER_uninterpreted_sha256_64c(vp_case, a, b)
#else
#define VP_SHA256_64(a, b) __CPROVER_uninterpreted_sha256_64(a, b)
#endif
static inline bv256 vp_load32(const uint8_t* p) { bv256 r; memcpy(&r, p, 32); return r; }
void sha256_merkle(bytes_t data1, bytes_t data2, uint8_t* out) {
  __CPROVER_assert(data1.len == 32 && data2.len == 32, "VP:merkle nodes are 32 bytes");
  bv256 a = vp_load32(data1.data), b = vp_load32(data2.data);
  bv256 r = VP_SHA256_64(a, b);
  memcpy(out, &r, 32);
}
#ifdef VP_SHA256
/* sha256 of two concatenated nodes is the same function */
void sha256(bytes_t data, uint8_t* out) {
  __CPROVER_assert(data.len == 64, "VP:only pairs of nodes are hashed");
  bv256 a = vp_load32(data.data), b = vp_load32(data.data + 32);
  bv256 r = VP_SHA256_64(a, b);
  memcpy(out, &r, 32);
}
#endif
#ifdef VP_KECCAK_UF
/* hash of a byte string of up to VP_KECCAK_UF bytes: an uninterpreted function of length and content */
typedef unsigned __CPROVER_bitvector[8 * (VP_KECCAK_UF)] bvkec;
bv256 __CPROVER_uninterpreted_keccak(uint32_t len, bvkec data);
void keccak(bytes_t data, uint8_t* out) {
  uint8_t b[VP_KECCAK_UF];
  __CPROVER_assert(data.len <= VP_KECCAK_UF, "VP:unwinding assertion: size of hashed data");
  for (unsigned j = 0; j < VP_KECCAK_UF; j++) b[j] = j < data.len ? data.data[j] : 0;
  bvkec v;
  memcpy(&v, b, VP_KECCAK_UF);
  bv256 r = __CPROVER_uninterpreted_keccak(data.len, v);
  memcpy(out, &r, 32);
}
#endif
#ifdef VP_KECCAK
/* hash of a byte string: any function (equal strings give equal hashes; a table of the calls of the current case) */
#ifndef VP_KECCAK_MAX
#define VP_KECCAK_MAX 140
#define VP_KECCAK_CALLS 8
#endif
static bytes_t vp_hashed[VP_KECCAK_CALLS]; /* not modified during the case */
static uint8_t vp_hashes[VP_KECCAK_CALLS][32];
static unsigned vp_hash_calls, vp_hash_case;
void keccak(bytes_t data, uint8_t* out) {
  if (vp_hash_case != vp_case) { vp_hash_case = vp_case; vp_hash_calls = 0; }
  __CPROVER_assert(vp_hash_calls < VP_KECCAK_CALLS && data.len <= VP_KECCAK_MAX, "VP:unwinding assertion: size of the hash table");
  unsigned c = vp_hash_calls++;
  uint8_t  h[32];
  for (int j = 0; j < 32; j++) h[j] = nondet_u8();
  vp_hashed[c] = data;
  for (unsigned i = 0; i < c; i++)
    if (vp_hashed[i].len == data.len && memcmp(vp_hashed[i].data, data.data, data.len) == 0)
      for (int j = 0; j < 32; j++) h[j] = vp_hashes[i][j];
  for (int j = 0; j < 32; j++) out[j] = vp_hashes[c][j] = h[j];
}
#endif
#endif
#ifdef VP_NATIVE
static unsigned vp_case;
#endif
#endif
