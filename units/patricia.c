/* Patricia trie proofs: patricia_verify. Real sources: src/chains/eth/verifier/patricia.c, rlp.c, util/ssz.c */
#define VP_KECCAK
#include "vp.h"
#include "vp_hash.h"
#include "patricia.h"
#include "rlp.h"
#include "ssz.h"
#ifdef VP_T1
#include "patricia_t1.h"
#else

/* ---- a trie node as data; its RLP is written by enc(), its meaning given by walk() ---- */
enum { BRANCH, PAIR };                     /* PAIR: leaf or extension, decided by the (symbolic) flag nibble */
enum { NONE, HASH, EMBED, SHORT };         /* reference / value: empty string, 32 byte string, list, other string */
typedef struct { uint8_t kind, sub; } ref_t;
typedef struct {
  uint8_t kind, plen;  /* PAIR: number of bytes of the path item */
  uint8_t at;          /* BRANCH: the child slot used (all other children are empty) */
  ref_t   ref, val;    /* PAIR: ref; BRANCH: ref is child `at`, val the value */
} node_shape_t;
typedef struct { uint8_t n, count; uint8_t top[4]; node_shape_t nodes[4]; } shape_t;

#ifndef KLEN
#define KLEN 1
#endif
static uint8_t path[4][3], data[4][32], val[4][32], key[2];
static uint8_t drawn[4][32];
static bool    linked[4];
static uint8_t enc_buf[4][100];
static uint32_t enc_len[4];
static bytes32_t hashes[4];

static uint32_t put_str(uint8_t* o, const uint8_t* d, uint32_t l) { /* always with a prefix byte: concrete layout for any content */
  o[0] = 0x80 + l;
  for (uint32_t i = 0; i < l; i++) o[1 + i] = d[i];
  return l + 1;
}
static const shape_t* S;
static uint32_t enc(uint8_t n, uint8_t* o); /* writes the node, returns the length */
static uint32_t put_ref(ref_t r, const uint8_t* d, uint8_t* o) {
  if (r.kind == HASH) return put_str(o, d, 32);
  if (r.kind == SHORT) return put_str(o, d, 3);
  if (r.kind == EMBED) {
    for (uint32_t i = 0; i < enc_len[r.sub]; i++) o[i] = enc_buf[r.sub][i];
    return enc_len[r.sub];
  }
  return put_str(o, d, 0);
}
static void encode(uint8_t n) {
  const node_shape_t* x = S->nodes + n;
  static uint8_t      tmp[100];
  uint32_t            l = 0;
  if (x->kind == PAIR) {
    l += put_str(tmp, path[n], x->plen);
    l += put_ref(x->ref, data[n], tmp + l);
  }
  else {
    for (uint8_t i = 0; i < 16; i++)
      if (i == x->at) l += put_ref(x->ref, data[n], tmp + l);
      else tmp[l++] = 0x80;
    l += put_ref(x->val, val[n], tmp + l);
  }
  uint32_t h = 0;
  if (l < 56) enc_buf[n][h++] = 0xc0 + l;
  else { enc_buf[n][h++] = 0xf8; enc_buf[n][h++] = l; }
  for (uint32_t i = 0; i < l; i++) enc_buf[n][h + i] = tmp[i];
  enc_len[n] = l + h;
}

/* ---- the definition: what the trie says about the key ---- */
typedef struct { patricia_result_t res; bool weak; const uint8_t* value; uint32_t len; } meaning_t; /* weak: INVALID is an acceptable answer too */
#define NIBBLE(p, i) ((i) & 1 ? (p)[(i) >> 1] & 15 : (p)[(i) >> 1] >> 4)
static meaning_t walk(void) {
  meaning_t none = {PATRICIA_INVALID, false, NULL, 0};
  uint32_t  pos = 0, i = 0;
  if (S->n == 0) return none;
  uint8_t n = S->top[0];
  for (int step = 0; step < 5; step++) {
    const node_shape_t* x    = S->nodes + n;
    bool                last = i + 1 == S->n;
    ref_t               ref  = x->ref;
    if (x->kind == BRANCH) {
      if (pos == 2 * KLEN) {
        if (x->val.kind == EMBED) return none;
        if (x->val.kind == NONE) return (meaning_t) {PATRICIA_NOT_EXISTING, !last, NULL, 0};
        return (meaning_t) {PATRICIA_FOUND, !last, val[n], x->val.kind == HASH ? 32 : 3};
      }
      uint8_t c = NIBBLE(key, pos);
      pos++;
      if (c != x->at || ref.kind == NONE) return (meaning_t) {PATRICIA_NOT_EXISTING, !last, NULL, 0};
    }
    else {
      if (x->plen == 0) return none;
      uint8_t  flag = path[n][0] >> 4;
      uint32_t off = flag & 1 ? 1 : 2, cnt = 2 * x->plen - off;
      bool     match = true;
      for (uint32_t j = 0; j < 6; j++)
        if (j < cnt && (pos + j >= 2 * KLEN || NIBBLE(path[n], off + j) != NIBBLE(key, pos + j))) match = false;
      if (!match) return (meaning_t) {PATRICIA_NOT_EXISTING, !last, NULL, 0};
      pos += cnt;
      if (flag & 2) {
        if (pos == 2 * KLEN) {
          if (ref.kind == EMBED) return none;
          return (meaning_t) {PATRICIA_FOUND, !last, data[n], ref.kind == HASH ? 32 : (ref.kind == SHORT ? 3 : 0)};
        }
        return (meaning_t) {PATRICIA_NOT_EXISTING, !last || ref.kind == EMBED, NULL, 0};
      }
    }
    if (ref.kind == EMBED) n = ref.sub;
    else if (ref.kind == HASH) {
      if (last || !linked[n]) return none;
      i++;
      n = S->top[i];
    }
    else return none;
  }
  return none;
}
#define B(at_, r, rs, v) {BRANCH, 0, at_, {r, rs}, {v, 0}}
#define P(l, r, rs) {PAIR, l, 0, {r, rs}, {NONE, 0}}
static const shape_t SHAPES[] = {
    {1, 1, {0}, {P(1, SHORT, 0)}},                                                       /* 0: one pair */
    {1, 1, {0}, {P(2, HASH, 0)}},                                                        /* 1 */
    {1, 1, {0}, {P(0, SHORT, 0)}},                                                       /* 2: no path */
    {0, 1, {0}, {P(1, SHORT, 0)}},                                                       /* 3: empty proof */
    {1, 1, {0}, {B(3, HASH, 0, SHORT)}},                                                 /* 4: branch */
    {2, 2, {0, 1}, {P(1, HASH, 0), B(5, NONE, 0, SHORT)}},                               /* 5: extension -> branch */
    {2, 2, {0, 1}, {B(0, HASH, 0, NONE), P(1, SHORT, 0)}},                               /* 6: branch -> pair */
    {2, 2, {0, 1}, {B(15, HASH, 0, SHORT), P(2, SHORT, 0)}},                             /* 7 */
    {3, 3, {0, 1, 2}, {P(1, HASH, 0), B(7, HASH, 0, NONE), P(1, HASH, 0)}},              /* 8: three nodes */
    {1, 2, {0}, {B(0, EMBED, 1, NONE), P(1, SHORT, 0)}},                                 /* 9: embedded pair in the first slot */
    {1, 2, {0}, {B(9, EMBED, 1, SHORT), P(1, SHORT, 0)}},                                /* 10: embedded pair */
    {1, 2, {0}, {P(1, EMBED, 1), B(2, NONE, 0, SHORT)}},                                 /* 11: embedded branch in a pair */
    {2, 3, {0, 2}, {B(1, EMBED, 1, NONE), P(1, HASH, 0), B(4, NONE, 0, SHORT)}},         /* 12: embedded pair, then a hash */
    {1, 1, {0}, {B(6, SHORT, 0, NONE)}},                                                 /* 13: malformed child */
    {2, 2, {0, 1}, {P(1, SHORT, 0), P(1, SHORT, 0)}},                                    /* 14: malformed / trailing */
    {2, 2, {0, 1}, {B(2, NONE, 0, SHORT), P(1, SHORT, 0)}},                              /* 15: trailing node */
    {2, 2, {0, 1}, {P(2, HASH, 0), P(1, HASH, 0)}},                                      /* 16: pair -> pair */
};
static const ssz_def_t PROOF = SSZ_LIST("proof", ssz_bytes_list, 256);

#ifdef SHAPE
static uint8_t pairs, at; /* number of leaf/extension nodes of the shape, the nibble the keys are made of */
/* concrete per case: key and first byte of every path item (flags, first nibble if odd); symbolic: everything else */
static void check(unsigned kcase, unsigned pcase, bool link) {
  static uint8_t ssz[180];
  bytes32_t      root = {0}, none = {0};
  vp_case++;
  for (int i = 0; i < KLEN * 2; i++) {
    uint8_t nib = (kcase >> i) & 1 ? at ^ 1 : at;
    key[i >> 1] = i & 1 ? key[i >> 1] | nib : nib << 4;
  }
  for (int i = 0; i < 4; i++)
    if (S->nodes[i].kind == PAIR && i < S->count) {
      path[i][0] = (pcase & 3) << 4 | (pcase & 1 ? at : 0);
      pcase >>= 2;
    }
  /* bottom up: a linked reference is the hash of the next node of the proof */
  for (int t = S->n - 1; t >= 0; t--) {
    uint8_t n = S->top[t];
    for (int i = S->count - 1; i >= 0; i--) { /* the node and the nodes embedded in it */
      bool mine = i >= n && (t == S->n - 1 || i < S->top[t + 1]);
      if (!mine) continue;
      memcpy(data[i], drawn[i], 32);
      if (S->nodes[i].ref.kind == HASH && t + 1 < S->n) {
        linked[i] = link;
        if (link) memcpy(data[i], hashes[t + 1], 32);
        else { /* any other hash */
          bool same = true;
          for (int j = 0; j < 32; j++) {
            if (drawn[i][j]) same = false;
            data[i][j] = hashes[t + 1][j] ^ drawn[i][j];
          }
          VP_ASSUME(!same);
        }
      }
      encode(i);
    }
    keccak(bytes(enc_buf[n], enc_len[n]), hashes[t]);
  }
  /* the proof: ssz list of byte lists */
  uint32_t off = S->n * 4;
  for (uint32_t i = 0; i < S->n; i++) {
    uint8_t n = S->top[i];
    ssz[4 * i] = off & 0xff; ssz[4 * i + 1] = off >> 8; ssz[4 * i + 2] = 0; ssz[4 * i + 3] = 0;
    for (uint32_t j = 0; j < enc_len[n]; j++) ssz[off + j] = enc_buf[n][j];
    off += enc_len[n];
  }
  meaning_t m        = walk();
  bytes_t   expected = {.data = NULL, .len = 7};
  ssz_ob_t  proof    = {.def = &PROOF, .bytes = bytes(ssz, off)};
  patricia_result_t r = patricia_verify(root, bytes(key, KLEN), proof, &expected);
  VP_CHECK(r == m.res || (m.weak && r == PATRICIA_INVALID), "result is what the trie says about the key");
  VP_CHECK(memcmp(root, S->n ? hashes[0] : none, 32) == 0, "root is the hash of the first node");
  if (r == PATRICIA_FOUND) {
    VP_CHECK(expected.len == m.len, "length of the value");
    for (uint32_t i = 0; i < 32; i++)
      if (i < m.len) VP_CHECK(expected.data[i] == m.value[i], "the value stored at the key");
  }
  VP_REACH(r == m.res, "decided");
}
#ifndef PCASES /* the flags of the nodes to check: bit (flag of the first pair + 4 * flag of the second pair) */
#define PCASES 0xffff
#endif
#ifndef KCASES /* the keys: bit mask over the choices of nibbles */
#define KCASES 0xffff
#endif
void h_patricia(void) {
  S  = SHAPES + SHAPE;
  at = 5;
  for (int i = 0; i < 4; i++) {
    if (S->nodes[i].kind == PAIR && i < S->count) pairs++;
    if (S->nodes[i].kind == BRANCH && i < S->count && at == 5) at = S->nodes[i].at;
    vp_draw_const(path[i], 3); vp_draw_const(drawn[i], 32); vp_draw_const(val[i], 32);
  }
  for (unsigned p = 0; p < 1u << (2 * pairs); p++)
    for (unsigned k = 0; k < 1u << (2 * KLEN); k++)
      if (((PCASES >> p) & 1) && ((KCASES >> k) & 1)) {
        check(k, p, true);
        if (S->n > 1 && k == 0) check(k, p, false);
      }
}
#endif
#endif
