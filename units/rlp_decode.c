/* RLP decoding: rlp_decode (with its static helpers), rlp_get_uint64. Real source: src/chains/eth/verifier/rlp.c */
#include "vp.h"
#include "rlp.h"

/* ---- specification: the items of an RLP sequence -------------------------------------------------------- */
typedef struct { bool ok; bool list; size_t hdr; size_t len; } item_t;

/* the item whose prefix byte is at d[o], o < n (RLP, yellow paper appendix B, sizes limited to the source) */
static inline item_t spec_item(const uint8_t* d, size_t n, size_t o) {
  item_t  r = {true, false, 0, 0};
  uint8_t c = d[o];
  if (c < 0x80) { r.hdr = 0; r.len = 1; }
  else if (c < 0xb8) { r.hdr = 1; r.len = (size_t) c - 0x80; }
  else if (c < 0xc0 || c >= 0xf8) {
    size_t   k = (size_t) c - (c < 0xc0 ? 0xb7 : 0xf7);
    uint64_t v = 0;
    r.list = c >= 0xf8;
    r.hdr  = 1 + k;
    if (k > n - o - 1) r.ok = false;
    else {
      for (size_t i = 0; i < 8; i++)
        if (i < k) v = (v << 8) | d[o + 1 + i];
      if (v > n) r.ok = false;
      else r.len = (size_t) v;
    }
  }
  else { r.list = true; r.hdr = 1; r.len = (size_t) c - 0xc0; }
  return r;
}

#ifdef VP_T1
/* ghost state: the specification iterates over the items in lock step with the decoder's loop */
static struct { size_t offset, index, last; bool bad; item_t item; } spec_rlp;
#define spec_rlp_at(pos, off) (!spec_rlp.bad && spec_rlp.index == (pos) && spec_rlp.offset == (off))
static inline void spec_rlp_next(bytes_t* src) {
  spec_rlp.last = spec_rlp.offset;
  item_t i      = spec_item(src->data, src->len, spec_rlp.offset);
  spec_rlp.item = i;
  if (!i.ok) spec_rlp.bad = true;
  else { spec_rlp.offset += i.hdr + i.len; spec_rlp.index++; }
}
#endif

#include REPO_RLP

#ifdef VP_T1
static bool spec_result(uint8_t* d, uint32_t n, int index, rlp_type_t r, bytes_t* target, bytes_t before) {
  bool same = !target || (target->data == before.data && target->len == before.len);
  if (index < 0) return same && (spec_rlp.bad || spec_rlp.offset != n ? r == RLP_OUT_OF_RANGE : (size_t) r == spec_rlp.index);
  if (spec_rlp.bad) return same && r == RLP_OUT_OF_RANGE;
  if (spec_rlp.index == (size_t) index + 1) { /* the item exists; its prefix is at spec_rlp.last */
    item_t i  = spec_rlp.item;
    bool   in = target && spec_rlp.offset <= n;
    return in ? r == (i.list ? RLP_LIST : RLP_ITEM) && target->data == d + spec_rlp.last + i.hdr && target->len == i.len
              : same && (r == RLP_OUT_OF_RANGE || (!target && r == RLP_NOT_FOUND));
  }
  return spec_rlp.index <= (size_t) index && same && r == (spec_rlp.offset == n ? RLP_NOT_FOUND : RLP_OUT_OF_RANGE);
}
static bytes_t vp_before;
void h_rlp_decode(void) {
  uint32_t n = vp_draw_u32();
  VP_ASSUME(n <= 0x7fffffff);
  uint8_t* d    = vp_draw_object(n);
  uint8_t  mode = vp_draw_u8();
  int      index = (int) vp_draw_u32();
  bytes_t  src = {.data = d, .len = n}, other = {.data = NULL, .len = 7};
  bytes_t* target = mode == 0 ? &other : (mode == 1 ? &src : NULL);
  if (target) vp_before = *target;
  spec_rlp.offset = spec_rlp.index = 0;
  spec_rlp.bad    = false;
  rlp_type_t r = rlp_decode(&src, index, target);
  VP_CHECK(spec_result(d, n, index, r, target, vp_before), "exact slice of the index-th item, item count, or error");
  VP_REACH(r == RLP_ITEM && index > 2, "item"); VP_REACH(r == RLP_LIST && index == 0, "list");
  VP_REACH(r == RLP_OUT_OF_RANGE && index >= 0, "range"); VP_REACH(r == RLP_NOT_FOUND, "nf"); VP_REACH(index < 0 && r > 2, "count");
  VP_REACH(target == &src && r == RLP_LIST, "alias"); VP_REACH(target == NULL, "null");
}
#else
/* ---- direct: every byte string up to N bytes, every index, against an independent decoder ---------------- */
#ifndef N
#define N 11
#endif
void h_rlp_decode(void) {
  uint32_t n = vp_draw_u8();
  VP_ASSUME(n <= N);
  uint8_t* d     = vp_draw_object(n);
  int      index = (int) vp_draw_u8() - 1;
  VP_ASSUME(index <= N + 1);
  uint8_t  mode = vp_draw_u8();
  bytes_t  src = {.data = d, .len = n}, other = {.data = NULL, .len = 7};
  bytes_t* target = mode == 0 ? &other : (mode == 1 ? &src : NULL);
  bytes_t  before = mode == 1 ? src : other;
  int      r      = (int) rlp_decode(&src, index, target);
  /* oracle */
  size_t o = 0; int k = 0; bool bad = false;
  item_t it = {false, false, 0, 0};
  for (int s = 0; s < N + 2; s++) {
    if (o >= n) break;
    it = spec_item(d, n, o);
    if (!it.ok) { bad = true; break; }
    if (k == index) break;
    o += it.hdr + it.len; k++;
  }
  bytes_t now = mode == 1 ? src : other;
  bool    same = now.data == before.data && now.len == before.len;
  if (index < 0) {
    VP_CHECK(r == (!bad && o == n ? k : RLP_OUT_OF_RANGE), "item count");
    VP_CHECK(same, "counting leaves the target alone");
  }
  else if (!bad && o < n) {
    bool in = o + it.hdr + it.len <= n;
    VP_CHECK(!in || !target || r == (it.list ? RLP_LIST : RLP_ITEM), "item found");
    VP_CHECK(in || r == RLP_OUT_OF_RANGE, "item beyond the end is rejected");
    VP_CHECK(!(r == RLP_ITEM || r == RLP_LIST) || (in && now.data == d + o + it.hdr && now.len == it.len), "exact payload");
    VP_CHECK(r == RLP_ITEM || r == RLP_LIST || same, "target untouched on failure");
  }
  else {
    VP_CHECK(r == (bad || o > n ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND), "absent item: malformed sequence or no such item");
    VP_CHECK(same, "target untouched on failure");
  }
  VP_REACH(r == RLP_LIST && index == 2, "third");
  VP_REACH(r == RLP_OUT_OF_RANGE, "oor");
}
#endif
