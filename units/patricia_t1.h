/* Contract mode of units/patricia.c */
#include "vp_alloc.h"
/* ---- nibble sequences. spec_g is an arbitrary fixed position: what holds for it holds for every position ---- */
static size_t  spec_g;      /* any position */
static int     spec_count;  /* the position of the terminator of the first nibble sequence */
#define spec_match(a, b, i) ((i) >= 0 && (i) <= spec_count && (!(spec_g < (size_t) (i)) || ((a)[spec_g] == (b)[spec_g] && (a)[spec_g] != 0xff)))
#define spec_odd(p)                    ((p).data[0] & 0x10)
#define spec_nibbles(p, prefix, i)     ((i) == 0 ? (size_t) 0 : (prefix) ? 2 * (size_t) (i) - (spec_odd(p) ? 1 : 2) : 2 * (size_t) (i))
#define spec_skip(p, prefix)           ((size_t) ((prefix) ? (spec_odd(p) ? 1 : 2) : 0))
#define spec_nib(p, j)                 (((j) & 1) ? (p).data[(j) >> 1] & 15 : (p).data[(j) >> 1] >> 4)
#define spec_nibble_at(p, prefix, n, c) (!(spec_g < (c)) || (n)[spec_g] == spec_nib(p, spec_g + spec_skip(p, prefix)))

/* the chain of nodes: one step per node of the proof */
typedef struct { uint32_t steps; int result; bv256 ref; bytes_t value; uint8_t* key; size_t depth; } spec_chain_t;
static spec_chain_t spec_chain;
static bv256        spec_first;
#define spec_chain_at(i, k, exp, root, d) (spec_chain.steps == (i) && spec_chain.key == (k) && spec_chain.depth == (d) && \
    ((i) == 0 || (spec_chain.result == 1 && *(bv256*) (exp) == spec_chain.ref && *(bv256*) (root) == spec_first)))

int spec_handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth);
#include REPO_PATRICIA

#define MAXLEN 0x1000000
static void vp_any(void) { spec_g = nondet_u64(); }
void h_match(void) {
  vp_any();
  uint32_t la = nondet_u32(), lb = nondet_u32();
  VP_ASSUME(la < MAXLEN && lb < MAXLEN);
  uint8_t *a = malloc(la + 1), *b = malloc(lb + 1);
  VP_ASSUME(a[la] == 0xff && b[lb] == 0xff);
  spec_count = la < lb ? la : lb;
  int m = patricia_match_nibbles(a, b);
  VP_CHECK(m >= 0 && m <= (int) la && m <= (int) lb, "position inside both sequences");
  VP_CHECK(a[m] == 0xff || b[m] == 0xff || a[m] != b[m], "stops only at the end of a sequence or a difference");
  VP_CHECK(!(spec_g < (size_t) m) || (a[spec_g] == b[spec_g] && a[spec_g] != 0xff), "all positions before are equal");
  VP_REACH(m > 3 && spec_g == 2, "match");
}
void h_count(void) {
  vp_any();
  uint32_t la = nondet_u32();
  VP_ASSUME(la < MAXLEN);
  uint8_t* a = malloc(la + 1);
  VP_ASSUME(a[la] == 0xff);
  spec_count = la;
  int n      = count_nibbles(a);
  VP_CHECK(n >= 0 && n <= (int) la && a[n] == 0xff, "position of a terminator");
  VP_REACH(n > 2, "counted");
}
void h_nibbles(void) {
  vp_any();
  uint32_t l = nondet_u32();
  VP_ASSUME(l < MAXLEN);
  bytes_t  p      = bytes(malloc(l), l);
  bool     prefix = nondet_bool();
  uint8_t* n      = patricia_to_nibbles(p, prefix);
  size_t   c      = spec_nibbles(p, prefix, l);
  VP_CHECK(spec_nibble_at(p, prefix, n, c), "every nibble of the path");
  VP_CHECK(n[c] == 0xff, "terminated right behind the last nibble");
  VP_REACH(c > 5 && spec_g == 3, "nibbles");
}

/* ---- one node. Its RLP is given by a table of items (contract of rlp_decode, property C05) ---- */
#define NI 17
static bytes_t    vp_raw, vp_node, vp_item[NI];  /* the encoded node, its list content, the items */
static rlp_type_t vp_raw_type, vp_type[NI];
static uint8_t*   vp_start[NI];                  /* where the encoding of the item starts */
static int        vp_n;                          /* number of items or an error */
static int        vp_child;
rlp_type_t vp_rlp_decode(bytes_t* src, int index, bytes_t* target) {
  if (src->data == vp_raw.data && src->len == vp_raw.len) {
    __CPROVER_assert(index == 0 && target, "VPS:decodes the node");
    if (vp_raw_type > 0) *target = vp_node;
    return vp_raw_type;
  }
  __CPROVER_assert(src->data == vp_node.data && src->len == vp_node.len, "VPS:decodes the list of the node");
  if (index < 0) return vp_n;
  if (index >= vp_n || index >= NI) return RLP_NOT_FOUND;
#if NODE_N == 17 /* only the child selected by the key, the item in front of it and the value are modelled, any other item is arbitrary */
  index = index == 16 ? 2 : index == vp_child ? 1 : index + 1 == vp_child ? 0 : 3;
#endif
  if (target) *target = vp_item[index];
  return vp_type[index];
}
static uint8_t *vp_pn, *vp_key; /* nibbles of the path item, remaining key */
static size_t   vp_pcount, vp_kcount;
static int      vp_m;
uint8_t* vp_to_nibbles(bytes_t p, bool prefix) {
  __CPROVER_assert(p.data == vp_item[0].data && p.len == vp_item[0].len && prefix, "VPS:nibbles of the path item");
  vp_pcount = spec_nibbles(p, true, p.len);
  vp_pn     = malloc(2 * (size_t) p.len + 1);
  VP_ASSUME(vp_pn[vp_pcount] == 0xff && spec_nibble_at(p, true, vp_pn, vp_pcount));
  return vp_pn;
}
int vp_match(uint8_t* a, uint8_t* b) {
  __CPROVER_assert(a == vp_pn && b == vp_key, "VPS:compares the path with the remaining key");
  int m = (int) nondet_u32();
  VP_ASSUME(m >= 0 && (size_t) m <= vp_pcount && (size_t) m <= vp_kcount);
  VP_ASSUME((size_t) m == vp_pcount || (size_t) m == vp_kcount || a[m] != b[m]);
  VP_ASSUME(!(spec_g < (size_t) m) || a[spec_g] == b[spec_g]);
  VP_ASSUME((size_t) m == vp_kcount || b[m] < 16);
  return vp_m = m;
}
int vp_count(uint8_t* a) {
  __CPROVER_assert(a == vp_pn, "VPS:counts the path");
  return (int) vp_pcount;
}
static bool     vp_rec;      /* recursion taken */
static bytes_t  vp_rec_raw, vp_rec_val;
static uint8_t* vp_rec_key;
static int      vp_last, vp_rec_res;
static size_t   vp_rec_off;
static uint8_t  vp_rec_hash[32], vp_j; /* any position of a hash */
int spec_handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
  __CPROVER_assert(!vp_rec, "VPS:one embedded node");
  __CPROVER_assert(!last_node == !vp_last, "VP:an embedded node of the last node");
  vp_rec = true; vp_rec_raw = *raw; vp_rec_key = *k;
  vp_rec_off = nondet_u32(); VP_ASSUME(vp_rec_off <= MAXLEN);
  *k += vp_rec_off;
  vp_rec_val.data = NULL; vp_rec_val.len = nondet_u32(); *last_val = vp_rec_val;
  for (int i = 0; i < 32; i++) next_hash[i] = vp_rec_hash[i] = nondet_u8();
  vp_rec_res = nondet_u8() & 3;
  return vp_rec_res;
}
void h_node(void) {
  vp_any();
  vp_j = nondet_u8() & 31;
  vp_n        = (int) nondet_u32();
#if NODE_N
  VP_ASSUME(vp_n == NODE_N);
#else
  VP_ASSUME(vp_n != 2 && vp_n != 17);
#endif
  uint32_t rl = nondet_u32(), kl = nondet_u32(), pos = nondet_u32(), o = 0;
  VP_ASSUME(rl < MAXLEN && kl < MAXLEN && pos <= kl);
  uint8_t* rd = malloc(rl);
  vp_raw      = bytes(rd, rl);
  vp_kcount   = kl - pos;
  uint8_t* kd = malloc((size_t) kl + 1);
  vp_key      = kd + pos;
  VP_ASSUME(kd[kl] == 0xff && (pos == kl || kd[pos] < 16));
  int selected = vp_n == 17 ? *vp_key : 1;
  uint8_t t   = nondet_u8();
  vp_raw_type = t == 0 ? RLP_LIST : t == 1 ? RLP_ITEM : t == 2 ? RLP_NOT_FOUND : RLP_OUT_OF_RANGE;
  uint32_t ns = nondet_u32(), nl = nondet_u32();
  VP_ASSUME(ns >= 1 && ns <= rl && nl <= rl - ns);
  vp_node = bytes(rd + ns, nl);
  o       = ns;
  uint8_t* hash = malloc(32); /* the content of a reference (an object of its own: it is read as a whole) */
#if NODE_N == 17
#define VALUE 2
  vp_child = pos < kl ? *vp_key : 100;
  selected = 1;
  for (int i = 0; i < 4; i++) {
    if (vp_child == 0 && i == 1) o = ns; /* the first child */
#else
#define VALUE 16
  for (int i = 0; i < NI; i++) {
    if (i >= vp_n) break;
#endif
    uint32_t h = nondet_u32(), l = nondet_u32();
    VP_ASSUME(h <= 9 && l <= ns + nl - o && h + l <= ns + nl - o);
    vp_start[i] = rd + o;
    vp_type[i]  = nondet_bool() ? RLP_LIST : RLP_ITEM;
    vp_item[i]  = bytes(vp_type[i] == RLP_ITEM && (i == selected) ? hash : rd + o + h, l);
    o += h + l;
  }
  uint8_t*  k = vp_key;
  vp_last     = nondet_bool();
  bytes_t   val  = {.data = NULL, .len = 77}, val0 = val;
  bytes32_t next;
  size_t    depth = nondet_u8(), depth0 = depth;
  int       r = handle_node(&vp_raw, &k, vp_last, &val, next, &depth);
  VP_CHECK(depth == depth0 + 1, "depth counted");
  bool at_end = pos == kl;
#if NODE_N == 2
#define REACH2 VP_REACH
#define REACH17(c, l)
#elif NODE_N == 17
#define REACH2(c, l)
#define REACH17 VP_REACH
#else
#define REACH2(c, l)
#define REACH17(c, l)
#endif
#define RESULT(x, label) VP_CHECK(r == (x), label)
#define NEXT_IS(i) (next[vp_j] == vp_item[i].data[vp_j])
#define EMBEDDED(i, key) (vp_rec && r == vp_rec_res && vp_rec_raw.data == vp_start[i] && vp_rec_raw.data + vp_rec_raw.len == vp_item[i].data + vp_item[i].len && \
                          vp_rec_key == (key) && k == vp_rec_key + vp_rec_off && val.data == vp_rec_val.data && val.len == vp_rec_val.len && next[vp_j] == vp_rec_hash[vp_j])
  if (depth0 >= MAX_DEPTH || vp_raw_type != RLP_LIST || (vp_n != 17 && vp_n != 2)) RESULT(0, "not a node");
  else if (vp_n == 17) {
    if (at_end) {
      if (!vp_last || vp_type[VALUE] != RLP_ITEM) RESULT(0, "no value here");
      else {
        RESULT(vp_item[VALUE].len ? 3 : 2, "the value of the branch decides");
        VP_CHECK(val.data == vp_item[VALUE].data && val.len == vp_item[VALUE].len, "the value of the branch");
        REACH17(r == 3, "value of a branch");
      }
    }
    else {
#if NODE_N == 17
      uint8_t c = 1;
#else
      uint8_t c = *vp_key;
#endif
      if (vp_type[c] == RLP_LIST) { VP_CHECK(EMBEDDED(c, vp_key + 1), "the embedded child decides"); REACH17(vp_child == 0, "embedded 0"); REACH17(vp_child == 9, "embedded 9"); }
      else if (vp_item[c].len == 0) { RESULT(2, "empty child: no such key"); REACH17(true, "empty child"); }
      else if (vp_item[c].len == 32) {
        RESULT(1, "follow the child");
        VP_CHECK(NEXT_IS(c) && k == vp_key + 1, "hash of the child, one nibble consumed");
        REACH17(true, "child hash");
      }
      else RESULT(0, "malformed child");
    }
  }
  else if (vp_type[0] != RLP_ITEM || vp_item[0].len == 0) RESULT(0, "no path");
  else {
    bool leaf = vp_item[0].data[0] & 0x20, embedded = vp_type[1] == RLP_LIST, fits = vp_item[1].len == 32;
    if ((size_t) vp_m < vp_pcount) { RESULT(vp_last ? 2 : 0, "another path: no such key"); REACH2(r == 2, "other path"); }
    else {
      VP_CHECK(!(spec_g < vp_pcount) || vp_key[spec_g] == spec_nib(vp_item[0], spec_g + spec_skip(vp_item[0], true)), "the whole path equals the key");
      uint8_t* after = vp_key + vp_pcount;
      bool     done  = vp_pcount == vp_kcount;
      if (leaf && embedded) RESULT(0, "a leaf holds a value");
      else if (leaf && done) {
        RESULT(vp_last ? 3 : 0, "leaf at the key");
        VP_CHECK(r == 0 || (val.data == vp_item[1].data && val.len == vp_item[1].len), "value of the leaf");
        REACH2(r == 3, "leaf");
      }
      else if (leaf) { RESULT(vp_last ? 2 : 0, "the key goes on: no such key"); REACH2(r == 2, "longer key"); }
      else if (embedded) { VP_CHECK(EMBEDDED(1, after), "the embedded node decides"); REACH2(true, "embedded in extension"); }
      else if (!fits) RESULT(0, "malformed reference");
      else if (vp_last) VP_CHECK(r == 0 || r == 1, "nothing decided");
      else {
        RESULT(1, "follow the extension");
        VP_CHECK(NEXT_IS(1) && k == after, "hash of the next node, path consumed");
        REACH2(true, "extension");
      }
    }
  }
}

/* ---- the proof: a chain of nodes, each one referenced by hash from the one before ---- */
static uint32_t vp_len;
static uint32_t vp_idx;
static uint8_t *vp_wit, *vp_path;
static bv256    vp_last_hash;
uint32_t vp_ssz_len(ssz_ob_t ob) { return vp_len; }
ssz_ob_t vp_ssz_at(ssz_ob_t ob, uint32_t index) {
  __CPROVER_assert(index < vp_len && index == spec_chain.steps, "VPS:nodes in order");
  return (ssz_ob_t) {.def = NULL, .bytes = bytes(vp_wit, nondet_u32())};
}
bv256 __CPROVER_uninterpreted_node_hash(uint32_t i);
void vp_keccak(bytes_t data, uint8_t* out) {
  __CPROVER_assert(data.data == vp_wit, "VPS:hash of the node");
  bv256 h = __CPROVER_uninterpreted_node_hash(spec_chain.steps);
  memcpy(out, &h, 32);
}
int vp_handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
  __CPROVER_assert(raw->data == vp_wit && *k == spec_chain.key && *depth == spec_chain.depth, "VP:the node is applied where the chain stands");
  __CPROVER_assert(spec_chain.steps == 0 || (spec_chain.result == 1 && spec_chain.ref == __CPROVER_uninterpreted_node_hash(spec_chain.steps)), "VP:only a node with the referenced hash is used");
  __CPROVER_assert(!last_node == !(spec_chain.steps + 1 == vp_len), "VP:last node");
  spec_chain.steps++;
  spec_chain.result = nondet_u8() & 3;
  VP_ASSUME(!(!last_node && spec_chain.result == 3));
  bv256 h;
  spec_chain.ref = h;
  memcpy(next_hash, &h, 32);
  last_val->data = NULL; last_val->len = nondet_u32();
  spec_chain.value = *last_val;
  *k = spec_chain.key = vp_path + (nondet_u32() & 0xff);
  *depth = spec_chain.depth = nondet_u64();
  return spec_chain.result;
}
uint8_t* vp_path_nibbles(bytes_t p, bool prefix) {
  __CPROVER_assert(!prefix && p.len == 32, "VPS:all nibbles of the key");
  vp_path = malloc(65);
  spec_chain.key = vp_path;
  return vp_path;
}
void h_verify(void) {
  vp_len = nondet_u32();
  vp_wit = malloc(1);
  static const ssz_def_t def;
  uint8_t*  root = malloc(32);
  uint8_t   zero[32] = {0};
  memset(root, 0, 32);
  bytes_t  expected = {.data = NULL, .len = 3};
  spec_chain.steps = 0; spec_chain.depth = 0; spec_chain.result = 1;
  spec_first = __CPROVER_uninterpreted_node_hash(0);
  uint8_t key[32];
  bool want = nondet_bool();
  patricia_result_t r = patricia_verify(root, bytes(key, 32), (ssz_ob_t) {.def = &def, .bytes = NULL_BYTES}, want ? &expected : NULL);
  VP_CHECK(r == PATRICIA_INVALID || r == PATRICIA_FOUND || r == PATRICIA_NOT_EXISTING, "one of the three results");
  VP_CHECK(r != PATRICIA_FOUND || spec_chain.result == 3, "found only if the chain of nodes ends with the value");
  VP_CHECK(r != PATRICIA_NOT_EXISTING || spec_chain.result == 2, "not existing only if the chain shows that the key is missing");
  VP_CHECK(r == PATRICIA_INVALID || (vp_len > 0 && *(bv256*) root == spec_first), "root is the hash of the first node");
  VP_CHECK(!want || r != PATRICIA_FOUND || (expected.data == spec_chain.value.data && expected.len == spec_chain.value.len), "the value found");
  VP_CHECK(!want || r != PATRICIA_NOT_EXISTING || (expected.data == NULL && expected.len == 0), "no value");
  VP_REACH(r == PATRICIA_FOUND && spec_chain.steps > 3, "found"); VP_REACH(r == PATRICIA_NOT_EXISTING, "missing"); VP_REACH(r == PATRICIA_INVALID && spec_chain.steps > 2, "invalid");
}
