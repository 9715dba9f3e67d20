From cdc291d9c84d7e786002229428f9b11f8f7c505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:07 +0000
Subject: [PATCH 01/16] fix: rlp_decode: never read or return bytes outside the
 source

length bytes were read beyond the end, lengths were shifted as int (sign
extension / wrap-around of the read position) and with target == src the range
check compared the already overwritten slice with itself, so it always passed.
---
 src/chains/eth/verifier/rlp.c | 41 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..21d0b31 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,10 +23,21 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
-  if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+static int check_range(bytes_t* target, bytes_t* src, size_t new_len, size_t offset, rlp_type_t result_type) {
+  if (!target || offset > src->len || new_len > src->len - offset) return RLP_OUT_OF_RANGE;
+  *target = bytes(src->data + offset, new_len);
+  return result_type;
+}
+
+// reads the big endian payload length stored in the n bytes following the prefix at src_idx. Fails if it exceeds the source.
+static bool decode_length(bytes_t* src, size_t src_idx, size_t n, size_t* len) {
+  *len = 0;
+  if (n >= src->len - src_idx) return false;
+  for (size_t i = 0; i < n; i++) {
+    if (*len > 0xffffff) return false;
+    *len = (*len << 8) | src->data[src_idx + 1 + i];
+  }
+  return *len <= src->len;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
@@ -35,32 +46,30 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
     uint8_t c = src->data[src_idx];
     if (c < 0x80) {
       if ((int) pos == index)
-        return check_range(target, src, 1, src->data + src_idx, 1);
+        return check_range(target, src, 1, src_idx, RLP_ITEM);
     }
     else if (c < 0xb8) {
       if ((int) pos == index)
-        return check_range(target, src, c - 0x80, src->data + src_idx + 1, RLP_ITEM);
+        return check_range(target, src, c - 0x80, src_idx + 1, RLP_ITEM);
       src_idx += c - 0x80;
     }
     else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
-      if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
+      size_t len = 0;
+      if (!decode_length(src, src_idx, c - 0xb7, &len)) return RLP_OUT_OF_RANGE;
+      if ((int) pos == index) return check_range(target, src, len, src_idx + c - 0xb7 + 1, RLP_ITEM);
       src_idx += len + c - 0xb7;
     }
     else if (c < 0xf8) {
       size_t len = c - 0xc0;
       if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + 1, RLP_LIST);
+        return check_range(target, src, len, src_idx + 1, RLP_LIST);
       src_idx += len;
     }
     else {
       size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
+      if (!decode_length(src, src_idx, c - 0xf7, &len)) return RLP_OUT_OF_RANGE;
       if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
+        return check_range(target, src, len, src_idx + c - 0xf7 + 1, RLP_LIST);
       src_idx += len + c - 0xf7;
     }
   }
@@ -120,7 +129,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0};
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
@@ -128,7 +137,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From e660600b158f8c63378f7d6e76e41ebaa4399758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:50 +0000
Subject: [PATCH 02/16] hook: specification macros (C4_VERIFY) and loop
 contract of rlp_decode

---
 src/chains/eth/verifier/rlp.c | 10 +++++++++-
 src/util/contracts.h          | 26 ++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)
 create mode 100644 src/util/contracts.h

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 21d0b31..5b19d3e 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -22,6 +22,7 @@
  */
 
 #include "rlp.h"
+#include "contracts.h"
 
 static int check_range(bytes_t* target, bytes_t* src, size_t new_len, size_t offset, rlp_type_t result_type) {
   if (!target || offset > src->len || new_len > src->len - offset) return RLP_OUT_OF_RANGE;
@@ -42,7 +43,14 @@ static bool decode_length(bytes_t* src, size_t src_idx, size_t n, size_t* len) {
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
   size_t pos = 0, src_idx = 0;
-  for (; src_idx < src->len; src_idx++, pos++) {
+  for (; src_idx < src->len; src_idx++, pos++)
+      // clang-format off
+    C4_LOOP_ASSIGNS(src_idx, pos, spec_rlp)
+    C4_LOOP_INVARIANT(pos <= src_idx && src_idx <= 2 * (size_t) src->len + 64 && (index < 0 || pos <= (size_t) index) && spec_rlp_at(pos, src_idx))
+    C4_LOOP_DECREASES(2 * (size_t) src->len + 64 - src_idx)
+  // clang-format on
+  {
+    C4_GHOST(spec_rlp_next(src);)
     uint8_t c = src->data[src_idx];
     if (c < 0x80) {
       if ((int) pos == index)
diff --git a/src/util/contracts.h b/src/util/contracts.h
new file mode 100644
index 0000000..4a5ac7e
--- /dev/null
+++ b/src/util/contracts.h
@@ -0,0 +1,26 @@
+/*
+ * Machine-checked specification hooks.
+ *
+ * The macros below annotate loops with the invariants a deductive verifier (CBMC, goto-instrument)
+ * discharges. They only expand when C4_VERIFY is defined by the verification build; in every other build they
+ * are empty and do not change the generated code.
+ *
+ * SPDX-License-Identifier: MIT
+ */
+
+#ifndef contracts_h__
+#define contracts_h__
+
+#ifdef C4_VERIFY
+#define C4_LOOP_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)          // what the loop may modify
+#define C4_LOOP_INVARIANT(...) __CPROVER_loop_invariant((__VA_ARGS__)) // holds before and after every iteration
+#define C4_LOOP_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)        // bounded and decreasing: termination
+#define C4_GHOST(...)          __VA_ARGS__                             // specification-only statement
+#else
+#define C4_LOOP_ASSIGNS(...)
+#define C4_LOOP_INVARIANT(...)
+#define C4_LOOP_DECREASES(...)
+#define C4_GHOST(...)
+#endif
+
+#endif
-- 
2.43.0


From 1ae5f33147fcc7fc2f1309b7530d34e8b466fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 03/16] hook: loop contracts of the merkle proof verification

---
 src/util/contracts.h  |  2 ++
 src/util/ssz_merkle.c | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/util/contracts.h b/src/util/contracts.h
index 4a5ac7e..3a8366c 100644
--- a/src/util/contracts.h
+++ b/src/util/contracts.h
@@ -16,11 +16,13 @@
 #define C4_LOOP_INVARIANT(...) __CPROVER_loop_invariant((__VA_ARGS__)) // holds before and after every iteration
 #define C4_LOOP_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)        // bounded and decreasing: termination
 #define C4_GHOST(...)          __VA_ARGS__                             // specification-only statement
+#define C4_RECURSE(fn)         spec_##fn                               // recursive call: by the contract of the function
 #else
 #define C4_LOOP_ASSIGNS(...)
 #define C4_LOOP_INVARIANT(...)
 #define C4_LOOP_DECREASES(...)
 #define C4_GHOST(...)
+#define C4_RECURSE(fn) fn
 #endif
 
 #endif
diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..c67047a 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -21,6 +21,7 @@
  * SPDX-License-Identifier: MIT
  */
 
+#include "contracts.h"
 #include "crypto.h"
 #include "ssz.h"
 #include <stdlib.h>
@@ -537,11 +538,21 @@ typedef struct {
 } merkle_proof_data_t;
 
 static bytes_t merkle_get_data(merkle_proof_data_t* proof, gindex_t idx) {
-  for (uint32_t i = 0; i < proof->leafes_len; i++) {
+  // clang-format off
+  for (uint32_t i = 0; i < proof->leafes_len; i++)
+    C4_LOOP_ASSIGNS(i)
+    C4_LOOP_INVARIANT(i <= proof->leafes_len)
+    C4_LOOP_DECREASES(proof->leafes_len - i)
+  { // clang-format on
     if (proof->leafes_gindex[i] == idx)
       return bytes_slice(proof->leafes_data, i * SSZ_BYTES_PER_CHUNK, SSZ_BYTES_PER_CHUNK);
   }
-  for (uint32_t i = 0; i < proof->witnesses_len; i++) {
+  // clang-format off
+  for (uint32_t i = 0; i < proof->witnesses_len; i++)
+    C4_LOOP_ASSIGNS(i)
+    C4_LOOP_INVARIANT(i <= proof->witnesses_len)
+    C4_LOOP_DECREASES(proof->witnesses_len - i)
+  { // clang-format on
     if (proof->witnesses_gindex[i] == idx)
       return bytes_slice(proof->witnesses_data, i * SSZ_BYTES_PER_CHUNK, SSZ_BYTES_PER_CHUNK);
   }
@@ -567,20 +578,37 @@ static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t en
   if (start_data.len != 32) return false;
   memcpy(out, start_data.data, 32);
 
-  while (start > end) {
+  // clang-format off
+  while (start > end)
+    C4_LOOP_ASSIGNS(start, __CPROVER_object_whole(out), __CPROVER_object_whole(tmp), __CPROVER_object_whole(spec_node))
+    C4_LOOP_INVARIANT(spec_below(start, end) && spec_value(out, start))
+    C4_LOOP_DECREASES(start)
+  { // clang-format on
+    C4_GHOST(spec_parent(start);)
     gindex_t witness      = start & 1 ? start - 1 : start + 1;
     bytes_t  witness_data = merkle_get_data(proof, witness);
     if (witness_data.data == NULL) {
       // how do we find the start for calculating this witness?
-      for (int i = 0; i < proof->leafes_len && witness_data.data == NULL; i++) {
+      // clang-format off
+      for (int i = 0; i < proof->leafes_len && witness_data.data == NULL; i++)
+        C4_LOOP_ASSIGNS(i, witness_data, __CPROVER_object_whole(tmp))
+        C4_LOOP_INVARIANT(i >= 0 && i <= proof->leafes_len && spec_found(witness_data, tmp, witness))
+        C4_LOOP_DECREASES(proof->leafes_len - i)
+      { // clang-format on
         gindex_t path = proof->leafes_gindex[i];
-        for (; path > 1; path >>= 1) {
-          if (path == witness && merkle_proof(proof, proof->leafes_gindex[i], witness, tmp)) {
+        // clang-format off
+        for (; path > 1; path >>= 1)
+          C4_LOOP_ASSIGNS(path, witness_data, __CPROVER_object_whole(tmp))
+          C4_LOOP_INVARIANT(witness_data.data == NULL && spec_below(proof->leafes_gindex[i], path))
+          C4_LOOP_DECREASES(path)
+        { // clang-format on
+          if (path == witness && C4_RECURSE(merkle_proof)(proof, proof->leafes_gindex[i], witness, tmp)) {
             witness_data = bytes(tmp, 32);
             break;
           }
         }
       }
+      C4_GHOST(spec_rebind(witness_data, tmp);)
       if (witness_data.data == NULL) return false;
     }
     if (start & 1)
-- 
2.43.0


From b2b44328862155afa11cf2cd4a3f2ee9736f8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 04/16] fix: patricia_verify: reject truncated proofs and
 malformed nodes, resolve embedded nodes correctly

- a proof ending with an extension node (or an empty proof) was reported as PATRICIA_FOUND with the hash as value
- the embedded child for nibble 0 of a branch was read from memory in front of the node
- the last-node flag of embedded nodes was derived from the path (or from stack memory) instead of the proof
- results of rlp_decode were ignored, an empty path item was dereferenced, short hashes were accepted
---
 src/chains/eth/verifier/patricia.c | 44 ++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..3d1b3ed 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,13 +61,24 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
+// the complete rlp (including its prefix) of the embedded node found as item `index` with the content `val` in the node.
+static bytes_t embedded_node(bytes_t* node, int index, bytes_t val) {
+  bytes_t  prev  = NULL_BYTES;
+  uint8_t* start = node->data;
+  if (index > 0) {
+    rlp_decode(node, index - 1, &prev);
+    start = prev.data + prev.len;
+  }
+  return bytes(start, val.data + val.len - start);
+}
+
 static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+  bytes_t val  = NULL_BYTES;
+  bytes_t node = NULL_BYTES;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
+  if (rlp_decode(raw, 0, &node) != RLP_LIST) return 0;
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
@@ -78,20 +89,21 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
       }
 
       if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
+        node = embedded_node(&node, **k, val);
         *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+        return handle_node(&node, k, last_node, last_val, next_hash, depth);
       }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
+      else if (val.len == 0) // we got a NULL, which means value does not exists
         return 2;
+      else if (val.len != 32) // neither a hash nor an embedded node
+        return 0;
       else
         memcpy(next_hash, val.data, 32); // the hash of the next node
       *k += 1;
       return 1;
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
@@ -104,12 +116,12 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
 
         *k += np_len;
         if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
+          if (is_leaf) return 0;                      // a leaf holds a value, not a node
+          node = embedded_node(&node, 1, val);
+          return handle_node(&node, k, last_node, last_val, next_hash, depth);
         }
+        else if (!is_leaf && val.len != 32) // the next node of an extension is either embedded or a hash
+          return 0;
         else if (**k == 0xFF) { // we reached the end of the path
           if (is_leaf) {
             *last_val = val;
@@ -120,7 +132,7 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
 
           // follow the extension, which should lead to branch with the value.
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          memcpy(next_hash, val.data, 32);
           return 1;
 
           //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
@@ -129,7 +141,7 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
           return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
         else {                      // it is an extension and we follow the extension to the branch.
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          memcpy(next_hash, val.data, 32);
           return 1;
         }
       }
@@ -164,6 +176,8 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
     if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
+  if (result == 1) result = 0; // the proof ended before the value or the missing key was reached
+
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
-- 
2.43.0


From a05c3301cd61dadbd09c50469a460241e80c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:07 +0000
Subject: [PATCH 05/16] hook: loop contracts of the patricia proof verification

---
 src/chains/eth/verifier/patricia.c | 33 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 3d1b3ed..7113a47 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -22,6 +22,7 @@
  */
 
 #include "patricia.h"
+#include "contracts.h"
 #include "crypto.h"
 #include "rlp.h"
 #include "ssz.h"
@@ -35,14 +36,24 @@
 #define NODE_EXTENSION 3
 
 static int patricia_match_nibbles(uint8_t* a, uint8_t* b) {
-  for (int i = 0;; i++) {
+  // clang-format off
+  for (int i = 0;; i++)
+    C4_LOOP_ASSIGNS(i)
+    C4_LOOP_INVARIANT(spec_match(a, b, i))
+    C4_LOOP_DECREASES(spec_count - i)
+  { // clang-format on
     if (a[i] == 0xff || b[i] == 0xff || a[i] != b[i]) return i;
   }
   return -1;
 }
 
 static int count_nibbles(uint8_t* a) {
-  for (int n = 0;; n++) {
+  // clang-format off
+  for (int n = 0;; n++)
+    C4_LOOP_ASSIGNS(n)
+    C4_LOOP_INVARIANT(n >= 0 && n <= spec_count)
+    C4_LOOP_DECREASES(spec_count - n)
+  { // clang-format on
     if (a[n] == 0xFF) return n;
   }
 }
@@ -50,7 +61,12 @@ static int count_nibbles(uint8_t* a) {
 static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   size_t   count   = 0;
   uint8_t* nibbles = safe_calloc(1 + (p.len << 1), 1);
-  for (size_t i = 0; i < p.len; i++) {
+  // clang-format off
+  for (size_t i = 0; i < p.len; i++)
+    C4_LOOP_ASSIGNS(i, count, __CPROVER_object_whole(nibbles))
+    C4_LOOP_INVARIANT(i <= p.len && count == spec_nibbles(p, prefix, i) && spec_nibble_at(p, prefix, nibbles, count))
+    C4_LOOP_DECREASES(p.len - i)
+  { // clang-format on
     nibbles[count++] = p.data[i] >> 4;
     nibbles[count++] = p.data[i] & 0x0F;
     if (prefix && i == 0)
@@ -91,7 +107,7 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
       if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
         node = embedded_node(&node, **k, val);
         *k += 1;
-        return handle_node(&node, k, last_node, last_val, next_hash, depth);
+        return C4_RECURSE(handle_node)(&node, k, last_node, last_val, next_hash, depth);
       }
       else if (val.len == 0) // we got a NULL, which means value does not exists
         return 2;
@@ -118,7 +134,7 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
           if (is_leaf) return 0;                      // a leaf holds a value, not a node
           node = embedded_node(&node, 1, val);
-          return handle_node(&node, k, last_node, last_val, next_hash, depth);
+          return C4_RECURSE(handle_node)(&node, k, last_node, last_val, next_hash, depth);
         }
         else if (!is_leaf && val.len != 32) // the next node of an extension is either embedded or a hash
           return 0;
@@ -162,7 +178,12 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
 
   uint32_t proof_len = ssz_len(proof);
   size_t   depth     = 0;
-  for (uint32_t i = 0; i < proof_len; i++) {
+  // clang-format off
+  for (uint32_t i = 0; i < proof_len; i++)
+    C4_LOOP_ASSIGNS(i, result, key, last_value, depth, spec_chain, __CPROVER_object_whole(expected_hash), __CPROVER_object_whole(node_hash), __CPROVER_object_upto(root, 32))
+    C4_LOOP_INVARIANT(result == 1 && i <= proof_len && spec_chain_at(i, key, expected_hash, root, depth))
+    C4_LOOP_DECREASES(proof_len - i)
+  { // clang-format on
     ssz_ob_t witness = ssz_at(proof, i);
     keccak(witness.bytes, node_hash);
     if (i == 0) {
-- 
2.43.0


From d03e8afe0963a04913ace726c250c22f2d45aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:50 +0000
Subject: [PATCH 06/16] fix: ssz: validate containers, bit lists and list
 limits completely, keep ssz_at and ssz_get inside the object

- a dynamic container shorter than its fixed part was accepted and read behind its end
- the offsets used by ssz_at / ssz_get for objects that were not validated were not checked
- bit lists without delimiter (or empty) were accepted, ssz_len read in front of the data
- the maximum number of elements of lists with dynamic elements was not checked, lists ending with an empty element were rejected
---
 src/util/ssz.c        | 29 ++++++++++++++++++++++-------
 src/util/ssz_merkle.c |  7 ++++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..e64cafa 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -87,6 +87,16 @@ size_t ssz_fixed_length(const ssz_def_t* def) {
   }
 }
 
+/**
+ * The size of the fixed part of a container, where dynamic fields are represented by their offset.
+ */
+static size_t container_fixed_part(const ssz_def_t* def) {
+  size_t len = 0;
+  for (int i = 0; i < def->def.container.len; i++)
+    len += ssz_fixed_length(def->def.container.elements + i);
+  return len;
+}
+
 /**
  * Helper function for error handling in validation.
  * Prints error message and returns false.
@@ -143,12 +153,13 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
           THROW_INVALID("Invalid first offset for list");
+        if (first_offset / SSZ_OFFSET_SIZE > ob.def->def.vector.len) THROW_INVALID("Too many elements in list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
@@ -170,14 +181,15 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Bit vector length must match definition exactly
       RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list length can be up to max length, the last byte must contain the delimiter bit
+      RETURN_VALID_IF(ob.bytes.len > 0 && ob.bytes.data[ob.bytes.len - 1] != 0 && ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_part = container_fixed_part(ob.def);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_part) : (ob.bytes.len != fixed_part)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
@@ -186,8 +198,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
           const ssz_def_t* def = ob.def->def.container.elements + i;
           if (ssz_is_dynamic(def)) {
             uint32_t offset = uint32_from_le(ob.bytes.data + pos);
-            // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
-            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
+            // Validate offset: must be within bounds, start right after the fixed portion, and monotonically increasing
+            if (offset > ob.bytes.len || (last_ob.def ? offset < last_offset : offset != fixed_part))
               THROW_INVALID("Invalid offset for container");
             if (last_ob.def) {
               last_ob.bytes = bytes(ob.bytes.data + last_offset, offset - last_offset);
@@ -247,6 +259,7 @@ uint32_t ssz_len(ssz_ob_t ob) {
     case SSZ_TYPE_BIT_VECTOR:
       return ob.bytes.len * 8;
     case SSZ_TYPE_BIT_LIST: {
+      if (ob.bytes.len == 0) return 0;
       uint8_t last_bit = ob.bytes.data[ob.bytes.len - 1];
       if (last_bit == 1) return ob.bytes.len * 8 - 8;
       for (int i = 7; i >= 0; i--) {
@@ -270,8 +283,10 @@ ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t index) {
     return res;
 
   if (ssz_is_dynamic(ob.def->def.vector.type)) {
+    if (((uint64_t) (index < len - 1 ? index + 2 : index + 1)) * SSZ_OFFSET_SIZE > ob.bytes.len) return res; // offsets must be part of the object
     uint32_t offset     = uint32_from_le(ob.bytes.data + index * SSZ_OFFSET_SIZE);
     uint32_t end_offset = index < len - 1 ? uint32_from_le(ob.bytes.data + (index + 1) * SSZ_OFFSET_SIZE) : ob.bytes.len;
+    if (offset > end_offset || end_offset > ob.bytes.len) return res;
     return (ssz_ob_t) {
         .def   = ob.def->def.vector.type,
         .bytes = bytes(ob.bytes.data + offset, end_offset - offset)};
diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index c67047a..25b20ae 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -204,9 +204,10 @@ static ssz_ob_t ssz_get_field(ssz_ob_t* ob, int index) {
           if (ssz_is_dynamic(ob->def->def.container.elements + n)) {
             if (pos + 4 > ob->bytes.len) return (ssz_ob_t) {0};
 
-            offset = uint32_from_le(ob->bytes.data + pos);
-            if (offset < ob->bytes.len)
-              res.bytes.len = ob->bytes.data + offset - res.bytes.data;
+            uint32_t end = uint32_from_le(ob->bytes.data + pos);
+            if (end < offset) return (ssz_ob_t) {0};
+            if (end < ob->bytes.len)
+              res.bytes.len = end - offset;
             break;
           }
           pos += ssz_fixed_length(ob->def->def.container.elements + n);
-- 
2.43.0


From 5c792a0b350211e355f6408259c64dd8d066c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 07/16] hook: loop contracts of ssz_get_field

---
 src/util/ssz_merkle.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 25b20ae..c3bb762 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -184,7 +184,12 @@ static ssz_ob_t ssz_get_field(ssz_ob_t* ob, int index) {
   // iterate over the fields of the container
   size_t           pos = 0;
   const ssz_def_t* def = NULL;
-  for (int i = 0; i < ob->def->def.container.len; i++) {
+  // clang-format off
+  for (int i = 0; i < ob->def->def.container.len; i++)
+    C4_LOOP_ASSIGNS(i, pos, def, res)
+    C4_LOOP_INVARIANT(i >= 0 && i <= index && pos == spec_field_at(i) && pos <= ob->bytes.len && spec_no_field(res))
+    C4_LOOP_DECREASES(index + 1 - i)
+  { // clang-format on
     def        = ob->def->def.container.elements + i;
     size_t len = ssz_fixed_length(def);
 
@@ -200,7 +205,12 @@ static ssz_ob_t ssz_get_field(ssz_ob_t* ob, int index) {
         pos += len;
 
         // find next offset
-        for (int n = i + 1; n < ob->def->def.container.len; n++) {
+        // clang-format off
+        for (int n = i + 1; n < ob->def->def.container.len; n++)
+          C4_LOOP_ASSIGNS(n, pos, res.bytes.len)
+          C4_LOOP_INVARIANT(n > i && n <= spec_next_dynamic && pos == spec_field_at(n) && pos <= (uint64_t) n << 32 && res.bytes.len == ob->bytes.len - offset)
+          C4_LOOP_DECREASES(spec_next_dynamic - n)
+        { // clang-format on
           if (ssz_is_dynamic(ob->def->def.container.elements + n)) {
             if (pos + 4 > ob->bytes.len) return (ssz_ob_t) {0};
 
-- 
2.43.0


From 898323c4be1d824c9ca4a8198de34c3a6ff50074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:04 +0000
Subject: [PATCH 08/16] fix: historic header proofs must use the position of a
 block root in the historical summaries

---
 src/chains/eth/verifier/beacon_header.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..3704d2a 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -118,9 +118,19 @@ static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header,
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
+  gindex_t  gindex        = ssz_get_uint64(&historic_proof, "gindex");
+
+  // the gindex must point to a block root within the historical_summaries (field 27) of the state:
+  // field | data of the list (1 bit) | summary index (24 bits) | block_summary_root (1 bit) | block index (13 bits)
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec) THROW_ERROR("unsupported chain id!");
+  fork_id_t fork           = c4_chain_fork_id(ctx->chain_id, epoch_for_slot(ssz_get_uint64(&signed_header, "slot"), spec));
+  gindex_t  summaries_gidx = (fork >= C4_FORK_ELECTRA ? 64 : 32) + 27;
+  if (gindex >> 39 != summaries_gidx || (gindex >> 38) & 1 || (gindex >> 13) & 1)
+    THROW_ERROR("invalid gindex for historic proof!");
 
   ssz_hash_tree_root(header, block_root);
-  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
+  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, gindex, state_root);
 
   if (memcmp(state_root, ssz_get(&signed_header, "stateRoot").bytes.data, 32))
     THROW_ERROR("invalid state root for historic proof!");
-- 
2.43.0


From b610ad62795454d37070914bf7419d9975ec5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:22 +0000
Subject: [PATCH 09/16] fix: account proofs: bind block hash, storage key,
 values and method to the request, keep storage values inside their buffer

---
 src/chains/eth/verifier/eth_account.c         | 67 +++++++++----------
 .../eth/verifier/verify_account_proof.c       |  8 ++-
 src/chains/op/verifier/op_verify_account.c    |  8 ++-
 3 files changed, 40 insertions(+), 43 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..d15e23f 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,8 +56,9 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
+  if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
+  if (values.len > len * 32 && !bytes_all_zero(bytes(storage_hash, 32)) && memcmp(storage_hash, EMPTY_ROOT_HASH, 32)) RETURN_VERIFY_ERROR(ctx, "missing storage proof!");
   if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
@@ -69,8 +70,10 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM) {
+      if (leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
+    }
   }
 
   return true;
@@ -122,25 +125,17 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// returns the value of the key or NULL_BYTES if the (already verified) proof shows that it does not exist
+static bytes_t get_leaf(bytes_t key, ssz_ob_t proof) {
+  bytes32_t path = {0};
+  bytes32_t root = {0};
+  bytes_t   leaf = {0};
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_FOUND ? leaf : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_leaf(ssz_get(&storage, "key").bytes, ssz_get(&storage, "proof"));
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -149,7 +144,7 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_leaf(ssz_get(&account, "address").bytes, ssz_get(&account, "accountProof"));
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -285,7 +280,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
@@ -309,32 +304,29 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
-}
-
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
       case ETH_ACCOUNT_CODE_HASH: RETURN_VERIFY_ERROR(ctx, "no code included!");
       case ETH_ACCOUNT_STORAGE_HASH: {
+        ssz_ob_t  storage_proofs = ssz_get(&ctx->proof, "storageProof");
+        ssz_ob_t  storage        = ssz_at(storage_proofs, 0);
+        bytes_t   req_key        = NULL_BYTES;
+        bytes32_t key            = {0};
+        bytes32_t tmp            = {0};
+        buffer_t  key_buf        = stack_buffer(tmp);
+        if (ssz_len(storage_proofs)) { // without storage there is no proof and the value of all keys is zero
+          json_t arg = json_at(ctx->args, 1);
+          if (arg.type == JSON_TYPE_STRING && arg.len <= 68) req_key = json_as_bytes(arg, &key_buf);
+          if (req_key.data) memcpy(key + 32 - req_key.len, req_key.data, req_key.len);
+          if (!req_key.data || !bytes_eq(bytes(key, 32), ssz_get(&storage, "key").bytes)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage key in request");
+        }
 
         ssz_builder_t builder = ssz_builder_for_type(ETH_SSZ_DATA_HASH32);
         buffer_append(&builder.fixed, values);
@@ -351,7 +343,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_leaf(bytes(verified_address, 20), ssz_get(&ctx->proof, "accountProof"));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
@@ -392,6 +384,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else if (field == ETH_ACCOUNT_CODE_HASH) {
+    if (data.def != eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) RETURN_VERIFY_ERROR(ctx, "invalid data!");
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..23dc414 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -51,16 +51,18 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
+  uint32_t            values_len       = 32 * (storage_keys_len ? storage_keys_len : 1); // at least one word, because it is also used for the storage hash
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(values_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(values_len), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
+  if (!field) RETURN_VERIFY_ERROR(ctx, "invalid method for account proof!");
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
   if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
   if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
-  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
+  if (!eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
 
   ctx->success = true;
   return true;
diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 3cc5c5a..487e38e 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -51,15 +51,17 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
+  uint32_t            values_len       = 32 * (storage_keys_len ? storage_keys_len : 1); // at least one word, because it is also used for the storage hash
   json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(values_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(values_len), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
+  if (!field) RETURN_VERIFY_ERROR(ctx, "invalid method for account proof!");
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
+  if (!eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
 
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
-- 
2.43.0


From 56e7e42057acbede972771b6ae3cfe3b6286e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:34 +0000
Subject: [PATCH 10/16] fix: the type of beacon headers is needed by the
 verifier, too (proofs with linked headers)

---
 src/chains/eth/ssz/beacon_denep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..91a23be 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -312,9 +312,9 @@ const ssz_def_t* eth_ssz_type_for_denep(eth_ssz_type_t type, chain_id_t chain_id
       return is_gnosis_chain(chain_id)
                  ? &BEACON_BLOCK_BODY_GNOSIS_CONTAINER
                  : &BEACON_BLOCK_BODY_CONTAINER;
+#endif
     case ETH_SSZ_BEACON_BLOCK_HEADER:
       return &BEACON_BLOCKHEADER_CONTAINER;
-#endif
 
     default:
       return eth_ssz_verification_type(type);
-- 
2.43.0


From aeeed8f7dc59d146f1b93557af1e5324677cbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:59 +0000
Subject: [PATCH 11/16] fix: block proofs answer block requests only, never
 return the unverified block given by the prover

---
 src/chains/eth/verifier/verify_block.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..f8078cb 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,8 +84,6 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
@@ -133,7 +131,12 @@ static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_bl
   return true;
 }
 
+static bool is_method(verify_ctx_t* ctx, const char* method) {
+  return ctx->method && strcmp(ctx->method, method) == 0;
+}
+
 bool verify_block_proof(verify_ctx_t* ctx) {
+  if (!is_method(ctx, "eth_getBlockByHash") && !is_method(ctx, "eth_getBlockByNumber")) RETURN_VERIFY_ERROR(ctx, "invalid method for block proof!");
 
   json_t    block_number      = json_at(ctx->args, 0);
   bool      include_txs       = json_as_bool(json_at(ctx->args, 1));
@@ -167,6 +170,7 @@ static bool verify_block_number_merkle_proof(verify_ctx_t* ctx, bytes_t proof, b
 }
 
 bool verify_block_number_proof(verify_ctx_t* ctx) {
+  if (!is_method(ctx, "eth_blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid method for block number proof!");
 
   bytes32_t body_root    = {0};
   ssz_ob_t  block_number = ssz_get(&ctx->proof, "blockNumber");
@@ -175,7 +179,7 @@ bool verify_block_number_proof(verify_ctx_t* ctx) {
   ssz_ob_t  header       = ssz_get(&ctx->proof, "header");
 
   // calculate the tree root of the execution payload
-  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
+  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid merkle proof!");
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
 
-- 
2.43.0


From 000072fd8cdef2613bcc3a94c73053d5dc3839d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:36 +0000
Subject: [PATCH 12/16] fix: c4_verify reports success only if the verification
 succeeded

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 src/verifier/verify.c                  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..020979c 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -43,9 +43,9 @@ c4_status_t c4_verify_init(verify_ctx_t* ctx, bytes_t request_bytes, char* metho
   chain_type_t chain_type = c4_chain_type(chain_id);
   // Input validation
   if (!ctx) return C4_ERROR;
+  memset(ctx, 0, sizeof(verify_ctx_t));
   if (!method) THROW_ERROR("method cannot be NULL");
 
-  memset(ctx, 0, sizeof(verify_ctx_t));
   if (request_bytes.len == 0) {
     method_type_t method_type = c4_get_method_type(chain_id, method);
     if (method_type == METHOD_UNDEFINED)
@@ -88,7 +88,10 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
 
-  return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
+  if (ctx->state.error) return C4_ERROR;
+  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
+  if (!ctx->success) THROW_ERROR("verification failed");
+  return C4_SUCCESS;
 }
 
 chain_type_t c4_get_chain_type_from_req(bytes_t request_bytes) {
-- 
2.43.0


From 7025f3ca2080ce812c03f9582d23007837d20d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:35 +0000
Subject: [PATCH 13/16] fix: tx, receipt and logs proofs answer only their own
 methods and data types, verify the logs of eth_verifyLogs, reject indexes
 beyond the list of transactions

---
 src/chains/eth/verifier/eth_tx.h               |  3 ++-
 src/chains/eth/verifier/verify_logs_proof.c    | 16 ++++++++++++----
 src/chains/eth/verifier/verify_receipt_proof.c |  3 +++
 src/chains/eth/verifier/verify_tx_proof.c      |  1 +
 src/chains/op/verifier/op_verify_logs.c        | 17 +++++++++++------
 src/chains/op/verifier/op_verify_receipt.c     |  2 ++
 6 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..741aefa 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -34,6 +34,7 @@ extern "C" {
 #define GINDEX_BLOCKUMBER   806
 #define GINDEX_BLOCHASH     812
 #define GINDEX_TXINDEX_G    1704984576L // gindex of the first tx
+#define MAX_TX_PER_BLOCK    1048576     // the max number of transactions in a execution payload, the gindexes following are not transactions
 
 /*
    SSZ_BYTES32("blockHash"),                                                  // the blockHash of the execution block containing the transaction
@@ -46,7 +47,7 @@ extern "C" {
     SSZ_BYTES32("r"),                                                          // the r value of the transaction
     SSZ_BYTES32("s"),                                                          // the s value of the transaction
     SSZ_UINT32("chainId"),                                                     // the s value of the transaction
-    SSZ_UINT8("v"),                                                            // the v value of the transaction
+    SSZ_UINT64("v"),                                                           // the v value of the transaction
     SSZ_UINT64("gas"),                                                         // the gas limnit
     SSZ_ADDRESS("from"),                                                       // the sender of the transaction
     SSZ_BYTES("to", 20),                                                       // the target of the transaction
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..e64b163 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,10 +83,7 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
+  if (ssz_uint32(tidx) >= MAX_TX_PER_BLOCK) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
 
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
@@ -136,6 +133,17 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
 }
 
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  // the logs to verify are given by the request or (in case of eth_getLogs) by the prover
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    if (ctx->data.def->type == SSZ_TYPE_NONE) {
+      ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+      ctx->flags |= VERIFY_FLAG_FREE_DATA;
+      if (ctx->state.error) return false;
+    }
+    else if (!(ctx->flags & VERIFY_FLAG_FREE_DATA)) RETURN_VERIFY_ERROR(ctx, "data must be empty!"); // not created by us before the request was pending
+  }
+  else if (ctx->method && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid data for logs proof!");
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..f504250 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -66,6 +66,9 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (ctx->method && strcmp(ctx->method, "eth_getTransactionReceipt")) RETURN_VERIFY_ERROR(ctx, "invalid method for receipt proof!");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "invalid data for receipt proof!");
+  if (tx_index >= MAX_TX_PER_BLOCK) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..6ee3021 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -108,6 +108,7 @@ bool verify_tx_proof(verify_ctx_t* ctx) {
   ssz_ob_t body_root        = ssz_get(&header, "bodyRoot");
   ssz_ob_t base_fee_per_gas = ssz_get(&ctx->proof, "baseFeePerGas");
 
+  if (ssz_uint32(tx_index) >= MAX_TX_PER_BLOCK) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!verify_args(ctx, raw.bytes, ssz_uint32(tx_index), block_hash.bytes.data)) return false;
   if (!verify_merkle_proof(ctx, tx_proof, block_hash.bytes, block_number.bytes, base_fee_per_gas.bytes, raw.bytes, ssz_uint32(tx_index), body_root.bytes.data)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..f70974b 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,12 +40,6 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
@@ -117,6 +111,17 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 }
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
+  // the logs to verify are given by the request or (in case of eth_getLogs) by the prover
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    if (ctx->data.def->type == SSZ_TYPE_NONE) {
+      ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+      ctx->flags |= VERIFY_FLAG_FREE_DATA;
+      if (ctx->state.error) return false;
+    }
+    else if (!(ctx->flags & VERIFY_FLAG_FREE_DATA)) RETURN_VERIFY_ERROR(ctx, "data must be empty!"); // not created by us before the request was pending
+  }
+  else if (ctx->method && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid data for logs proof!");
 
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
diff --git a/src/chains/op/verifier/op_verify_receipt.c b/src/chains/op/verifier/op_verify_receipt.c
index 440c8d7..b8c5e41 100644
--- a/src/chains/op/verifier/op_verify_receipt.c
+++ b/src/chains/op/verifier/op_verify_receipt.c
@@ -54,6 +54,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
 }
 
 bool op_verify_receipt_proof(verify_ctx_t* ctx) {
+  if (ctx->method && strcmp(ctx->method, "eth_getTransactionReceipt")) RETURN_VERIFY_ERROR(ctx, "invalid method for receipt proof!");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "invalid data for receipt proof!");
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t  receipt_proof     = ssz_get(&ctx->proof, "receipt_proof");
   ssz_ob_t  block_proof       = ssz_get(&ctx->proof, "block_proof");
-- 
2.43.0


From 01928091cf6854bf60abdd910af41670f30d0eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:35 +0000
Subject: [PATCH 14/16] fix: receipts: compare type and the transaction of the
 logs, reject malformed transactions and receipts instead of reading or
 writing out of bounds

---
 src/chains/eth/verifier/eth_tx.c | 32 +++++++++++++++++---------------
 src/util/ssz_builder.c           |  1 +
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..020ab6b 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -183,10 +183,12 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
 }
 
 INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address) {
-  buffer_t  buf      = {0};
-  bytes32_t raw_hash = {0};
-  bytes_t   last_item;
-  tx_type_t type = 0;
+  buffer_t  buf       = {0};
+  bytes32_t raw_hash  = {0};
+  bytes_t   last_item = {0};
+  bytes_t   r         = {0};
+  bytes_t   s         = {0};
+  tx_type_t type      = 0;
   if (!get_and_remove_tx_type(ctx, &raw_tx, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing type!");
   if (rlp_decode(&raw_tx, 0, &raw_tx) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   const rlp_type_defs_t* defs_ptr = get_tx_type_defs(type);
@@ -198,7 +200,8 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if (rlp_decode(&raw_tx, -1, NULL) != (int) defs.len || rlp_decode(&raw_tx, defs.len - 4, &last_item) < RLP_SUCCESS ||
+      rlp_decode(&raw_tx, defs.len - 2, &r) != RLP_ITEM || r.len > 32 || rlp_decode(&raw_tx, defs.len - 1, &s) != RLP_ITEM || s.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,10 +228,8 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
-  memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
-  memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
+  memcpy(sig + 32 - r.len, r.data, r.len);
+  memcpy(sig + 64 - s.len, s.data, s.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
   if (!secp256k1_recover(raw_hash, bytes(sig, 65), pubkey)) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
@@ -282,12 +283,11 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = (int) rlp_decode(&logs, -1, &logs);
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
-    rlp_decode(&logs, i, &log_rlp);
-    if (matches(log, log_rlp)) return true;
+    if (rlp_decode(&logs, i, &log_rlp) == RLP_LIST && matches(log, log_rlp)) return true;
   }
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
@@ -301,7 +301,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -336,6 +336,8 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
@@ -489,7 +491,7 @@ static ssz_builder_t build_access_list_ssz(verify_ctx_t* ctx, bytes_t rlp_access
         ssz_builder_free(&access_list_builder);
         return (ssz_builder_t) {0};
       }
-      if (rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM) {
+      if (rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM || address_rlp.len != 20) {
         c4_state_add_error(&ctx->state, "build_access_list_ssz: Failed to decode access list address");
         ssz_builder_free(&entry_builder);
         ssz_builder_free(&access_list_builder);
diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..9e21b18 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32); // only 256 bits fit
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
-- 
2.43.0


From 1f811e1387e2daf14340c71118daf1fadb15f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:35 +0000
Subject: [PATCH 15/16] fix: transactions: v and chain id of legacy
 transactions, mint of deposits

---
 src/chains/eth/ssz/verify_data_types.h |  2 +-
 src/chains/eth/verifier/eth_tx.c       | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index ac2a438..c8194a8 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -108,7 +108,7 @@ static const ssz_def_t ETH_TX_DATA[] = {
     SSZ_BYTES32("r"),                                                          // the r value of the transaction
     SSZ_BYTES32("s"),                                                          // the s value of the transaction signature
     SSZ_UINT32("chainId"),                                                     // the chain ID of the transaction
-    SSZ_UINT8("v"),                                                            // the v value of the transaction signature
+    SSZ_UINT64("v"),                                                           // the v value of the transaction signature (includes the chainId for legacy transactions)
     SSZ_UINT64("gas"),                                                         // the gas limit
     SSZ_ADDRESS("from"),                                                       // the sender of the transaction
     SSZ_BYTES("to", 20),                                                       // the target of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 020ab6b..5cb9274 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -699,7 +699,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   bytes_t  rlp_tx_sig_y_parity              = {0};
   bytes_t  rlp_v_field                      = {0};
   uint8_t  tx_sig_y_parity                  = 0;
-  uint8_t  v_for_ssz                        = 0;
+  uint64_t v_for_ssz                        = 0;
   uint32_t chain_id                         = 0;
   uint64_t gas_price_rlp_val                = 0;
   uint64_t max_priority_fee_per_gas_rlp_val = 0;
@@ -729,10 +729,9 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    v_for_ssz       = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity = (v_for_ssz + 1) % 2;
+    chain_id        = v_for_ssz < 35 ? 1 : (uint32_t) ((v_for_ssz - 35) / 2);
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
@@ -783,7 +782,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   }
 
   ssz_add_uint32(buffer, chain_id);
-  ssz_add_uint8(buffer, v_for_ssz);
+  ssz_add_uint64(buffer, v_for_ssz);
   ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gas", RLP_ITEM)));
   ssz_add_bytes(buffer, "from", bytes(from_address, 20));
   ssz_add_bytes(buffer, "to", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "to", RLP_ITEM));
@@ -823,7 +822,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     for (int i = 0; i < actual_len; i++) {
       mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
     }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_bytes(buffer, "mint", bytes(mint_le, 32));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
-- 
2.43.0


From 9ca85b671ca97722110ed9b5709fd2614f66f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:16 +0000
Subject: [PATCH 16/16] fix: builds without messages freed the literal error
 message and kept the success flag

---
 src/verifier/verify.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/verifier/verify.h b/src/verifier/verify.h
index 9d5412f..ad4a57c 100644
--- a/src/verifier/verify.h
+++ b/src/verifier/verify.h
@@ -183,10 +183,11 @@ method_type_t c4_get_method_type(chain_id_t chain_id, char* method);
     return false;                         \
   } while (0)
 #else
-#define RETURN_VERIFY_ERROR(ctx, msg) \
-  do {                                \
-    ctx->state.error = "E";           \
-    return false;                     \
+#define RETURN_VERIFY_ERROR(ctx, msg)     \
+  do {                                    \
+    c4_state_add_error(&ctx->state, "E"); \
+    ctx->success = false;                 \
+    return false;                         \
   } while (0)
 #endif
 
-- 
2.43.0

