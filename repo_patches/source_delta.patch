From 946cc6dd25e0b5e6415347497a669dd3972b4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 1/3] fix: hash the key blocks of a keyed BLAKE2sp before long
 input

The key block of each leaf was left in the leaf's own buffer, which the parallel
compression path bypasses, so any keyed input longer than 15 blocks got a wrong
hash (or a debug assertion failure). Start with the key blocks in the BLAKE2sp
buffer instead.
---
 src/blake2sp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..5b2de09 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -124,6 +124,10 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf's own buffer. Leaf input needs to go through the
+            // BLAKE2sp buffer below, and that includes the key block.
+            state.buflen = 0;
+            state.count = 0;
             state
         };
         let mut root_state = base_params
@@ -140,6 +144,16 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        // If there's a key, then the padded key block is the first input block of every leaf. Start
+        // with those blocks in the buffer, so that they get compressed before any caller input.
+        let mut buf = [0; 2 * 8 * BLOCKBYTES];
+        let mut buflen = 0;
+        if params.key_length > 0 {
+            for key_block in buf[..8 * BLOCKBYTES].chunks_mut(BLOCKBYTES) {
+                key_block[..KEYBYTES].copy_from_slice(&params.key);
+            }
+            buflen = 8 * BLOCKBYTES as u16;
+        }
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -150,8 +164,8 @@ impl State {
             leaf6: leaf_state(6),
             leaf7: leaf_state(7),
             root: root_state,
-            buf: [0; 2 * 8 * BLOCKBYTES],
-            buflen: 0,
+            buf,
+            buflen,
             compress8_fn: crate::default_compress_impl().1,
         }
     }
-- 
2.43.0


From 3a7ea09c7fb8e81183bd7f8e054e50d0895ea668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 2/3] fix: hash the key block in the SIMD hash4_exact and
 hash8_exact

The portable implementations hash the key block of keyed Params, but the SSE4.1
and AVX2 implementations only hashed the key length, so the hashes were wrong
and didn't depend on the key at all.
---
 src/avx2.rs  | 27 +++++++++++++++++++++++++--
 src/sse41.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/avx2.rs b/src/avx2.rs
index 80cd393..09aae10 100644
--- a/src/avx2.rs
+++ b/src/avx2.rs
@@ -12,6 +12,7 @@ use crate::Params;
 use crate::StateWords;
 use crate::BLOCKBYTES;
 use crate::IV;
+use crate::KEYBYTES;
 use crate::SIGMA;
 
 #[inline(always)]
@@ -727,6 +728,27 @@ pub unsafe fn hash8_exact(
     let len = input0.len();
     let mut count = 0;
 
+    // If there's a key, then the padded key block comes before the input in every message. The
+    // input is never empty, so the key block is never the last block.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        key_count = BLOCKBYTES as u64;
+        let msg_vecs = load_msg_vecs_interleave(
+            &key_block, &key_block, &key_block, &key_block, &key_block, &key_block, &key_block,
+            &key_block,
+        );
+        compress8_transposed_inline(
+            &mut h_vecs,
+            &msg_vecs,
+            load_256_from_u32(BLOCKBYTES as u32),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+        );
+    }
+
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
         // bounds are valid. Note that if these bounds were wrong, we'd get the wrong hash in any
@@ -740,8 +762,9 @@ pub unsafe fn hash8_exact(
         let msg6 = &*(input6.as_ptr().add(count) as *const Block);
         let msg7 = &*(input7.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = load_256_from_u32(count as u32);
-        let count_high = load_256_from_u32((count as u64 >> 32) as u32);
+        let total_count = count as u64 + key_count;
+        let count_low = load_256_from_u32(total_count as u32);
+        let count_high = load_256_from_u32((total_count >> 32) as u32);
         let lastblock = load_256_from_u32(if count == len { !0 } else { 0 });
         let lastnode = load_256_from_u32(if params.last_node && count == len {
             !0
diff --git a/src/sse41.rs b/src/sse41.rs
index d5975f5..265ac2d 100644
--- a/src/sse41.rs
+++ b/src/sse41.rs
@@ -3,7 +3,7 @@ use core::arch::x86::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 
-use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, OUTBYTES, SIGMA};
+use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, KEYBYTES, OUTBYTES, SIGMA};
 
 #[inline(always)]
 unsafe fn loadu(p: *const u32) -> __m128i {
@@ -731,6 +731,26 @@ pub unsafe fn hash4_exact(
     let len = input0.len();
     let mut count = 0;
 
+    // If there's a key, then the padded key block comes before the input in every message. The
+    // input is never empty, so the key block is never the last block.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        key_count = BLOCKBYTES as u64;
+        compress4_transposed_inline(
+            &mut h_vecs,
+            &key_block,
+            &key_block,
+            &key_block,
+            &key_block,
+            set1(BLOCKBYTES as u32),
+            set1(0),
+            set1(0),
+            set1(0),
+        );
+    }
+
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
         // bounds are valid. Note that if these bounds were wrong, we'd get the wrong hash in any
@@ -740,8 +760,9 @@ pub unsafe fn hash4_exact(
         let msg2 = &*(input2.as_ptr().add(count) as *const Block);
         let msg3 = &*(input3.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = set1(count as u32);
-        let count_high = set1(((count as u64) >> 32) as u32);
+        let total_count = count as u64 + key_count;
+        let count_low = set1(total_count as u32);
+        let count_high = set1((total_count >> 32) as u32);
         let lastblock = set1(if count == len { !0 } else { 0 });
         let lastnode = set1(if params.last_node && count == len {
             !0
-- 
2.43.0


From df81358cc029401b0fca0036cfbc2d954f66d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 3/3] fix: don't include the key block in State::count

count() is documented as the number of bytes input so far, but for keyed hashes
it included the 64-byte key block (8 of them for BLAKE2sp).
---
 src/blake2sp.rs | 16 +++++++++++++---
 src/lib.rs      | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 5b2de09..02c5e2f 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -87,6 +87,8 @@ pub struct State {
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
     compress8_fn: Compress8Fn,
+    // Whether the leaves and the buffer include a key block for each leaf.
+    is_keyed: bool,
 }
 
 impl State {
@@ -128,6 +130,7 @@ impl State {
             // BLAKE2sp buffer below, and that includes the key block.
             state.buflen = 0;
             state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -144,6 +147,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         // If there's a key, then the padded key block is the first input block of every leaf. Start
         // with those blocks in the buffer, so that they get compressed before any caller input.
         let mut buf = [0; 2 * 8 * BLOCKBYTES];
@@ -167,6 +171,7 @@ impl State {
             buf,
             buflen,
             compress8_fn: crate::default_compress_impl().1,
+            is_keyed: params.key_length > 0,
         }
     }
 
@@ -401,9 +406,9 @@ impl State {
         root.finalize()
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key blocks, if any, aren't included.
     pub fn count(&self) -> u64 {
-        self.leaf0.count()
+        let count = self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
             + self.leaf3.count()
@@ -411,7 +416,12 @@ impl State {
             + self.leaf5.count()
             + self.leaf6.count()
             + self.leaf7.count()
-            + self.buflen as u64
+            + self.buflen as u64;
+        if self.is_keyed {
+            count - 8 * BLOCKBYTES as u64
+        } else {
+            count
+        }
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..1df9301 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,8 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    // Whether `count` includes a key block.
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +329,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -414,9 +417,13 @@ impl State {
         self
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key block, if any, isn't included.
     pub fn count(&self) -> u64 {
-        self.count
+        if self.is_keyed {
+            self.count - BLOCKBYTES as u64
+        } else {
+            self.count
+        }
     }
 }
 
@@ -454,7 +461,9 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(),
+            self.hash_length,
+            self.last_node,
         )
     }
 }
@@ -1002,6 +1011,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0

