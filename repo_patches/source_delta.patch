From e6acd657c8017d0c688f6c9711b3d9c96b5972ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 1/6] fix: write stored-block lengths little-endian, as they
 are read

---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From c4bb1e9c39e0cf7a1bcf8bc82548345d0411a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 2/6] fix: clear the popped bit, so it cannot come back with
 the next push

---
 lib/src/bit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 94eeed7..06c1de2 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -234,8 +234,12 @@ impl BitVec {
 
         self.len -= 1;
 
-        if self.len % WORD_SIZE == 0 {
+        let bit = self.len % WORD_SIZE;
+        if bit == 0 {
             self.bytes.pop();
+        } else {
+            // push() and Eq expect the bits past the end to be clear
+            self.bytes[self.len / WORD_SIZE] &= !(1 << bit);
         }
 
         Some(answer)
-- 
2.43.0


From b6d4ca0cc22cd3fc8f795bbdc453273c83343445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 3/6] fix: restore literals from the right position when there
 is a preroll

---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From a13aea6bdf85b6a78804b93bd8124295bdd1a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 4/6] fix: dumping a full window of the largest capacity
 overflowed

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From 0573896de41faabb0fa2735e0afdf28e2d69740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 5/6] fix: zero wrote a stored block of 65536 bytes with length
 0

---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..52995c1 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// The longest block that fits in the 16-bit length of a stored block.
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From a25f04de82861193a64b8ad2f7da4975019f26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 6/6] verification hook: re-export crate-private items under
 cfg(rezip_verif)

---
 lib/src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..7972d02 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -36,6 +36,38 @@ pub use crate::serialise::decompressed_codes;
 pub use crate::technique::Config;
 pub use crate::technique::Technique;
 
+/// Crate-private items, for the verification harness only (`--cfg rezip_verif`).
+#[cfg(rezip_verif)]
+#[doc(hidden)]
+#[allow(unused_imports)]
+pub mod rezip_verif {
+    pub mod bit {
+        pub use crate::bit::*;
+    }
+    pub mod code_tree {
+        pub use crate::code_tree::*;
+    }
+    pub mod huffman {
+        pub use crate::huffman::*;
+    }
+    pub mod iters {
+        pub use crate::iters::*;
+    }
+    pub mod lookahead {
+        pub use crate::lookahead::*;
+    }
+    pub mod picker {
+        pub use crate::picker::*;
+    }
+    pub mod wams {
+        pub use crate::wams::*;
+    }
+
+    pub fn new_ref(dist: u16, run: u16) -> crate::Ref {
+        crate::Ref::new(dist, run)
+    }
+}
+
 #[derive(Copy, Clone, PartialEq, Eq)]
 pub struct Ref {
     pub dist: u16,
-- 
2.43.0

