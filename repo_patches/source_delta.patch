From a573e1d2a7a5cd05f3848fb7a5e123dfbbb2935e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 1/3] fix: default-constructed backend hashers are the zero-key
 hasher

The derived Default of PortableHash, SseHash, AvxHash, NeonHash and WasmHash
produced an all-zero state instead of the state of the zero key, so
T::default() disagreed with T::new(Key::default()) and with
HighwayHasher::default().
---
 src/aarch64.rs  | 8 +++++++-
 src/portable.rs | 8 +++++++-
 src/wasm.rs     | 8 +++++++-
 src/x86/avx.rs  | 8 +++++++-
 src/x86/sse.rs  | 8 +++++++-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..2b5e93a 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -335,6 +335,12 @@ unsafe fn _mm_slli_si128_8(a: uint64x2_t) -> uint64x2_t {
     vreinterpretq_u64_u8(rotated)
 }
 
+impl Default for NeonHash {
+    fn default() -> Self {
+        unsafe { NeonHash::force_new(Key::default()) }
+    }
+}
+
 #[derive(Clone, Copy)]
 pub struct V2x64U(pub uint64x2_t);
 
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..f6d3b38 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -341,5 +341,11 @@ impl PortableHash {
     }
 }
 
+impl Default for PortableHash {
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl_write!(PortableHash);
 impl_hasher!(PortableHash);
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..a8018de 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -320,6 +320,12 @@ impl WasmHash {
     }
 }
 
+impl Default for WasmHash {
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl_write!(WasmHash);
 impl_hasher!(WasmHash);
 
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..0ceaeea 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -340,5 +340,11 @@ impl AvxHash {
     }
 }
 
+impl Default for AvxHash {
+    fn default() -> Self {
+        unsafe { AvxHash::force_new(Key::default()) }
+    }
+}
+
 impl_write!(AvxHash);
 impl_hasher!(AvxHash);
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..313a745 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -366,6 +366,12 @@ impl SseHash {
     }
 }
 
+impl Default for SseHash {
+    fn default() -> Self {
+        unsafe { SseHash::force_new(Key::default()) }
+    }
+}
+
 impl_write!(SseHash);
 impl_hasher!(SseHash);
 
-- 
2.43.0


From 12614b8a661d06b4b867f8832ec7a13cc6c8cca3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 2/3] fix: restoring a checkpoint never leaves a full packet
 pending

A count of 32 or more was clamped to 32, a state no sequence of appends can
reach: finalising it overflowed a shift in debug builds, gave different
results per backend, and an empty append changed the hash.
---
 src/portable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index f6d3b38..b8b9ef1 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -119,7 +119,8 @@ impl PortableHash {
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
+        // A full packet is never pending between calls, so neither is it after a restore
+        buffer.fill(&buffered[..(len as usize).min(PACKET_SIZE - 1)]);
 
         PortableHash {
             v0,
-- 
2.43.0


From c16d8b03c79f2fc01e663d925b4cdc2a32457a23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 3/3] fix: checkpoints do not contain already absorbed input

The whole packet buffer was serialised, including stale bytes beyond the
pending count, so equal streams had different checkpoints depending on how
they were chunked, and absorbed input leaked.
---
 src/portable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index b8b9ef1..1ed86a9 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -55,7 +55,10 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: the rest of the buffer is stale, already absorbed input
+        for (dest, src) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *dest = *src;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0

