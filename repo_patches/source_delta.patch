From 46133467f8246c60ed5a0920b9f1b3b82f68dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 1/7] fix: use the renamed LLVM intrinsic ABI so the RISC-V
 backends compile

The abi_unadjusted feature was merged into link_llvm_intrinsics and the ABI renamed
to "llvm-intrinsic" (rust-lang/rust#161398); nightly rejects the old names, so every
RV32/RV64 build with the nightly feature and zkne+zknd failed.
---
 src/aes_riscv32.rs | 2 +-
 src/aes_riscv64.rs | 2 +-
 src/lib.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..5b34582 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -6,7 +6,7 @@ use core::{mem, slice};
 #[must_use]
 pub struct AesBlock(u32, u32, u32, u32);
 
-extern "unadjusted" {
+extern "llvm-intrinsic" {
     #[link_name = "llvm.riscv.aes32esmi"]
     fn aes32esmi(rs1: u32, rs2: u32, bs: u32) -> u32;
     #[link_name = "llvm.riscv.aes32esi"]
diff --git a/src/aes_riscv64.rs b/src/aes_riscv64.rs
index f6e6520..0abd079 100644
--- a/src/aes_riscv64.rs
+++ b/src/aes_riscv64.rs
@@ -1,7 +1,7 @@
 use core::mem;
 use core::ops::{BitAnd, BitOr, BitXor, Not};
 
-extern "unadjusted" {
+extern "llvm-intrinsic" {
     #[link_name = "llvm.riscv.aes64esm"]
     fn aes64esm(rs1: u64, rs2: u64) -> u64;
     #[link_name = "llvm.riscv.aes64es"]
diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..6f1933f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@
         target_feature = "zkne",
         target_feature = "zknd"
     ),
-    feature(link_llvm_intrinsics, abi_unadjusted)
+    feature(link_llvm_intrinsics)
 )]
 #![allow(
     internal_features,
-- 
2.43.0


From 46a9174f45dcb4fd2325bc1bf41cd425203ef7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 2/7] fix: select the fallback round chains on big-endian
 AArch64/Arm with AES

The Arm backend is only used on little-endian targets, but the pre_enc/pre_dec based
chains were also selected on big-endian ones, where the software block has no such
methods, so aarch64_be with +aes did not compile.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6f1933f..36fe917 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -339,6 +339,7 @@ cfg_if! {
                 all(feature = "nightly", target_arch = "arm", target_feature = "v8")
             ),
             target_feature = "aes",
+            target_endian = "little"
         ), all(
                 feature = "nightly",
                 target_arch = "riscv32",
-- 
2.43.0


From 3fb55008d5dff6bd55986b4eb77c92a1375ff85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 3/7] fix: rotate the word before SubWord in the RV32 key
 schedules

keygen_128, keygen_192 and the last step of keygen_256 applied SubWord without RotWord,
so the round keys were not those of FIPS-197.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 5b34582..d2cfe21 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -204,7 +204,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -224,7 +224,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -232,7 +232,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -261,7 +261,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From dd9797b50b00372f612eb3bb48bb76387a1278f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 4/7] fix: use the InvShiftRows byte order in the RV32
 decryption rounds

The decryption instructions were fed the columns in the ShiftRows order of encryption, so
dec, dec_last and, through them, mc and imc were wrong.
---
 src/aes_riscv32.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index d2cfe21..456ba94 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -18,15 +18,15 @@ extern "llvm-intrinsic" {
 }
 
 macro_rules! outer {
-    ($name:ident, $msg:ident, $rk:ident) => {{
+    ($name:ident, $msg:ident, $rk:ident, [$b0:literal, $b1:literal, $b2:literal, $b3:literal]) => {{
         #[inline(always)]
         fn inner(t0: u32, t1: u32, t2: u32, t3: u32, rk: u32) -> u32 {
             let mut value = rk;
             unsafe {
-                value = $name(value, t0, 0);
-                value = $name(value, t1, 1);
-                value = $name(value, t2, 2);
-                value = $name(value, t3, 3);
+                value = $name(value, t0, $b0);
+                value = $name(value, t1, $b1);
+                value = $name(value, t2, $b2);
+                value = $name(value, t3, $b3);
             }
             value
         }
@@ -124,7 +124,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_enc(self, round_key: Self) -> Self {
-        outer!(aes32esmi, self, round_key)
+        outer!(aes32esmi, self, round_key, [0, 1, 2, 3])
     }
 
     /// Performs one round of AES encryption function (`ShiftRows`->`SubBytes`->`MixColumns`->`AddRoundKey`)
@@ -135,7 +135,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_enc_last(self, round_key: Self) -> Self {
-        outer!(aes32esi, self, round_key)
+        outer!(aes32esi, self, round_key, [0, 1, 2, 3])
     }
 
     /// Performs one round of AES encryption function without `MixColumns` (`ShiftRows`->`SubBytes`->`AddRoundKey`)
@@ -146,7 +146,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer!(aes32dsmi, self, round_key, [0, 3, 2, 1])
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +157,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer!(aes32dsi, self, round_key, [0, 3, 2, 1])
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0


From 9620d344c0e9a9f0528b85f1ba3ed0f90a94642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 5/7] fix: use plain rounds in the RV32 chains

Unlike the Arm instructions, the RV32 ones add the round key after the round, so the chain
that starts with pre_enc(keys[0]) skipped the initial AddRoundKey.
---
 src/lib.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fe917..989628d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,21 +331,15 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
-            any(
-                target_arch = "aarch64",
-                target_arch = "arm64ec",
-                all(feature = "nightly", target_arch = "arm", target_feature = "v8")
-            ),
-            target_feature = "aes",
-            target_endian = "little"
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+    if #[cfg(all(
+        any(
+            target_arch = "aarch64",
+            target_arch = "arm64ec",
+            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
+        ),
+        target_feature = "aes",
+        target_endian = "little"
+    ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From 3247d0c00f3a50ef31bf51a050993f543407674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 6/7] fix: make the constant-time key schedules independent of
 endianness

The columns hold the key bytes in memory order, but RotWord and the round constants were
applied as if that were little-endian, so all round keys after the first were wrong on
big-endian targets.
---
 src/aes_bitslice.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..0cdebd3 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -337,6 +337,12 @@ impl AesBlock {
 
 const RCON: [u32; 10] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36];
 
+/// `RotWord` of a word that has the bytes of the key in memory order
+#[inline(always)]
+const fn rot_word(x: u32) -> u32 {
+    u32::from_le(x).rotate_right(8).to_le()
+}
+
 pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let mut expanded_keys: [AesBlock; 11] = unsafe { mem::zeroed() };
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 44) };
@@ -346,7 +352,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = columns[i + 0] ^ sub_word(columns[i + 3]).rotate_right(8) ^ RCON[i / 4];
+        columns[i + 4] = columns[i + 0] ^ rot_word(sub_word(columns[i + 3])) ^ RCON[i / 4].to_le();
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -364,7 +370,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = columns[i + 0] ^ sub_word(columns[i + 5]).rotate_right(8) ^ RCON[i / 6];
+        columns[i + 6] = columns[i + 0] ^ rot_word(sub_word(columns[i + 5])) ^ RCON[i / 6].to_le();
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -372,7 +378,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = columns[42] ^ sub_word(columns[47]).rotate_right(8) ^ RCON[7];
+    columns[48] = columns[42] ^ rot_word(sub_word(columns[47])) ^ RCON[7].to_le();
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -389,7 +395,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     }
 
     for i in (0..48).step_by(8) {
-        columns[i + 8] = columns[i + 0] ^ sub_word(columns[i + 7]).rotate_right(8) ^ RCON[i / 8];
+        columns[i + 8] = columns[i + 0] ^ rot_word(sub_word(columns[i + 7])) ^ RCON[i / 8].to_le();
         columns[i + 9] = columns[i + 1] ^ columns[i + 8];
         columns[i + 10] = columns[i + 2] ^ columns[i + 9];
         columns[i + 11] = columns[i + 3] ^ columns[i + 10];
@@ -399,7 +405,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = columns[48] ^ sub_word(columns[55]).rotate_right(8) ^ RCON[6];
+    columns[56] = columns[48] ^ rot_word(sub_word(columns[55])) ^ RCON[6].to_le();
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 18b5546305f6badd9c0190231986fd2779841344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 7/7] fix: constant-time xtime without a 128-bit subtraction

Without a carry flag (RV32) the borrow of the subtraction is compiled to a branch
that depends on the key and the blocks.
---
 src/aes_bitslice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 0cdebd3..2a90baa 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -178,7 +178,8 @@ const fn invshiftrows(state: [u8; 16]) -> u128 {
 const fn xtime(a: u128) -> u128 {
     let b = a & rep(0x80);
     let a = a ^ b;
-    let b = b.wrapping_sub(b >> 7) & rep(0x1b);
+    // no subtraction: without a carry flag (RISC-V 32) its borrow becomes a branch on the data
+    let b = (b >> 7) ^ (b >> 6) ^ (b >> 4) ^ (b >> 3);
     b ^ (a << 1)
 }
 
-- 
2.43.0

