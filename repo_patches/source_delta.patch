From 983ed015e4952e19b43e9cf2dbf37cac05d1756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 01/12] fix: (n-1)/2 is not a high scalar

is_high must be true only for values above half of the group order, so that
normalize_s and signing keep s = (n-1)/2 and negate s = (n+1)/2.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From 1bf43416b4433c3bb961887c0734a522852869e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 02/12] fix: print scalars in hex most significant word first

The limbs are stored least significant first, so the hex output was the number
with its 32-bit words reversed.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 79c86ac..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 142bca4e6c480561ea846ef9a4fff4a86107924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 03/12] fix: accept an empty slice at the end of a DER input

The encoding of s = 0 (02 01 00) ends with an empty magnitude after its leading
zero is dropped, so signatures with s = 0 did not round trip through DER.
---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..85a8b51 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From a3124107433df773394b6ec24defe1174364efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 04/12] fix: accept a long form DER length that exactly fills
 the input

The bound was checked with the length byte just read still counted as pending.
---
 core/src/der.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 85a8b51..4a8050d 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -123,12 +123,13 @@ impl<'a> Decoder<'a> {
         let mut ret = 0;
         while lenleft > 0 {
             ret = (ret << 8) | (self.read()? as usize);
-            if ret + lenleft > self.remaining_len() {
-                return Err(Error::InvalidSignature);
-            }
             lenleft -= 1;
         }
 
+        if ret > self.remaining_len() {
+            return Err(Error::InvalidSignature);
+        }
+
         if ret < 128 {
             // Not the shortest possible length encoding
             return Err(Error::InvalidSignature);
-- 
2.43.0


From 0698120e6e0e75597b88fc527107486b3a2bd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 05/12] fix: reject DER integers that are negative or longer
 than 32 bytes

The decoder left the content of such an integer unread and parsed it as the next
element, so malformed signatures were accepted with r = 0.
---
 core/src/der.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 4a8050d..3c8a1fc 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -156,9 +156,9 @@ impl<'a> Decoder<'a> {
             return Err(Error::InvalidSignature);
         }
 
-        let mut overflow = false;
+        // Signature components are never negative
         if self.peek(0)? & 0x80 == 0x80 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
         // Skip leading zero bytes
@@ -168,20 +168,15 @@ impl<'a> Decoder<'a> {
         }
 
         if rlen > 32 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
         let mut int = Scalar::default();
+        let mut b32 = [0u8; 32];
+        b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
+        self.skip(rlen)?;
 
-        if !overflow {
-            let mut b32 = [0u8; 32];
-            b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
-            self.skip(rlen)?;
-
-            overflow |= bool::from(int.set_b32(&b32));
-        }
-
-        if overflow {
+        if bool::from(int.set_b32(&b32)) {
             int = Scalar::default();
         }
 
-- 
2.43.0


From 73bbd0443dcffdd73b9b787856efdf247d746c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 06/12] fix: skip the content of overflowing lax DER integers

The decoder stayed on the content of an integer longer than 32 bytes and parsed
it as the next element.
---
 core/src/der.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 3c8a1fc..0d668d5 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -250,7 +250,6 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
@@ -259,6 +258,8 @@ impl<'a> Decoder<'a> {
             int = Scalar::default();
         }
 
+        self.skip(len)?;
+
         Ok(int)
     }
 }
-- 
2.43.0


From 2a2c66a2e3e66886f41fe6cf657104942dcd706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 07/12] Expose internal recodings to the model checker behind
 cfg(libsecp256k1_mc)

---
 core/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index f4d5a42..3b7b7ee 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -7,7 +7,8 @@
     clippy::needless_range_loop,
     clippy::suspicious_op_assign_impl,
     clippy::too_many_arguments,
-    clippy::type_complexity
+    clippy::type_complexity,
+    unexpected_cfgs
 )]
 #![deny(
     unused_import_braces,
@@ -71,3 +72,10 @@ pub mod util {
 
     pub use crate::der::{Decoder, SignatureArray};
 }
+
+/// Internal recodings and batch conversions, exposed to the model checker only.
+#[cfg(libsecp256k1_mc)]
+#[doc(hidden)]
+pub mod mc_hooks {
+    pub use crate::ecmult::{ecmult_wnaf, ecmult_wnaf_const, inv_all_var, set_all_gej_var};
+}
-- 
2.43.0


From b524b583841bcc518825fbfd3fd3c38964c7d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 08/12] fix: build without the std feature (unused base64
 import)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..3c127a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
+#[cfg(feature = "std")]
 use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
-- 
2.43.0


From 65e19478b50d1f050ca50c3702c150ca9c5de428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 09/12] fix: select limbs in Field::cmov and FieldStorage::cmov
 without branches

The per-limb if/else compiled to branches and secret-dependent loads, so the
table scan of the generator multiplication leaked the digits of the secret
scalar through its instruction and address trace.
---
 core/src/field.rs | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..7870305 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -2,6 +2,7 @@ use core::{
     cmp::Ordering,
     ops::{Add, AddAssign, Mul, MulAssign},
 };
+use subtle::{Choice, ConditionallySelectable};
 
 macro_rules! debug_assert_bits {
     ($x: expr, $n: expr) => {
@@ -1638,26 +1639,14 @@ impl Field {
     /// If flag is true, set *r equal to *a; otherwise leave
     /// it. Constant-time.
     pub fn cmov(&mut self, other: &Field, flag: bool) {
-        self.n[0] = if flag { other.n[0] } else { self.n[0] };
-        self.n[1] = if flag { other.n[1] } else { self.n[1] };
-        self.n[2] = if flag { other.n[2] } else { self.n[2] };
-        self.n[3] = if flag { other.n[3] } else { self.n[3] };
-        self.n[4] = if flag { other.n[4] } else { self.n[4] };
-        self.n[5] = if flag { other.n[5] } else { self.n[5] };
-        self.n[6] = if flag { other.n[6] } else { self.n[6] };
-        self.n[7] = if flag { other.n[7] } else { self.n[7] };
-        self.n[8] = if flag { other.n[8] } else { self.n[8] };
-        self.n[9] = if flag { other.n[9] } else { self.n[9] };
-        self.magnitude = if flag {
-            other.magnitude
-        } else {
-            self.magnitude
-        };
-        self.normalized = if flag {
-            other.normalized
-        } else {
-            self.normalized
-        };
+        let flag = Choice::from(flag as u8);
+        for i in 0..10 {
+            self.n[i].conditional_assign(&other.n[i], flag);
+        }
+        self.magnitude.conditional_assign(&other.magnitude, flag);
+        let mut normalized = self.normalized as u8;
+        normalized.conditional_assign(&(other.normalized as u8), flag);
+        self.normalized = normalized != 0;
     }
 }
 
@@ -1793,14 +1782,10 @@ impl FieldStorage {
     }
 
     pub fn cmov(&mut self, other: &FieldStorage, flag: bool) {
-        self.0[0] = if flag { other.0[0] } else { self.0[0] };
-        self.0[1] = if flag { other.0[1] } else { self.0[1] };
-        self.0[2] = if flag { other.0[2] } else { self.0[2] };
-        self.0[3] = if flag { other.0[3] } else { self.0[3] };
-        self.0[4] = if flag { other.0[4] } else { self.0[4] };
-        self.0[5] = if flag { other.0[5] } else { self.0[5] };
-        self.0[6] = if flag { other.0[6] } else { self.0[6] };
-        self.0[7] = if flag { other.0[7] } else { self.0[7] };
+        let flag = Choice::from(flag as u8);
+        for i in 0..8 {
+            self.0[i].conditional_assign(&other.0[i], flag);
+        }
     }
 }
 
-- 
2.43.0


From ddccabfc396114084a2afda0c5ba00b543fcb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 10/12] fix: Decoder lengths beyond usize::MAX - position
 wrapped around

skip(len) and peek_slice(len) added the caller's length to the position
unchecked: with a huge length the sum wrapped, skip moved the cursor
backwards and peek_slice panicked.
---
 core/src/der.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 0d668d5..3fa1544 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -55,7 +55,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek(&self, forward: usize) -> Result<u8, Error> {
-        if self.1 + forward >= self.0.len() {
+        if forward >= self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = self.0[self.1 + forward];
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From 03f9f88655fa3bd7321dbbd86b4972e92cc743d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:45 +0000
Subject: [PATCH 11/12] fix: report a failed allocation of a boxed context
 instead of writing through a null pointer

---
 core/src/ecmult.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/ecmult.rs b/core/src/ecmult.rs
index 8c892a4..b114331 100644
--- a/core/src/ecmult.rs
+++ b/core/src/ecmult.rs
@@ -4,7 +4,7 @@ use crate::{
     scalar::Scalar,
 };
 use alloc::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     boxed::Box,
     vec,
     vec::Vec,
@@ -67,7 +67,11 @@ impl ECMultContext {
         // because the struct is big. All values in `ECMultContext` are manually
         // initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultContext>()) as *mut ECMultContext;
+            let layout = Layout::new::<ECMultContext>();
+            let ptr = alloc(layout) as *mut ECMultContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for i in 0..ECMULT_TABLE_SIZE_G {
@@ -192,7 +196,11 @@ impl ECMultGenContext {
         // because the struct is big. All values in `ECMultGenContext` are
         // manually initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultGenContext>()) as *mut ECMultGenContext;
+            let layout = Layout::new::<ECMultGenContext>();
+            let ptr = alloc(layout) as *mut ECMultGenContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for j in 0..64 {
-- 
2.43.0


From 2d1bcad173d7f3a455eca693b5d9c9cf0facfbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 12/12] fix: double_nonzero_in_place asserted on its
 destination instead of its operand

---
 core/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..8ece3c4 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -335,7 +335,7 @@ impl Jacobian {
     /// a->z * *rzr (where infinity means an implicit z = 0). a may
     /// not be zero. Constant time.
     pub fn double_nonzero_in_place(&mut self, a: &Jacobian, rzr: Option<&mut Field>) {
-        debug_assert!(!self.is_infinity());
+        debug_assert!(!a.is_infinity());
         self.double_var_in_place(a, rzr);
     }
 
-- 
2.43.0

