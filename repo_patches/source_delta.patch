From 0f241ae09a7b822477b1f79bd5acef31281f6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 1/9] fix: Scalar::is_high must not report (n-1)/2 as high

The half order itself is not above the half order; flagging it made
normalize_s turn s = (n-1)/2 into the high value (n+1)/2.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From d69317bd4db1ea5af492792e5a2f82a0cfcbbf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 2/9] fix: allow empty slices at the end of DER input

A final integer zero (02 01 00) has no content left after its leading
zero bytes and was rejected only because nothing follows it, so the
serialisation of a signature with s = 0 did not parse back.
---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..85a8b51 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From 3010d37b219524ad8b99a023f79ad696bb760957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 3/9] fix: skip the content of oversized integers in lax DER
 parsing

An integer longer than 32 bytes reads as zero, but its content stayed in
the input, so the next integer was parsed from inside of it.
---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 85a8b51..806acbe 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -254,10 +254,10 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
+        self.skip(len)?;
 
         if overflow {
             int = Scalar::default();
-- 
2.43.0


From 3ca51277454c20e3a9b4bbe2d11eb241092c1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 4/9] fix: print scalars most significant word first in
 hexadecimal

The words were printed least significant first, so the digits of a
scalar or secret key were not those of its 32-byte encoding.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 79c86ac..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From cc8270f788387bbfcec9502881570e8ae95d0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 5/9] fix: reject negative and oversized integers in strict DER
 at once

Their content was left unread, so that a first integer of more than 256 bits
whose content starts like an integer element was followed by a second integer
read from inside it, and a malformed signature was accepted.
---
 core/src/der.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/der.rs b/core/src/der.rs
index 806acbe..a76fa08 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -170,6 +170,12 @@ impl<'a> Decoder<'a> {
             overflow |= true;
         }
 
+        if overflow {
+            // Negative, or more than 256 bits: not a valid encoding. Its
+            // content must not be read as the next element.
+            return Err(Error::InvalidSignature);
+        }
+
         let mut int = Scalar::default();
 
         if !overflow {
-- 
2.43.0


From be6e8271cf705e418fe6df565ba7eaa8fd6f46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 6/9] fix: Decoder compares requested lengths with what remains
 instead of adding to the position

---
 core/src/der.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index a76fa08..8991bf4 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -55,7 +55,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek(&self, forward: usize) -> Result<u8, Error> {
-        if self.1 + forward >= self.0.len() {
+        if forward >= self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = self.0[self.1 + forward];
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From 33fea09090471045a0c03e3c4eee83db0d235250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:54 +0000
Subject: [PATCH 7/9] fix: make Field::cmov and FieldStorage::cmov constant
 time

The if/else selections were compiled, with optimisation, to loads whose
address depended on the flag, so that signing and ECDH touched different
addresses for different secret scalars. Select with masks instead.
---
 core/src/field.rs | 53 ++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..d34f47c 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -2,6 +2,7 @@ use core::{
     cmp::Ordering,
     ops::{Add, AddAssign, Mul, MulAssign},
 };
+use subtle::{Choice, ConditionallySelectable};
 
 macro_rules! debug_assert_bits {
     ($x: expr, $n: expr) => {
@@ -1638,26 +1639,21 @@ impl Field {
     /// If flag is true, set *r equal to *a; otherwise leave
     /// it. Constant-time.
     pub fn cmov(&mut self, other: &Field, flag: bool) {
-        self.n[0] = if flag { other.n[0] } else { self.n[0] };
-        self.n[1] = if flag { other.n[1] } else { self.n[1] };
-        self.n[2] = if flag { other.n[2] } else { self.n[2] };
-        self.n[3] = if flag { other.n[3] } else { self.n[3] };
-        self.n[4] = if flag { other.n[4] } else { self.n[4] };
-        self.n[5] = if flag { other.n[5] } else { self.n[5] };
-        self.n[6] = if flag { other.n[6] } else { self.n[6] };
-        self.n[7] = if flag { other.n[7] } else { self.n[7] };
-        self.n[8] = if flag { other.n[8] } else { self.n[8] };
-        self.n[9] = if flag { other.n[9] } else { self.n[9] };
-        self.magnitude = if flag {
-            other.magnitude
-        } else {
-            self.magnitude
-        };
-        self.normalized = if flag {
-            other.normalized
-        } else {
-            self.normalized
-        };
+        let flag = Choice::from(flag as u8);
+        self.n[0].conditional_assign(&other.n[0], flag);
+        self.n[1].conditional_assign(&other.n[1], flag);
+        self.n[2].conditional_assign(&other.n[2], flag);
+        self.n[3].conditional_assign(&other.n[3], flag);
+        self.n[4].conditional_assign(&other.n[4], flag);
+        self.n[5].conditional_assign(&other.n[5], flag);
+        self.n[6].conditional_assign(&other.n[6], flag);
+        self.n[7].conditional_assign(&other.n[7], flag);
+        self.n[8].conditional_assign(&other.n[8], flag);
+        self.n[9].conditional_assign(&other.n[9], flag);
+        self.magnitude.conditional_assign(&other.magnitude, flag);
+        let normalized =
+            u8::conditional_select(&(self.normalized as u8), &(other.normalized as u8), flag);
+        self.normalized = normalized != 0;
     }
 }
 
@@ -1793,14 +1789,15 @@ impl FieldStorage {
     }
 
     pub fn cmov(&mut self, other: &FieldStorage, flag: bool) {
-        self.0[0] = if flag { other.0[0] } else { self.0[0] };
-        self.0[1] = if flag { other.0[1] } else { self.0[1] };
-        self.0[2] = if flag { other.0[2] } else { self.0[2] };
-        self.0[3] = if flag { other.0[3] } else { self.0[3] };
-        self.0[4] = if flag { other.0[4] } else { self.0[4] };
-        self.0[5] = if flag { other.0[5] } else { self.0[5] };
-        self.0[6] = if flag { other.0[6] } else { self.0[6] };
-        self.0[7] = if flag { other.0[7] } else { self.0[7] };
+        let flag = Choice::from(flag as u8);
+        self.0[0].conditional_assign(&other.0[0], flag);
+        self.0[1].conditional_assign(&other.0[1], flag);
+        self.0[2].conditional_assign(&other.0[2], flag);
+        self.0[3].conditional_assign(&other.0[3], flag);
+        self.0[4].conditional_assign(&other.0[4], flag);
+        self.0[5].conditional_assign(&other.0[5], flag);
+        self.0[6].conditional_assign(&other.0[6], flag);
+        self.0[7].conditional_assign(&other.0[7], flag);
     }
 }
 
-- 
2.43.0


From eb3f5ab1f6bd282e564e7e7396adfca9a297c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:05 +0000
Subject: [PATCH 8/9] fix: decide both tests of add_ge without branching on the
 first

add_ge runs on secret points (ecmult_gen, ecmult_const).  The short-circuit
'&&' skipped the second zero test, and with it about 80 instructions, exactly
when the two points had opposite y (scaled) or not: which one depends on the
secret scalar.
---
 core/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..eadd970 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -475,7 +475,7 @@ impl Jacobian {
         let mut m_alt = u2.neg(1);
         let tt = u1 * m_alt;
         rr += tt;
-        let degenerate = m.normalizes_to_zero() && rr.normalizes_to_zero();
+        let degenerate = m.normalizes_to_zero() & rr.normalizes_to_zero();
         let mut rr_alt = s1;
         rr_alt.mul_int(2);
         m_alt += u1;
-- 
2.43.0


From a9fe64f55e6a9eb48dc707f0f2daa5b364efb6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:20 +0000
Subject: [PATCH 9/9] fix: negate a high s without a branch in sign_raw

Whether the value computed from the nonce was above n/2 is not known to
whoever sees the signature (only its combination with the parity of R.y is),
and the branch showed it.  cond_neg_assign does the same in constant time.
---
 core/src/ecdsa.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/ecdsa.rs b/core/src/ecdsa.rs
index cc02c53..c8f5276 100644
--- a/core/src/ecdsa.rs
+++ b/core/src/ecdsa.rs
@@ -133,10 +133,9 @@ impl ECMultGenContext {
         if sigs.is_zero() {
             return Err(Error::InvalidMessage);
         }
-        if sigs.is_high() {
-            sigs = -sigs;
-            recid ^= 1;
-        }
+        let high = sigs.is_high() as u8;
+        sigs.cond_neg_assign(subtle::Choice::from(high));
+        recid ^= high;
         Ok((sigr, sigs, recid))
     }
 }
-- 
2.43.0

