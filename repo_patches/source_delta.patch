From 03c0569dc1fdaaf569fd7efd23d248496a6e2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 01/19] fix: iter_lr of the zero scalar must be empty instead
 of underflowing

---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..bead76c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..f78fe52 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..8e24cd2 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 4d0c4f8a7cfdb6493107e367413c5c02483dc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 02/19] fix: decoding a one-byte buffer must not slice out of
 bounds

---
 src/montgomery/curve.rs  | 2 +-
 src/weierstrass/curve.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..2f3cb61 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -100,7 +100,7 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..blen.min(size + 1)]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..ac211c9 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -98,7 +98,7 @@ impl Decode for Curve {
         }
         let tag = buf[0];
         // check x coordinate is in the valid range, Sign::Plus => > 0
-        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
+        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..blen.min(size + 1)]);
         let p = self.f.get_modulus();
         if x_val >= p {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
-- 
2.43.0


From 0a71eeceed4bbaa76594914a4bfb258ed61a84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 03/19] fix: decoding coordinates off the curve must return an
 error, not panic

---
 src/edwards/curve.rs     | 13 ++++++++++++-
 src/montgomery/curve.rs  | 14 ++++++++++++--
 src/weierstrass/curve.rs | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..f999c90 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -36,6 +36,17 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn try_new_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let t = &x * &y;
+        let z = self.f.one();
+        let c = ProyCoordinates { x, y, t, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -142,7 +153,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.try_new_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 2f3cb61..8bbf58f 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,16 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn try_new_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -129,7 +139,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.try_new_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -154,7 +164,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.try_new_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index ac211c9..a18e34c 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,16 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    fn try_new_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let e = self.clone();
+        let z = self.f.one();
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -127,7 +137,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.try_new_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -149,7 +159,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.try_new_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From a784d019fdda59e81ea3835e6403acf9d188f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 04/19] fix: reject the non-canonical compressed encoding of
 points with y = 0

---
 src/montgomery/curve.rs  | 3 +++
 src/weierstrass/curve.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 8bbf58f..d22383b 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -158,6 +158,9 @@ impl Decode for Curve {
                 let b_inv = &one / &self.b;
                 let yy = &byy * b_inv;
                 let y_sqrt = yy.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y coordinate"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index a18e34c..05c6fd9 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -153,6 +153,9 @@ impl Decode for Curve {
                 let xxx_ax = &xx_a * &x;
                 let xxx_ax_b = &xxx_ax + &self.b;
                 let y_sqrt = xxx_ax_b.sqrt();
+                if y_sqrt.is_zero() && tag == 0x03 {
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y coordinate"));
+                }
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
-- 
2.43.0


From 8152277fefc36c2fd35e7421e1086e933bfd85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 05/19] fix: GF(p^2) exponentiation must start from one and use
 all exponent bits

---
 src/quadraticfield/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..b76d008 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
-- 
2.43.0


From 5a7b18d77d76552ce1026752cd5380f37328facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 06/19] fix: GF(p^2) inversion must negate the imaginary part

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index b76d008..8506377 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From d615a23059b76b12ca424da2f0baeac37e887230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 07/19] fix: zero is a square in GF(p^2)

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 8506377..9301def 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -298,7 +298,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t0.is_zero() || t1 == self.f.0.base.one()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From eacf27ec9f621245a7204547372d27ce9ac3fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 08/19] fix: the sign of a GF(p^2) element is the sign of its
 first nonzero component

---
 src/quadraticfield/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 9301def..0399d99 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -324,10 +324,11 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From a788159adbe8fe7aaba3658835e9f43130a0b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 09/19] fix: powers of zero must not reduce the exponent modulo
 p-1

---
 src/primefield/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..95e24bf 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,6 +238,10 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        // Exponents can be reduced modulo p-1 only for nonzero bases.
+        if self.is_zero() && !exp.is_zero() {
+            return self.clone();
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From 0d404a02bc6890dd44b8a49956e103b46cafbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 10/19] fix: normalizing the identity must leave it the
 identity

---
 src/montgomery/point.rs  | 3 +++
 src/weierstrass/point.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..0e8a599 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..bf7e644 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 42c300d5ca58706ae13bc888ada9271fde55d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 11/19] fix: is_two_torsion must not depend on the projective
 representation

---
 src/montgomery/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 0e8a599..e3f0b35 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -116,7 +116,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From 3befabab9f2d6b09bd334c6b55c4853762b43496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 12/19] fix: map the point (0,-1) of edwards25519 to the point
 (0,0) of curve25519

---
 src/instances/rational_maps.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..b1e4b40 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -44,6 +46,10 @@ impl RationalMap for Ed2Mt25519 {
             self.e1.identity()
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
+            if x.is_zero() {
+                let ff = self.e1.get_field();
+                return self.e1.new_point(ff.zero(), ff.zero());
+            }
             let t0 = z + y;
             let xx = x * &t0;
             let yy = &self.invsqr_d * z * t0;
-- 
2.43.0


From b17fce02922faae7a68759306a5d31e11de60e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 13/19] fix: map the point (0,0) of curve448 to the identity of
 edwards448

---
 src/instances/rational_maps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index b1e4b40..f4d28b3 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 6ce43bef3b6735fa41a41ba92f0699a6fda2107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 14/19] fix: isogenies must handle projective inputs, the
 identity and kernel points

---
 src/instances/rational_maps.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index f4d28b3..2108a93 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -217,6 +217,11 @@ impl Isogeny for Isosecp256k1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -231,6 +236,9 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() || y_den.is_zero() {
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -330,6 +338,11 @@ impl Isogeny for IsoBls12381G1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -347,6 +360,9 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() || y_den.is_zero() {
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 0376d771d038d9a0fbbe7d4d15d9324c676b6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 15/19] fix: Elligator 2 must scale the coefficient a by 1/b

---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From 8e12cf068a8824ebf682ab1b47cb5c21b1190429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 16/19] fix: points of different curves compare unequal instead
 of panicking

---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..e45fdb1 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index e3f0b35..4b775ec 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -124,11 +124,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index bf7e644..69cd7b7 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -209,11 +209,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0


From ed0de8ecdfcda5699feb2cb3a8a09519210e8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 17/19] fix: the Edwards identity test must reject the point
 (0,-1)

---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index e45fdb1..8af4003 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
-- 
2.43.0


From 1f27e242016b8faa21ae1ec279eb608c04da2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 18/19] fix: cofactor of the curve 11-isogenous to BLS12-381 G1

1 - z clears the cofactor of BLS12-381 G1 only: on the isogenous curve it leaves
points of order 11 r. Publish the cofactor (z - 1)^2 / 3 of the curve.
---
 src/instances/weier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/weier.rs b/src/instances/weier.rs
index d648cf5..741f416 100644
--- a/src/instances/weier.rs
+++ b/src/instances/weier.rs
@@ -100,7 +100,7 @@ static BLS12381G1_11ISO_PARAMS: &Params = &Params {
     a: "0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d",
     b: "0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0",
     r: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
-    h: "15132376222941642753",
+    h: "76329603384216526031706109802092473003",
     gx: "0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2",
     gy: "0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4",
 };
-- 
2.43.0


From 8112634d1c3a4e75f4ad9d9942fc7c59579d6178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 19/19] fix: concurrent square roots on a shared field handle
 must not panic

---
 src/primefield/mod.rs     | 10 ++++------
 src/quadraticfield/mod.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 95e24bf..0c92db9 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! The primefield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use impl_ops::impl_op_ex;
 use num_bigint::{BigInt, BigUint, ToBigInt};
 use num_integer::Integer;
@@ -11,7 +10,7 @@ use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -19,7 +18,7 @@ use crate::ops::{Deserialize, FromFactory, Serialize};
 
 struct Params {
     p: BigInt,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -46,7 +45,7 @@ impl Fp {
         // TODO: verify whether p is prime.
         Fp(Arc::new(Params {
             p: modulus.to_bigint().unwrap(),
-            sqrt_precmp: AtomicRefCell::new(None),
+            sqrt_precmp: OnceLock::new(),
         }))
     }
 }
@@ -260,8 +259,7 @@ impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 0399d99..4d57687 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -2,14 +2,13 @@
 //!
 //! The quadraticfield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -18,7 +17,7 @@ use crate::primefield::{Fp, FpElt};
 
 struct Params {
     base: Fp,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -43,7 +42,7 @@ impl Fp2 {
     /// The `modulus` should be a prime number.
     pub fn new(modulus: BigUint) -> Self {
         let base = Fp::new(modulus);
-        let sqrt_precmp = AtomicRefCell::new(None);
+        let sqrt_precmp = OnceLock::new();
         Fp2(Arc::new(Params { base, sqrt_precmp }))
     }
 }
@@ -274,8 +273,7 @@ impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
-- 
2.43.0

