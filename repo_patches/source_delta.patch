From d08a70621f0d1d44a2071036f5f2702dc40956ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:48 +0000
Subject: [PATCH 01/18] fix: keep the imaginary part in complex AddAssign and
 SubAssign

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From eedfaa93a2404aa6ef7dec0cbaf5942462a17bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:48 +0000
Subject: [PATCH 02/18] fix: use the divisor's imaginary part in complex
 division

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From c8f8502669477688cd45f765b2695bbcf5f528bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:48 +0000
Subject: [PATCH 03/18] fix: saturate in Cartesian DivAssign by a zero scalar

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From 2172b4d11f552a16c32c29909968a78651c6a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:09 +0000
Subject: [PATCH 04/18] =?UTF-8?q?fix:=20wrap=5Fphase=20terminates=20for=20?=
 =?UTF-8?q?large=20angles=20and=20works=20where=202=CF=80=20does=20not=20f?=
 =?UTF-8?q?it?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/trigonometry.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..8f5d5fd 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,23 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
- 
+    let half_phi  = phi/T::mixed_from_num(2);
+
     let mut temp_scalar = phi;
-    
+
+    // Remove whole turns at once. 2π is only formed when phi exceeds it, as it does not fit in every type.
+    if half_phi < -mixed_pi || mixed_pi <= half_phi
+    {
+        temp_scalar = temp_scalar % (mixed_pi+mixed_pi);
+    }
+
     while temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        temp_scalar = (temp_scalar + mixed_pi) + mixed_pi;
     }
     while mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = (temp_scalar - mixed_pi) - mixed_pi;
     }
     return temp_scalar;
 }
-- 
2.43.0


From 37a0c5892513fb25ea34bf5c478c380f9b8a13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:09 +0000
Subject: [PATCH 05/18] fix: negative exponents in mixed_powi for fixed point
 and integers

---
 src/fixed_impl.rs | 8 ++++++++
 src/int_impl.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..5eea3c8 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,6 +168,10 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::mixed_one()/ *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
@@ -222,6 +226,10 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::mixed_one()/ *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..4ac6b1e 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,6 +49,10 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::mixed_one()/ *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
-- 
2.43.0


From dae26b689eae8734bb9837d39f32df8a743d1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:09 +0000
Subject: [PATCH 06/18] fix: niirf terminates for infinity and does not need to
 represent 4

---
 src/trigonometry/sqrt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..b1edc1d 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -67,17 +67,23 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
 
     let mut x_ = x.mixed_abs();
 
+    // Infinity is its own half, and can not be normalized.
+    if x_ == x_/T::mixed_from_num(2)
+    {
+        return x_;
+    }
+
     // First we normalize x to the range 0.25 =< x < 1.
     let mut norm = 0i32; // Number of normalizations.
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 9f82dd5c9550b2cc87e9d471d811330489b34e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:09 +0000
Subject: [PATCH 07/18] fix: fixed point mixed_atan2 no longer overflows when y
 is much larger than x

---
 src/fixed_impl.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 5eea3c8..6275a4d 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -314,6 +314,13 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan2(&self, other:Self) -> Self {
+                if other.unsigned_abs() < self.unsigned_abs()
+                {
+                    // The quotient y/x may not be representable, x/y is.
+                    let pi_half = Self::mixed_pi()/Self::from_num(2);
+                    let theta   = cordic::atan(other / *self);
+                    return if self.is_negative() { -pi_half - theta } else { pi_half - theta };
+                }
                 return cordic::atan2(*self, other);
             }
             /// Take the atan of self. Implementation varies with type.
-- 
2.43.0


From 2c1924826fb898740a66216496a6f419f377c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:42 +0000
Subject: [PATCH 08/18] =?UTF-8?q?fix:=20fixed=20point=20mixed=5Fatan2=20ke?=
 =?UTF-8?q?eps=20returning=20exactly=20=C2=B1=CF=80/2=20on=20the=20imagina?=
 =?UTF-8?q?ry=20axis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/fixed_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 6275a4d..d964d20 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -314,7 +314,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan2(&self, other:Self) -> Self {
-                if other.unsigned_abs() < self.unsigned_abs()
+                if other != Self::mixed_zero() && other.unsigned_abs() < self.unsigned_abs()
                 {
                     // The quotient y/x may not be representable, x/y is.
                     let pi_half = Self::mixed_pi()/Self::from_num(2);
-- 
2.43.0


From e317795600e05a1476c9cc45df631984daf0f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 09/18] fix: the NIIRF square root no longer underflows on
 unsigned types

---
 src/trigonometry/sqrt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index b1edc1d..de76d42 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -146,7 +146,16 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        // The correction is negative when y is too large; unsigned types can only subtract it.
+        let y_sq = y.mixed_powi(2);
+        if x_ < y_sq
+        {
+            y = y-beta(x_)*(y_sq-x_);
+        }
+        else
+        {
+            y = beta(x_)*(x_-y_sq)+y;
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From 3821064f79c0974690c712c8a9f2e2c595597b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 10/18] fix: fixed point mixed_atan no longer overflows for
 large arguments

---
 src/fixed_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index d964d20..159cee9 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -309,7 +309,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan(&self) -> Self {
-                return cordic::atan(*self);
+                return self.mixed_atan2(Self::mixed_one());
             }
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From 2b53535c091fe3a797cf1fb8b5552df8a13c0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 11/18] fix: the polynomial sine works for types that can not
 represent 9!

---
 src/trigonometry.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 8f5d5fd..f9f428d 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -85,11 +85,17 @@ pub fn sin<T>( x: T ) -> T
         x_ = mixed_pi_half-delta;
     }
 
-    // Calculate sine by using 
-    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
-    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // Each term follows from the previous one, so that no power of x, and no factorial, has to be representable.
+    let x_sq = x_*x_;
+    let t3   = x_*x_sq*T::mixed_from_num(1.0/6.0);
+    let t5   = t3*x_sq*T::mixed_from_num(1.0/20.0);
+    let t7   = t5*x_sq*T::mixed_from_num(1.0/42.0);
+    let t9   = t7*x_sq*T::mixed_from_num(1.0/72.0);
+
+    let mut sinx = x_-t3;
+    sinx += t5;
+    sinx -= t7;
+    sinx += t9;
     return sinx;
 }
 
-- 
2.43.0


From 8b928c44a0cb04700f82fa895be158860ffa8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 12/18] fix: Polar * Cartesian is usable: drop the
 unsatisfiable ToPolar<T> bound on the element type

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From 14f95b2bb11f016369d0faca37d444b695594802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 13/18] fix: mixed_acosh returns NaN for arguments below 1

---
 src/float_impl/f32_impl.rs | 5 +++++
 src/float_impl/f64_impl.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/float_impl/f32_impl.rs b/src/float_impl/f32_impl.rs
index b46ac55..827ff3b 100644
--- a/src/float_impl/f32_impl.rs
+++ b/src/float_impl/f32_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f32
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        if *self < 1 as f32
+        {
+            // Outside the domain, libm does not detect it for x <= -2.
+            return f32::NAN;
+        }
         return libm::acoshf(*self);
     }
 }
diff --git a/src/float_impl/f64_impl.rs b/src/float_impl/f64_impl.rs
index b1005c1..517df85 100644
--- a/src/float_impl/f64_impl.rs
+++ b/src/float_impl/f64_impl.rs
@@ -50,6 +50,11 @@ impl MixedCosh for f64
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        if *self < 1 as f64
+        {
+            // Outside the domain, libm does not detect it for x <= -2.
+            return f64::NAN;
+        }
         return libm::acosh(*self);
     }
 }
-- 
2.43.0


From 4aaaefaad751da7339c81ee171c0f41be064c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 14/18] fix: f32 mixed_pow no longer underflows or overflows
 for bases close to one and large powers

---
 src/float_impl/f32_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/float_impl/f32_impl.rs b/src/float_impl/f32_impl.rs
index 827ff3b..7a7b81d 100644
--- a/src/float_impl/f32_impl.rs
+++ b/src/float_impl/f32_impl.rs
@@ -163,7 +163,8 @@ impl MixedPow for f32
 {
     #[inline(always)]
     fn mixed_pow(&self, power:f32) -> Self {
-        return libm::powf(*self, power);
+        // powf overflows and underflows too early for bases close to one and large powers.
+        return libm::pow(*self as f64, power as f64) as f32;
     }
 }
 
-- 
2.43.0


From d0433dd80cd1fe45136d96ff15f499a40f9ac108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 15/18] fix: fixed point mixed_exp returns promptly for very
 negative arguments

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 159cee9..08fdc00 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -335,6 +335,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the exp() of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_exp(&self) -> Self {
+                if *self < -64
+                {
+                    // Below the resolution of every supported type; cordic::exp iterates once per integer step.
+                    return Self::mixed_zero();
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0


From 8fc3f37c3027e3111b381e33a6dbe99e0a4c71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 16/18] fix: fixed point sine and cosine of large angles no
 longer iterate once per half turn

---
 src/fixed_impl.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 08fdc00..6e141a1 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -1,6 +1,16 @@
 use crate::*;
 use fixed;
 
+/// Remove whole turns from large angles, as cordic removes half a turn per iteration.
+#[inline(always)]
+fn reduce_turns<T: MixedWrapPhase + PartialOrd<i32> + Copy>( angle:T ) -> T {
+    if angle < -2048 || angle > 2048
+    {
+        return angle.mixed_wrap_phase();
+    }
+    return angle;
+}
+
 macro_rules! impl_mixed_num_conversion{
     ( $T1:ty, $T2:ty ) => {
         impl MixedNumConversion<$T2> for $T1
@@ -271,13 +281,13 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the sin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_sin(&self) -> Self {
-                return cordic::sin(*self);
+                return cordic::sin(reduce_turns(*self));
             }
             #[inline(always)]
             fn mixed_sincos(&self) -> (Self, Self) 
                 where Self: Sized
             {
-                return cordic::sin_cos(*self);
+                return cordic::sin_cos(reduce_turns(*self));
             }
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
@@ -291,7 +301,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the cos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_cos(&self) -> Self {
-                return cordic::cos(*self);
+                return cordic::cos(reduce_turns(*self));
             }
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From 4c776d51e38b89a8918bef9d4f0b8fa0fb116bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 17/18] fix: the exponential of a real complex number is real
 when e^re overflows

---
 src/complex/cartesian_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 2202c95..07143cd 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -514,7 +514,15 @@ impl <T: MixedReal + MixedNumSigned + MixedSin + MixedExp + core::ops::MulAssign
         let scale = self.re.mixed_exp();
         let mut r_value =  Self::new_from_cartesian(re, im);
         r_value.re *= scale;
-        r_value.im *= scale;
+        if self.im == T::mixed_from_num(0)
+        {
+            // The exponential of a real number is real, also when the scale is infinite.
+            r_value.im = self.im;
+        }
+        else
+        {
+            r_value.im *= scale;
+        }
         return r_value;
     }
 }
-- 
2.43.0


From d3468bc0f0fec7692b4f4e77f9048e5367d5cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:06 +0000
Subject: [PATCH 18/18] fix: fixed-point arcsine and arccosine of types with
 more than half of their bits after the point panicked

---
 src/fixed_impl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 6e141a1..bd1ed97 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -292,6 +292,12 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_asin(&self) -> Self {
+                if Self::INT_NBITS+2 <= Self::FRAC_NBITS
+                {
+                    // cordic::asin shifts by more bits than these types have.
+                    let cos = trigonometry::sqrt::niirf(Self::mixed_one() - *self * *self, Self::FRAC_NBITS as usize);
+                    return self.mixed_atan2(cos);
+                }
                 return cordic::asin(*self);
             }
         }
@@ -306,6 +312,10 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_acos(&self) -> Self {
+                if Self::INT_NBITS+2 <= Self::FRAC_NBITS
+                {
+                    return Self::from_num(fixed::consts::FRAC_PI_2) - self.mixed_asin();
+                }
                 return cordic::acos(*self);
             }
         }
-- 
2.43.0

