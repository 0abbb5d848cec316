From b35fc7fffb73a807e4a9d998b8deabd24faf743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 01/14] fix: acosh and acoshf return NaN for all arguments
 below 1

The formula for 2 <= |x| < 0x1p26 (0x1p12 for f32) also took negative
arguments, where cancellation made the operand of the logarithm positive
for part of the range.
---
 libm/src/math/acosh.rs  | 5 ++++-
 libm/src/math/acoshf.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..306d93f 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -12,7 +12,10 @@ pub fn acosh(x: f64) -> f64 {
     let u = x.to_bits();
     let e = ((u >> 52) as usize) & 0x7ff;
 
-    /* x < 1 domain error is handled in the called functions */
+    if x < 1.0 {
+        /* domain error */
+        return (x - x) / (x - x);
+    }
 
     if e < 0x3ff + 1 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..3c5debf 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -12,8 +12,13 @@ pub fn acoshf(x: f32) -> f32 {
     let u = x.to_bits();
     let a = u & 0x7fffffff;
 
+    if x < 1.0 {
+        /* domain error */
+        return (x - x) / (x - x);
+    }
+
     if a < 0x3f800000 + (1 << 23) {
-        /* |x| < 2, invalid if x < 1 or nan */
+        /* x < 2 */
         /* up to 2ulp error in [1,1.125] */
         return log1pf(x - 1.0 + sqrtf((x - 1.0) * (x - 1.0) + 2.0 * (x - 1.0)));
     }
-- 
2.43.0


From e733de520daa594d49f4719b4f5f9adaa67240ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 02/14] fix: expm1f overflows only where the result is out of
 range

The threshold was ln(2^128) rounded down to a few bits, so arguments in
(88.72168, 88.72283] gave infinity although the result is representable.
sinhf uses expm1f up to 88.72283 and returned NaN there.
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From 674d911cee90c2ab7a7addcfe683352b65525c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 03/14] fix: powf does not saturate for representable results
 with |y| > 2^27

With x just below 1, x^y is still representable (subnormal for y > 0,
well within range for y < 0) down to x = 1 - 12 * 2^-24.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 839c6c2..b29e8d0 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff4 {
             return if hy < 0 { sn * HUGE * HUGE } else { sn * TINY * TINY };
         }
 
-- 
2.43.0


From 1f281d12367c72449f8db1e64e7a60523453bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 04/14] fix: pow uses the short series for log(x) only where it
 is exact enough

For 2^31 < |y| <= 2^35 and a result in range, |1 - x| can exceed 2^-24, so
that ivln2_h * t is not exact and the result is off by up to several
hundred ULP. The general path has no such restriction.
---
 libm/src/math/pow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 80b2a24..e821971 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -224,8 +224,8 @@ pub fn pow(x: f64, y: f64) -> f64 {
     }
 
     /* |y| is HUGE */
-    if iy > 0x41e00000 {
-        /* if |y| > 2**31 */
+    if iy > 0x42200000 {
+        /* if |y| > 2**35 */
         if iy > 0x43f00000 {
             /* if |y| > 2**64, must o/uflow */
             if ix <= 0x3fefffff {
-- 
2.43.0


From ca69ca005c95cfe5c835b1592c88dabf7a642200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 05/14] fix: fmaximum_num(-0, NaN) returns the number

The branch ordering -0 below +0 also took a NaN with a positive sign for
the larger operand.
---
 libm/src/math/generic/fmaximum_num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..08f4301 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -16,10 +16,10 @@ use super::super::Float;
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
     let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
+        if y.is_nan() || x > y || (x.to_bits() == F::ZERO.to_bits() && y.is_sign_negative()) {
             x
+        } else {
+            y
         };
 
     // Canonicalize
-- 
2.43.0


From a44e418905712580694b9665924cd4be512e5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 06/14] fix: fma keeps the sticky bit of a product far below
 the addend

---
 libm/src/math/fma.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..241ac6b 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,8 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From f17f0d5b9a8088a28958b73ef14f658c54503bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 07/14] fix: fmaf rounds subnormal results once

---
 libm/src/math/fma_wide.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..8016d2a 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -48,9 +48,13 @@ where
     let excess_prec = ui & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
+    // A result that is subnormal in `F` drops more bits, so its halfway cases have another pattern;
+    // all of them have a zero in the last place.
+    let subnorm = re < (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+
     // Common case: the larger precision is fine if...
     // This is not a halfway case
-    if excess_prec != halfway
+    if (excess_prec != halfway && !(subnorm && ui & one == IntTy::<B>::ZERO))
         // Or the result is NaN
         || re == B::EXP_SAT
         // Or the result is exact
-- 
2.43.0


From da47baf9b4b87a4328e43236eb7631380b7cb2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 08/14] fix: hex float exponents near the integer limits do not
 overflow

---
 libm/src/math/support/hex_float.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 819e2f5..97b35f0 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -289,8 +289,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
@@ -305,21 +304,17 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             e = (exp as i64) + (pexp as i64);
         };
 
-        exp = if e < i32::MIN as i64 {
-            i32::MIN
-        } else if e > i32::MAX as i64 {
-            i32::MAX
+        // Far outside of the range of any supported format, and far enough from the limits of `i32`
+        // that the adjustments made when rounding do not overflow.
+        const EXP_LIMIT: i32 = 1 << 30;
+        exp = if e < -EXP_LIMIT as i64 {
+            -EXP_LIMIT
+        } else if e > EXP_LIMIT as i64 {
+            EXP_LIMIT
         } else {
             e as i32
         };
     }
-    /* FIXME(msrv): once MSRV >= 1.66, replace the above workaround block with:
-    if negate_exp {
-        exp = exp.saturating_sub_unsigned(pexp);
-    } else {
-        exp = exp.saturating_add_unsigned(pexp);
-    };
-    */
 
     Ok(Parsed { sig, exp })
 }
-- 
2.43.0


From 5e0116f0735cd91375c5b70b2b0e9f34cdd42875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 09/14] fix: hex float exponents that exceed the format
 overflow instead of wrapping

---
 libm/src/math/support/hex_float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 97b35f0..3007f91 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -155,7 +155,9 @@ const fn parse_finite(
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
     let uexp = (exp - min_lsb) as u128;
-    let uexp = uexp << sig_bits;
+    // Any larger exponent is an overflow as well, but could be shifted out
+    let max_uexp = (1 << exp_bits) - 1;
+    let uexp = if uexp < max_uexp { uexp } else { max_uexp } << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
     // if the value rounded up, but that means the mantissa is all zeroes
-- 
2.43.0


From 41bf3a5c3c27f9ea8950e06a950c7bcb0181abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 10/14] fix: 256-bit integers order by value, and i256 is
 signed with the right MAX

---
 libm/src/math/support/big.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index eae0823..824a5a7 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -3,7 +3,7 @@
 #[cfg(test)]
 mod tests;
 
-use core::ops;
+use core::{cmp, ops};
 
 use super::{DInt, HInt, Int, MinInt};
 
@@ -11,7 +11,7 @@ const U128_LO_MASK: u128 = u64::MAX as u128;
 
 /// A 256-bit unsigned integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct u256 {
     pub lo: u128,
     pub hi: u128,
@@ -29,7 +29,7 @@ impl u256 {
 
 /// A 256-bit signed integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct i256 {
     pub lo: u128,
     pub hi: u128,
@@ -61,12 +61,24 @@ impl MinInt for i256 {
 
     type Unsigned = u256;
 
-    const SIGNED: bool = false;
+    const SIGNED: bool = true;
     const BITS: u32 = 256;
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
     const MIN: Self = Self { lo: 0, hi: 1 << 127 };
-    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX << 1 };
+    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX >> 1 };
+}
+
+impl PartialOrd for u256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi, self.lo).partial_cmp(&(rhs.hi, rhs.lo))
+    }
+}
+
+impl PartialOrd for i256 {
+    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
+        (self.hi as i128, self.lo).partial_cmp(&(rhs.hi as i128, rhs.lo))
+    }
 }
 
 macro_rules! impl_common {
-- 
2.43.0


From 75fb1cc26218bf679902057d9db5e707f6c336d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 11/14] fix: Float::is_subnormal is false for zeros

---
 libm/src/math/support/float_traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/support/float_traits.rs b/libm/src/math/support/float_traits.rs
index fac1048..0d9636e 100644
--- a/libm/src/math/support/float_traits.rs
+++ b/libm/src/math/support/float_traits.rs
@@ -125,7 +125,7 @@ pub trait Float:
     /// Returns if `self` is subnormal.
     #[allow(dead_code)]
     fn is_subnormal(self) -> bool {
-        (self.to_bits() & Self::EXP_MASK) == Self::Int::ZERO
+        (self.to_bits() & Self::EXP_MASK) == Self::Int::ZERO && self.frac() != Self::Int::ZERO
     }
 
     /// Returns the exponent, not adjusting for bias, not accounting for subnormals or zero.
-- 
2.43.0


From 1922e10110de9033bcfb65a85480b45796dc499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 12/14] fix: i586 ceil and floor keep the sign of zero

---
 libm/src/math/arch/i586.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/arch/i586.rs b/libm/src/math/arch/i586.rs
index f92b9a2..2171eb9 100644
--- a/libm/src/math/arch/i586.rs
+++ b/libm/src/math/arch/i586.rs
@@ -1,6 +1,6 @@
 //! Architecture-specific support for x86-32 without SSE2
 
-use super::super::fabs;
+use super::super::{copysign, fabs};
 
 /// Use an alternative implementation on x86, because the
 /// main implementation fails with the x87 FPU used by
@@ -12,7 +12,8 @@ pub fn ceil(x: f64) -> f64 {
         if truncated < x {
             return truncated + 1.0;
         } else {
-            return truncated;
+            // The round trip through an integer loses the sign of zero.
+            return copysign(truncated, x);
         }
     } else {
         return x;
@@ -29,7 +30,8 @@ pub fn floor(x: f64) -> f64 {
         if truncated > x {
             return truncated - 1.0;
         } else {
-            return truncated;
+            // The round trip through an integer loses the sign of zero.
+            return copysign(truncated, x);
         }
     } else {
         return x;
-- 
2.43.0


From d745947126d68e82dc92510126676b2f22a82ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 13/14] fix: util eval accepts negative hex floats for f16 and
 f128

---
 crates/util/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index ef70ec9..eef90e0 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -301,7 +301,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
-- 
2.43.0


From e5301a68725ea1079523045c66fffa6e7d6a1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 14/14] fix: util eval rounds decimal f16 and f128 input once

---
 crates/util/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index eef90e0..2bef375 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -14,6 +14,8 @@ use libm_test::mpfloat::MpOp;
 use libm_test::{MathOp, TupleCall};
 #[cfg(feature = "build-mpfr")]
 use rug::az::{self, Az};
+#[cfg(feature = "build-mpfr")]
+use rug::float::Round;
 
 const USAGE: &str = "\
 usage:
@@ -310,7 +312,9 @@ where
     }
 
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    // Round only once, at the precision the format has where the value lies.
+    let (mut x, ord) = rug::Float::with_val_round(F::SIG_BITS + 1, x, Round::Nearest);
+    x.subnormalize_ieee_round(ord, Round::Nearest);
     x.az()
 }
 
-- 
2.43.0

