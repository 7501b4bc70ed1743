From d10784520261703f8be81bc8adc208e907d03241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 01/14] fix: respect the sign in directed-rounding overflow of
 NaN-only formats

---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From c76aee5b9450aa6e5edf14e1b4dabbd98d02b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 02/14] fix: to_i128_r shift overflow for 1-bit signed integers

---
 src/ieee.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..e7fe960 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1681,7 +1681,8 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             0
         } else {
             // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // (`to_i128_r` asks for width 0, to convert to a 1-bit signed integer).
+            (!0u128).checked_shr((128 - width) as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From db18a4c37abdf6fc96bcc49f3c1e02af714d637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 03/14] fix: to_i128_r reports negative zero as not exact

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 8b4be805a8d581d00f5aad7d6ebafed6963efbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 04/14] fix: DoubleDouble::is_denormal looks at both parts

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..131cb44 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -411,7 +411,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From 8f5c89e896eda25564d7ad7ca1d1c814042693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 05/14] fix: sign of DoubleDouble products with a zero or
 infinite operand

---
 src/ppc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 131cb44..cf32e28 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -295,9 +295,14 @@ where
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            // The sign of the result is the exclusive or of the operands' signs.
+            (Category::Zero, _) | (Category::Infinity, _) => {
+                Status::OK.and(if rhs.is_negative() { -self } else { self })
+            }
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => {
+                Status::OK.and(if self.is_negative() { -rhs } else { rhs })
+            }
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 15a3b99d5f0f5313d42b7df7ea77c4343d9fd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 06/14] fix: sign of the sum of opposite DoubleDouble zeros

---
 src/ppc.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index cf32e28..640fdd8 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -195,6 +195,15 @@ where
                 }
             }
 
+            // The sum of two zeros of opposite sign is +0, or -0 when rounding down.
+            (Category::Zero, Category::Zero) if self.is_negative() != rhs.is_negative() => {
+                Status::OK.and(if round == Round::TowardNegative {
+                    -Self::ZERO
+                } else {
+                    Self::ZERO
+                })
+            }
+
             (_, Category::Zero) | (Category::NaN, _) | (Category::Infinity, Category::Normal) => Status::OK.and(self),
 
             (Category::Zero, _) | (_, Category::NaN) | (_, Category::Infinity) => Status::OK.and(rhs),
-- 
2.43.0


From fa0e6f0580398312b533da75ce0b3e2a5be0310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 07/14] fix: DoubleDouble results between its largest value and
 the fallback's don't panic

---
 src/ppc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 640fdd8..a13c1e8 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -79,8 +79,9 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
-        let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        // Values between the largest double-double and the largest fallback overflow here.
+        let a: F = unpack!(status=, extended.convert(&mut loses_info));
+        assert_eq!(status - Status::INEXACT - Status::OVERFLOW, Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
-- 
2.43.0


From 02914b952b67c988c774f4a20f034c98e23fbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:32 +0000
Subject: [PATCH 08/14] fix: DoubleDouble operations on signaling NaNs don't
 panic

---
 src/ppc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index a13c1e8..aa83a6a 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -108,14 +108,14 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut status;
         let mut loses_info = false;
 
-        // Get the first F and convert to our format.
-        let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        // Get the first F and convert to our format (which quiets signaling NaNs).
+        let a: Self = unpack!(status=, a.convert(&mut loses_info));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
             (a + b).value
         } else {
-- 
2.43.0


From a2ed7c7a1522d9b086324b7b4c35652359892f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:54 +0000
Subject: [PATCH 09/14] fix: parsing NaNs as DoubleDouble keeps the payload and
 doesn't panic

---
 src/ppc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index aa83a6a..6e14afc 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -390,7 +390,12 @@ where
     }
 
     fn from_str_r(s: &str, round: Round) -> Result<StatusAnd<Self>, ParseError> {
-        Fallback::from_str_r(s, round).map(|r| r.map(Self::from))
+        let r = Fallback::from_str_r(s, round)?;
+        if r.value.is_nan() {
+            // Converting would quiet signaling NaNs and shift the payload out.
+            return F::from_str_r(s, round).map(|r| r.map(|x| DoubleFloat(x, F::ZERO)));
+        }
+        Ok(r.map(Self::from))
     }
 
     fn to_bits(self) -> u128 {
-- 
2.43.0


From 4b35ceba7434bdbe382cf798bab0d4517a134da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 10/14] fix: DoubleDouble::cmp_abs_normal with equal high parts

Comparing values whose low part is zero tripped the assertion on the low
parts, and low parts of equal magnitude but opposite signs compared equal.
---
 src/ppc.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 6e14afc..96d382a 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -408,16 +408,9 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // The low part adds to the magnitude of the high part, or is taken from it.
+            let lo = |x: Self| if x.0.is_negative() { -x.1 } else { x.1 };
+            lo(self).partial_cmp(&lo(rhs)).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From c85f68c88b9257791ddb47baa6443e02fe571c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 11/14] fix: mul_add_r with a subnormal addend of larger
 exponent

The operand with the smaller exponent, whose low bits are shifted out, is
not the smaller operand when the other one is subnormal: the lost fraction
then belongs to the minuend and must not be borrowed nor inverted.
(LLVM's APFloat tracks the side of the lost fraction in the same way.)
---
 src/ieee.rs | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index e7fe960..ecf3199 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -3023,24 +3023,39 @@ mod sig {
                 shift_left(b_sig, &mut 0, 1);
             }
 
-            let borrow = (loss != Loss::ExactlyZero) as Limb;
+            // Invert the lost fraction if it is on the RHS and subtracted.
+            let lost_from_b = bits > 0;
+            let (borrow, inverted_loss) = match loss {
+                Loss::ExactlyZero => (0, loss),
+                Loss::LessThanHalf => (1, Loss::MoreThanHalf),
+                Loss::ExactlyHalf => (1, loss),
+                Loss::MoreThanHalf => (1, Loss::LessThanHalf),
+            };
 
             // Should we reverse the subtraction.
-            if cmp(a_sig, b_sig) == Ordering::Less {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(b_sig, a_sig, borrow), 0);
-                a_sig.copy_from_slice(b_sig);
-                *a_sign = !*a_sign;
-            } else {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(a_sig, b_sig, borrow), 0);
-            }
-
-            // Invert the lost fraction - it was on the RHS and subtracted.
-            match loss {
-                Loss::LessThanHalf => Loss::MoreThanHalf,
-                Loss::MoreThanHalf => Loss::LessThanHalf,
-                _ => loss,
+            match cmp(a_sig, b_sig) {
+                Ordering::Less => {
+                    let (borrow, loss) = if lost_from_b { (0, loss) } else { (borrow, inverted_loss) };
+                    // The code above is intended to ensure that no borrow is necessary.
+                    assert_eq!(sub(b_sig, a_sig, borrow), 0);
+                    a_sig.copy_from_slice(b_sig);
+                    *a_sign = !*a_sign;
+                    loss
+                }
+                Ordering::Greater => {
+                    let (borrow, loss) = if lost_from_b { (borrow, inverted_loss) } else { (0, loss) };
+                    // The code above is intended to ensure that no borrow is necessary.
+                    assert_eq!(sub(a_sig, b_sig, borrow), 0);
+                    loss
+                }
+                Ordering::Equal => {
+                    // Only the lost fraction is left.
+                    assert_eq!(sub(a_sig, b_sig, 0), 0);
+                    if lost_from_b && loss != Loss::ExactlyZero {
+                        *a_sign = !*a_sign;
+                    }
+                    loss
+                }
             }
         } else {
             let loss = if bits > 0 {
-- 
2.43.0


From 2cee38c9e3b62df358fa84d314db5e8755bf14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 12/14] fix: DoubleDouble sums of values close to the largest
 must not become NaN

a - z overflows when c is larger than a and close to the largest value; the
other operand order cannot overflow.
---
 src/ppc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index 96d382a..c1ca828 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -254,6 +254,10 @@ where
                     // q = a - z;
                     let mut q = a;
                     q = unpack!(status|=, q.sub_r(z, round));
+                    if q.is_infinite() {
+                        // Only possible if `c` is larger than `a`, and close to the largest value.
+                        return rhs.add_r(self, round);
+                    }
 
                     // zz = q + c + (a - (q + z)) + aa + cc;
                     // Compute a - (q + z) as -((q + z) - a) to avoid temporary copies.
-- 
2.43.0


From 57ba31d5cb4498cb56ebae972f594992c2fa6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 13/14] fix: format with the natural precision when a precision
 of zero is given

The documentation of Display says that a precision of 0 means the natural
precision of the number; it cut every digit instead, printing 4 as 1.0E+1
and panicking ("no characters in buffer!") on 7.5.
---
 src/ieee.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index ecf3199..4dd0d18 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        let precision = f
+            .precision()
+            .filter(|&n| n != 0)
+            .unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 8253816255c8c2a07bdc26a750887065880d175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 14/14] fix: decimal literals close to a representable value

The distance to the next value of the format was not looked at when rounding
to nearest, so the result could be reported as exact; when rounding in one
direction only a distance above such a value was seen, not one below it.
---
 src/ieee.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 4dd0d18..678e05e 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2651,30 +2651,23 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
+            // The rounded result changes, or is exact, at each value of the format, and the
+            // nearest modes also change it halfway between two of them.
             let ulps_from_boundary = {
-                let bits = calc_precision - used_bits - 1;
+                let bits = match round {
+                    Round::NearestTiesToEven | Round::NearestTiesToAway => calc_precision - used_bits - 1,
+                    _ => calc_precision - used_bits,
+                };
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
+                let mask = (1 << (bits % LIMB_BITS)) - 1;
+                let limb = sig_calc[i] & mask;
                 if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0].wrapping_neg()
-                    }
+                    cmp::min(limb, mask - limb + 1)
+                } else if limb == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
+                    sig_calc[0]
+                } else if limb == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
+                    sig_calc[0].wrapping_neg()
                 } else {
                     !0 // A lot.
                 }
-- 
2.43.0

