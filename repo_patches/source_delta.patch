From 52cc53c15e9245c8055ba47841ba3bea63b8651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 01/20] fix: negate the bound sign in sign_changes_at at
 negative infinity

The closure took no argument, so the crate did not compile.
---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From 8b69140dcddfe4c0528209f4ba10ff604d56905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 02/20] fix: only accept a root on an interval bound when it is
 the only root left

select_root returned the bound of the result interval as soon as it was a
root of any factor, even when the interval held the wanted root as well,
e.g. sqrt(1/2) + sqrt(1/2) gave 0.
---
 src/algebraic_numbers.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..c39025a 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -995,33 +995,37 @@ trait RootSelector: Sized {
             mem::swap(&mut factors, &mut factors_temp);
             factors.clear();
             let mut roots_left = 0;
+            let mut root_at_bound = None;
             for factor in factors_temp.drain(..) {
                 let lower_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                // the sign changes count the roots in the half-open interval
+                // `(lower_bound, upper_bound]`
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
+                    root_at_bound = Some(&lower_bound);
+                } else if upper_bound_sign_changes.is_root {
+                    root_at_bound = Some(&upper_bound);
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
             }
             if roots_left <= 1 {
+                if let Some(root) = root_at_bound {
+                    break root.clone().into();
+                }
                 break RealAlgebraicNumber::new_unchecked(
                     factors.remove(0).into_factor(),
                     interval,
-- 
2.43.0


From 768e8326f8f2893527d2e712988a112fa6ff1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:43 +0000
Subject: [PATCH 03/20] fix: keep the interval of a reciprocal isolating

Rounding the reciprocal of the interval outwards could take in another root
of the reversed polynomial (e.g. 1/(5+sqrt(2))), and the leading coefficient
could become negative (e.g. 1/sqrt(2)).
---
 src/algebraic_numbers.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index c39025a..6addf9f 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -640,19 +640,23 @@ impl RealAlgebraicNumber {
             }
             return Some(value.recip().into());
         }
+        struct RecipRootSelector<'a> {
+            interval_shrinker: IntervalShrinker<'a>,
+        }
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.interval_shrinker.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.interval_shrinker.shrink();
+            }
+        }
+        let minimal_polynomial = self.minimal_polynomial().iter().rev().collect();
         let mut value = self.clone();
-        value
+        let (_, interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        Some(RecipRootSelector { interval_shrinker }.select_root(minimal_polynomial))
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0


From 07ca5a01f81d942c6ef4f6b890078f953c44af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:51 +0000
Subject: [PATCH 04/20] fix: fract of a negative rational is value -
 floor(value)

It used the truncating Ratio::fract, so -3/2 gave -1/2 where the documentation
and the irrational case give 1/2.
---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 6addf9f..52f0ba6 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From bfa51fb3038717f7637f99ea6fdef36b3a7a70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:19 +0000
Subject: [PATCH 05/20] fix: adding or subtracting a rational coefficient
 scales the whole polynomial

The multipliers that bring both sides to the common denominator were swapped
and inverted, and only the constant term was scaled, so (1/3 + X/2) + 1/5
gave 17/30 + X/10.
---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..102c45d 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in lhs.elements.iter_mut() {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From ca5580184b7da032886e9741ca532de1172925e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 06/20] fix: a zeroth power modulo one is zero

pow_modular_reduce of the primitive integer types returned an unreduced 1.
---
 src/mod_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..ddc07f8 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -414,10 +414,10 @@ macro_rules! impl_prim_int_modulus {
 
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
+                let modulus = *modulus.to_modulus();
                 if exponent.is_zero() {
-                    return One::one();
+                    return <Self as One>::one().modular_reduce(modulus);
                 }
-                let modulus = *modulus.to_modulus();
                 let mut base = *self;
                 base.modular_reduce_assign(modulus);
                 if exponent.is_one() {
-- 
2.43.0


From 2a238bd188f0cab74c737c92d94f46c7ec5ec1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:37 +0000
Subject: [PATCH 07/20] fix: the next prime after 0 and 1 is 2

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..5193091 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,6 +546,9 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
+    if v < 2 {
+        return Some(2);
+    }
     if v < 3 {
         return Some(3);
     }
-- 
2.43.0


From 38b05169ab0efbcb72781ec01b3046ead5f0f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:15 +0000
Subject: [PATCH 08/20] fix: odd powers of intervals round bounds of opposite
 signs outward

---
 src/interval_arithmetic.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..8ed08ca 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1242,7 +1242,9 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            // the magnitudes of a negative interval's bounds are in reverse order, even if they're equal
+            let mut bounds_swapped = upper_bound_numer_is_negative
+                || base_lower_bound_numer > base_upper_bound_numer;
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
@@ -1254,13 +1256,22 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     base_lower_bound_numer.set_zero();
                 }
             }
+            // if the result's bounds have opposite signs, both magnitudes must be rounded up
+            let round_both_up = lower_bound_numer_is_negative && !upper_bound_numer_is_negative;
+            let shift_lower_bound = |v: BigInt| -> BigInt {
+                if round_both_up {
+                    -(-v >> log2_denom)
+                } else {
+                    v >> log2_denom
+                }
+            };
             let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
             let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
             let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
             loop {
                 if exponent.is_odd() {
-                    retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer =
+                        shift_lower_bound(retval_lower_bound_numer * &base_lower_bound_numer);
                     neg_retval_upper_bound_numer *= &base_upper_bound_numer;
                     neg_retval_upper_bound_numer >>= log2_denom;
                 }
@@ -1269,8 +1280,8 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                 if exponent.is_zero() {
                     break;
                 }
-                base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                base_lower_bound_numer =
+                    shift_lower_bound(&base_lower_bound_numer * &base_lower_bound_numer);
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
-- 
2.43.0


From 461c79d750088f3bf67013d3a88d4c351fcfabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:56 +0000
Subject: [PATCH 09/20] fix: exp doesn't assert that the last term's lower
 bound is zero

---
 src/interval_arithmetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 8ed08ca..07b2ce6 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -723,7 +723,8 @@ impl DyadicFractionInterval {
             term /= i;
             retval += &term;
             if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+                // the terms left out are non-negative and sum up to less than the last term
+                retval.upper_bound_numer += &term.upper_bound_numer;
                 break;
             }
         }
-- 
2.43.0


From 2edadb46249231ddbaee4aac08fe6f95d799a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:46 +0000
Subject: [PATCH 10/20] fix: a refused in-place exact division by a coefficient
 leaves the polynomial unchanged

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..eac88f7 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From 24a4f5745709c07f3c2b36ad31e8cac153619f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:46 +0000
Subject: [PATCH 11/20] fix: reduce the zeroth power in checked_powmod

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index eac88f7..290e3e2 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -478,7 +478,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return self.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From 1d19455da9371ee768cf1a30dab0ee022c400173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 12/20] fix: keep the common denominator of rational
 polynomials positive

---
 src/polynomial.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ded5912..9183898 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -424,9 +424,12 @@ impl<
         let gcd = elements_iter
             .next()
             .expect("not empty since already checked");
-        let gcd = elements_iter.fold(GCD::gcd(gcd, divisor), |gcd, element| {
+        let mut gcd = elements_iter.fold(GCD::gcd(gcd, divisor), |gcd, element| {
             GCD::gcd(&gcd, element)
         });
+        if *divisor < T::zero() {
+            gcd = T::zero() - gcd;
+        }
         if gcd.is_one() {
             return;
         }
@@ -446,9 +449,12 @@ impl<
         let gcd = elements_iter
             .next()
             .expect("not empty since already checked");
-        let gcd = elements_iter.fold(GCD::gcd(gcd, divisor), |gcd, element| {
+        let mut gcd = elements_iter.fold(GCD::gcd(gcd, divisor), |gcd, element| {
             GCD::gcd(&gcd, element)
         });
+        if *divisor < T::zero() {
+            gcd = T::zero() - gcd;
+        }
         let elements = elements
             .iter()
             .map(|element| element.clone().exact_div(&gcd))
-- 
2.43.0


From 2d249206d7bc2fb7f93f4a9488d2d9914d09f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:22 +0000
Subject: [PATCH 13/20] fix: make lifted factors monic before recombining them

Hensel lifting of a non-monic polynomial can leave a unit other than the
leading coefficient in any of the lifted factors; recombination then missed
true factors, e.g. (7x^4-1)(x^4-x^2+1) was returned as irreducible.
---
 src/polynomial/factorization_over_integers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..d242dba 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,12 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // lifting can move the leading coefficient into any of the factors, so get rid of it
+        // here; the recombination below multiplies by the leading coefficient itself
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From 361a834c5cd523eeb68396a6a9b05a372c3f44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 14/20] verification hooks: wrappers for crate-private modules
 behind cfg(algebraics_verif)

---
 src/lib.rs         |   4 +
 src/verif_hooks.rs | 429 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 433 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b197b2b..bdae26f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-2.1-or-later
 // See Notices.txt for copyright information
 
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 extern crate lazy_static;
 
@@ -15,6 +17,8 @@ pub mod python;
 pub(crate) mod quadratic_numbers;
 pub mod traits;
 pub mod util;
+#[cfg(algebraics_verif)]
+pub mod verif_hooks;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..b6b2862
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,429 @@
+// SPDX-License-Identifier: LGPL-2.1-or-later
+// See Notices.txt for copyright information
+
+//! Access to crate-private modules for external verification harnesses.
+//!
+//! Only compiled with `--cfg algebraics_verif`; not part of the public API.
+
+use crate::{
+    array2d::{
+        Array2DMutSlice, Array2DOwned, Array2DSlice, Array2DSliceBound, IntoIter,
+        IntoIterWithPositions, Iter, IterMut, IterMutWithPositions, IterWithPositions, Positions,
+    },
+    lattice,
+    quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
+};
+use num_bigint::BigInt;
+use num_rational::{BigRational, Ratio};
+use num_traits::{One, Signed, Zero};
+use std::{
+    cmp::Ordering,
+    ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive},
+};
+
+/// one axis of a slice request, in each form the slice functions accept
+#[derive(Clone, Debug)]
+pub enum Axis<'a> {
+    At(usize),
+    Full(RangeFull),
+    Range(Range<usize>),
+    From(RangeFrom<usize>),
+    To(RangeTo<usize>),
+    Inclusive(RangeInclusive<usize>),
+    ToInclusive(RangeToInclusive<usize>),
+    Bounds((Bound<usize>, Bound<usize>)),
+    RefRange(Range<&'a usize>),
+    RefFrom(RangeFrom<&'a usize>),
+    RefTo(RangeTo<&'a usize>),
+    RefInclusive(RangeInclusive<&'a usize>),
+    RefToInclusive(RangeToInclusive<&'a usize>),
+    RefBounds((Bound<&'a usize>, Bound<&'a usize>)),
+}
+
+impl Array2DSliceBound for Axis<'_> {
+    fn to_slice_bound(self) -> (Bound<usize>, Bound<usize>) {
+        match self {
+            Axis::At(v) => v.to_slice_bound(),
+            Axis::Full(v) => v.to_slice_bound(),
+            Axis::Range(v) => v.to_slice_bound(),
+            Axis::From(v) => v.to_slice_bound(),
+            Axis::To(v) => v.to_slice_bound(),
+            Axis::Inclusive(v) => v.to_slice_bound(),
+            Axis::ToInclusive(v) => v.to_slice_bound(),
+            Axis::Bounds(v) => v.to_slice_bound(),
+            Axis::RefRange(v) => v.to_slice_bound(),
+            Axis::RefFrom(v) => v.to_slice_bound(),
+            Axis::RefTo(v) => v.to_slice_bound(),
+            Axis::RefInclusive(v) => v.to_slice_bound(),
+            Axis::RefToInclusive(v) => v.to_slice_bound(),
+            Axis::RefBounds(v) => v.to_slice_bound(),
+        }
+    }
+}
+
+macro_rules! common_methods {
+    ($T:ident) => {
+        pub fn x_size(&self) -> usize {
+            self.0.x_size()
+        }
+        pub fn y_size(&self) -> usize {
+            self.0.y_size()
+        }
+        pub fn size(&self) -> (usize, usize) {
+            self.0.size()
+        }
+        pub fn get(&self, pos: (usize, usize)) -> &$T {
+            &self.0[pos]
+        }
+        pub fn slice(&self, x: Axis, y: Axis) -> Slice<'_, $T> {
+            Slice(self.0.slice(x, y))
+        }
+        pub fn positions(&self) -> Pos {
+            Pos(self.0.positions())
+        }
+        pub fn iter(&self) -> RefIter<'_, $T> {
+            RefIter(self.0.iter())
+        }
+        pub fn ref_into_iter(&self) -> RefIter<'_, $T> {
+            RefIter((&self.0).into_iter())
+        }
+        pub fn to_owned(&self) -> Owned<$T>
+        where
+            $T: Clone,
+        {
+            Owned(self.0.to_owned())
+        }
+        pub fn display(&self) -> (String, String)
+        where
+            $T: Clone + std::fmt::Display,
+        {
+            (format!("{}", self.0), format!("{:#}", self.0))
+        }
+    };
+}
+
+macro_rules! common_mut_methods {
+    ($T:ident) => {
+        pub fn get_mut(&mut self, pos: (usize, usize)) -> &mut $T {
+            &mut self.0[pos]
+        }
+        pub fn slice_mut(&mut self, x: Axis, y: Axis) -> MutSlice<'_, $T> {
+            MutSlice(self.0.slice_mut(x, y))
+        }
+        pub fn iter_mut(&mut self) -> MutIter<'_, $T> {
+            MutIter(self.0.iter_mut())
+        }
+        pub fn mut_into_iter(&mut self) -> MutIter<'_, $T> {
+            MutIter((&mut self.0).into_iter())
+        }
+        pub fn swap_elements(&mut self, a: (usize, usize), b: (usize, usize)) {
+            self.0.swap_elements(a, b)
+        }
+    };
+}
+
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+pub struct Owned<T>(Array2DOwned<T>);
+
+impl<T> Owned<T> {
+    pub fn from_array(x_size: usize, y_size: usize, data: Vec<T>) -> Self {
+        Self(Array2DOwned::from_array(x_size, y_size, data))
+    }
+    pub fn new(x_size: usize, y_size: usize, value: T) -> Self
+    where
+        T: Clone,
+    {
+        Self(Array2DOwned::new(x_size, y_size, value))
+    }
+    pub fn new_with(x_size: usize, y_size: usize, f: impl FnMut() -> T) -> Self {
+        Self(Array2DOwned::new_with(x_size, y_size, f))
+    }
+    pub fn new_with_positions(
+        x_size: usize,
+        y_size: usize,
+        f: impl FnMut(usize, usize) -> T,
+    ) -> Self {
+        Self(Array2DOwned::new_with_positions(x_size, y_size, f))
+    }
+    pub fn into_data(self) -> Vec<T> {
+        self.0.into_data()
+    }
+    pub fn data(&self) -> &[T] {
+        self.0.data()
+    }
+    pub fn data_mut(&mut self) -> &mut [T] {
+        self.0.data_mut()
+    }
+    pub fn into_iter(self) -> OwnedIter<T> {
+        OwnedIter(self.0.into_iter())
+    }
+    common_methods!(T);
+    common_mut_methods!(T);
+}
+
+#[derive(Copy, Clone, Debug)]
+pub struct Slice<'a, T>(Array2DSlice<'a, T>);
+
+impl<'a, T> Slice<'a, T> {
+    pub fn from_array(x_size: usize, y_size: usize, data: &'a [T]) -> Self {
+        Self(Array2DSlice::from_array(x_size, y_size, data))
+    }
+    pub fn into_iter(self) -> RefIter<'a, T> {
+        RefIter(self.0.into_iter())
+    }
+    common_methods!(T);
+}
+
+#[derive(Debug)]
+pub struct MutSlice<'a, T>(Array2DMutSlice<'a, T>);
+
+impl<'a, T> MutSlice<'a, T> {
+    pub fn from_array(x_size: usize, y_size: usize, data: &'a mut [T]) -> Self {
+        Self(Array2DMutSlice::from_array(x_size, y_size, data))
+    }
+    pub fn into_iter(self) -> MutIter<'a, T> {
+        MutIter(self.0.into_iter())
+    }
+    common_methods!(T);
+    common_mut_methods!(T);
+}
+
+#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default)]
+pub struct Pos(Positions);
+
+impl Pos {
+    pub fn new(x_size: usize, y_size: usize) -> Self {
+        Self(Positions::new(x_size, y_size))
+    }
+    pub fn is_finished(&self) -> bool {
+        self.0.is_finished()
+    }
+    pub fn pos(&self) -> Option<(usize, usize)> {
+        self.0.pos()
+    }
+    pub fn rev_pos(&self) -> Option<(usize, usize)> {
+        self.0.rev_pos()
+    }
+}
+
+macro_rules! forward_iter {
+    (($($args:tt),*), $name:ident, $item:ty) => {
+        impl<$($args),*> Iterator for $name<$($args),*> {
+            type Item = $item;
+            fn next(&mut self) -> Option<$item> {
+                self.0.next()
+            }
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                self.0.size_hint()
+            }
+            fn count(self) -> usize {
+                self.0.count()
+            }
+            fn last(self) -> Option<$item> {
+                self.0.last()
+            }
+            fn nth(&mut self, n: usize) -> Option<$item> {
+                self.0.nth(n)
+            }
+        }
+        impl<$($args),*> DoubleEndedIterator for $name<$($args),*> {
+            fn next_back(&mut self) -> Option<$item> {
+                self.0.next_back()
+            }
+            fn nth_back(&mut self, n: usize) -> Option<$item> {
+                self.0.nth_back(n)
+            }
+        }
+        impl<$($args),*> ExactSizeIterator for $name<$($args),*> {
+            fn len(&self) -> usize {
+                self.0.len()
+            }
+        }
+    };
+}
+
+macro_rules! wrap_iter {
+    (
+        $(#[$meta:meta])*
+        ($($args:tt),*), $plain:ident($plain_inner:ty), $plain_item:ty,
+        $with:ident($with_inner:ty), $with_item:ty
+    ) => {
+        $(#[$meta])*
+        pub struct $plain<$($args),*>($plain_inner);
+        $(#[$meta])*
+        pub struct $with<$($args),*>($with_inner);
+        forward_iter!(($($args),*), $plain, $plain_item);
+        forward_iter!(($($args),*), $with, $with_item);
+        impl<$($args),*> $plain<$($args),*> {
+            pub fn positions(&self) -> Pos {
+                Pos(self.0.positions())
+            }
+            pub fn with_positions(self) -> $with<$($args),*> {
+                $with(self.0.with_positions())
+            }
+        }
+        impl<$($args),*> $with<$($args),*> {
+            pub fn positions(&self) -> Pos {
+                Pos(self.0.positions())
+            }
+            pub fn without_positions(self) -> $plain<$($args),*> {
+                $plain(self.0.without_positions())
+            }
+        }
+    };
+}
+
+forward_iter!((), Pos, (usize, usize));
+wrap_iter!(
+    #[derive(Clone, Debug)]
+    ('a, T), RefIter(Iter<'a, T>), &'a T,
+    RefIterWithPositions(IterWithPositions<'a, T>), ((usize, usize), &'a T)
+);
+wrap_iter!(
+    #[derive(Debug)]
+    ('a, T), MutIter(IterMut<'a, T>), &'a mut T,
+    MutIterWithPositions(IterMutWithPositions<'a, T>), ((usize, usize), &'a mut T)
+);
+wrap_iter!(
+    #[derive(Debug)]
+    (T), OwnedIter(IntoIter<T>), T,
+    OwnedIterWithPositions(IntoIterWithPositions<T>), ((usize, usize), T)
+);
+
+pub fn lll_reduce(basis: Owned<BigInt>) -> Owned<BigInt> {
+    Owned(lattice::lll_reduce(basis.0))
+}
+pub fn lll_reduce_with_delta(basis: Owned<BigInt>, delta: BigRational) -> Owned<BigInt> {
+    Owned(lattice::lll_reduce_with_delta(basis.0, delta))
+}
+pub fn lll_reduce_i128(basis: Owned<i128>) -> Owned<i128> {
+    Owned(lattice::lll_reduce(basis.0))
+}
+pub fn gram_schmidt(basis: Slice<BigInt>) -> Owned<BigRational> {
+    Owned(lattice::gram_schmidt(basis.0))
+}
+pub fn gram_schmidt_i128(basis: Slice<i128>) -> Owned<Ratio<i128>> {
+    Owned(lattice::gram_schmidt(basis.0))
+}
+pub fn inner_product<'a>(a: Slice<'a, BigInt>, b: Slice<'a, BigInt>) -> BigInt {
+    lattice::inner_product(a.0, b.0)
+}
+
+/// quadratic number
+#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
+pub struct Quadratic(RealQuadraticNumber);
+
+impl Quadratic {
+    /// `constant_term + linear_term * X + quadratic_term * X^2`
+    pub fn new(
+        constant_term: BigInt,
+        linear_term: BigInt,
+        quadratic_term: BigInt,
+    ) -> Option<Self> {
+        RealQuadraticNumber::new(QuadraticPolynomial {
+            constant_term,
+            linear_term,
+            quadratic_term,
+        })
+        .map(Self)
+    }
+    pub fn from_integer(value: BigInt) -> Self {
+        Self(RealQuadraticNumber::from_integer(value))
+    }
+    pub fn from_i64(value: i64) -> Self {
+        Self(value.into())
+    }
+    pub fn from_ratio(numerator: BigInt, denominator: BigInt) -> Self {
+        Self(RealQuadraticNumber::from_ratio(numerator, denominator))
+    }
+    pub fn from_ratio_checked(numerator: BigInt, denominator: BigInt) -> Option<Self> {
+        RealQuadraticNumber::from_ratio_checked(numerator, denominator)
+            .ok()
+            .map(Self)
+    }
+    pub fn from_big_rational(value: BigRational) -> Self {
+        Self(value.into())
+    }
+    /// constant, linear and quadratic term of the canonical form
+    pub fn terms(&self) -> (BigInt, BigInt, BigInt) {
+        (
+            self.0.constant_term().clone(),
+            self.0.linear_term().clone(),
+            self.0.quadratic_term().clone(),
+        )
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero()
+    }
+    pub fn is_one(&self) -> bool {
+        self.0.is_one()
+    }
+    pub fn is_ratio(&self) -> bool {
+        self.0.is_ratio()
+    }
+    pub fn is_integer(&self) -> bool {
+        self.0.is_integer()
+    }
+    pub fn to_integer(&self) -> Option<BigInt> {
+        self.0.to_integer()
+    }
+    pub fn to_ratio(&self) -> Option<BigRational> {
+        self.0.to_ratio()
+    }
+    pub fn to_f64(&self) -> Option<f64> {
+        self.0.to_f64()
+    }
+    pub fn neg(&self) -> Self {
+        Self(-&self.0)
+    }
+    pub fn abs(&self) -> Self {
+        Self(self.0.abs())
+    }
+    pub fn signum(&self) -> Self {
+        Self(self.0.signum())
+    }
+    pub fn is_positive(&self) -> bool {
+        self.0.is_positive()
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative()
+    }
+    pub fn checked_add(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_add(&rhs.0).ok().map(Self)
+    }
+    pub fn checked_sub(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_sub(&rhs.0).ok().map(Self)
+    }
+    pub fn add(&self, rhs: &Self) -> Self {
+        Self(&self.0 + &rhs.0)
+    }
+    pub fn sub(&self, rhs: &Self) -> Self {
+        Self(&self.0 - &rhs.0)
+    }
+    pub fn checked_recip(&self) -> Option<Self> {
+        self.0.checked_recip().ok().map(Self)
+    }
+    pub fn eq_ratio(&self, rhs: &BigRational) -> (bool, bool) {
+        (self.0 == *rhs, *rhs == self.0)
+    }
+    pub fn cmp_ratio(&self, rhs: &BigRational) -> (Option<Ordering>, Option<Ordering>) {
+        (self.0.partial_cmp(rhs), rhs.partial_cmp(&self.0))
+    }
+    /// `<`, `<=`, `>`, `>=` with the number on the left, then on the right
+    pub fn relations_ratio(&self, rhs: &BigRational) -> ([bool; 4], [bool; 4]) {
+        (
+            [
+                self.0 < *rhs,
+                self.0 <= *rhs,
+                self.0 > *rhs,
+                self.0 >= *rhs,
+            ],
+            [
+                *rhs < self.0,
+                *rhs <= self.0,
+                *rhs > self.0,
+                *rhs >= self.0,
+            ],
+        )
+    }
+}
-- 
2.43.0


From c6d822f3b6774ab1f4caffb5263e657627c4173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 15/20] fix: keep the reciprocal of a rational quadratic number
 in canonical form

---
 src/quadratic_numbers.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/quadratic_numbers.rs b/src/quadratic_numbers.rs
index 6df510d..7de5871 100644
--- a/src/quadratic_numbers.rs
+++ b/src/quadratic_numbers.rs
@@ -435,10 +435,7 @@ impl RealQuadraticNumber {
     }
     pub(crate) fn checked_recip(&self) -> Result<Self, NonQuadraticResult> {
         if self.is_ratio() {
-            return Self::from_negated_reduced_ratio_checked(
-                self.linear_term().clone(),
-                self.constant_term().clone(),
-            );
+            return Self::from_ratio_checked(self.linear_term().clone(), -self.constant_term());
         }
         unimplemented!()
     }
-- 
2.43.0


From e5df5649a3a695def8a39e4738e2dfa2a11191d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:32 +0000
Subject: [PATCH 16/20] fix: remove debugging output from backwards array
 iteration

---
 src/array2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..fd355af 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -734,7 +734,7 @@ impl<Iter: Iterator + DoubleEndedIterator + ExactSizeIterator> IterOwnedData<Ite
     fn get_unchecked_back(&mut self, x: usize, y: usize) -> Iter::Item {
         let index = get_index_unchecked(self.stride, x, y) - self.offset;
         self.iter
-            .nth_back(self.iter.len() - dbg!(index) - 1)
+            .nth_back(self.iter.len() - index - 1)
             .expect("data shouldn't be empty")
     }
 }
-- 
2.43.0


From 984d20b93b2c94f7d5e2be396d670673847d5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 17/20] fix: answer empty slices at the end of a
 two-dimensional array

---
 src/array2d.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index fd355af..8c4283e 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -267,10 +267,17 @@ impl<Data: Array2DData> Array2DBase<Data> {
         }
         let (x_start, x_end) = start_and_end(x_bound.to_slice_bound(), self.x_size);
         let (y_start, y_end) = start_and_end(y_bound.to_slice_bound(), self.y_size);
+        let x_size = x_end - x_start;
+        let y_size = y_end - y_start;
         Array2DSliceData {
-            x_size: x_end - x_start,
-            y_size: y_end - y_start,
-            data_offset: get_index_unchecked(self.stride(), x_start, y_start),
+            x_size,
+            y_size,
+            // an empty slice can start past the end of the data
+            data_offset: if x_size == 0 || y_size == 0 {
+                0
+            } else {
+                get_index_unchecked(self.stride(), x_start, y_start)
+            },
         }
     }
     pub(crate) fn slice<XB: Array2DSliceBound, YB: Array2DSliceBound>(
-- 
2.43.0


From 396c11d8af21df228859376795a10da36e070d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 18/20] verification hooks for nearest division, prime-field
 factoring and subset enumeration

---
 src/verif_hooks.rs | 99 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 98 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index b6b2862..c2a8cf2 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -11,11 +11,16 @@ use crate::{
         IntoIterWithPositions, Iter, IterMut, IterMutWithPositions, IterWithPositions, Positions,
     },
     lattice,
+    mod_int::{KnownOddPrime, KnownPrime, ModularInteger},
+    polynomial::Polynomial,
     quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
+    traits::DivRemNearest,
+    util::{self, ContinueBreak},
 };
-use num_bigint::BigInt;
+use num_bigint::{BigInt, BigUint};
 use num_rational::{BigRational, Ratio};
 use num_traits::{One, Signed, Zero};
+use rand::RngCore;
 use std::{
     cmp::Ordering,
     ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive},
@@ -427,3 +432,95 @@ impl Quadratic {
         )
     }
 }
+
+/// division rounding to the nearest quotient
+pub trait NearestDivision: Sized {
+    fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)>;
+    fn nearest(&self, rhs: &Self) -> (Self, Self);
+}
+
+macro_rules! nearest_division {
+    ($($t:ty),*) => {$(
+        impl NearestDivision for $t {
+            fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)> {
+                self.checked_div_rem_nearest(rhs)
+            }
+            fn nearest(&self, rhs: &Self) -> (Self, Self) {
+                self.div_rem_nearest(rhs)
+            }
+        }
+    )*};
+}
+
+nearest_division!(
+    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, BigInt, BigUint, Ratio<i8>,
+    Ratio<i64>, Ratio<BigInt>
+);
+
+/// factorisation over a prime field; coefficients in increasing order of power
+pub trait PrimeFieldFactoring: Sized {
+    fn distinct_degree(coefficients: Vec<Self>, modulus: Self) -> Vec<Vec<Self>>;
+    fn same_degree(
+        coefficients: Vec<Self>,
+        modulus: Self,
+        factor_degree: usize,
+        rng: &mut dyn RngCore,
+    ) -> Vec<Vec<Self>>;
+}
+
+macro_rules! prime_field_factoring {
+    ($($t:ty),*) => {$(
+        impl PrimeFieldFactoring for $t {
+            fn distinct_degree(coefficients: Vec<Self>, modulus: Self) -> Vec<Vec<Self>> {
+                let modulus = KnownPrime::new_unsafe(modulus);
+                let polynomial: Polynomial<_> = coefficients
+                    .into_iter()
+                    .map(|v| ModularInteger::new(v, modulus.clone()))
+                    .collect();
+                polynomial
+                    .distinct_degree_factorization()
+                    .into_iter()
+                    .map(|p| p.into_iter().map(|v| v.value().clone()).collect())
+                    .collect()
+            }
+            fn same_degree(
+                coefficients: Vec<Self>,
+                modulus: Self,
+                factor_degree: usize,
+                rng: &mut dyn RngCore,
+            ) -> Vec<Vec<Self>> {
+                let modulus = KnownOddPrime::new_odd_prime_unsafe(modulus);
+                let polynomial: Polynomial<_> = coefficients
+                    .into_iter()
+                    .map(|v| ModularInteger::new(v, modulus.clone()))
+                    .collect();
+                polynomial
+                    .same_degree_factorization(factor_degree, rng)
+                    .into_iter()
+                    .map(|p| p.into_iter().map(|v| v.value().clone()).collect())
+                    .collect()
+            }
+        }
+    )*};
+}
+
+prime_field_factoring!(i8, i32, i64);
+
+/// calls `f` with each subset of `size` indexes out of `range`, until it returns `Err`
+pub fn for_subsets_of_size<T>(
+    mut f: impl FnMut(&[usize]) -> Result<(), T>,
+    size: usize,
+    range: Range<usize>,
+) -> Result<(), T> {
+    match util::for_subsets_of_size(
+        |subset| match f(subset) {
+            Ok(()) => ContinueBreak::Continue,
+            Err(v) => ContinueBreak::Break(v),
+        },
+        size,
+        range,
+    ) {
+        ContinueBreak::Continue => Ok(()),
+        ContinueBreak::Break(v) => Err(v),
+    }
+}
-- 
2.43.0


From 067d74b6e67d1bece0d5a722af1a2b7fe5224520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:01 +0000
Subject: [PATCH 19/20] fix: nearest-integer division of negative numbers and
 big integers rounded the wrong way

---
 src/traits.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 560848c..f013916 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -240,11 +240,14 @@ macro_rules! impl_div_rem_signed_int {
                 let mut remainder = lhs % rhs;
                 let rhs_magnitude = rhs.wrapping_abs() as $u;
                 let remainder_magnitude = remainder.wrapping_abs() as $u;
-                if rhs != <$t>::min_value() && remainder_magnitude > rhs_magnitude / 2 {
-                    let (quotient_offset, remainder_offset) =
-                        if rhs < 0 { (-1, rhs) } else { (1, -rhs) };
-                    quotient = quotient.checked_add(quotient_offset)?;
-                    remainder = remainder.checked_add(remainder_offset)?;
+                if remainder_magnitude > rhs_magnitude / 2 {
+                    if (lhs < 0) == (rhs < 0) {
+                        quotient += 1;
+                        remainder -= rhs;
+                    } else {
+                        quotient -= 1;
+                        remainder += rhs;
+                    }
                 }
                 Some((quotient, remainder))
             }
@@ -290,13 +293,13 @@ impl DivRemNearest for BigInt {
         let (mut quotient, mut remainder) = self.div_rem(rhs);
         let rhs_magnitude = rhs.abs();
         let remainder_magnitude = remainder.abs();
-        if &rhs_magnitude - &remainder_magnitude > remainder_magnitude {
-            if rhs.is_negative() {
-                quotient -= 1;
-                remainder -= rhs_magnitude;
-            } else {
+        if &rhs_magnitude - &remainder_magnitude < remainder_magnitude {
+            if self.is_negative() == rhs.is_negative() {
                 quotient += 1;
-                remainder += rhs_magnitude;
+                remainder -= rhs;
+            } else {
+                quotient -= 1;
+                remainder += rhs;
             }
         }
         Some((quotient, remainder))
-- 
2.43.0


From 4617425279832b013f7cd32a2efc27ab16ee894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:12 +0000
Subject: [PATCH 20/20] fix: keep nested polynomials normalised when an element
 is multiplied by zero

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9183898..6584426 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -773,6 +773,7 @@ where
         for sub_element in &mut element.elements {
             T::mul_assign_element_by_usize(sub_element, multiplier);
         }
+        element.normalize();
     }
     fn divisor_to_element(
         _v: Cow<Self::Divisor>,
-- 
2.43.0

