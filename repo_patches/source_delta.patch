From 6ae2113e17e286d63526c1cabf110b82217b88b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 01/32] fix: constrain the less_than/leq comparisons and their
 shift for widths above 126

The comparison value and its low bits were free witness values, so any prover
could choose the returned bit; for n_bits > 126 the shift was 2^(n_bits + 2),
which made every honest comparison false. Witness access no longer panics when
synthesizing without values.
---
 src/btc_validation/median.rs | 110 +++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..6204d25 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,7 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num::Num as BitNum;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -100,6 +101,33 @@ CS: ConstraintSystem<Scalar>,
     leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)
 }
 
+/// Constrains `low` to be the `n_bits + 1` low-order bits of `num`,
+/// where `num` is less than `2 * zero_shift` and `zero_shift = 2^(n_bits + 1)`.
+fn enforce_low_bits <Scalar, CS> (
+    mut cs: CS,
+    num: &AllocatedNum<Scalar>,
+    low: &AllocatedNum<Scalar>,
+    zero_shift: Scalar,
+    n_bits: usize,
+) -> Result<(), SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    BitNum::from(low.clone()).fits_in_bits(cs.namespace(|| "low fits"), n_bits + 1)?;
+
+    // Constrain:
+    // (num - low) * (num - low - zero_shift) == 0
+    cs.enforce(
+        || "(num - low) * (num - low - zero_shift) == 0",
+        |lc| lc + num.get_variable() - low.get_variable(),
+        |lc| lc + num.get_variable() - low.get_variable() - (zero_shift, CS::one()),
+        |lc| lc,
+    );
+
+    Ok(())
+}
+
 /// Takes two allocated numbers (a, b) and returns
 /// allocated boolean variable with value `true`
 /// if the `a` and `b` are such that a is strictly less than b, 
@@ -114,26 +142,36 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
+    // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
+    // zero_shift = 2^(n_bits + 1)
+    let zero_shift = if n_bits <= 126 { 
+        Scalar::from_u128(2 << n_bits) 
+    } 
+    else { 
+        let shift1 = Scalar::from_u128(1 << (n_bits - 126));
+        let mut shift2 = Scalar::from_u128(2 << 126);
+        shift2.mul_assign(&shift1);
+        shift2
+    };
+
     let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift"), || {
-        let mut cmp_val = a.get_value().unwrap();
-        let b_value = b.get_value().unwrap();
-
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
+        let mut cmp_val = *a.get_value().grab()?;
+        let b_value = *b.get_value().grab()?;
 
         cmp_val.add_assign(&zero_shift);
         cmp_val.sub_assign(&b_value);
 
         Ok(cmp_val)
-    }).unwrap();
+    })?;
+
+    // Constrain allocation:
+    // zero_shifted_cmp = a - b + zero_shift
+    cs.enforce(
+        || "zero_shifted_cmp = a - b + zero_shift",
+        |lc| lc + a.get_variable() - b.get_variable() + (zero_shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
 
     let n_bit_zero_cmp = AllocatedNum::alloc(cs.namespace(|| "n_bits zero cmp"), ||{
         let mut exponent = Scalar::ONE;
@@ -153,7 +191,8 @@ where
         }
 
         Ok(summ)
-    }).unwrap();
+    })?;
+    enforce_low_bits(cs.namespace(|| "low bits"), &zero_shifted_cmp, &n_bit_zero_cmp, zero_shift, n_bits)?;
 
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
@@ -179,27 +218,37 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
+    // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
+    // zero_shift = 2^(n_bits + 1)
+    let zero_shift = if n_bits <= 126 { 
+        Scalar::from_u128(2 << n_bits) 
+    } 
+    else { 
+        let shift1 = Scalar::from_u128(1 << (n_bits - 126));
+        let mut shift2 = Scalar::from_u128(2 << 126);
+        shift2.mul_assign(&shift1);
+        shift2
+    };
+
     let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift leq"), || {
-        let mut cmp_val = a.get_value().unwrap();
-        let mut b_value = b.get_value().unwrap();
+        let mut cmp_val = *a.get_value().grab()?;
+        let mut b_value = *b.get_value().grab()?;
         b_value.add_assign(Scalar::ONE);
 
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
-
         cmp_val.add_assign(&zero_shift);
         cmp_val.sub_assign(&b_value);
 
         Ok(cmp_val)
-    }).unwrap();
+    })?;
+
+    // Constrain allocation:
+    // zero_shifted_cmp = a - b + zero_shift - 1
+    cs.enforce(
+        || "zero_shifted_cmp = a - b + zero_shift - 1",
+        |lc| lc + a.get_variable() - b.get_variable() - CS::one() + (zero_shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
 
     let n_bit_zero_cmp = AllocatedNum::alloc(cs.namespace(|| "n_bits zero cmp leq"), ||{
         let mut exponent = Scalar::ONE;
@@ -219,7 +268,8 @@ where
         }
 
         Ok(summ)
-    }).unwrap();
+    })?;
+    enforce_low_bits(cs.namespace(|| "low bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp, zero_shift, n_bits)?;
 
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
-- 
2.43.0


From 3d648aaf36d9b5e3068f3f19c7d63c8e23bd5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 02/32] fix: constrain the constants, the sign and the
 occurrence count of the median verification

---
 src/btc_validation/median.rs | 59 ++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 6204d25..62bd8ac 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -28,15 +27,33 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_median(cs, &fe_timestamps, &fe_median)
+}
+
+/// Takes an odd number (at most 11) of allocated timestamps and a claimed median.
+/// Returns an allocated boolean variable with value `true`
+/// if the claim is the median of the timestamps, `false` otherwise.
+pub fn verify_median<Scalar, CS> (mut cs: CS, fe_timestamps: &[AllocatedNum<Scalar>], fe_median: &AllocatedNum<Scalar>) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    // Constrain: sign_diff starts at 0
+    cs.enforce(
+        || "initial sign_diff == 0",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + sign_diff.get_variable(),
+    );
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
@@ -55,14 +72,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::from(2u64)),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -71,7 +86,17 @@ CS: ConstraintSystem<Scalar>,
     }
     // absolute value of sign_diff needs to be obtained
     let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    // Constrain:
+    // const_12 == 12
+    cs.enforce(
+        || "const_12 == 12",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + const_12.get_variable() - (Scalar::from(12u64), CS::one()),
+    );
+    // sign_diff is at least -11, so it is negative if and only if sign_diff + 12 < 12
+    let shifted_sign_diff = sign_diff.add(cs.namespace(|| "sign_diff + 12"), &const_12).unwrap();
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &shifted_sign_diff, &const_12, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,13 +112,29 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    // Constrain:
+    // const_1 == 1
+    cs.enforce(
+        || "const_1 == 1",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + const_1.get_variable() - CS::one(),
+    );
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    // Constrain:
+    // fe_median_occ == n_median_occurrences
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + fe_median_occ.get_variable() - &n_median_occurrences.lc(Scalar::ONE),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
-- 
2.43.0


From 524113a9fe812af399c3ea9d137750c128da38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 03/32] fix: compare carried numbers of different limb counts,
 with exact carry widths that fit the field

---
 src/mp/bignat.rs | 79 ++++++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..7977050 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -42,6 +41,28 @@ fn int_with_n_ones(n: usize) -> BigInt {
     m
 }
 
+/// The number of bits of the largest carry between limbs of `limb_width` bits when comparing
+/// two numbers with limbs of at most `max_word`.
+fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let mut carry = BigInt::from(0);
+    loop {
+        // carry' = (limb + carry + max_word - other limb) / base
+        let next = BigInt::from((max_word * 2 + &carry) >> limb_width as u32);
+        if next == carry {
+            return carry.bits() as usize;
+        }
+        carry = next;
+    }
+}
+
+/// The maximum word of a group of limbs.
+fn group_max_word(max_word: &BigInt, limb_width: usize, limbs_per_group: usize) -> BigInt {
+    (0..limbs_per_group).fold(BigInt::from(0u8), |mut acc, i| {
+        acc.set_bit((i * limb_width) as u64, true);
+        acc
+    }) * max_word
+}
+
 /// Compute the limbs encoding a natural number.
 /// The limbs are assumed to be based the `limb_width` power of 2.
 pub fn nat_to_limbs<'a, Scalar: PrimeField>(
@@ -716,20 +737,20 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all `n` limbs, the shorter number being extended with zeros.
+        let n = max(self.limbs.len(), other.limbs.len());
+        let this = self.with_n_limbs::<CS>(n);
+        let other = other.with_n_limbs::<CS>(n);
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 Ok(nat_to_f(
-                    &((f_to_nat(&self.limb_values.grab()?[i])
+                    &((f_to_nat(&this.limb_values.grab()?[i])
                         + f_to_nat(&carry_in.value.unwrap())
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
@@ -744,7 +765,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 |lc| lc,
                 |lc| lc,
                 |lc| {
-                    lc + &carry_in.num + &self.limbs[i] - &other.limbs[i]
+                    lc + &carry_in.num + &this.limbs[i] - &other.limbs[i]
                         + (nat_to_f(&max_word).unwrap(), CS::one())
                         - (nat_to_f(&target_base).unwrap(), &carry.num)
                         - (
@@ -768,23 +789,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             carry_in = Num::from(carry);
         }
-
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
@@ -798,10 +802,21 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
-        let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
+        let capacity = Scalar::CAPACITY as usize;
+        let mut limbs_per_group = capacity / self.params.limb_width;
+        // A group and its carries must fit in the field.
+        while limbs_per_group > 0 {
+            let group_width = limbs_per_group * self.params.limb_width;
+            let group_max_word = group_max_word(max_word, self.params.limb_width, limbs_per_group);
+            if group_width + carry_bits(&group_max_word, group_width) <= capacity {
+                break;
+            }
+            limbs_per_group -= 1;
+        }
+        if limbs_per_group == 0 {
+            eprintln!("Limbs are too large for the field at equal_when_carried_regroup");
+            return Err(SynthesisError::Unsatisfiable);
+        }
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
         self_grouped.equal_when_carried(cs.namespace(|| "grouped"), &other_grouped)
@@ -1221,10 +1236,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             limbs
         };
-        let max_word = (0..limbs_per_group).fold(BigInt::from(0u8), |mut acc, i| {
-            acc.set_bit((i * self.params.limb_width) as u64, true);
-            acc
-        }) * &self.params.max_word;
+        let max_word =
+            group_max_word(&self.params.max_word, self.params.limb_width, limbs_per_group);
         BigNat {
             params: BigNatParams {
                 min_bits: self.params.min_bits,
-- 
2.43.0


From 44129fc5c0ef44e630e5f5bfe1b89b6fd0630580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 04/32] fix: leave room for the largest quotient when the
 modulus has a minimum size

---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 7977050..8bdbf9d 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1088,7 +1088,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1158,7 +1158,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From b1e2a8df406e650302aebbb989ff5eadcc5acce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 05/32] fix: refuse a modulus of another limb width in mult_mod
 and use 64-bit limbs for the two weeks

---
 src/btc_validation/difficulty_update.rs | 2 +-
 src/mp/bignat.rs                        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8bdbf9d..753c410 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1086,6 +1086,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         modulus: &Self,
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
+        self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
             (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
-- 
2.43.0


From 095540b335de906ca1a9a65c079f5ec1a5d544a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 06/32] fix: range-check the difference of two big numbers

---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 753c410..c0e2cd3 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -899,6 +899,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 4c9c7a21d5d8982795d5e48f60c01ddc802d0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 07/32] fix: check the minimum of two big numbers against the
 lesser, not the second, operand

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c0e2cd3..ac6db05 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -993,7 +993,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From 3e49afae6253c19abe5ee168962de01cd8ab61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 08/32] fix: from_num accepts only the canonical limbs when
 they can hold more than the field

---
 src/mp/bignat.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index ac6db05..99a3519 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -306,6 +306,20 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         // (2) recompose bits and check if it equals n
         n.is_equal(cs.namespace(|| "n"), &bv)?;
 
+        // (3) if the limbs can hold more than the field, check that they do not exceed its
+        // largest element: (2) holds only modulo the field's characteristic
+        if limb_width * n_limbs > Scalar::CAPACITY as usize {
+            let largest = nat_to_limbs::<Scalar>(
+                &f_to_nat(&(Scalar::ZERO - Scalar::ONE)),
+                limb_width,
+                n_limbs,
+            )?
+            .into_iter()
+            .map(|limb| Num::new(Some(limb), LinearCombination::zero() + (limb, CS::one())))
+            .collect();
+            BigNat::from_limbs(largest, limb_width).sub(cs.namespace(|| "canonical"), &bignat)?;
+        }
+
         Ok(bignat)
     }
 
-- 
2.43.0


From 7f0411b51df7174a9e03625dc9dc4d10ae38287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 09/32] fix: n_bits counts the carries of limbs above the limb
 width

---
 src/mp/bignat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 99a3519..c0eef96 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1303,7 +1303,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // all limbs at the maximum word, which may exceed the limb width
+        let params = &self.params;
+        group_max_word(&params.max_word, params.limb_width, params.n_limbs).bits() as usize
     }
 }
 
-- 
2.43.0


From e8eb46d55bb5bc9e7b514cf7ba77d11eddf1dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 10/32] fix: drop the stated minimum size after truncation and
 after scaling by zero

---
 src/mp/bignat.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c0eef96..3c79f24 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -719,9 +719,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // the size may have come from the limbs that are gone
+            new.params.min_bits = 0;
         }
         new
     }
@@ -894,6 +893,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if constant.is_zero_vartime() {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0


From 2f3e6e32125c63a946b074895edf76b6e7d595ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 11/32] fix: nat_to_f refuses numbers that do not fit the field

---
 src/util/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..1dfa616 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -19,8 +19,11 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 }
 
 /// Convert a natural number to a field element.
-/// Returns `None` if the number is too big for the field.
+/// Returns `None` if the number is negative or too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
+    if n > &f_to_nat(&(Scalar::ZERO - Scalar::ONE)) {
+        return None;
+    }
     Scalar::from_str_vartime(&format!("{}", n))
 }
 
-- 
2.43.0


From 6284a265ab2cad0d9e982251cba79f13df97bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 12/32] fix: f_to_usize reads the whole machine word

---
 src/util/convert.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index 1dfa616..ee06239 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -34,12 +34,17 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
     Scalar::from(n as u64)
 }
 
-/// Convert a `usize` to a field element.
-/// Panics if the field is too small.
+/// Convert a field element to a `usize`.
+/// Panics if the element is too big for a `usize`.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
     let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    let word = std::mem::size_of::<usize>();
+    assert!(s.as_ref().iter().skip(word).all(|v| *v == 0));
+    s.as_ref()
+        .iter()
+        .take(word)
+        .rev()
+        .fold(0, |n, byte| (n << 8) | *byte as usize)
 }
 
 #[cfg(test)]
-- 
2.43.0


From a2b27bccf31266b156454f32d3e596b7a38acd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 13/32] fix: is_equal compares with the bits the vector has now

---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..5635b06 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
+        let bits = other.bits.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From f794b05b451a7bd1efc8390e5e33c1624eca3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 14/32] fix: a forced lazy cell can be borrowed again while it
 is borrowed

---
 src/util/lazy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..25def62 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,9 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0


From 678061f68b9a5215709d240d7315a30182f10de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 15/32] fix: constrain the range of the retarget time span
 instead of asserting it on the witness

---
 src/btc_validation/difficulty_update.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..fc8e3f3 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,3 +1,4 @@
+use bellpepper_core::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
@@ -42,9 +43,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -84,9 +86,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
-- 
2.43.0


From e6c202cac788ed93f2a2f3c33ae9d98d892a9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 16/32] fix: constrain the constants of the retarget
 computation

---
 src/btc_validation/difficulty_update.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index fc8e3f3..6a871e6 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -42,6 +42,8 @@ CS: ConstraintSystem<Scalar>,
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "lower limit", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
+    cs.enforce(|| "upper limit", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
@@ -57,6 +59,7 @@ CS: ConstraintSystem<Scalar>,
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "two weeks", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -85,6 +88,8 @@ CS: ConstraintSystem<Scalar>,
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "lower limit", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
+    cs.enforce(|| "upper limit", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
@@ -92,6 +97,7 @@ CS: ConstraintSystem<Scalar>,
     Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "two weeks", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
-- 
2.43.0


From 32f3db2fc594a13b5555cc2c5c1a309b4529748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 17/32] fix: the retarget verification checks and uses the same
 time span

---
 src/btc_validation/difficulty_update.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 6a871e6..6f42254 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -20,6 +20,7 @@ Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
     let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_lc = t_sum_num.num.clone();
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -39,6 +40,7 @@ CS: ConstraintSystem<Scalar>,
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    cs.enforce(|| "same time span", |lc| lc, |lc| lc, |lc| lc + fe_t_sum.get_variable() - &t_sum_lc);
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
-- 
2.43.0


From d5bcfa30eed7d937eaae3275c6dc27515aaef62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 18/32] fix: bound the remainder of the retarget division by
 two weeks

---
 src/btc_validation/difficulty_update.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 6f42254..bc487c0 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,5 +1,5 @@
 use bellpepper_core::boolean::Boolean;
-use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -8,6 +8,19 @@ use crate::util::num;
 // use crate::util::convert::nat_to_f;
 // use bellpepper_nonnative::mp::bignat::Polynomial;
 
+/// Constrains `remainder` to be a remainder of the division by 2016 * 10 * 60.
+fn assert_remainder<Scalar, CS>(mut cs: CS, remainder: &BigNat<Scalar>) -> Result<(), SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
+    let last = Scalar::from(2016 * 10 * 60 - 1 as u64);
+    let last = num::Num::new(Some(last), LinearCombination::from_coeff(CS::one(), last));
+    let last = BigNat::from_num(cs.namespace(|| "largest remainder"), last, remainder.params.limb_width, remainder.params.n_limbs)?;
+    last.sub(cs.namespace(|| "largest remainder - remainder"), remainder)?;
+    Ok(())
+}
+
 pub fn verify_difficulty_update<Scalar, CS> 
     (   mut cs: CS, 
         current_target_u: u128,
@@ -64,7 +77,8 @@ CS: ConstraintSystem<Scalar>,
     cs.enforce(|| "two weeks", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
-    let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
+    let (t_new, remainder) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
+    assert_remainder(cs.namespace(|| "remainder below two weeks"), &remainder).unwrap();
     target.equal(cs.namespace(|| "computation equal to next target"), &t_new).unwrap()
 }
 
@@ -102,7 +116,8 @@ CS: ConstraintSystem<Scalar>,
     cs.enforce(|| "two weeks", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
-    let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
+    let (t_new, remainder) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
+    assert_remainder(cs.namespace(|| "remainder below two weeks"), &remainder).unwrap();
     // let target_num = Polynomial::from(t_new);
     // let _new_target = AllocatedNum::alloc(cs.namespace(|| "Updated target calculated"), || {
     //     let target_value = t_new.value.unwrap();
-- 
2.43.0


From 1c368d0dd40c357e3edf52d08763d916527506e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 19/32] fix: selecting between big numbers keeps limbs above
 the limb width

---
 src/mp/bignat.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 3c79f24..7e9658d 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1361,20 +1361,18 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
             eprintln!("Wire mis-match in BigNat mux");
             return Err(SynthesisError::Unsatisfiable);
         }
-        let value: Option<&Self::Value> = s
+        // The limbs are selected as they are: they may be above the limb width.
+        let limb_values = s
             .value
-            .and_then(|b| if b { i1.value() } else { i0.value() });
-        let out: Self = Self::alloc(
+            .and_then(|b| if b { i1.wire_values() } else { i0.wire_values() });
+        let mut out: Self = BigNat::alloc_from_limbs(
             cs.namespace(|| "out"),
-            value,
-            (),
-            &BigNatParams {
-                min_bits: min(i0.params.min_bits, i1.params.min_bits),
-                max_word: max(i0.params.max_word.clone(), i1.params.max_word.clone()),
-                limb_width: i0.params.limb_width,
-                n_limbs: i0.params.n_limbs,
-            },
+            || Ok(limb_values.grab()?.clone()),
+            Some(max(i0.params.max_word.clone(), i1.params.max_word.clone())),
+            i0.params.limb_width,
+            i0.params.n_limbs,
         )?;
+        out.params.min_bits = min(i0.params.min_bits, i1.params.min_bits);
         let out_wires = out.wires();
         for (i, ((i0w, i1w), out_w)) in i0_wires
             .into_iter()
-- 
2.43.0


From 71177be4a8c870920be2f2b99af75ca931e7c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 20/32] fix: the step pushes its outputs instead of indexing an
 empty vector

---
 src/btc_validation/header_step.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..ea8ed91 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -407,7 +407,7 @@ where
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
         let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
-        z_out[0] = curr_hash.clone();
+        z_out.push(curr_hash.clone());
         cs.enforce(
             || "current SHA256d hash out", 
             |lc| lc,
@@ -417,7 +417,7 @@ where
 
         
         for i in 1..=10 {
-            z_out[i] = z_i[i+1].clone();
+            z_out.push(z_i[i+1].clone());
 
             cs.enforce(
                 || format!("timestamp out {}", i), 
@@ -427,7 +427,7 @@ where
             );
         }
 
-        z_out[11] = curr_timestamp.clone();
+        z_out.push(curr_timestamp.clone());
         cs.enforce(
             || "current timestamp out", 
             |lc| lc,
@@ -435,7 +435,7 @@ where
             |lc| lc + z_out[11].get_variable() - curr_timestamp.get_variable(),
         );
 
-        z_out[12] = target.clone();
+        z_out.push(target.clone());
         cs.enforce(
             || "current target out", 
             |lc| lc,
@@ -443,7 +443,7 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out[13] = start_time_epoch.clone();
+        z_out.push(start_time_epoch.clone());
         cs.enforce(
             || "current start time epoch out", 
             |lc| lc,
@@ -451,12 +451,12 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
-        z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[14] = z_i[14] + 1", 
@@ -466,13 +466,13 @@ where
         );
 
         // total work
-        z_out[15] = AllocatedNum::alloc(cs.namespace(|| "total work"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "total work"), || {
             let prev_total = z_i[15].get_value().unwrap();
             let mut curr_work = block_work.get_value().unwrap();
 
             curr_work.add_assign(&prev_total);
             Ok(curr_work)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[15] = z_i[15] + block_work", 
-- 
2.43.0


From ef7d76d9b315ba13bc83e8b3b192942d41b0946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 21/32] fix: header fields come from the hashed bits and the
 step's hashes and verdicts are constrained

---
 src/btc_validation/header_step.rs | 97 +++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index ea8ed91..0e49817 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -5,7 +5,7 @@ use crate::btc_validation::{difficulty_update, median};
 use bellpepper_core::{
     boolean,
     num::AllocatedNum,
-    ConstraintSystem, SynthesisError,
+    ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
@@ -111,6 +111,58 @@ where
     }
 }
 
+/// Constrains `condition` to be `true`.
+fn require<F, CS>(mut cs: CS, condition: &boolean::Boolean) -> Result<(), SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    boolean::Boolean::enforce_equal(cs.namespace(|| "required"), condition, &boolean::Boolean::constant(true))?;
+    if condition.get_value() == Some(false) {
+        return Err(SynthesisError::Unsatisfiable);
+    }
+
+    Ok(())
+}
+
+/// Constrains `num` to be the little-endian number made of these bytes,
+/// each given as bits, most significant bit first.
+fn enforce_le_bytes<F, CS>(mut cs: CS, bits: &[boolean::Boolean], num: &AllocatedNum<F>)
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let mut powers = vec![F::ONE];
+    for i in 1..bits.len() {
+        powers.push(powers[i - 1].double());
+    }
+    let mut sum = LinearCombination::zero();
+    for (i, b) in bits.iter().enumerate() {
+        sum = sum + &b.lc(CS::one(), powers[16 * (i/8) + 7 - i]);
+    }
+
+    cs.enforce(
+        || "num is made of these bytes",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + num.get_variable() - &sum,
+    );
+}
+
+/// Constrains a hash, given as bits, to be less than 2^224. The hash of a valid block is
+/// less than 2^224, and a hash of 256 bits does not fit the field.
+fn enforce_hash_size<F, CS>(mut cs: CS, bits: &[boolean::Boolean]) -> Result<(), SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    for (i, b) in bits[224..].iter().enumerate() {
+        require(cs.namespace(|| format!("high bit {}", i)), &b.not())?;
+    }
+
+    Ok(())
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -138,24 +190,22 @@ where
         // }
         
 
+        // Header bits: every field of the header is read off these
+        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
+        for (i, preimage64) in header.iter().enumerate() {
+            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
+            dummy2.reverse();
+            preimage_vec.append(&mut dummy2);
+        }
+
         // 1. Check if prevHash from z and prev_hash_from_curr_block are equal 
         //
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
-        }
-
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
-            dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
-        }
+        let prev_hash_from_curr_block: Vec<boolean::Boolean> = preimage_vec[32..288].to_vec();
+        enforce_hash_size(cs.namespace(|| "size of the last block hash"), &prev_hash_from_curr_block)?;
 
         let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
             let mut sum: F = F::ZERO;
@@ -177,9 +227,11 @@ where
             Ok(sum)
         }).unwrap();
 
+        enforce_le_bytes(cs.namespace(|| "last block hash bits"), &prev_hash_from_curr_block, &prev_hash);
+
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        require(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash)?;
         
         // 2. Check if current hash <= target
         //
@@ -211,17 +263,10 @@ where
             Ok(targ)
         }).unwrap();
 
-        // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
-        }
-
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
+        enforce_hash_size(cs.namespace(|| "size of the current block hash"), &out)?;
         let curr_hash = AllocatedNum::alloc(cs.namespace(|| {"current block hash"}), || {
             let mut sum: F = F::ZERO;
 
@@ -242,9 +287,11 @@ where
             Ok(sum)
         }).unwrap();
 
+        enforce_le_bytes(cs.namespace(|| "current block hash bits"), &out, &curr_hash);
+
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        require(cs.namespace(|| "PoW consensus achieved"), &r_curr_hash_targ)?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
@@ -260,7 +307,7 @@ where
 
         // verify median
         let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        require(cs.namespace(|| "median verified"), &r_median)?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -276,7 +323,7 @@ where
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        require(cs.namespace(|| "timestamp verified"), &r_time)?;
 
         // 4. Total work addition
         //
-- 
2.43.0


From 339f9dd46ce924bffd62c085c54415b76a6b51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 22/32] fix: decode, normalize and constrain the target and
 keep it at most the maximum target

---
 src/btc_validation/header_step.rs | 96 +++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 12 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 0e49817..f450d30 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -242,11 +242,36 @@ where
         let n_bits = header[9] >> 32;
         let b0 = n_bits % 256u64;
         let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
-        
+        let b2 = (n_bits >> 16) - (b3 << 8);
+        let b1 = (n_bits >> 8) - (b3 << 16) - (b2 << 8);
+
+        // The exponent is at least 3 and less than 32, and the mantissa has three bytes,
+        // of which the most significant one is not superfluous, and no sign
+        let exponent_bits = &preimage_vec[600..608];
+        let msb_exponent = boolean::Boolean::or(cs.namespace(|| "exponent above 15 or 8"), &exponent_bits[3], &exponent_bits[4])?;
+        let msb_exponent = boolean::Boolean::or(cs.namespace(|| "exponent above 3"), &msb_exponent, &exponent_bits[5])?;
+        let three = boolean::Boolean::and(cs.namespace(|| "exponent ends in 3"), &exponent_bits[6], &exponent_bits[7])?;
+        let exponent_3 = boolean::Boolean::or(cs.namespace(|| "exponent at least 3"), &msb_exponent, &three)?;
+        require(cs.namespace(|| "exponent not below 3"), &exponent_3)?;
+        for i in 0..3 {
+            require(cs.namespace(|| format!("exponent less than 32, bit {}", i)), &exponent_bits[i].not())?;
+        }
+
+        let mantissa = AllocatedNum::alloc(cs.namespace(|| "mantissa"), || Ok(F::from((b1 << 16) + (b2 << 8) + b3)))?;
+        enforce_le_bytes(cs.namespace(|| "mantissa bits"), &preimage_vec[576..600], &mantissa);
+        require(cs.namespace(|| "mantissa without sign"), &preimage_vec[592].not())?;
+        let least_mantissa = AllocatedNum::alloc(cs.namespace(|| "least mantissa"), || Ok(F::from(0x8000u64)))?;
+        cs.enforce(
+            || "least mantissa == 0x8000",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + least_mantissa.get_variable() - (F::from(0x8000u64), CS::one()),
+        );
+        let r_mantissa = median::leq(cs.namespace(|| "Is the mantissa normalized?"), &least_mantissa, &mantissa, 24usize)?;
+        require(cs.namespace(|| "mantissa normalized"), &r_mantissa)?;
+
         let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
+            let thresh_mantissa = (b1 << 16) + (b2 << 8) + b3;
             let exponent = (b0 - 3) as usize;
 
             let targ: F = if exponent >= 13 {
@@ -263,6 +288,61 @@ where
             Ok(targ)
         }).unwrap();
 
+        let max_target = AllocatedNum::alloc(cs.namespace(|| "maximum target"), || {
+            let power_127 = F::from_u128(1 << 127);
+            let mut max_thresh = F::from_u128(0xFFFF << 81);
+            max_thresh.mul_assign(&power_127);
+
+            Ok(max_thresh)
+        }).unwrap();
+
+        // scale = 256^(exponent - 3)
+        let mut scale = AllocatedNum::alloc(cs.namespace(|| "scale 0"), || Ok(F::from(1u64 << 24).invert().unwrap()))?;
+        cs.enforce(
+            || "scale 0 == 256^(-3)",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + scale.get_variable() - (F::from(1u64 << 24).invert().unwrap(), CS::one()),
+        );
+        let mut power = F::from(256u64);
+        for (i, b) in exponent_bits[3..].iter().rev().enumerate() {
+            // Constrain: scale *= if b { 256^(2^i) } else { 1 }
+            let next_scale = AllocatedNum::alloc(cs.namespace(|| format!("scale {}", i + 1)), || {
+                let mut tmp = scale.get_value().unwrap();
+                if b.get_value().unwrap() {
+                    tmp.mul_assign(&power);
+                }
+                Ok(tmp)
+            })?;
+            cs.enforce(
+                || format!("scale {} = scale {} * 256^(bit)", i + 1, i),
+                |lc| lc + scale.get_variable(),
+                |lc| lc + CS::one() + &b.lc(CS::one(), power - F::ONE),
+                |lc| lc + next_scale.get_variable(),
+            );
+            scale = next_scale;
+            power = power.square();
+        }
+
+        // Constrain: target = mantissa * scale
+        cs.enforce(
+            || "target = mantissa * scale",
+            |lc| lc + mantissa.get_variable(),
+            |lc| lc + scale.get_variable(),
+            |lc| lc + target.get_variable(),
+        );
+
+        // Constrain: target <= maximum target
+        cs.enforce(
+            || "maximum target == 0xFFFF * 2^208",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + max_target.get_variable() - (F::from_u128(0xFFFF << 81) * F::from_u128(1 << 127), CS::one()),
+        );
+        let r_target = median::leq(cs.namespace(|| "Is the target at most the maximum target?"), &target, &max_target, 224usize)?;
+        require(cs.namespace(|| "target at most the maximum target"), &r_target)?;
+
+        // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
@@ -327,14 +407,6 @@ where
 
         // 4. Total work addition
         //
-        let max_target = AllocatedNum::alloc(cs.namespace(|| "maximum target"), || {
-            let power_127 = F::from_u128(1 << 127);
-            let mut max_thresh = F::from_u128(0xFFFF << 81);
-            max_thresh.mul_assign(&power_127);
-
-            Ok(max_thresh)
-        }).unwrap();
-
         let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
             let diff = max_target.get_value().unwrap();
             let targ = target.get_value().unwrap();
-- 
2.43.0


From a82e2289a87e473a4fe56a515a59db590b451d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 23/32] fix: decode the timestamp with the right precedence and
 constrain it to the header bits

---
 src/btc_validation/header_step.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index f450d30..198c4df 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -396,12 +396,13 @@ where
         let n_time = header[8] % (1 << 32);
         let b_t0 = n_time % 256u64; // 4d
         let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let b_t2 = (n_time >> 16) - (b_t3 << 8); // c8
+        let b_t1 = (n_time >> 8) - (b_t3 << 16) - (b_t2 << 8); // cb
+        let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
+        enforce_le_bytes(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         require(cs.namespace(|| "timestamp verified"), &r_time)?;
 
-- 
2.43.0


From cd4c1af2963d8df1e77ff55e1806fb58e43c114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 24/32] fix: the median is that of the timestamps in the state

---
 src/btc_validation/header_step.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 198c4df..d8d585a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -375,18 +375,22 @@ where
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
+        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new(); 
+            for i in 1..=11 {
+                let timestamp = z_i[i].get_value().unwrap();
+                let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
+                times_vec.push(time32.first().copied().unwrap_or(0));
+            }
 
-        // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+            // compute median
+            let median = median::compute_median_timestamp(&mut times_vec);
+
+            Ok(F::from(median as u64))
+        }).unwrap();
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
+        let r_median = median::verify_median(cs.namespace(|| "median verify"), &z_i[1..=11], &median_fe).unwrap();
         require(cs.namespace(|| "median verified"), &r_median)?;
 
         // check if median < current timestamp
@@ -400,7 +404,6 @@ where
         let b_t1 = (n_time >> 8) - (b_t3 << 16) - (b_t2 << 8); // cb
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         enforce_le_bytes(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-- 
2.43.0


From b76350025b05309f4608a10df83e22361f0a0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:44 +0000
Subject: [PATCH 25/32] fix: block work is the quotient of the maximum target
 and the target, with a remainder

---
 src/btc_validation/header_step.rs | 51 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index d8d585a..6f51e05 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,8 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, nat_to_f};
+use crate::util::num::Num;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 
@@ -163,6 +164,30 @@ where
     Ok(())
 }
 
+/// Constrains `num` to be the number with these limbs, which is less than the field's
+/// characteristic.
+fn enforce_nat<F, CS>(mut cs: CS, nat: &BigNat<F>, num: &AllocatedNum<F>)
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let mut sum = LinearCombination::zero();
+    let mut power = F::ONE;
+    for limb in nat.limbs.iter() {
+        sum = sum + (power, limb);
+        for _ in 0..nat.params.limb_width {
+            power = power.double();
+        }
+    }
+
+    cs.enforce(
+        || "num has these limbs",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + num.get_variable() - &sum,
+    );
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -419,19 +444,23 @@ where
             let tar_big = f_to_nat(&targ);
             let work = diff_big / tar_big;
 
-            let (_s2, work_u64) = work.to_u64_digits();
-
-            Ok(F::from(work_u64[0] as u64))
+            Ok(nat_to_f(&work).unwrap())
         }).unwrap();
 
         // Constrain allocation:
-        // max_target = target * block_work
-        cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
-            |lc| lc + block_work.get_variable(),
-            |lc| lc + max_target.get_variable(),
-        );
+        // max_target = target * block_work + remainder, where remainder < target
+        let max_target_nat = BigNat::from_num(cs.namespace(|| "BigNat maximum target"), Num::from(max_target.clone()), 64usize, 4usize)?;
+        let target_nat = BigNat::from_num(cs.namespace(|| "BigNat target"), Num::from(target.clone()), 64usize, 4usize)?;
+        let (work_nat, remainder_nat) = max_target_nat.mult_mod(
+            cs.namespace(|| "max_target = target * block_work + remainder"),
+            &BigNat::one::<CS>(64usize),
+            &target_nat,
+        )?;
+        enforce_nat(cs.namespace(|| "work or difficulty limbs"), &work_nat, &block_work);
+        let remainder = AllocatedNum::alloc(cs.namespace(|| "remainder"), || Ok(nat_to_f(remainder_nat.value.as_ref().unwrap()).unwrap()))?;
+        enforce_nat(cs.namespace(|| "remainder limbs"), &remainder_nat, &remainder);
+        let r_remainder = median::less_than(cs.namespace(|| "Is the remainder less than the target?"), &remainder, &target, 224usize)?;
+        require(cs.namespace(|| "remainder less than the target"), &r_remainder)?;
 
         // 5. Target update
         //
-- 
2.43.0


From bf100a07db725b5fbad1664295e8b31759cd7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 26/32] fix: retarget over the time span of the last epoch,
 capped and truncated to the compact precision

---
 src/btc_validation/header_step.rs | 96 ++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 6f51e05..7f4c64d 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -476,28 +476,6 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
-
-        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
-
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
-
-            Ok(pow_2)
-        }).unwrap();
-
-        // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
-        
         // Either the counter z_i[14] is non-zero or curr_target = calc_target = z_i[12] * t_sum / (2016*10*60)
         let delta_inv = AllocatedNum::alloc(cs.namespace(|| "delta_inv"), || {
             let delta = z_i[14].get_value().unwrap();
@@ -540,6 +518,79 @@ where
             |lc| lc,
         );
 
+        // The time span of the last epoch, or two weeks, which leave the target as it is,
+        // if the counter z_i[14] is non-zero
+        let time_span = AllocatedNum::alloc(cs.namespace(|| "time span"), || {
+            if t.get_value().unwrap() == F::ONE {
+                Ok(F::from(2016 * 10 * 60 as u64))
+            } else {
+                Ok(z_i[11].get_value().unwrap() - z_i[13].get_value().unwrap())
+            }
+        })?;
+
+        // Constrain allocation:
+        // (z_i[11] - z_i[13] - two weeks) * (1 - t) = time_span - two weeks
+        cs.enforce(
+            || "(z_i[11] - z_i[13] - two weeks) * (1 - t) = time_span - two weeks",
+            |lc| lc + z_i[11].get_variable() - z_i[13].get_variable() - (F::from(2016 * 10 * 60 as u64), CS::one()),
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + time_span.get_variable() - (F::from(2016 * 10 * 60 as u64), CS::one()),
+        );
+
+        // The range of the time span is constrained by the calculation too: check it here in
+        // order not to calculate with a time span that is out of range
+        if let Some(span) = time_span.get_value() {
+            let span = f_to_nat(&span);
+            if span <= f_to_nat(&F::from(2016 * 10 * 60 / 4 as u64)) || span >= f_to_nat(&F::from(2016 * 10 * 60 * 4 as u64)) {
+                return Err(SynthesisError::Unsatisfiable);
+            }
+        }
+
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &time_span).unwrap();
+        let target_ideal = AllocatedNum::alloc(cs.namespace(|| "ideal target"), || {
+            Ok(nat_to_f(target_calc.value.as_ref().unwrap()).unwrap())
+        })?;
+        enforce_nat(cs.namespace(|| "ideal target limbs"), &target_calc, &target_ideal);
+
+        // The target is never more than the maximum target
+        let r_capped = median::less_than(cs.namespace(|| "Is the ideal target above the maximum target?"), &max_target, &target_ideal, 226usize)?;
+        let target_capped = AllocatedNum::alloc(cs.namespace(|| "capped target"), || {
+            if r_capped.get_value().unwrap() {
+                Ok(max_target.get_value().unwrap())
+            } else {
+                Ok(target_ideal.get_value().unwrap())
+            }
+        })?;
+        cs.enforce(
+            || "(max_target - target_ideal) * r_capped = target_capped - target_ideal",
+            |lc| lc + max_target.get_variable() - target_ideal.get_variable(),
+            |_| r_capped.lc(CS::one(), F::ONE),
+            |lc| lc + target_capped.get_variable() - target_ideal.get_variable(),
+        );
+
+        // The capped target, truncated to the three bytes of the mantissa
+        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
+            let exponent = 8 * (b0 - 3) as usize;
+            let bigint_tar = f_to_nat(&target_capped.get_value().unwrap());
+
+            Ok(nat_to_f(&((bigint_tar >> exponent) << exponent)).unwrap())
+        }).unwrap();
+
+        let truncated = AllocatedNum::alloc(cs.namespace(|| "truncated part of the target"), || {
+            Ok(target_capped.get_value().unwrap() - calculated_target.get_value().unwrap())
+        })?;
+
+        // Constrain allocation:
+        // truncated = target_capped - calculated_target, and truncated < scale
+        cs.enforce(
+            || "truncated = target_capped - calculated_target",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + truncated.get_variable() - target_capped.get_variable() + calculated_target.get_variable(),
+        );
+        let r_truncated = median::less_than(cs.namespace(|| "Is less than a unit of the mantissa truncated?"), &truncated, &scale, 224usize)?;
+        require(cs.namespace(|| "less than a unit of the mantissa truncated"), &r_truncated)?;
+
         // Constrain:
         // (curr_target - calc_target) * (t - 1) == 0
         // This enforces that correct `delta_inv` was provided,
@@ -553,6 +604,7 @@ where
 
         
         // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
+        let start_time_epoch = z_i[13].clone();
 
 
         // 6. z_out
-- 
2.43.0


From 21fb413ccb325b24dcade57dec16f8d40fcc9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 27/32] fix: the epoch's start time and counter are renewed at
 epoch boundaries

---
 src/btc_validation/header_step.rs | 34 +++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 7f4c64d..15c4ba2 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -603,9 +603,24 @@ where
         );
 
         
-        // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
-        let start_time_epoch = z_i[13].clone();
+        // Either the counter z_i[14] is zero and start_time_epoch is the current timestamp
+        // or start_time_epoch = z_i[13]
+        let start_time_epoch = AllocatedNum::alloc(cs.namespace(|| "start time epoch"), || {
+            if t.get_value().unwrap() == F::ONE {
+                Ok(z_i[13].get_value().unwrap())
+            } else {
+                Ok(curr_timestamp.get_value().unwrap())
+            }
+        })?;
 
+        // Constrain allocation:
+        // (z_i[13] - curr_timestamp) * t = start_time_epoch - curr_timestamp
+        cs.enforce(
+            || "(z_i[13] - curr_timestamp) * t = start_time_epoch - curr_timestamp",
+            |lc| lc + z_i[13].get_variable() - curr_timestamp.get_variable(),
+            |lc| lc + t.get_variable(),
+            |lc| lc + start_time_epoch.get_variable() - curr_timestamp.get_variable(),
+        );
 
         // 6. z_out
         //
@@ -655,17 +670,28 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
+        let last_ctr = AllocatedNum::alloc(cs.namespace(|| "last counter of an epoch"), || Ok(F::from(2015u64)))?;
+        cs.enforce(
+            || "last counter == 2015",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + last_ctr.get_variable() - (F::from(2015u64), CS::one()),
+        );
+        let r_last = BigNat::equals(cs.namespace(|| "Is this the last block of an epoch?"), &z_i[14], &last_ctr)?;
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
+            if r_last.get_value().unwrap() {
+                prev_ctr = F::ZERO;
+            }
             Ok(prev_ctr)
         }).unwrap());
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = (z_i[14] + 1) * (1 - r_last)", 
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &r_last.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From dbf4d1416fba5b590a2c3637e1050b0a057a73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 28/32] hook: record and replace the header step's hash
 function (cfg verif_hash)

---
 src/btc_validation/header_step.rs |  3 ++
 src/lib.rs                        |  2 ++
 src/verif_hash.rs                 | 53 +++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)
 create mode 100644 src/verif_hash.rs

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 15c4ba2..c466bcc 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -8,7 +8,10 @@ use bellpepper_core::{
     ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
+#[cfg(not(verif_hash))]
 use bellpepper::gadgets::sha256;
+#[cfg(verif_hash)]
+use crate::verif_hash as sha256;
 use crate::mp::bignat::BigNat;
 use crate::util::convert::{f_to_nat, nat_to_f};
 use crate::util::num::Num;
diff --git a/src/lib.rs b/src/lib.rs
index f34204d..f60befa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,8 @@ extern crate quickcheck_macros;
 pub mod util;
 pub mod mp;
 pub mod btc_validation;
+#[cfg(verif_hash)]
+pub mod verif_hash;
 
 use bellpepper_core::SynthesisError;
 use ff::PrimeField;
diff --git a/src/verif_hash.rs b/src/verif_hash.rs
new file mode 100644
index 0000000..cfca046
--- /dev/null
+++ b/src/verif_hash.rs
@@ -0,0 +1,53 @@
+//! For verification only, compiled with `--cfg verif_hash`: the SHA-256 gadget, with a record
+//! of the bits that go in and come out and, where asked for, with a stand-in for the hash
+//! function whose digests are allocated but not constrained.
+use std::cell::RefCell;
+
+use bellpepper::gadgets::sha256;
+use bellpepper_core::boolean::{AllocatedBit, Boolean};
+use bellpepper_core::{ConstraintSystem, SynthesisError};
+use ff::PrimeField;
+
+type StandIn = Box<dyn Fn(&[u8]) -> [u8; 32]>;
+
+thread_local! {
+    static STAND_IN: RefCell<Option<StandIn>> = RefCell::new(None);
+    static CALLS: RefCell<Vec<(Vec<Boolean>, Vec<Boolean>)>> = RefCell::new(vec![]);
+}
+
+/// Sets this thread's stand-in.
+pub fn set_stand_in(f: Option<StandIn>) {
+    STAND_IN.with(|s| *s.borrow_mut() = f);
+}
+
+/// Takes the bits that went in and came out of every call since the last time.
+pub fn take_calls() -> Vec<(Vec<Boolean>, Vec<Boolean>)> {
+    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
+}
+
+pub fn sha256<Scalar, CS>(mut cs: CS, input: &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    let digest = STAND_IN.with(|s| {
+        s.borrow().as_ref().map(|f| {
+            let bytes: Vec<u8> = input
+                .chunks(8)
+                .map(|c| c.iter().fold(0, |n, b| n << 1 | b.get_value().unwrap_or(false) as u8))
+                .collect();
+            f(&bytes)
+        })
+    });
+    let output = match digest {
+        None => sha256::sha256(cs.namespace(|| "gadget"), input)?,
+        Some(digest) => (0..256)
+            .map(|i| {
+                AllocatedBit::alloc(cs.namespace(|| format!("digest bit {}", i)), Some(digest[i / 8] >> (7 - i % 8) & 1 == 1))
+                    .map(Boolean::from)
+            })
+            .collect::<Result<Vec<_>, _>>()?,
+    };
+    CALLS.with(|c| c.borrow_mut().push((input.to_vec(), output.clone())));
+    Ok(output)
+}
-- 
2.43.0


From e541c4082746ff9bb54b76d9ae68673acbf07f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 29/32] fix: the truncated part of the new target is not
 negative

---
 src/btc_validation/header_step.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index c466bcc..87345f1 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -584,13 +584,14 @@ where
         })?;
 
         // Constrain allocation:
-        // truncated = target_capped - calculated_target, and truncated < scale
+        // truncated = target_capped - calculated_target, and 0 <= truncated < scale
         cs.enforce(
             || "truncated = target_capped - calculated_target",
             |lc| lc,
             |lc| lc,
             |lc| lc + truncated.get_variable() - target_capped.get_variable() + calculated_target.get_variable(),
         );
+        Num::from(truncated.clone()).fits_in_bits(cs.namespace(|| "truncated part is not negative"), 224usize)?;
         let r_truncated = median::less_than(cs.namespace(|| "Is less than a unit of the mantissa truncated?"), &truncated, &scale, 224usize)?;
         require(cs.namespace(|| "less than a unit of the mantissa truncated"), &r_truncated)?;
 
-- 
2.43.0


From b7eee83c534dd4821c8fad097b6936e8456d3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 30/32] fix: the step can be synthesized without a witness for
 any header

---
 src/btc_validation/header_step.rs | 37 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 87345f1..5063aff 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -115,14 +115,15 @@ where
     }
 }
 
-/// Constrains `condition` to be `true`.
-fn require<F, CS>(mut cs: CS, condition: &boolean::Boolean) -> Result<(), SynthesisError>
+/// Constrains `condition` to be `true`. The header is known even when there is no witness, so
+/// that only with a known state a false condition is an error.
+fn require<F, CS>(mut cs: CS, state: &[AllocatedNum<F>], condition: &boolean::Boolean) -> Result<(), SynthesisError>
 where
     F: PrimeField,
     CS: ConstraintSystem<F>,
 {
     boolean::Boolean::enforce_equal(cs.namespace(|| "required"), condition, &boolean::Boolean::constant(true))?;
-    if condition.get_value() == Some(false) {
+    if state[0].get_value().is_some() && condition.get_value() == Some(false) {
         return Err(SynthesisError::Unsatisfiable);
     }
 
@@ -155,13 +156,13 @@ where
 
 /// Constrains a hash, given as bits, to be less than 2^224. The hash of a valid block is
 /// less than 2^224, and a hash of 256 bits does not fit the field.
-fn enforce_hash_size<F, CS>(mut cs: CS, bits: &[boolean::Boolean]) -> Result<(), SynthesisError>
+fn enforce_hash_size<F, CS>(mut cs: CS, state: &[AllocatedNum<F>], bits: &[boolean::Boolean]) -> Result<(), SynthesisError>
 where
     F: PrimeField,
     CS: ConstraintSystem<F>,
 {
     for (i, b) in bits[224..].iter().enumerate() {
-        require(cs.namespace(|| format!("high bit {}", i)), &b.not())?;
+        require(cs.namespace(|| format!("high bit {}", i)), state, &b.not())?;
     }
 
     Ok(())
@@ -233,7 +234,7 @@ where
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
         let prev_hash_from_curr_block: Vec<boolean::Boolean> = preimage_vec[32..288].to_vec();
-        enforce_hash_size(cs.namespace(|| "size of the last block hash"), &prev_hash_from_curr_block)?;
+        enforce_hash_size(cs.namespace(|| "size of the last block hash"), &z_i, &prev_hash_from_curr_block)?;
 
         let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
             let mut sum: F = F::ZERO;
@@ -259,7 +260,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        require(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash)?;
+        require(cs.namespace(|| "prev. hash is the last block hash"), &z_i, &r_prev_hash)?;
         
         // 2. Check if current hash <= target
         //
@@ -280,14 +281,14 @@ where
         let msb_exponent = boolean::Boolean::or(cs.namespace(|| "exponent above 3"), &msb_exponent, &exponent_bits[5])?;
         let three = boolean::Boolean::and(cs.namespace(|| "exponent ends in 3"), &exponent_bits[6], &exponent_bits[7])?;
         let exponent_3 = boolean::Boolean::or(cs.namespace(|| "exponent at least 3"), &msb_exponent, &three)?;
-        require(cs.namespace(|| "exponent not below 3"), &exponent_3)?;
+        require(cs.namespace(|| "exponent not below 3"), &z_i, &exponent_3)?;
         for i in 0..3 {
-            require(cs.namespace(|| format!("exponent less than 32, bit {}", i)), &exponent_bits[i].not())?;
+            require(cs.namespace(|| format!("exponent less than 32, bit {}", i)), &z_i, &exponent_bits[i].not())?;
         }
 
         let mantissa = AllocatedNum::alloc(cs.namespace(|| "mantissa"), || Ok(F::from((b1 << 16) + (b2 << 8) + b3)))?;
         enforce_le_bytes(cs.namespace(|| "mantissa bits"), &preimage_vec[576..600], &mantissa);
-        require(cs.namespace(|| "mantissa without sign"), &preimage_vec[592].not())?;
+        require(cs.namespace(|| "mantissa without sign"), &z_i, &preimage_vec[592].not())?;
         let least_mantissa = AllocatedNum::alloc(cs.namespace(|| "least mantissa"), || Ok(F::from(0x8000u64)))?;
         cs.enforce(
             || "least mantissa == 0x8000",
@@ -296,7 +297,7 @@ where
             |lc| lc + least_mantissa.get_variable() - (F::from(0x8000u64), CS::one()),
         );
         let r_mantissa = median::leq(cs.namespace(|| "Is the mantissa normalized?"), &least_mantissa, &mantissa, 24usize)?;
-        require(cs.namespace(|| "mantissa normalized"), &r_mantissa)?;
+        require(cs.namespace(|| "mantissa normalized"), &z_i, &r_mantissa)?;
 
         let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
             let thresh_mantissa = (b1 << 16) + (b2 << 8) + b3;
@@ -368,13 +369,13 @@ where
             |lc| lc + max_target.get_variable() - (F::from_u128(0xFFFF << 81) * F::from_u128(1 << 127), CS::one()),
         );
         let r_target = median::leq(cs.namespace(|| "Is the target at most the maximum target?"), &target, &max_target, 224usize)?;
-        require(cs.namespace(|| "target at most the maximum target"), &r_target)?;
+        require(cs.namespace(|| "target at most the maximum target"), &z_i, &r_target)?;
 
         // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
-        enforce_hash_size(cs.namespace(|| "size of the current block hash"), &out)?;
+        enforce_hash_size(cs.namespace(|| "size of the current block hash"), &z_i, &out)?;
         let curr_hash = AllocatedNum::alloc(cs.namespace(|| {"current block hash"}), || {
             let mut sum: F = F::ZERO;
 
@@ -399,7 +400,7 @@ where
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        require(cs.namespace(|| "PoW consensus achieved"), &r_curr_hash_targ)?;
+        require(cs.namespace(|| "PoW consensus achieved"), &z_i, &r_curr_hash_targ)?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
@@ -419,7 +420,7 @@ where
 
         // verify median
         let r_median = median::verify_median(cs.namespace(|| "median verify"), &z_i[1..=11], &median_fe).unwrap();
-        require(cs.namespace(|| "median verified"), &r_median)?;
+        require(cs.namespace(|| "median verified"), &z_i, &r_median)?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -435,7 +436,7 @@ where
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         enforce_le_bytes(cs.namespace(|| "current timestamp bits"), &preimage_vec[544..576], &curr_timestamp);
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        require(cs.namespace(|| "timestamp verified"), &r_time)?;
+        require(cs.namespace(|| "timestamp verified"), &z_i, &r_time)?;
 
         // 4. Total work addition
         //
@@ -463,7 +464,7 @@ where
         let remainder = AllocatedNum::alloc(cs.namespace(|| "remainder"), || Ok(nat_to_f(remainder_nat.value.as_ref().unwrap()).unwrap()))?;
         enforce_nat(cs.namespace(|| "remainder limbs"), &remainder_nat, &remainder);
         let r_remainder = median::less_than(cs.namespace(|| "Is the remainder less than the target?"), &remainder, &target, 224usize)?;
-        require(cs.namespace(|| "remainder less than the target"), &r_remainder)?;
+        require(cs.namespace(|| "remainder less than the target"), &z_i, &r_remainder)?;
 
         // 5. Target update
         //
@@ -593,7 +594,7 @@ where
         );
         Num::from(truncated.clone()).fits_in_bits(cs.namespace(|| "truncated part is not negative"), 224usize)?;
         let r_truncated = median::less_than(cs.namespace(|| "Is less than a unit of the mantissa truncated?"), &truncated, &scale, 224usize)?;
-        require(cs.namespace(|| "less than a unit of the mantissa truncated"), &r_truncated)?;
+        require(cs.namespace(|| "less than a unit of the mantissa truncated"), &z_i, &r_truncated)?;
 
         // Constrain:
         // (curr_target - calc_target) * (t - 1) == 0
-- 
2.43.0


From 1a12eeda68b1aa54750eb89a7044b0e1db5315a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 31/32] fix: a bit-vector's values are unknown once one of its
 bits' is

---
 src/util/bit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..34d6122 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,6 +77,9 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
+        if b.value.is_none() {
+            self.values = None;
+        }
         self.values
             .as_mut()
             .map(|vs| b.value.take().map(|v| vs.push(v)));
@@ -84,6 +87,9 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
+        if b.value.is_none() {
+            self.values = None;
+        }
         self.values
             .as_mut()
             .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
@@ -92,6 +98,9 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
+        if ovs.is_none() {
+            self.values = None;
+        }
         self.bits.extend(other.bits.into_iter());
         self.values
             .as_mut()
-- 
2.43.0


From 446bb353d636c607fc852f254adddf3ba06a0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 32/32] fix: a concatenation has no limb values unless both
 parts have

---
 src/mp/bignat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 7e9658d..55b5d20 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -683,6 +683,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
         let mut limb_values = other.limb_values.clone();
+        if self.limb_values.is_none() {
+            limb_values = None;
+        }
         limb_values.as_mut().map(|x| {
             self.limb_values
                 .as_ref()
-- 
2.43.0

