//! Big-number helpers shared by the checks: layouts, operands, expectations.
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use bellpepper_core::{ConstraintSystem, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;

/// An operand: canonical number in `n` limbs of width `w`.
pub fn alloc<F: PrimeField, CS: ConstraintSystem<F>>(cs: CS, v: &BigInt, w: usize, n: usize) -> Result<BigNat<F>, SynthesisError> {
    let v = v.clone();
    BigNat::alloc_from_nat(cs, || Ok(v), w, n)
}
pub fn limbs_of(v: &BigInt, w: usize, n: usize) -> Vec<BigInt> {
    let base = p2(w);
    let mut v = v.clone();
    (0..n)
        .map(|_| {
            let r = &v % &base;
            v = &v / &base;
            r
        })
        .collect()
}
/// Integer denoted by limb values.
pub fn join(limbs: &[BigInt], w: usize) -> BigInt {
    limbs.iter().rev().fold(BigInt::zero(), |acc, l| (acc << w) + l)
}
/// The limbs of the number as recorded linear combinations.
pub fn lcs<F: PrimeField>(cs: &RecCS<F>, b: &BigNat<F>) -> Vec<Lc<F>> {
    b.limbs.iter().map(|l| cs.lc(l)).collect()
}
/// The integer the limb linear combinations denote under an assignment.
pub fn read<F: PrimeField>(l: &[Lc<F>], asg: &[F], w: usize) -> BigInt {
    join(&l.iter().map(|x| to_int(&x.eval(asg))).collect::<Vec<_>>(), w)
}
/// Full consistency of one number (C12): Err says what is wrong.
pub fn consistent<F: PrimeField>(cs: &RecCS<F>, b: &BigNat<F>) -> Result<(), String> {
    let w = b.params.limb_width;
    let Some(vals) = b.limb_values.as_ref() else { return Err("no limb values although the witness is known".into()) };
    let Some(value) = b.value.as_ref() else { return Err("no value although the witness is known".into()) };
    if b.limbs.len() != b.params.n_limbs || vals.len() != b.params.n_limbs {
        return Err(format!("{} limbs and {} limb values, stated {}", b.limbs.len(), vals.len(), b.params.n_limbs));
    }
    for (i, (l, v)) in b.limbs.iter().zip(vals).enumerate() {
        if cs.val(l) != Some(*v) {
            return Err(format!("limb {}: circuit carries {:?}, recorded {:?}", i, cs.val(l), v));
        }
        if to_int(v) > b.params.max_word {
            return Err(format!("limb {} is {}, above the stated maximum word {}", i, to_int(v), b.params.max_word));
        }
    }
    let sum = join(&vals.iter().map(to_int).collect::<Vec<_>>(), w);
    if sum != *value {
        return Err(format!("value {} but limbs denote {}", value, sum));
    }
    if b.n_bits() < value.bits() as usize {
        return Err(format!("value {} has {} bits, stated at most {}", value, value.bits(), b.n_bits()));
    }
    if b.params.min_bits > 0 && (value.bits() as usize) < b.params.min_bits {
        return Err(format!("value {} has {} bits, stated at least {}", value, value.bits(), b.params.min_bits));
    }
    Ok(())
}
/// The number denotes `want` consistently.
pub fn denotes<F: PrimeField>(cs: &RecCS<F>, b: &BigNat<F>, want: &BigInt) -> Result<(), String> {
    let w = b.params.limb_width;
    if b.value.as_ref() != Some(want) {
        return Err(format!("value {:?}, expected {}", b.value.as_ref().map(|x| x.to_string()), want));
    }
    let ls: Option<Vec<BigInt>> = b.limbs.iter().map(|l| cs.val(l).map(|x| to_int(&x))).collect();
    let got = join(&ls.ok_or("limb without value")?, w);
    if got != *want {
        return Err(format!("circuit limbs denote {}, expected {}", got, want));
    }
    let vs: Vec<BigInt> = b.limb_values.as_ref().ok_or("no limb values")?.iter().map(to_int).collect();
    if join(&vs, w) != *want || vs.len() != b.limbs.len() {
        return Err("recorded limb values differ".into());
    }
    Ok(())
}

/// Field, limb width and limb counts for which products of two such numbers stay within the field.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lay {
    pub field: u8,
    pub w: usize,
    pub n: [usize; 3],
}
pub fn max_width(field: u8) -> usize {
    // 2w + bits(limb count) + 4 <= capacity, for up to 7 limbs
    (capacity(field) - 7) / 2
}
pub fn layout(fields: &'static [u8], max_limbs: usize) -> BoxedStrategy<Lay> {
    prop::sample::select(fields)
        .prop_flat_map(move |field| {
            let mw = max_width(field);
            let sp: Vec<usize> = [1, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 100, mw - 1, mw].iter().cloned().filter(|x| *x >= 1 && *x <= mw).collect();
            (Just(field), prop_oneof![3 => prop::sample::select(sp), 2 => 1..=mw], prop::array::uniform3(1..=max_limbs))
        })
        .prop_map(|(field, w, n)| Lay { field, w, n })
        .boxed()
}

/// Three canonical operands in the layout; relations between them are common.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops {
    pub l: Lay,
    pub a: Z,
    pub b: Z,
    pub c: Z,
    pub k: u64,
    pub seed: u64,
}
pub fn ops(fields: &'static [u8], max_limbs: usize) -> BoxedStrategy<Ops> {
    layout(fields, max_limbs)
        .prop_flat_map(|l| {
            let b = |i: usize| l.w * l.n[i];
            (Just(l.clone()), nat(b(0)), nat(b(1)), nat(b(2)), 0u8..8, any::<u64>(), any::<u64>())
        })
        .prop_map(|(l, a, b, c, rel, k, seed)| {
            let mb = p2(l.w * l.n[1]);
            let b = match rel {
                0 => Z(&a.0 % &mb),
                1 => Z((&a.0 + 1u8) % &mb),
                2 => Z((if a.0.is_zero() { BigInt::zero() } else { &a.0 - 1u8 }) % &mb),
                3 => Z(&mb - 1u8),
                _ => b,
            };
            Ops { l, a, b, c, k, seed }
        })
        .boxed()
}
/// Limbs that denote the same field combination but leave the canonical range.
pub fn skew(limbs: &[BigInt], w: usize, k: u64) -> Vec<BigInt> {
    let mut v = limbs.to_vec();
    if v.len() >= 2 {
        let i = (k as usize) % (v.len() - 1);
        if k & 64 == 0 {
            v[i] += p2(w);
            v[i + 1] -= BigInt::one();
        } else {
            v[i] -= p2(w);
            v[i + 1] += BigInt::one();
        }
    }
    v
}
pub fn eqs<F: PrimeField>(l: &[Lc<F>], v: &[BigInt]) -> Vec<(Lc<F>, F)> {
    l.iter().zip(v).map(|(l, v)| (l.clone(), from_int::<F>(v))).collect()
}
/// The polynomial type is not nameable from outside; this fixes its type by the function that consumes it.
pub fn as_poly<P, R>(_: fn(P, usize, BigInt) -> R, p: P) -> P {
    p
}
