//! Shared generators and small helpers.
use crate::cs::{Lc, RecCS};
use crate::solver::{Res, System};
use bellpepper_core::boolean::Boolean;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::{BigInt, Sign};
use num_traits::{One, Zero};
use proptest::prelude::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Integer that serialises as a decimal string.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Z(pub BigInt);
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Serialize for Z {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for Z {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Z(s.parse().map_err(serde::de::Error::custom)?))
    }
}
pub fn z(n: u64) -> BigInt {
    BigInt::from(n)
}
pub fn p2(k: usize) -> BigInt {
    BigInt::one() << k
}

fn shape_nat(bits: usize, kind: u8, k: usize, raw: &[u8], small: u64) -> BigInt {
    let m = p2(bits);
    let r = BigInt::from_bytes_le(Sign::Plus, raw) % &m;
    let k = k % (bits + 1);
    let v: BigInt = match kind {
        0 | 1 => r,
        2 => r % p2(k),
        3 => z(small),
        4 => p2(k) + z(small),
        5 => p2(k) - BigInt::one() - z(small),
        6 => m.clone() - BigInt::one() - z(small),
        7 => (r >> k) << k,
        _ => {
            // long runs of ones and zeros
            let mut v = BigInt::zero();
            let mut bit = small & 1 == 1;
            let mut i = 0;
            for b in raw {
                let run = (*b as usize % 40) + 1;
                for _ in 0..run {
                    if i < bits {
                        if bit {
                            v += p2(i);
                        }
                        i += 1;
                    }
                }
                bit = !bit;
            }
            v
        }
    };
    if v < BigInt::zero() {
        BigInt::zero()
    } else {
        v % m
    }
}
/// Interesting naturals below 2^bits.
pub fn nat(bits: usize) -> BoxedStrategy<Z> {
    let n = bits / 8 + 1;
    (0u8..9, 0..=bits, prop::collection::vec(any::<u8>(), n..=n), 0u64..5)
        .prop_map(move |(kind, k, raw, s)| Z(shape_nat(bits, kind, k, &raw, s)))
        .boxed()
}
/// Interesting naturals below the bound.
pub fn below(m: &BigInt) -> BoxedStrategy<Z> {
    let m = m.clone();
    let bits = m.bits() as usize + 1;
    let m2 = m.clone();
    prop_oneof![
        4 => nat(bits).prop_map(move |x| Z(x.0 % &m)),
        1 => (0u64..4).prop_map(move |k| {
            let v: BigInt = &m2 - BigInt::one() - z(k);
            Z(if v < BigInt::zero() { BigInt::zero() } else { v })
        }),
    ]
    .boxed()
}

pub const FIELDS: [&str; 6] = ["p8191", "p65537", "p2^31-1", "p2^61-1", "bls", "pallas"];
pub const BIG: [u8; 2] = [4, 5];

/// Runs the expression with `F` bound to the field number `$i` stands for.
#[macro_export]
macro_rules! with_field {
    ($i:expr, $f:ident => $e:expr) => {
        match $i {
            0 => { type $f = $crate::fields::F13; $e }
            1 => { type $f = $crate::fields::F17; $e }
            2 => { type $f = $crate::fields::F31; $e }
            3 => { type $f = $crate::fields::F61; $e }
            4 => { type $f = $crate::fields::FBls; $e }
            _ => { type $f = $crate::fields::FPal; $e }
        }
    };
}
pub fn capacity(field: u8) -> usize {
    with_field!(field, F => F::CAPACITY as usize)
}
pub fn field_modulus(field: u8) -> BigInt {
    with_field!(field, F => crate::fields::modulus::<F>())
}

pub fn bool_lc<F: PrimeField>(b: &Boolean) -> LinearCombination<F> {
    b.lc(RecCS::<F>::one(), F::ONE)
}
pub fn num<F: PrimeField, CS: ConstraintSystem<F>>(cs: CS, v: &BigInt) -> Result<AllocatedNum<F>, SynthesisError> {
    let f = crate::fields::from_int::<F>(v);
    AllocatedNum::alloc(cs, || Ok(f))
}

/// Tries to find an assignment of the variables from `n_in` on (the earlier ones keep their
/// recorded values) that satisfies all constraints, the extra equations, and `want`.
pub fn forge<F: PrimeField>(cs: &RecCS<F>, n_in: usize, eqs: &[(Lc<F>, F)], seed: u64, budget: usize, want: &dyn Fn(&[F]) -> bool) -> Res<F> {
    let fixed: Vec<(u32, F)> = (1..n_in).map(|i| (i as u32, cs.asg[i].expect("input without value"))).collect();
    forge_fixed(cs, &fixed, eqs, seed, budget, want)
}
pub fn forge_fixed<F: PrimeField>(cs: &RecCS<F>, fixed: &[(u32, F)], eqs: &[(Lc<F>, F)], seed: u64, budget: usize, want: &dyn Fn(&[F]) -> bool) -> Res<F> {
    let sys = System::new(cs.n_vars(), &cs.cons);
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    match sys.start(fixed, eqs) {
        None => Res::Exhausted,
        Some(st) => sys.search(st, &cs.asg, &mut rng, budget, want),
    }
}
/// Outcome label of a forging attempt.
pub fn label<F>(r: &Res<F>) -> &'static str {
    match r {
        Res::Found(_) => "forged",
        Res::Exhausted => "proved-none",
        Res::Budget => "none-in-budget",
    }
}

/// Which variables always carry the given logical inputs? Runs are recordings of the same circuit
/// with different logical inputs; the answer has, per logical input, the variables whose value
/// equalled it in every run (in allocation order).
pub fn identify<F: PrimeField>(runs: &[(RecCS<F>, Vec<F>)]) -> Vec<Vec<u32>> {
    let n = runs[0].1.len();
    let vars = runs.iter().map(|r| r.0.n_vars()).min().unwrap();
    (0..n)
        .map(|i| (1..vars as u32).filter(|v| runs.iter().all(|(cs, ins)| cs.asg[*v as usize] == Some(ins[i]))).collect())
        .collect()
}
