//! Comparison gadgets: value and satisfaction on the honest path.
use super::Prop;
use crate::cs::RecCS;
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::btc_validation::median::{leq, less_than};
use validate_btc_header::mp::bignat::BigNat;

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "Random (field, width n, a, b) with a, b < 2^n, n up to capacity-2 (weighted to 1, 32, 126..128, 224 and the limit), b often equal or adjacent to a; non-trivial when the operands are within 2 of each other or n is above 64.",
    assumptions: &["operands of the order comparisons are below 2^n, as all callers ensure"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmp {
    pub field: u8,
    pub n: usize,
    pub a: Z,
    pub b: Z,
    pub seed: u64,
}

pub fn width(field: u8) -> BoxedStrategy<usize> {
    let max = capacity(field) - 2;
    let special: Vec<usize> = [1, 2, 31, 32, 33, 62, 63, 64, 125, 126, 127, 128, 129, 190, 224, 230, max - 1, max].iter().cloned().filter(|n| *n >= 1 && *n <= max).collect();
    prop_oneof![2 => prop::sample::select(special), 1 => 1..=max].boxed()
}

/// b related to a more often than not
pub fn pair(n: usize) -> BoxedStrategy<(Z, Z)> {
    let m = p2(n);
    (nat(n), nat(n), 0u8..6)
        .prop_map(move |(a, b, rel)| {
            let b = match rel {
                0 => a.clone(),
                1 => Z((&a.0 + 1u8) % &m),
                2 => Z((&a.0 + &m - 1u8) % &m),
                3 => Z((&m - 1u8) - &a.0),
                _ => b,
            };
            (a, b)
        })
        .boxed()
}

pub fn cmp_case(fields: &'static [u8]) -> BoxedStrategy<Cmp> {
    (prop::sample::select(fields), any::<u64>())
        .prop_flat_map(|(field, seed)| (Just(field), width(field), Just(seed)))
        .prop_flat_map(|(field, n, seed)| (Just(field), Just(n), pair(n), Just(seed)))
        .prop_map(|(field, n, (a, b), seed)| Cmp { field, n, a, b, seed })
        .boxed()
}
pub fn any_pair(fields: &'static [u8]) -> BoxedStrategy<Cmp> {
    (prop::sample::select(fields), any::<u64>())
        .prop_flat_map(|(field, seed)| {
            let m = field_modulus(field);
            (Just(field), below(&m), below(&m), any::<bool>(), Just(seed))
        })
        .prop_map(|(field, a, b, same, seed)| {
            let b = if same { a.clone() } else { b };
            Cmp { field, n: 0, a, b, seed }
        })
        .boxed()
}

fn near(c: &Cmp) -> bool {
    let d: BigInt = &c.a.0 - &c.b.0;
    d.magnitude() <= z(2).magnitude() || c.n > 64
}

fn order<F: PrimeField>(c: &Cmp, strict: bool) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let a = num(cs.namespace(|| "a"), &c.a.0).unwrap();
    let b = num(cs.namespace(|| "b"), &c.b.0).unwrap();
    let r = if strict { less_than(cs.namespace(|| "r"), &a, &b, c.n) } else { leq(cs.namespace(|| "r"), &a, &b, c.n) }.map_err(|e| format!("synthesis failed: {}", e))?;
    let truth = if strict { c.a.0 < c.b.0 } else { c.a.0 <= c.b.0 };
    if r.get_value() != Some(truth) {
        return Err(format!("bit is {:?}, expected {}", r.get_value(), truth));
    }
    if cs.val(&bool_lc(&r)) != Some(if truth { F::ONE } else { F::ZERO }) {
        return Err("constrained bit differs from the reported value".into());
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied by the produced witness".into());
    }
    if to_int(&a.get_value().unwrap()) != c.a.0 || to_int(&b.get_value().unwrap()) != c.b.0 {
        return Err("operands changed".into());
    }
    okl(near(c), &[if truth { "true" } else { "false" }, if c.n > 126 { "n>126" } else { "n<=126" }])
}

fn equality<F: PrimeField>(c: &Cmp) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let a = num(cs.namespace(|| "a"), &c.a.0).unwrap();
    let b = num(cs.namespace(|| "b"), &c.b.0).unwrap();
    let r = BigNat::<F>::equals(cs.namespace(|| "r"), &a, &b).map_err(|e| format!("synthesis failed: {}", e))?;
    let truth = from_int::<F>(&c.a.0) == from_int::<F>(&c.b.0);
    if r.get_value() != Some(truth) || cs.val(&bool_lc(&r)) != Some(if truth { F::ONE } else { F::ZERO }) {
        return Err(format!("bit is {:?}, expected {}", r.get_value(), truth));
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied by the produced witness".into());
    }
    okl(true, &[if truth { "equal" } else { "different" }])
}

fn run(ctx: &Ctx) {
    const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 4, 5, 4, 5];
    ctx.check("less_than", ctx.n(10 * 12000), || cmp_case(ALL), |c| with_field!(c.field, F => order::<F>(c, true)));
    ctx.check("less_or_equal", ctx.n(10 * 12000), || cmp_case(ALL), |c| with_field!(c.field, F => order::<F>(c, false)));
    ctx.check("equality", ctx.n(10 * 12000), || any_pair(ALL), |c| with_field!(c.field, F => equality::<F>(c)));
}
