//! Polynomials: product, sum, evaluation, and forging of products.
use super::c14::{attack, Target};
use super::Prop;
use crate::bn::as_poly;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "Random coefficient lists (1 to 9 coefficients, boundary-shaped field elements, zeros common) in six fields; products, sums, sums of products and evaluations compared with the schoolbook result over the field, in recorded values and in the circuit; then the factors are fixed and other product coefficients are searched for. Non-trivial: both lists longer than 1.",
    assumptions: &["total number of coefficients below the field size"],
    run,
};
type R = Result<Info, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct P {
    field: u8,
    a: Vec<Z>,
    b: Vec<Z>,
    x: Z,
    seed: u64,
}
fn polys(max: usize) -> BoxedStrategy<P> {
    (0u8..6)
        .prop_flat_map(move |field| {
            let m = field_modulus(field);
            let c = || prop_oneof![3 => below(&m), 1 => (0u64..3).prop_map(|k| Z(z(k)))];
            (Just(field), prop::collection::vec(c(), 1..=max), prop::collection::vec(c(), 1..=max), c(), any::<u64>())
        })
        .prop_map(|(field, a, b, x, seed)| P { field, a, b, x, seed })
        .boxed()
}
fn conv<F: PrimeField>(a: &[F], b: &[F]) -> Vec<F> {
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * *y;
        }
    }
    r
}
fn horner<F: PrimeField>(a: &[F], x: F) -> F {
    a.iter().rev().fold(F::ZERO, |s, c| s * x + *c)
}
macro_rules! poly {
    ($cs:expr, $v:expr) => {{
        let nums: Vec<Num<F>> = $v.iter().map(|f| Num::alloc($cs.namespace(|| "c"), || Ok(*f)).unwrap()).collect();
        as_poly(BigNat::<F>::from_poly, BigNat::from_limbs(nums, 1).into())
    }};
}
macro_rules! is {
    ($cs:expr, $p:expr, $want:expr, $what:expr) => {{
        let want: &Vec<F> = &$want;
        if $p.values.as_ref() != Some(want) {
            return Err(format!("{}: recorded values {:?}, expected {:?}", $what, $p.values, want));
        }
        let l: Option<Vec<F>> = $p.coefficients.iter().map(|l| $cs.val(l)).collect();
        if l.as_ref() != Some(want) {
            return Err(format!("{}: coefficients {:?}, expected {:?}", $what, l, want));
        }
    }};
}
fn compute<F: PrimeField>(c: &P) -> R {
    let a: Vec<F> = c.a.iter().map(|x| from_int(&x.0)).collect();
    let b: Vec<F> = c.b.iter().map(|x| from_int(&x.0)).collect();
    let x = from_int::<F>(&c.x.0);
    let mut cs = RecCS::<F>::new();
    let pa = poly!(cs, a);
    let pb = poly!(cs, b);
    is!(cs, pa, a, "input");
    let prod = pa.alloc_product(cs.namespace(|| "p"), &pb).map_err(|e| e.to_string())?;
    let want = conv(&a, &b);
    is!(cs, prod, want, "product");
    let sum = pa.sum(&pb);
    let n = a.len().max(b.len());
    let ws: Vec<F> = (0..n).map(|i| a.get(i).cloned().unwrap_or(F::ZERO) + b.get(i).cloned().unwrap_or(F::ZERO)).collect();
    is!(cs, sum, ws, "sum");
    let s2 = pb.sum(&prod);
    let w2: Vec<F> = (0..want.len().max(b.len())).map(|i| want.get(i).cloned().unwrap_or(F::ZERO) + b.get(i).cloned().unwrap_or(F::ZERO)).collect();
    is!(cs, s2, w2, "sum with a product");
    let p2 = sum.alloc_product(cs.namespace(|| "q"), &pa).map_err(|e| e.to_string())?;
    is!(cs, p2, conv(&ws, &a), "product of a sum");
    for (p, w) in [(&pa, &a), (&prod, &want), (&sum, &ws)] {
        if p.evaluate_at(x) != Some(horner(w, x)) {
            return Err(format!("evaluation at {:?} gives {:?}, expected {:?}", x, p.evaluate_at(x), horner(w, x)));
        }
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied by the produced witness".into());
    }
    okl(a.len() > 1 && b.len() > 1, &[if a.len() == b.len() { "same-length" } else { "different-length" }])
}
fn forge_product<F: PrimeField>(c: &P) -> R {
    let a: Vec<F> = c.a.iter().map(|x| from_int(&x.0)).collect();
    let b: Vec<F> = c.b.iter().map(|x| from_int(&x.0)).collect();
    let mut cs = RecCS::<F>::new();
    let pa = poly!(cs, a);
    let pb = poly!(cs, b);
    let n_in = cs.n_vars();
    let prod = pa.alloc_product(cs.namespace(|| "p"), &pb).map_err(|e| e.to_string())?;
    let out: Vec<Lc<F>> = prod.coefficients.iter().map(|l| cs.lc(l)).collect();
    let fixed: Vec<(u32, F)> = (1..n_in).map(|i| (i as u32, cs.asg[i].unwrap())).collect();
    let want: Vec<BigInt> = conv(&a, &b).iter().map(to_int).collect();
    // one coefficient off, and a combination that vanishes at the first points x = 1 .. n-1
    let mut c1 = want.clone();
    let i = c.seed as usize % c1.len();
    c1[i] += 1u8;
    let mut van = vec![F::ONE];
    for k in 1..want.len() as u64 {
        van = conv(&van, &[-F::from(k), F::ONE]);
    }
    let c2: Vec<BigInt> = want.iter().zip(&van).map(|(x, v)| x + to_int(v)).collect();
    let mut van0 = vec![F::ONE];
    for k in 0..want.len() as u64 - 1 {
        van0 = conv(&van0, &[-F::from(k), F::ONE]);
    }
    let c3: Vec<BigInt> = want.iter().zip(&van0).map(|(x, v)| x + to_int(v)).collect();
    attack(&Target { cs, fixed, out, cands: vec![c1, c2, c3] }, c.seed, 30, &|l| l == &want[..]).map(|mut i| {
        i.nontrivial = a.len() > 1 && b.len() > 1;
        i
    })
}
fn run(ctx: &Ctx) {
    ctx.check("arithmetic", ctx.n(5 * 40000), || polys(9), |c| with_field!(c.field, F => compute::<F>(c)));
    ctx.check("forge_product", ctx.n(5 * 4000), || polys(6), |c| with_field!(c.field, F => forge_product::<F>(c)));
}
