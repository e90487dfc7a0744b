//! Conversions between circuit numbers, allocated numbers, big numbers and polynomials.
use super::Prop;
use crate::bn::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::{BigNat, BigNatParams};
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C22",
    rule: "Random chains of up to 6 conversions (circuit number, allocated number, big number by range-checked limbs, single-limb and many-limb big number from circuit numbers, limbs, polynomial, public inputs) starting from a random linear combination of allocated values; after each hop the value read off the circuit is compared, and at the end the first variables are fixed and the last representation is searched for another value. Non-trivial: at least 3 hops on a value above 1.",
    assumptions: &["conversions to limbs get a layout that can hold the field", "search exhaustive where labelled proved-none"],
    run,
};
type R = Result<Info, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    field: u8,
    terms: Vec<(Z, i8)>,
    constant: i8,
    hops: Vec<(u8, u16)>,
    seed: u64,
}
fn chain(fields: &'static [u8]) -> BoxedStrategy<Chain> {
    prop::sample::select(fields)
        .prop_flat_map(|field| {
            let m = field_modulus(field);
            (Just(field), prop::collection::vec((below(&m), -3i8..4), 1..4), -3i8..4, prop::collection::vec((0u8..6, any::<u16>()), 1..7), any::<u64>())
        })
        .prop_map(|(field, mut terms, constant, hops, seed)| {
            if seed & 1 == 0 {
                terms.truncate(1);
                terms[0].1 = 1;
            }
            Chain { field, terms, constant: if seed & 1 == 0 { 0 } else { constant }, hops, seed }
        })
        .boxed()
}
fn small<F: PrimeField>(k: i8) -> F {
    if k < 0 {
        -F::from((-(k as i64)) as u64)
    } else {
        F::from(k as u64)
    }
}
enum Rep<F: PrimeField> {
    N(Num<F>),
    A(AllocatedNum<F>),
    B(BigNat<F>),
}
/// The field element a representation carries.
fn field_lc<F: PrimeField>(cs: &RecCS<F>, r: &Rep<F>) -> Lc<F> {
    match r {
        Rep::N(n) => cs.lc(&n.num),
        Rep::A(a) => Lc::var(cs.id(a.get_variable())),
        Rep::B(b) => {
            let base = crate::fields::pow2::<F>(b.params.limb_width);
            let mut f = F::ONE;
            let mut t = vec![];
            for l in &b.limbs {
                for (v, c) in cs.lc(l).0 {
                    t.push((v, c * f));
                }
                f *= base;
            }
            Lc::norm(t)
        }
    }
}
fn hops<F: PrimeField>(c: &Chain) -> R {
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let mut lc = LinearCombination::<F>::zero() + (small::<F>(c.constant), RecCS::<F>::one());
    let mut v = small::<F>(c.constant);
    for (i, (z, k)) in c.terms.iter().enumerate() {
        let x = from_int::<F>(&z.0);
        let var = cs.alloc(|| format!("t{}", i), || Ok(x)).unwrap();
        fixed.push((cs.id(var), x));
        lc = lc + (small::<F>(*k), var);
        v += small::<F>(*k) * x;
    }
    let mut r = Rep::N(Num::new(Some(v), lc));
    let want = to_int(&v);
    let cap = F::CAPACITY as usize;
    let mut count = 0;
    for (i, (op, k)) in c.hops.iter().enumerate() {
        let k = *k as usize;
        r = match (r, op) {
            (Rep::N(n), 0 | 3) => Rep::A(n.as_sapling_allocated_num(&mut cs).map_err(|e| e.to_string())?),
            (Rep::N(n), 1 | 4) => {
                // a layout that can hold the field
                let w = 1 + k % (cap - 3).min(80);
                let n_limbs = (cap + 1 + w - 1) / w;
                if n_limbs > 40 {
                    Rep::N(n)
                } else {
                    let b = BigNat::from_num(&mut cs, n, w, n_limbs).map_err(|e| format!("value {} refused in {} limbs of {}: {}", want, n_limbs, w, e))?;
                                        consistent(&cs, &b)?;
                    denotes(&cs, &b, &want)?;
                    Rep::B(b)
                }
            }
            (Rep::N(n), _) => {
                let val = n.value;
                let b = BigNat::from_limbs(vec![n], 1 + k % 200);
                if b.value.as_ref() != Some(&want) || b.limb_values != val.map(|x| vec![x]) || b.params.n_limbs != 1 || b.params.limb_width != 1 + k % 200 {
                    return Err(format!("a number made of one limb {} has value {:?} and layout {:?}", want, b.value, b.params));
                }
                Rep::B(b)
            }
            (Rep::A(a), _) => {
                let n = Num::from(a.clone());
                if n.value != a.get_value() {
                    return Err("number from an allocated number has another value".into());
                }
                Rep::N(n)
            }
            (Rep::B(b), 0 | 1) => {
                // through the limbs
                let ls = b.as_limbs::<RecCS<F>>();
                let vs: Option<Vec<F>> = ls.iter().map(|l| l.value).collect();
                if vs != b.limb_values || ls.len() != b.limbs.len() {
                    return Err("limbs as numbers differ from the limbs".into());
                }
                let nb = BigNat::from_limbs(ls, b.params.limb_width);
                if nb.value != b.value || nb.limb_values != b.limb_values || nb.params.n_limbs != b.params.n_limbs || nb.params.limb_width != b.params.limb_width {
                    return Err(format!("number rebuilt from its limbs differs: {:?} and {:?}", nb.value, b.value));
                }
                Rep::B(nb)
            }
            (Rep::B(b), 2 | 3) => {
                let p = as_poly(BigNat::<F>::from_poly, b.clone().into());
                if p.coefficients.len() != b.limbs.len() || p.values != b.limb_values {
                    return Err("polynomial of a number differs from its limbs".into());
                }
                let nb = BigNat::from_poly(p, b.params.limb_width, b.params.max_word.clone());
                if nb.value != b.value || nb.limb_values != b.limb_values || nb.params.n_limbs != b.params.n_limbs || nb.params.limb_width != b.params.limb_width || nb.params.max_word != b.params.max_word {
                    return Err("number rebuilt from its polynomial differs".into());
                }
                Rep::B(nb)
            }
            (Rep::B(b), _) => {
                if b.limbs.len() == 1 {
                    Rep::N(b.as_limbs::<RecCS<F>>().pop().unwrap())
                } else {
                    let before = cs.inputs.len();
                    b.inputize(&mut cs).map_err(|e| e.to_string())?;
                                        let ins: Vec<u32> = cs.inputs[before..].to_vec();
                    let got: Vec<Option<F>> = ins.iter().map(|i| cs.asg[*i as usize]).collect();
                    if Some(got) != b.limb_values.as_ref().map(|v| v.iter().map(|x| Some(*x)).collect()) {
                        return Err("exported limbs differ from the limbs".into());
                    }
                    let limbs = ins.iter().map(|i| {
                        let idx = cs.inputs.iter().position(|x| x == i).unwrap();
                        Num::new(cs.asg[*i as usize], LinearCombination::zero() + bellpepper_core::Variable::new_unchecked(bellpepper_core::Index::Input(idx)))
                    });
                    Rep::B(BigNat::from_limbs(limbs.collect(), b.params.limb_width))
                }
            }
        };
        count += 1;
        let l = field_lc(&cs, &r);
        if !cs.satisfied() {
            return Err(format!("hop {}: a constraint is not satisfied for {}", i, want));
        }
        let got = l.eval(&cs.full().unwrap());
        let rec = match &r {
            Rep::N(n) => n.value.map(|x| to_int(&x)),
            Rep::A(a) => a.get_value().map(|x| to_int(&x)),
            Rep::B(b) => b.value.clone(),
        };
        if got != v || rec.as_ref() != Some(&want) {
            return Err(format!("hop {}: carries {}, recorded {:?}, expected {}", i, to_int(&got), rec, want));
        }
    }
    let l = field_lc(&cs, &r);
    let mut labels = vec![];
    let res = forge_fixed(&cs, &fixed, &[], c.seed, 20, &|a| l.eval(a) != v);
    if let Res::Found(a) = &res {
        return Err(format!("{} converted can be forged to {}", want, to_int(&l.eval(a))));
    }
    labels.push(label(&res));
    for wrong in [v + F::ONE, F::ZERO, F::from(c.seed)] {
        if wrong != v {
            let res = forge_fixed(&cs, &fixed, &[(l.clone(), wrong)], c.seed, 20, &|_| true);
            if let Res::Found(_) = &res {
                return Err(format!("{} converted can be forged to {}", want, to_int(&wrong)));
            }
            labels.push(label(&res));
        }
    }
    if let Rep::B(b) = &r {
        // each limb is bound too
        let (ls, vals) = (lcs(&cs, b), b.limb_values.clone().unwrap());
        let i = c.seed as usize % ls.len();
        let res = forge_fixed(&cs, &fixed, &[(ls[i].clone(), vals[i] + F::ONE)], c.seed, 20, &|_| true);
        if let Res::Found(_) = &res {
            return Err(format!("limb {} of {} converted can be forged", i, want));
        }
        labels.push(label(&res));
    }
    okl(count >= 3 && want > BigInt::from(1), &labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    field: u8,
    a: Z,
    w: usize,
    n: usize,
    change: u8,
    k: u64,
}
fn pairs() -> BoxedStrategy<Pair> {
    (0u8..6, 1usize..60, 1usize..5)
        .prop_flat_map(|(field, w, n)| {
            let w = w.min(capacity(field) - 2);
            (Just(field), nat(w * n), Just(w), Just(n), 0u8..10, any::<u64>())
        })
        .prop_map(|(field, a, w, n, change, k)| Pair { field, a, w, n, change, k })
        .boxed()
}
fn same<F: PrimeField>(c: &Pair) -> R {
    let mut cs = RecCS::<F>::new();
    let mut mk = |v: &BigInt, w: usize, n: usize| alloc::<F, _>(cs.namespace(|| "x"), v, w, n).map_err(|e| e.to_string());
    let a = mk(&c.a.0, c.w, c.n)?;
    let m = p2(c.w * c.n);
    let (b, equal) = match c.change {
        0..=2 => (mk(&c.a.0, c.w, c.n)?, true),
        3 => (mk(&((&c.a.0 + 1u8) % &m), c.w, c.n)?, false),
        4 => (mk(&c.a.0, c.w, c.n + 1)?, false),
        5 => (mk(&(&c.a.0 ^ p2(c.k as usize % (c.w * c.n))), c.w, c.n)?, false),
        6 => {
            let mut b = mk(&c.a.0, c.w, c.n)?;
            b.params.max_word += 1u8;
            (b, false)
        }
        7 => {
            let mut b = mk(&c.a.0, c.w, c.n)?;
            b.params.min_bits += 1;
            (b, false)
        }
        8 => {
            let mut b = mk(&c.a.0, c.w, c.n)?;
            b.params.limb_width += 1;
            (b, false)
        }
        _ => {
            // same value and layout from other variables
            let ls = a.as_limbs::<RecCS<F>>();
            (BigNat::from_limbs(ls, c.w), true)
        }
    };
    if (a == b) != equal || (b == a) != equal || (a != b) == equal {
        return Err(format!("{} and {:?} ({:?}, {:?}): equal = {}", c.a.0, b.value, a.params, b.params, a == b));
    }
    if a.params != BigNatParams::new(c.w, c.n) {
        return Err(format!("layout of an allocated number: {:?}", a.params));
    }
    okl(!c.a.0.is_zero(), &[if equal { "equal" } else { "different" }])
}

fn run(ctx: &Ctx) {
    ctx.check("conversion_chains", ctx.n(12000), || chain(&[0, 1, 2, 3, 4, 5]), |c| with_field!(c.field, F => hops::<F>(c)));
    ctx.check("identity", ctx.n(60000), pairs, |c| with_field!(c.field, F => same::<F>(c)));
}
