//! Big-number arithmetic on the honest path, against integer arithmetic.
use super::Prop;
use crate::bn::*;
use crate::cs::RecCS;
use crate::fields::from_int;
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "Random field (six, 13 to 255 bits), limb width, limb counts (1..6 per operand, chosen independently) and canonical operands with boundary shapes (0, all-ones, runs, neighbours of powers of two, equal/adjacent pairs); each operation is compared with integer arithmetic and the recorded constraints are evaluated. Non-trivial: some operand has more than one limb or is at a limb boundary.",
    assumptions: &["2*width + 7 <= field capacity (products of limbs stay inside the field)", "operands canonical; modulus and divisor non-zero"],
    run,
};

type R = Result<Info, String>;
fn nt(o: &Ops) -> bool {
    o.l.n[0] > 1 || o.l.n[1] > 1
}
fn sat<F: PrimeField>(cs: &RecCS<F>) -> Result<(), String> {
    if cs.satisfied() {
        Ok(())
    } else {
        Err("accepted, but the constraints are not satisfied by the produced witness".into())
    }
}
fn two<F: PrimeField>(cs: &mut RecCS<F>, o: &Ops) -> (BigNat<F>, BigNat<F>) {
    let a = alloc(cs.namespace(|| "a"), &o.a.0, o.l.w, o.l.n[0]).unwrap();
    let b = alloc(cs.namespace(|| "b"), &o.b.0, o.l.w, o.l.n[1]).unwrap();
    (a, b)
}
fn err(e: impl std::fmt::Display) -> String {
    format!("refused although in range: {}", e)
}

fn add<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let s = a.add::<RecCS<F>>(&b).map_err(err)?;
    denotes(&cs, &s, &(&o.a.0 + &o.b.0))?;
    sat(&cs)?;
    okl(nt(o), &[])
}
fn mult<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let s = a.mult(cs.namespace(|| "m"), &b).map_err(err)?;
    denotes(&cs, &s, &(&o.a.0 * &o.b.0))?;
    sat(&cs)?;
    okl(nt(o), &[if o.l.n[0] == o.l.n[1] { "same-count" } else { "different-count" }])
}
/// linear operations with constants and layout changes
fn linear<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let w = o.l.w;
    let k = z(o.k) % p2(w.min(20));
    denotes(&cs, &a.shift::<RecCS<F>>(from_int(&k)), &(&o.a.0 + &k)).map_err(|e| format!("shift by {}: {}", k, e))?;
    denotes(&cs, &a.scale::<RecCS<F>>(from_int(&k)), &(&o.a.0 * &k)).map_err(|e| format!("scale by {}: {}", k, e))?;
    let c = a.concat(&b).map_err(err)?;
    denotes(&cs, &c, &((&o.a.0 << (w * o.l.n[1])) + &o.b.0)).map_err(|e| format!("concat: {}", e))?;
    for t in [1, o.l.n[2], c.params.n_limbs, c.params.n_limbs + 2] {
        let x = c.truncate_limbs(t);
        let full = c.value.clone().unwrap();
        denotes(&cs, &x, &(full % p2(w * t))).map_err(|e| format!("truncate to {}: {}", t, e))?;
        if x.limbs.len() != t.min(c.params.n_limbs) || x.params.n_limbs != x.limbs.len() {
            return Err(format!("truncate to {} left {} limbs", t, x.limbs.len()));
        }
    }
    let x = c.with_n_limbs::<RecCS<F>>(c.params.n_limbs + o.l.n[2]);
    denotes(&cs, &x, c.value.as_ref().unwrap()).map_err(|e| format!("extend: {}", e))?;
    let g = (capacity(o.l.field) / w).min(1 + (o.k % 5) as usize).max(1);
    let x = c.group_limbs(g);
    denotes(&cs, &x, c.value.as_ref().unwrap()).map_err(|e| format!("group by {}: {}", g, e))?;
    if x.params.limb_width != g * w || x.limbs.len() != (c.limbs.len() + g - 1) / g {
        return Err(format!("group by {} gives {} limbs of width {}", g, x.limbs.len(), x.params.limb_width));
    }
    denotes(&cs, &BigNat::<F>::one::<RecCS<F>>(w), &BigInt::one()).map_err(|e| format!("one: {}", e))?;
    sat(&cs)?;
    okl(nt(o), &[])
}
fn bits<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let a = alloc::<F, _>(cs.namespace(|| "a"), &o.a.0, o.l.w, o.l.n[0]).unwrap();
    let bv = a.decompose(cs.namespace(|| "d")).map_err(err)?;
    let w2 = 1 + (o.k as usize) % max_width(o.l.field);
    let r = BigNat::recompose(&bv, w2);
    denotes(&cs, &r, &o.a.0)?;
    consistent(&cs, &r)?;
    sat(&cs)?;
    okl(nt(o), &[])
}
fn min<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let m = a.min(cs.namespace(|| "m"), &b).map_err(err)?;
    denotes(&cs, &m, (&o.a.0).min(&o.b.0))?;
    sat(&cs)?;
    okl(nt(o), &[if o.a.0 < o.b.0 { "first" } else if o.a.0 == o.b.0 { "same" } else { "second" }])
}
fn sub<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let d = quiet(|| a.sub(cs.namespace(|| "s"), &b));
    let good = o.a.0 >= o.b.0;
    match d {
        Ok(Ok(d)) => {
            if good {
                denotes(&cs, &d, &(&o.a.0 - &o.b.0))?;
                sat(&cs)?;
                okl(nt(o), &["difference"])
            } else if cs.satisfied() {
                Err("negative difference accepted".into())
            } else {
                okl(nt(o), &["refused"])
            }
        }
        Ok(Err(e)) if good => Err(err(e)),
        Err(p) if good => Err(format!("panicked: {}", p)),
        _ => okl(nt(o), &["refused"]),
    }
}
/// modulus whose minimum size is sometimes declared, which shortens the quotient
fn modulus<F: PrimeField>(cs: &mut RecCS<F>, o: &Ops) -> (BigInt, BigNat<F>) {
    let (w, n) = (o.l.w, o.l.n[2]);
    let mut v = o.c.0.clone();
    if v.is_zero() {
        v = BigInt::one();
    }
    if o.k % 4 == 3 {
        v = p2(w * n - 1) + &v % p2(w * n - 1);
    }
    let mut m = alloc::<F, _>(cs.namespace(|| "mod"), &v, w, n).unwrap();
    match o.k % 4 {
        2 => m.enforce_min_bits(cs.namespace(|| "min"), v.bits() as usize).unwrap(),
        3 => m.enforce_full_bits(cs.namespace(|| "full")).unwrap(),
        _ => {}
    }
    (v, m)
}
fn mult_mod<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let (m, mb) = modulus(&mut cs, o);
    let (q, r) = a.mult_mod(cs.namespace(|| "mm"), &b, &mb).map_err(err)?;
    let (eq, er) = (&o.a.0 * &o.b.0).div_rem(&m);
    denotes(&cs, &q, &eq).map_err(|e| format!("quotient: {}", e))?;
    denotes(&cs, &r, &er).map_err(|e| format!("remainder: {}", e))?;
    sat(&cs)?;
    okl(nt(o), &[["plain", "plain", "min-bits", "full-bits"][(o.k % 4) as usize]])
}
/// Modular multiplication of numbers whose limbs are above the width (sums and multiples), often
/// by a small modulus, so that the quotient is as large as it gets.
fn wide_mult_mod<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let (w, cap) = (o.l.w, F::CAPACITY as usize);
    let all = p2(w * o.l.n[0]) - 1u8;
    let full = alloc::<F, _>(cs.namespace(|| "full"), &all, w, o.l.n[0]).unwrap();
    let grow = |x: BigNat<F>, v: BigInt, how: u64| -> Result<(BigNat<F>, BigInt), String> {
        Ok(match how % 5 {
            0 => (x.add::<RecCS<F>>(&full).map_err(err)?, v + &all),
            1 => {
                let k = z(2 + (how >> 3) % 6);
                (x.scale::<RecCS<F>>(from_int(&k)), v * k)
            }
            2 => {
                let k = z(1 + (how >> 3) % 1000);
                (x.shift::<RecCS<F>>(from_int(&k)), v + k)
            }
            3 => (full.scale::<RecCS<F>>(from_int(&z(2))), &all * 2u8),
            _ => (x, v),
        })
    };
    let (a, av) = grow(a, o.a.0.clone(), o.k >> 4)?;
    let (b, bv) = grow(b, o.b.0.clone(), o.k >> 24)?;
    let (m, mb) = if o.k & 8 == 0 {
        modulus(&mut cs, o)
    } else {
        let v = (z(1 + (o.seed >> 9) % 3)).min(p2(w * o.l.n[2]) - 1u8);
        let x = alloc::<F, _>(cs.namespace(|| "small"), &v, w, o.l.n[2]).unwrap();
        (v, x)
    };
    let left = z(a.limbs.len().min(b.limbs.len()) as u64) * &a.params.max_word * &b.params.max_word;
    let right = z(mb.limbs.len() as u64) * p2(2 * w) + p2(w);
    if left.max(right).bits() as usize + 4 > cap {
        return okl(false, &["leaves the field"]);
    }
    let (q, r) = a.mult_mod(cs.namespace(|| "mm"), &b, &mb).map_err(err)?;
    let (eq, er) = (&av * &bv).div_rem(&m);
    denotes(&cs, &q, &eq).map_err(|e| format!("quotient: {}", e))?;
    denotes(&cs, &r, &er).map_err(|e| format!("remainder: {}", e))?;
    sat(&cs)?;
    okl(true, &[if eq.bits() as usize > w * (o.l.n[0] + o.l.n[1]) { "quotient above the operands' limbs" } else { "quotient within the operands' limbs" }])
}
fn red_mod<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    // the number to reduce may be unnormalized: a + b
    let (a, b) = two(&mut cs, o);
    let (x, v) = if o.k & 8 == 0 { (a.clone(), o.a.0.clone()) } else { (a.add::<RecCS<F>>(&b).map_err(err)?, &o.a.0 + &o.b.0) };
    let (m, mb) = modulus(&mut cs, o);
    let r = x.red_mod(cs.namespace(|| "rm"), &mb).map_err(err)?;
    denotes(&cs, &r, &(v % m))?;
    sat(&cs)?;
    okl(nt(o), &[if o.k & 8 == 0 { "canonical" } else { "sum" }])
}
fn product_mod<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (a, b) = two(&mut cs, o);
    let (m, mb) = modulus(&mut cs, o);
    let (eq, er) = (&o.a.0 * &o.b.0).div_rem(&m);
    // candidate remainder: the true one, the true one plus a multiple of the modulus, a neighbour, or anything
    let top = p2(o.l.w * o.l.n[2]);
    let cand = match (o.seed >> 8) % 6 {
        0 | 1 => er.clone(),
        2 => (&er + 1u8) % &top,
        3 => (&er + &top - 1u8) % &top,
        4 => (z(o.seed) * z(o.k)) % &top,
        _ => (&er + p2(o.l.w * (o.l.n[2] - 1))) % &top,
    };
    let r = alloc::<F, _>(cs.namespace(|| "r"), &cand, o.l.w, o.l.n[2]).unwrap();
    let out = quiet(|| a.assert_product_mod(cs.namespace(|| "pm"), &b, &mb, &r));
    let accepted = matches!(out, Ok(Ok(_))) && cs.satisfied();
    if cand == er {
        match out {
            Ok(Ok(q)) => {
                denotes(&cs, &q, &eq)?;
                sat(&cs)?;
                okl(nt(o), &["true-remainder"])
            }
            Ok(Err(e)) => Err(err(e)),
            Err(p) => Err(format!("panicked: {}", p)),
        }
    } else if ((&o.a.0 * &o.b.0 - &cand) % &m).is_zero() {
        okl(false, &["congruent"])
    } else if accepted {
        Err(format!("remainder {} accepted for {}*{} mod {}", cand, o.a.0, o.b.0, m))
    } else {
        okl(nt(o), &["refused"])
    }
}
fn divides<F: PrimeField>(o: &Ops) -> R {
    let mut cs = RecCS::<F>::new();
    let (w, n0, n1) = (o.l.w, o.l.n[0], o.l.n[1]);
    let d = if o.a.0.is_zero() { BigInt::one() } else { o.a.0.clone() };
    let top = p2(w * n1);
    let x = match o.k % 4 {
        0 => o.b.0.clone(),
        1 => {
            let q = &o.c.0 % (&top / &d).max(BigInt::one());
            (&d * q) % &top
        }
        2 => ((&top - 1u8) / &d) * &d,
        _ => (((&top - 1u8) / &d) * &d + 1u8) % &top,
    };
    let a = alloc::<F, _>(cs.namespace(|| "d"), &d, w, n0).unwrap();
    let b = alloc::<F, _>(cs.namespace(|| "x"), &x, w, n1).unwrap();
    let out = quiet(|| a.divides(cs.namespace(|| "div"), &b));
    let truth = (&x % &d).is_zero();
    match out {
        Ok(Ok(())) if truth => {
            sat(&cs)?;
            okl(nt(o), &["divides"])
        }
        Ok(Ok(())) if cs.satisfied() => Err(format!("{} accepted as divisor of {}", d, x)),
        Ok(Err(e)) if truth => Err(err(e)),
        Err(p) if truth => Err(format!("panicked: {}", p)),
        _ => okl(nt(o), &["refused"]),
    }
}
fn mismatch<F: PrimeField>(o: &Ops) -> R {
    let w = o.l.w;
    let w2 = if w > 1 && o.k & 1 == 0 { w - 1 } else { w + 1 };
    // each operation in a constraint system of its own
    let mut which = vec![];
    for op in 0..9 {
        let mut cs = RecCS::<F>::new();
        let a = alloc::<F, _>(cs.namespace(|| "a"), &(&o.a.0 + 1u8).min(p2(w) - 1u8), w, o.l.n[0]).unwrap();
        let b = alloc::<F, _>(cs.namespace(|| "b"), &BigInt::one(), w2, o.l.n[1]).unwrap();
        let ok = quiet(|| match op {
            0 => a.add::<RecCS<F>>(&b).is_ok(),
            1 => a.mult(cs.namespace(|| "x"), &b).is_ok(),
            2 => a.sub(cs.namespace(|| "x"), &b).is_ok(),
            3 => a.concat(&b).is_ok(),
            4 => a.red_mod(cs.namespace(|| "x"), &b).is_ok(),
            5 => a.mult_mod(cs.namespace(|| "x"), &a, &b).is_ok(),
            6 => a.assert_product_mod(cs.namespace(|| "x"), &b, &a, &a).is_ok(),
            7 => b.divides(cs.namespace(|| "x"), &a).is_ok(),
            _ => a.min(cs.namespace(|| "x"), &b).is_ok(),
        });
        if ok == Ok(true) {
            which.push(["add", "mult", "sub", "concat", "red_mod", "mult_mod (modulus)", "assert_product_mod", "divides", "min"][op]);
        }
    }
    if !which.is_empty() {
        return Err(format!("limb widths {} and {} accepted by {:?}", w, w2, which));
    }
    okl(true, &[])
}

/// Histories: random expression trees over canonical leaves, evaluated in the circuit and over Z.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Expr {
    pub l: Lay,
    pub leaves: Vec<Z>,
    pub steps: Vec<(u8, u8, u8, u32)>,
}
fn expr() -> BoxedStrategy<Expr> {
    layout(&[1, 2, 3, 4, 5, 4], 3)
        .prop_flat_map(|l| {
            let b = l.w * l.n[0];
            (Just(l), prop::collection::vec(nat(b), 2..4), prop::collection::vec((0u8..8, any::<u8>(), any::<u8>(), any::<u32>()), 1..7))
        })
        .prop_map(|(l, leaves, steps)| Expr { l, leaves, steps })
        .boxed()
}
fn eval_expr<F: PrimeField>(e: &Expr) -> R {
    let mut cs = RecCS::<F>::new();
    let cap = F::CAPACITY as usize;
    let w = e.l.w;
    let mut pool: Vec<(BigNat<F>, BigInt)> = vec![];
    for (i, v) in e.leaves.iter().enumerate() {
        pool.push((alloc(cs.namespace(|| format!("l{}", i)), &v.0, w, e.l.n[0]).unwrap(), v.0.clone()));
    }
    let mut done = 0;
    for (i, (op, x, y, k)) in e.steps.iter().enumerate() {
        let (a, av) = pool[*x as usize % pool.len()].clone();
        let (b, bv) = pool[*y as usize % pool.len()].clone();
        let mwbits = |m: &BigInt| m.bits() as usize;
        let pmw = z(a.params.n_limbs.min(b.params.n_limbs) as u64) * &a.params.max_word * &b.params.max_word;
        let fits = |v: &BigInt, n: usize| v.bits() as usize <= n * w;
        let mut ns = cs.namespace(|| format!("s{}", i));
        let r = match op {
            0 | 1 if mwbits(&(&a.params.max_word + &b.params.max_word)) + 1 < cap => (a.add::<RecCS<F>>(&b).map_err(err)?, av + bv),
            2 if mwbits(&pmw) + 4 <= cap && a.params.n_limbs + b.params.n_limbs <= 8 && fits(&(&av * &bv), a.params.n_limbs + b.params.n_limbs) => (a.mult(&mut ns, &b).map_err(|e| format!("step {} mult: {}", i, err(e)))?, av * bv),
            3 if mwbits(&(&a.params.max_word + &b.params.max_word)) + 4 <= cap && av >= bv && fits(&(&av - &bv), a.params.n_limbs) && w + mwbits(&(&a.params.max_word)).max(mwbits(&(&b.params.max_word))) + 5 <= cap => (a.sub(&mut ns, &b).map_err(|e| format!("step {} sub: {}", i, err(e)))?, av - bv),
            4 => {
                let k = z(*k as u64) % p2(w.min(12));
                if mwbits(&(&a.params.max_word + &k)) + 1 >= cap {
                    continue;
                }
                (a.shift::<RecCS<F>>(from_int(&k)), av + k)
            }
            5 => {
                let k = z(*k as u64) % p2(w.min(6));
                if mwbits(&(&a.params.max_word * &k)) + 1 >= cap {
                    continue;
                }
                (a.scale::<RecCS<F>>(from_int(&k)), av * k)
            }
            6 if !bv.is_zero() && a.params.n_limbs <= 6 && mwbits(&(z(8) * p2(w) * &b.params.max_word)) + 4 <= cap && mwbits(&a.params.max_word) + 4 <= cap && b.params.max_word < p2(w) => (a.red_mod(&mut ns, &b).map_err(|e| format!("step {} red_mod: {}", i, err(e)))?, av % bv),
            7 if a.params.n_limbs + b.params.n_limbs <= 6 => {
                let n = b.params.n_limbs;
                (a.concat(&b).map_err(err)?, (av << (w * n)) + bv)
            }
            _ => continue,
        };
        drop(ns);
        done += 1;
        denotes(&cs, &r.0, &r.1).map_err(|m| format!("step {} op {}: {}", i, op, m))?;
        pool.push(r);
    }
    sat(&cs)?;
    okl(done >= 2, &[if done >= 3 { "3+ steps" } else { "short" }])
}

fn run(ctx: &Ctx) {
    const A: &[u8] = &[0, 1, 2, 3, 4, 5, 4, 5];
    macro_rules! go {
        ($name:expr, $n:expr, $l:expr, $f:ident) => {
            ctx.check($name, ctx.n($n), || ops(A, $l), |o| with_field!(o.l.field, F => $f::<F>(o)))
        };
    }
    go!("add", 8000, 6, add);
    go!("mult", 6000, 5, mult);
    go!("constants_and_layout", 8000, 5, linear);
    go!("bit_recomposition", 4000, 5, bits);
    go!("min", 5000, 5, min);
    go!("sub", 8000, 5, sub);
    go!("mult_mod", 6000, 4, mult_mod);
    go!("wide_mult_mod", 5000, 4, wide_mult_mod);
    go!("red_mod", 6000, 5, red_mod);
    go!("assert_product_mod", 6000, 4, product_mod);
    go!("divides", 6000, 4, divides);
    go!("limb_width_mismatch", 1500, 4, mismatch);
    ctx.check("expressions", ctx.n(3 * 6000), expr, |e| with_field!(e.l.field, F => eval_expr::<F>(e)));
}
