//! Big-number equality: honest verdicts and forging, canonical and unnormalized numbers.
use super::Prop;
use crate::bn::*;
use crate::cs::RecCS;
use crate::fields::{from_int, modulus};
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "Random field, limb width, limb counts and pairs of numbers: canonical ones for the limb-wise equality, limbs up to random maximum words for the carrying ones; half of the pairs denote the same integer with redistributed limbs or padding, the others differ by one, by a power of two, by the field modulus or arbitrarily. Honest verdicts are compared with integers; for unequal pairs a constraint-directed search looks for a satisfying assignment. Non-trivial: more than one limb.",
    assumptions: &["maximum word bits + 3 <= field capacity", "limbs at most the stated maximum word"],
    run,
};
type R = Result<Info, String>;

/// canonical pairs
fn canon(o: &Ops) -> (BigInt, BigInt) {
    let (w, n) = (o.l.w, &o.l.n);
    let m = p2(w * n[0].min(n[1]));
    match o.k % 6 {
        0 | 1 => (&o.a.0 % &m, &o.a.0 % &m),
        2 => {
            // differ in one limb only
            let i = (o.seed as usize) % n[0];
            let l = (&o.a.0 / p2(w * i)) % p2(w);
            let d = if l.is_zero() { p2(w * i) } else { -p2(w * i) };
            (o.a.0.clone() + d, &o.a.0 % p2(w * n[1]))
        }
        3 => (o.a.0.clone(), &o.a.0 % p2(w * n[1])),
        _ => (o.a.0.clone(), o.b.0.clone()),
    }
}
fn limbwise<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let (x, y) = canon(o);
    let mut cs = RecCS::<F>::new();
    let a = alloc::<F, _>(cs.namespace(|| "a"), &x, w, n[0]).unwrap();
    let b = alloc::<F, _>(cs.namespace(|| "b"), &y, w, n[1]).unwrap();
    let r = quiet(|| a.equal(cs.namespace(|| "e"), &b));
    let acc = matches!(r, Ok(Ok(()))) && cs.satisfied();
    if acc != (x == y) {
        return Err(format!("equal({}, {}) accepted: {}", x, y, acc));
    }
    okl(n[0] > 1 || n[1] > 1, &[if x == y { "equal" } else { "different" }])
}
fn bit<F: PrimeField>(o: &Ops) -> R {
    let mut o = o.clone();
    o.l.n[1] = o.l.n[0];
    let (w, n) = (o.l.w, o.l.n);
    o.b.0 = &o.b.0 % p2(w * n[0]);
    let (x, y) = canon(&o);
    let mut cs = RecCS::<F>::new();
    let a = alloc::<F, _>(cs.namespace(|| "a"), &x, w, n[0]).unwrap();
    let b = alloc::<F, _>(cs.namespace(|| "b"), &y, w, n[0]).unwrap();
    let n_in = cs.n_vars();
    let r = a.is_equal(cs.namespace(|| "e"), &b).map_err(|e| format!("refused: {}", e))?;
    let t = x == y;
    let lc = cs.lc(&bool_lc(&r));
    if r.get_value() != Some(t) || cs.val(&bool_lc(&r)) != Some(if t { F::ONE } else { F::ZERO }) {
        return Err(format!("is_equal({}, {}) = {:?}", x, y, r.get_value()));
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied by the produced witness".into());
    }
    let out = forge(&cs, n_in, &[(lc.clone(), if t { F::ZERO } else { F::ONE })], o.seed, 150, &|_| true);
    if let Res::Found(_) = out {
        return Err(format!("is_equal({}, {}): bit {} forged", x, y, !t));
    }
    let right = if t { F::ONE } else { F::ZERO };
    if let Res::Found(a) = forge(&cs, n_in, &[], o.seed, 40, &|a| lc.eval(a) != right) {
        return Err(format!("is_equal({}, {}): bit set to {:?}", x, y, lc.eval(&a)));
    }
    okl(n[0] > 1, &[label(&out), if t { "equal" } else { "different" }])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Carry {
    field: u8,
    w: usize,
    max: [Z; 2],
    limbs: [Vec<Z>; 2],
    equal: bool,
    seed: u64,
}
/// Rewrites the integer as `n` limbs of at most `max`, with some slack moved downwards.
fn redistribute(v: &BigInt, w: usize, n: usize, max: &BigInt, rnd: &[u64]) -> Option<Vec<BigInt>> {
    let mut l = limbs_of(v, w, n);
    if join(&l, w) != *v {
        // the top limb takes the rest
        l[n - 1] += v >> (w * n) << w;
    }
    if join(&l, w) != *v {
        return None;
    }
    let base = p2(w);
    for i in (1..n).rev() {
        let room = (max - &l[i - 1]) / &base;
        if room > BigInt::zero() && l[i] > BigInt::zero() {
            let m = room.min(l[i].clone());
            let take = match rnd[i % rnd.len()] % 3 {
                0 => BigInt::zero(),
                1 => m,
                _ => z(rnd[i % rnd.len()]) % (m + 1u8),
            };
            l[i] -= &take;
            l[i - 1] += take * &base;
        }
    }
    // push overflow down where the top is too large
    for i in (1..n).rev() {
        if l[i] > *max {
            let d = &l[i] - max;
            l[i] = max.clone();
            l[i - 1] += d * &base;
        }
    }
    if l.iter().all(|x| x <= max) {
        Some(l)
    } else {
        None
    }
}
fn carry(fields: &'static [u8], maxn: usize) -> BoxedStrategy<Carry> {
    prop::sample::select(fields)
        .prop_flat_map(move |field| {
            let cap = capacity(field);
            let ws: Vec<usize> = [1, 2, 3, 5, 8, 16, 32, 64, cap / 2, cap - 5].iter().cloned().filter(|w| *w >= 1 && w + 4 <= cap).collect();
            (Just(field), prop_oneof![3 => prop::sample::select(ws), 1 => 1..=cap - 5])
        })
        .prop_flat_map(move |(field, w)| {
            let cap = capacity(field);
            let mb = cap - 3;
            let word = move || {
                prop_oneof![
                    2 => Just(Z(p2(w) - 1u8)),
                    1 => Just(Z(p2(w))),
                    1 => Just(Z(p2((w + 1).min(mb)) - 1u8)),
                    1 => Just(Z(p2((w + 1).min(mb)) - 2u8)),
                    2 => (w..=mb).prop_map(|b| Z(p2(b) - 1u8)),
                    1 => nat(mb),
                    1 => Just(Z(p2(w) - 2u8)),
                ]
            };
            (Just(field), Just(w), [word(), word()], [1..=maxn, 1..=maxn], [prop::collection::vec(nat(mb), maxn), prop::collection::vec(nat(mb), maxn)], 0u8..10, prop::collection::vec(any::<u64>(), 4), any::<u64>())
        })
        .prop_map(|(field, w, max, n, raw, mode, rnd, seed)| {
            let p = field_modulus(field);
            let mut limbs: [Vec<BigInt>; 2] = [0, 1].map(|s| (0..n[s]).map(|i| &raw[s][i].0 % (&max[s].0 + 1u8)).collect());
            if mode & 8 == 0 && mode % 4 == 3 {
                for (i, l) in limbs[0].iter_mut().enumerate() {
                    // saturated or empty limbs
                    *l = if rnd[i % 4] & 1 == 0 { max[0].0.clone() } else { BigInt::zero() };
                }
            }
            let v = join(&limbs[0], w);
            let goal: BigInt = match mode {
                0..=4 => v.clone(),
                5 => &v + 1u8,
                6 => {
                    let d = p2(w * ((seed as usize) % n[1]));
                    if v >= d {
                        &v - d
                    } else {
                        &v + d
                    }
                }
                7 => {
                    // off by a multiple of the modulus at some limb position
                    let d = &p << (w * (seed as usize % n[1]));
                    if v >= d {
                        &v - d
                    } else {
                        &v + d
                    }
                }
                _ => join(&limbs[1], w),
            };
            if let Some(l) = redistribute(&goal, w, n[1], &max[1].0, &rnd) {
                limbs[1] = l;
            }
            let equal = join(&limbs[1], w) == v;
            let sw = seed & 1 == 1;
            let mut c = Carry { field, w, max, limbs: limbs.map(|l| l.into_iter().map(Z).collect()), equal, seed };
            if sw {
                c.max.swap(0, 1);
                c.limbs.swap(0, 1);
            }
            c
        })
        .boxed()
}
fn make<F: PrimeField>(cs: &mut RecCS<F>, c: &Carry, s: usize) -> BigNat<F> {
    let v: Vec<F> = c.limbs[s].iter().map(|l| from_int(&l.0)).collect();
    let n = v.len();
    BigNat::alloc_from_limbs(cs.namespace(|| "in"), || Ok(v), Some(c.max[s].0.clone()), c.w, n).unwrap()
}
fn honest<F: PrimeField>(c: &Carry, regroup: bool) -> R {
    let mut cs = RecCS::<F>::new();
    let a = make(&mut cs, c, 0);
    let b = make(&mut cs, c, 1);
    let r = quiet(|| if regroup { a.equal_when_carried_regroup(cs.namespace(|| "e"), &b) } else { a.equal_when_carried(cs.namespace(|| "e"), &b) });
    let acc = matches!(r, Ok(Ok(()))) && cs.satisfied();
    if acc != c.equal {
        return Err(format!("numbers denoting {} integers: accepted = {} ({:?})", if c.equal { "equal" } else { "different" }, acc, r.map(|x| x.map_err(|e| e.to_string()))));
    }
    okl(c.limbs[0].len() > 1 || c.limbs[1].len() > 1, &[if c.equal { "equal" } else { "different" }, if c.limbs[0].len() == c.limbs[1].len() { "same-count" } else { "different-count" }])
}
fn forged<F: PrimeField>(c: &Carry, regroup: bool) -> R {
    if c.equal {
        return okl(false, &["equal"]);
    }
    // record with zeros, which are always equal, then fix the real limbs
    let mut t = c.clone();
    for s in 0..2 {
        for l in t.limbs[s].iter_mut() {
            l.0 = BigInt::zero();
        }
    }
    let mut cs = RecCS::<F>::new();
    let a = make(&mut cs, &t, 0);
    let b = make(&mut cs, &t, 1);
    let r = if regroup { a.equal_when_carried_regroup(cs.namespace(|| "e"), &b) } else { a.equal_when_carried(cs.namespace(|| "e"), &b) };
    r.map_err(|e| format!("refused zeros: {}", e))?;
    let fixed: Vec<(u32, F)> = c.limbs[0].iter().chain(&c.limbs[1]).enumerate().map(|(i, l)| (i as u32 + 1, from_int(&l.0))).collect();
    let out = forge_fixed(&cs, &fixed, &[], c.seed, 300, &|_| true);
    if let Res::Found(_) = out {
        return Err(format!("unequal numbers accepted: {} and {}", join(&c.limbs[0].iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c.w), join(&c.limbs[1].iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c.w)));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}
/// Free choice of both numbers within their maximum words: is there any accepted unequal pair?
fn forged_pair<F: PrimeField>(c: &Carry, regroup: bool) -> R {
    let mut t = c.clone();
    for s in 0..2 {
        for l in t.limbs[s].iter_mut() {
            l.0 = BigInt::zero();
        }
    }
    let mut cs = RecCS::<F>::new();
    let a = make(&mut cs, &t, 0);
    let b = make(&mut cs, &t, 1);
    let r = if regroup { a.equal_when_carried_regroup(cs.namespace(|| "e"), &b) } else { a.equal_when_carried(cs.namespace(|| "e"), &b) };
    r.map_err(|e| format!("refused zeros: {}", e))?;
    let n0 = c.limbs[0].len();
    // fix all limbs but one of the second number, which the search then chooses to satisfy the constraints
    let free = (c.seed as usize >> 3) % c.limbs[1].len();
    let fixed: Vec<(u32, F)> = c.limbs[0].iter().chain(&c.limbs[1]).enumerate().filter(|(i, _)| *i != n0 + free).map(|(i, l)| (i as u32 + 1, from_int(&l.0))).collect();
    let max = &c.max[1].0;
    let id = n0 + free + 1;
    let v0 = join(&c.limbs[0].iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c.w);
    let p = modulus::<F>();
    let out = forge_fixed(&cs, &fixed, &[], c.seed, 120, &|asg| {
        let l = crate::fields::to_int(&asg[id]);
        if l > *max {
            return false;
        }
        let mut ls: Vec<BigInt> = c.limbs[1].iter().map(|x| x.0.clone()).collect();
        ls[free] = l;
        join(&ls, c.w) != v0
    });
    let _ = p;
    if let Res::Found(a) = &out {
        return Err(format!("unequal numbers accepted with limb {} of the second = {:?}", free, a[id]));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}
fn mismatch<F: PrimeField>(o: &Ops) -> R {
    let w = o.l.w;
    let w2 = if w > 1 && o.k & 1 == 0 { w - 1 } else { w + 1 };
    for op in 0..4 {
        let mut cs = RecCS::<F>::new();
        let a = alloc::<F, _>(cs.namespace(|| "a"), &BigInt::one(), w, o.l.n[0]).unwrap();
        let b = alloc::<F, _>(cs.namespace(|| "b"), &BigInt::one(), w2, o.l.n[0]).unwrap();
        let r = quiet(|| match op {
            0 => a.equal(cs.namespace(|| "x"), &b).is_ok(),
            1 => a.is_equal(cs.namespace(|| "x"), &b).is_ok(),
            2 => a.equal_when_carried(cs.namespace(|| "x"), &b).is_ok(),
            _ => a.equal_when_carried_regroup(cs.namespace(|| "x"), &b).is_ok(),
        });
        if r == Ok(true) {
            return Err(format!("limb widths {} and {} accepted by {}", w, w2, ["equal", "is_equal", "equal_when_carried", "equal_when_carried_regroup"][op]));
        }
    }
    okl(true, &[])
}

fn run(ctx: &Ctx) {
    const A: &[u8] = &[0, 1, 2, 3, 4, 5, 4, 5];
    const S: &[u8] = &[0, 0, 1, 1, 2, 3, 4];
    ctx.check("limbwise", ctx.n(3 * 20000), || ops(A, 6), |o| with_field!(o.l.field, F => limbwise::<F>(o)));
    ctx.check("equality_bit", ctx.n(3 * 3000), || ops(A, 4), |o| with_field!(o.l.field, F => bit::<F>(o)));
    ctx.check("carried", ctx.n(3 * 20000), || carry(A, 6), |c| with_field!(c.field, F => honest::<F>(c, false)));
    ctx.check("carried_regroup", ctx.n(3 * 20000), || carry(A, 9), |c| with_field!(c.field, F => honest::<F>(c, true)));
    ctx.check("forge_carried", ctx.n(3 * 6000), || carry(S, 4), |c| with_field!(c.field, F => forged::<F>(c, false)));
    ctx.check("forge_carried_regroup", ctx.n(3 * 6000), || carry(S, 6), |c| with_field!(c.field, F => forged::<F>(c, true)));
    ctx.check("forge_choice", ctx.n(3 * 2500), || carry(S, 4), |c| with_field!(c.field, F => forged_pair::<F>(c, false)));
    ctx.check("forge_choice_regroup", ctx.n(3 * 2500), || carry(S, 6), |c| with_field!(c.field, F => forged_pair::<F>(c, true)));
    ctx.check("limb_width_mismatch", ctx.n(3 * 500), || ops(A, 3), |o| with_field!(o.l.field, F => mismatch::<F>(o)));
}
