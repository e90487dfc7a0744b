//! Range checks, bit decompositions, conversion of numbers into limbs.
use super::c14::{attack, Target};
use super::Prop;
use crate::bn::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, modulus, to_int};
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::{ConstraintSystem, LinearCombination};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "Random field, width n up to the capacity (weighted to the ends) and value, a third in range, a third just outside (2^n, 2^n+small, 2^n*k), the rest arbitrary field elements; numbers with in-range and out-of-range limbs; layouts shorter than, equal to and longer than the field for the number-to-limbs conversion. Honest verdicts and digits are compared with integers; then the value is fixed and a constraint-directed search looks for other bits or limbs, or for any witness when the value is out of range. Non-trivial: always, except when the search was inconclusive.",
    assumptions: &["decompositions use at most capacity bits per number or limb", "limb width + 3 <= capacity for the number-to-limbs conversion"],
    run,
};
type R = Result<Info, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Range {
    pub field: u8,
    pub n: usize,
    pub v: Z,
    pub seed: u64,
}
fn range(fields: &'static [u8]) -> BoxedStrategy<Range> {
    prop::sample::select(fields)
        .prop_flat_map(|field| {
            let cap = capacity(field);
            let sp: Vec<usize> = [1, 2, 3, 8, 31, 32, 63, 64, 65, 127, 128, 129, 200, cap - 1, cap].iter().cloned().filter(|n| *n <= cap).collect();
            (Just(field), prop_oneof![2 => prop::sample::select(sp), 1 => 1..=cap])
        })
        .prop_flat_map(|(field, n)| (Just(field), Just(n), nat(n), below(&field_modulus(field)), 0u8..6, any::<u64>()))
        .prop_map(|(field, n, small, any, mode, seed)| {
            let p = field_modulus(field);
            let v = match mode {
                0 | 1 => small.0,
                2 => p2(n) + z(seed % 3),
                3 => p2(n) * z(1 + seed % 5) + small.0,
                4 => p2(n) - 1u8,
                _ => any.0,
            };
            Range { field, n, v: Z(v % p), seed }
        })
        .boxed()
}
/// the number as a sum of two variables, a single variable or a scaled one
fn number<F: PrimeField>(cs: &mut RecCS<F>, v: &BigInt, shape: u64) -> Num<F> {
    let f = from_int::<F>(v);
    match shape % 4 {
        0 => {
            let k = F::from(shape >> 8);
            let a = Num::alloc(cs.namespace(|| "a"), || Ok(f - k)).unwrap();
            let b = Num::alloc(cs.namespace(|| "b"), || Ok(k)).unwrap();
            Num::new(Some(f), LinearCombination::zero() + &a.num + &b.num)
        }
        1 => {
            let three = F::from(3);
            let a = Num::alloc(cs.namespace(|| "a"), || Ok(f * three.invert().unwrap())).unwrap();
            Num::new(Some(f), LinearCombination::zero() + (three, &a.num))
        }
        _ => Num::alloc(cs.namespace(|| "a"), || Ok(f)).unwrap(),
    }
}
fn accepted<F: PrimeField, T>(cs: &RecCS<F>, r: &Result<Result<T, bellpepper_core::SynthesisError>, String>) -> bool {
    matches!(r, Ok(Ok(_))) && cs.satisfied()
}
fn fits<F: PrimeField>(c: &Range) -> R {
    let mut cs = RecCS::<F>::new();
    let x = number(&mut cs, &c.v.0, c.seed);
    let n_in = cs.n_vars();
    let r = quiet(|| x.fits_in_bits(cs.namespace(|| "f"), c.n));
    let t = c.v.0 < p2(c.n);
    if accepted(&cs, &r) != t {
        return Err(format!("{} in {} bits: accepted = {}", c.v.0, c.n, !t));
    }
    if t {
        return okl(true, &["in-range"]);
    }
    let out = forge(&cs, n_in, &[], c.seed, 200, &|_| true);
    if let Res::Found(_) = out {
        return Err(format!("{} forged into {} bits", c.v.0, c.n));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}
fn digits(v: &BigInt, n: usize) -> Vec<bool> {
    (0..n).map(|i| v.bit(i as u64)).collect()
}
fn bits_as<F: PrimeField>(cs: &RecCS<F>, l: &[LinearCombination<F>]) -> Vec<Option<F>> {
    l.iter().map(|x| cs.val(x)).collect()
}
fn fb<F: PrimeField>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
fn decompose<F: PrimeField>(c: &Range) -> R {
    let mut cs = RecCS::<F>::new();
    let x = number(&mut cs, &c.v.0, c.seed);
    let n_in = cs.n_vars();
    let r = quiet(|| x.decompose(cs.namespace(|| "d"), c.n));
    let t = c.v.0 < p2(c.n);
    if accepted(&cs, &r) != t {
        return Err(format!("{} in {} bits: accepted = {}", c.v.0, c.n, !t));
    }
    let Ok(Ok(bv)) = r else { return okl(true, &["refused"]) };
    let want = digits(&c.v.0, c.n);
    let out: Vec<Lc<F>> = bv.bits.iter().map(|l| cs.lc(l)).collect();
    if t {
        if bv.values.as_ref() != Some(&want) || bits_as(&cs, &bv.bits) != want.iter().map(|b| Some(fb(*b))).collect::<Vec<_>>() {
            return Err(format!("bits of {} are wrong", c.v.0));
        }
        // comparing the number with those bits accepts it and no neighbour
        let mut cs2 = cs_clone(&cs);
        x.is_equal(cs2.namespace(|| "eq"), &bv).map_err(|e| e.to_string())?;
        if !cs2.satisfied() {
            return Err("number refused as equal to its own bits".into());
        }
        let y = Num::alloc(cs2.namespace(|| "y"), || Ok(from_int::<F>(&c.v.0) + F::from(1 + c.seed % 7))).unwrap();
        y.is_equal(cs2.namespace(|| "neq"), &bv).map_err(|e| e.to_string())?;
        if cs2.satisfied() {
            return Err("another number accepted as equal to the bits".into());
        }
    }
    let any = forge(&cs, n_in, &[], c.seed, 150, &|a| !t || out.iter().zip(&want).any(|(l, b)| l.eval(a) != fb(*b)));
    if let Res::Found(_) = any {
        return Err(if t { format!("other bits accepted for {}", c.v.0) } else { format!("{} decomposed into {} bits", c.v.0, c.n) });
    }
    okl(!matches!(any, Res::Budget), &[label(&any), if t { "in-range" } else { "out-of-range" }])
}
fn cs_clone<F: PrimeField>(cs: &RecCS<F>) -> RecCS<F> {
    RecCS { witness: cs.witness, asg: cs.asg.clone(), is_input: cs.is_input.clone(), inputs: cs.inputs.clone(), aux: cs.aux.clone(), cons: cs.cons.clone() }
}

/// Numbers with arbitrary limb values.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub field: u8,
    pub w: usize,
    pub limbs: Vec<Z>,
    pub m: usize,
    pub seed: u64,
}
fn raw(fields: &'static [u8], maxn: usize) -> BoxedStrategy<Raw> {
    (range(fields), 1..=maxn, 0u8..4)
        .prop_flat_map(move |(r, n, clean)| {
            let w = r.n;
            let p = field_modulus(r.field);
            let limb = prop_oneof![12 => nat(w), 1 => below(&p), 1 => (0u64..3).prop_map(move |k| Z(p2(w) + z(k)))];
            (Just(r), prop::collection::vec(limb, n), Just(clean), any::<u32>())
        })
        .prop_map(|(r, mut l, clean, m)| {
            let p = field_modulus(r.field);
            let n = l.len();
            for x in l.iter_mut() {
                x.0 = &x.0 % &p;
                if clean != 0 {
                    x.0 = &x.0 % p2(r.n);
                }
            }
            if clean == 2 {
                // short numbers, for the minimum-size checks
                for x in l.iter_mut().skip(1 + m as usize % n) {
                    x.0 = BigInt::zero();
                }
            }
            let v = join(&l.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), r.n);
            let bits = v.bits() as usize;
            let m = match m % 5 {
                0 => bits.max(1),
                1 => bits + 1,
                2 => bits.saturating_sub(1).max(1),
                3 => 1,
                _ => 1 + (m as usize >> 3) % (r.n * n),
            };
            Raw { field: r.field, w: r.n, limbs: l, m: m.min(r.n * n), seed: r.seed }
        })
        .boxed()
}
fn make<F: PrimeField>(cs: &mut RecCS<F>, c: &Raw) -> BigNat<F> {
    let v: Vec<F> = c.limbs.iter().map(|l| from_int(&l.0)).collect();
    let n = v.len();
    BigNat::alloc_from_limbs(cs.namespace(|| "in"), || Ok(v), None, c.w, n).unwrap()
}
fn clean(c: &Raw) -> bool {
    c.limbs.iter().all(|l| l.0 < p2(c.w))
}
fn well_formed<F: PrimeField>(c: &Raw) -> R {
    let mut cs = RecCS::<F>::new();
    let b = make(&mut cs, c);
    let n_in = cs.n_vars();
    let r = quiet(|| b.assert_well_formed(cs.namespace(|| "w")));
    if accepted(&cs, &r) != clean(c) {
        return Err(format!("limbs {:?} of width {}: accepted = {}", c.limbs, c.w, !clean(c)));
    }
    if clean(c) {
        return okl(true, &["in-range"]);
    }
    let out = forge(&cs, n_in, &[], c.seed, 200, &|_| true);
    if let Res::Found(_) = out {
        return Err(format!("limbs {:?} of width {} forged as well-formed", c.limbs, c.w));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}
fn big_decompose<F: PrimeField>(c: &Raw) -> R {
    let mut cs = RecCS::<F>::new();
    let b = make(&mut cs, c);
    let n_in = cs.n_vars();
    let r = quiet(|| b.decompose(cs.namespace(|| "w")));
    let t = clean(c);
    if accepted(&cs, &r) != t {
        return Err(format!("limbs {:?} of width {}: accepted = {}", c.limbs, c.w, !t));
    }
    let Ok(Ok(bv)) = r else { return okl(true, &["refused"]) };
    let v = join(&c.limbs.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c.w);
    let want = digits(&v, c.w * c.limbs.len());
    if t && (bv.values.as_ref() != Some(&want) || bits_as(&cs, &bv.bits) != want.iter().map(|b| Some(fb(*b))).collect::<Vec<_>>()) {
        return Err(format!("bits of {} are wrong", v));
    }
    let out: Vec<Lc<F>> = bv.bits.iter().map(|l| cs.lc(l)).collect();
    let any = forge(&cs, n_in, &[], c.seed, 150, &|a| !t || out.iter().zip(&want).any(|(l, b)| l.eval(a) != fb(*b)));
    if let Res::Found(_) = any {
        return Err(format!("limbs {:?} decomposed into other bits", c.limbs));
    }
    okl(!matches!(any, Res::Budget), &[label(&any), if t { "in-range" } else { "out-of-range" }])
}
/// full-bits (m = None) and minimum-bits enforcement on canonical numbers
fn enforce<F: PrimeField>(c: &Raw, full: bool) -> R {
    let mut cs = RecCS::<F>::new();
    let v = join(&c.limbs.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), c.w);
    let size = c.w * c.limbs.len();
    let m = if full { size } else { c.m };
    let in_range = if full { c.limbs.last().unwrap().0 < p2(c.w) } else { clean(c) };
    let t = in_range && if full { c.limbs.last().unwrap().0.bits() as usize == c.w } else { v.bits() as usize >= m };
    let mut b = make(&mut cs, c);
    let n_in = cs.n_vars();
    let r = quiet(|| if full { b.enforce_full_bits(cs.namespace(|| "w")) } else { b.enforce_min_bits(cs.namespace(|| "w"), m) });
    if accepted(&cs, &r) != t {
        return Err(format!("{} of {} bits, at least {} required: accepted = {}", v, v.bits(), m, !t));
    }
    if t {
        if b.params.min_bits != m {
            return Err(format!("states at least {} bits, {} were enforced", b.params.min_bits, m));
        }
        return okl(true, &["accepted"]);
    }
    // the honest path may have stopped early: record with a number of full size instead
    let mut cs = RecCS::<F>::new();
    let tmpl = Raw { limbs: c.limbs.iter().map(|_| Z(p2(c.w) - 1u8)).collect(), ..c.clone() };
    let mut b = make(&mut cs, &tmpl);
    let r = quiet(|| if full { b.enforce_full_bits(cs.namespace(|| "w")) } else { b.enforce_min_bits(cs.namespace(|| "w"), m) });
    if !accepted(&cs, &r) {
        return Err("number of full size refused".into());
    }
    let fixed: Vec<(u32, F)> = c.limbs.iter().enumerate().map(|(i, l)| (1 + i as u32, from_int(&l.0))).collect();
    let _ = n_in;
    let out = forge_fixed(&cs, &fixed, &[], c.seed, 200, &|_| true);
    if let Res::Found(_) = out {
        return Err(format!("{} of {} bits accepted as at least {} bits", v, v.bits(), m));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ToLimbs {
    field: u8,
    w: usize,
    n: usize,
    v: Z,
    seed: u64,
}
fn to_limbs(fields: &'static [u8]) -> BoxedStrategy<ToLimbs> {
    prop::sample::select(fields)
        .prop_flat_map(|field| {
            let cap = capacity(field);
            let sp: Vec<usize> = [3, 4, 7, 8, 16, 32, 51, 52, 64, 85, 127, 128, cap - 4, cap - 3].iter().cloned().filter(|w| *w >= 2 && w + 3 <= cap).collect();
            (Just(field), prop_oneof![2 => prop::sample::select(sp), 1 => 2..=cap - 3])
        })
        .prop_flat_map(|(field, w)| {
            let full = (capacity(field) + w) / w;
            (Just(field), Just(w), prop_oneof![2 => Just(full), 1 => Just(full + 1), 2 => 1..=full], below(&field_modulus(field)), 0u8..4, any::<u64>())
        })
        .prop_map(|(field, w, n, v, mode, seed)| {
            let p = field_modulus(field);
            let v = match mode {
                0 => v.0,
                1 => v.0 % p2(w * n),
                // small enough for value + modulus to fit the layout
                _ => {
                    let room = if p2(w * n) > p { (p2(w * n) - &p).min(p.clone()) } else { p2(w * n) };
                    v.0 % room
                }
            };
            ToLimbs { field, w, n, v: Z(v % p), seed }
        })
        .boxed()
}
fn from_num<F: PrimeField>(c: &ToLimbs) -> R {
    let p = modulus::<F>();
    let mut cs = RecCS::<F>::new();
    let x = number(&mut cs, &c.v.0, c.seed);
    let lc = cs.lc(&x.num);
    let n_in = cs.n_vars();
    let r = quiet(|| BigNat::from_num(cs.namespace(|| "n"), x, c.w, c.n));
    let t = c.v.0.bits() as usize <= c.w * c.n;
    if accepted(&cs, &r) != t {
        return Err(format!("{} into {} limbs of {} bits: accepted = {} {:?}", c.v.0, c.n, c.w, !t, r.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))));
    }
    if t {
        let Ok(Ok(b)) = &r else { unreachable!() };
        denotes(&cs, b, &c.v.0)?;
        consistent(&cs, b)?;
        if b.params.limb_width != c.w || b.params.n_limbs != c.n {
            return Err("wrong layout".into());
        }
        let out = lcs(&cs, b);
        let fixed: Vec<(u32, F)> = (1..n_in).map(|i| (i as u32, cs.asg[i].unwrap())).collect();
        let l = limbs_of(&c.v.0, c.w, c.n);
        let mut cands = vec![limbs_of(&(&c.v.0 + &p), c.w, c.n), limbs_of(&(&c.v.0 + &p * 2u8), c.w, c.n), skew(&l, c.w, c.seed), skew(&l, c.w, c.seed ^ 64)];
        let mut f = vec![BigInt::zero(); c.n];
        f[0] = c.v.0.clone();
        cands.push(f);
        cands.retain(|x| *x != l);
        let v = c.v.0.clone();
        let w = c.w;
        return attack(&Target { cs, fixed, out, cands }, c.seed, 100, &|l| l.iter().all(|x| x.bits() as usize <= w) && join(l, w) == v);
    }
    // too large: no assignment at all (recorded with zero)
    let mut cs = RecCS::<F>::new();
    let x = Num::alloc(cs.namespace(|| "a"), || Ok(F::ZERO)).unwrap();
    let _ = lc;
    BigNat::from_num(cs.namespace(|| "n"), x, c.w, c.n).map_err(|e| format!("zero refused: {}", e))?;
    let out = forge_fixed(&cs, &[(1, from_int::<F>(&c.v.0))], &[], c.seed, 150, &|_| true);
    if let Res::Found(a) = out {
        return Err(format!("{} forged into {} limbs of {} bits: {:?}", c.v.0, c.n, c.w, a[2..2 + c.n].iter().map(|x| to_int(x).to_string()).collect::<Vec<_>>()));
    }
    okl(!matches!(out, Res::Budget), &[label(&out), "too-large"])
}

fn run(ctx: &Ctx) {
    const A: &[u8] = &[0, 1, 2, 3, 4, 5];
    ctx.check("fits_in_bits", ctx.n(2 * 4000), || range(A), |c| with_field!(c.field, F => fits::<F>(c)));
    ctx.check("decompose", ctx.n(2 * 4000), || range(A), |c| with_field!(c.field, F => decompose::<F>(c)));
    ctx.check("well_formed", ctx.n(2 * 3000), || raw(A, 4), |c| with_field!(c.field, F => well_formed::<F>(c)));
    ctx.check("bignat_decompose", ctx.n(2 * 2000), || raw(A, 4), |c| with_field!(c.field, F => big_decompose::<F>(c)));
    ctx.check("full_bits", ctx.n(2 * 3000), || raw(A, 3), |c| with_field!(c.field, F => enforce::<F>(c, true)));
    ctx.check("min_bits", ctx.n(2 * 3000), || raw(A, 3), |c| with_field!(c.field, F => enforce::<F>(c, false)));
    ctx.check("number_to_limbs", ctx.n(2 * 900), || to_limbs(A), |c| with_field!(c.field, F => from_num::<F>(c)));
    let _ = BigInt::one();
}
