//! Selection and wiring gadgets, on big numbers and on a gadget type of our own (default methods).
use super::Prop;
use crate::bn::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::Bit;
use validate_btc_header::util::gadget::Gadget;

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "Random fields, inputs and select bits; inputs are big numbers (canonical or with limbs above the width, equal or different limb counts) or instances of a plain k-wire gadget defined here, which exercises the trait's default methods. Results are compared with the selected input wire by wire; then inputs and bits are fixed and every wire of the result is searched for another value. Non-trivial: the two possible results differ.",
    assumptions: &["select bits are Boolean", "wires of exported and selected numbers are field elements"],
    run,
};
type R = Result<Info, String>;

/// A gadget with no methods of its own: k wires.
#[derive(Clone)]
pub struct Wires<F: PrimeField> {
    lcs: Vec<LinearCombination<F>>,
    vals: Option<Vec<F>>,
}
impl<F: PrimeField> Gadget for Wires<F> {
    type Scalar = F;
    type Value = Vec<F>;
    type Access = ();
    type Params = usize;
    fn alloc<CS: ConstraintSystem<F>>(mut cs: CS, value: Option<&Vec<F>>, _: (), params: &usize) -> Result<Self, SynthesisError> {
        let mut lcs = vec![];
        for i in 0..*params {
            let v = cs.alloc(|| format!("w{}", i), || value.map(|v| v[i]).ok_or(SynthesisError::AssignmentMissing))?;
            lcs.push(LinearCombination::zero() + v);
        }
        Ok(Wires { lcs, vals: value.cloned() })
    }
    fn wires(&self) -> Vec<LinearCombination<F>> {
        self.lcs.clone()
    }
    fn wire_values(&self) -> Option<Vec<F>> {
        self.vals.clone()
    }
    fn value(&self) -> Option<&Vec<F>> {
        self.vals.as_ref()
    }
    fn access(&self) -> &() {
        &()
    }
    fn params(&self) -> &usize {
        PARAMS.get(self.lcs.len()).unwrap()
    }
}
static PARAMS: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    field: u8,
    /// plain gadgets or big numbers
    plain: bool,
    w: usize,
    ins: Vec<Vec<Z>>,
    bits: Vec<(bool, u8)>,
    extra: usize,
    seed: u64,
}
fn case(k: usize) -> BoxedStrategy<Case> {
    (0u8..6, any::<bool>(), 0..=k, prop_oneof![3 => 1usize..5, 1 => 5usize..12], any::<bool>())
        .prop_flat_map(move |(field, plain, depth, n, same)| {
            let cap = capacity(field);
            let depth = if k == 1 { 1 } else if n > 4 { depth.min(2) } else { depth };
            let wide = if field > 3 { 64 } else { (cap - 4).min(20) };
            let (field2, n2) = (field, n);
            (Just((field, plain, depth, n)), 1..=wide, any::<bool>()).prop_flat_map(move |((field, plain, depth, n), w, skewed)| {
                let width = if plain { capacity(field2) } else if skewed { w + 2 } else { w };
                let lens = if same || plain { n2..=n2 } else { 1..=n2 };
                (
                    Just((field, plain, w, n)),
                    prop::collection::vec(prop::collection::vec(nat(width), lens), 1 << depth),
                    prop::collection::vec((any::<bool>(), 0u8..5), depth),
                    any::<u64>(),
                    0usize..6,
                )
            })
        })
        .prop_map(|((field, plain, w, _), ins, bits, seed, extra)| Case { field, plain, w, ins, bits, extra, seed })
        .boxed()
}
fn bit<F: PrimeField>(cs: &mut RecCS<F>, fixed: &mut Vec<(u32, F)>, b: (bool, u8)) -> Bit<F> {
    let id = cs.n_vars() as u32;
    let f = |x: bool| if x { F::ONE } else { F::ZERO };
    match b.1 {
        0 => Bit::new_value::<RecCS<F>>(b.0),
        1 => {
            fixed.push((id, f(!b.0)));
            Bit::alloc(cs.namespace(|| "b"), Some(!b.0)).unwrap().not::<RecCS<F>>()
        }
        _ => {
            fixed.push((id, f(b.0)));
            Bit::alloc(cs.namespace(|| "b"), Some(b.0)).unwrap()
        }
    }
}
fn big<F: PrimeField>(cs: &mut RecCS<F>, fixed: &mut Vec<(u32, F)>, v: &[Z], w: usize) -> BigNat<F> {
    let vals: Vec<F> = v.iter().map(|x| from_int(&x.0)).collect();
    let max = v.iter().map(|x| x.0.clone()).max().unwrap().max(p2(w) - 1u8);
    let from = cs.n_vars();
    for (i, x) in vals.iter().enumerate() {
        fixed.push(((from + i) as u32, *x));
    }
    BigNat::alloc_from_limbs(cs.namespace(|| "in"), || Ok(vals.clone()), Some(max), w, v.len()).unwrap()
}
fn plain<F: PrimeField>(cs: &mut RecCS<F>, fixed: &mut Vec<(u32, F)>, v: &[Z]) -> Wires<F> {
    let vals: Vec<F> = v.iter().map(|x| from_int(&x.0)).collect();
    let from = cs.n_vars();
    for (i, x) in vals.iter().enumerate() {
        fixed.push(((from + i) as u32, *x));
    }
    Wires::alloc(cs.namespace(|| "in"), Some(&vals), (), &v.len()).unwrap()
}
fn pad<F: PrimeField>(v: &[Z], n: usize) -> Vec<F> {
    (0..n).map(|i| v.get(i).map_or(F::ZERO, |x| from_int(&x.0))).collect()
}

/// The wires carry `want`, all constraints hold, and no wire can carry anything else.
fn bound<F: PrimeField, G: Gadget<Scalar = F>>(cs: &RecCS<F>, fixed: &[(u32, F)], g: &G, want: &[F], others: &[Vec<F>], seed: u64, what: &str) -> Result<(), String> {
    if !cs.satisfied() {
        return Err(format!("{}: a constraint is not satisfied", what));
    }
    let l: Vec<Lc<F>> = g.wires().iter().map(|l| cs.lc(l)).collect();
    if l.len() != want.len() {
        return Err(format!("{}: {} wires, expected {}", what, l.len(), want.len()));
    }
    let got: Vec<F> = l.iter().map(|x| x.eval(&cs.full().unwrap())).collect();
    if got != want || g.wire_values().as_deref() != Some(want) {
        return Err(format!("{}: wires carry {:?}, recorded {:?}, expected {:?}", what, got.iter().map(to_int).collect::<Vec<_>>(), g.wire_values().map(|v| v.iter().map(to_int).collect::<Vec<_>>()), want.iter().map(to_int).collect::<Vec<_>>()));
    }
    only(cs, fixed, &l, want, others, seed, what)
}
fn only<F: PrimeField>(cs: &RecCS<F>, fixed: &[(u32, F)], l: &[Lc<F>], want: &[F], others: &[Vec<F>], seed: u64, what: &str) -> Result<(), String> {
    for (i, x) in l.iter().enumerate() {
        let mut alts: Vec<F> = others.iter().filter_map(|o| o.get(i).cloned()).collect();
        alts.extend([want[i] + F::ONE, F::ZERO, F::from(seed)]);
        for a in alts {
            if a != want[i] {
                if let Res::Found(_) = forge_fixed(cs, fixed, &[(x.clone(), a)], seed, 30, &|_| true) {
                    return Err(format!("{}: wire {} can be forged to {} instead of {}", what, i, to_int(&a), to_int(&want[i])));
                }
            }
        }
    }
    if let Res::Found(_) = forge_fixed(cs, fixed, &[], seed, 10, &|asg| l.iter().zip(want).any(|(x, w)| x.eval(asg) != *w)) {
        return Err(format!("{}: a wire can be forged", what));
    }
    Ok(())
}

fn mux_case<F: PrimeField>(c: &Case) -> R {
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let n = c.ins[0].len().max(c.ins[1].len());
    let s = bit(&mut cs, &mut fixed, c.bits[0]);
    let sel = c.bits[0].0 as usize;
    let (w0, w1) = (pad::<F>(&c.ins[sel], n), pad::<F>(&c.ins[1 - sel], n));
    let nontrivial = w0 != w1;
    if c.plain {
        let a = plain(&mut cs, &mut fixed, &c.ins[0]);
        let b = plain(&mut cs, &mut fixed, &c.ins[1]);
        let o = Gadget::mux(cs.namespace(|| "m"), &s, &a, &b).map_err(|e| format!("selection refused: {}", e))?;
        bound(&cs, &fixed, &o, &w0, &[w1.clone()], c.seed, "selection")?;
        if o.vals.as_deref() != Some(&w0[..]) {
            return Err("selection: recorded value differs".into());
        }
        let (x, y) = Gadget::switch(cs.namespace(|| "s"), &s, &a, &b).map_err(|e| format!("switch refused: {}", e))?;
        bound(&cs, &fixed, &x, &w0, &[w1.clone()], c.seed, "switch, first")?;
        bound(&cs, &fixed, &y, &w1, &[w0.clone()], c.seed, "switch, second")?;
    } else {
        let a = big(&mut cs, &mut fixed, &c.ins[0], c.w);
        let b = big(&mut cs, &mut fixed, &c.ins[1], c.w);
        let o = Gadget::mux(cs.namespace(|| "m"), &s, &a, &b).map_err(|e| format!("selection refused: {}", e))?;
        bound(&cs, &fixed, &o, &w0, &[w1.clone()], c.seed, "selection")?;
        consistent(&cs, &o).map_err(|e| format!("selected number: {}", e))?;
        let (x, y) = Gadget::switch(cs.namespace(|| "s"), &s, &a, &b).map_err(|e| format!("switch refused: {}", e))?;
        bound(&cs, &fixed, &x, &w0, &[w1.clone()], c.seed, "switch, first")?;
        bound(&cs, &fixed, &y, &w1, &[w0.clone()], c.seed, "switch, second")?;
        consistent(&cs, &x).and_then(|_| consistent(&cs, &y)).map_err(|e| format!("switched number: {}", e))?;
    }
    okl(nontrivial, &[if c.plain { "plain" } else { "bignat" }, if c.bits[0].0 { "second" } else { "first" }])
}

fn tree<F: PrimeField>(c: &Case) -> R {
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let n = c.ins.iter().map(|v| v.len()).max().unwrap();
    let bits: Vec<Bit<F>> = c.bits.iter().map(|b| bit(&mut cs, &mut fixed, *b)).collect();
    let idx = c.bits.iter().fold(0usize, |a, b| 2 * a + b.0 as usize);
    let want = pad::<F>(&c.ins[idx], n);
    let others: Vec<Vec<F>> = c.ins.iter().map(|v| pad::<F>(v, n)).take(8).collect();
    let nontrivial = c.bits.len() >= 2 && others.iter().any(|o| *o != want);
    if c.plain {
        let mut ins: Vec<Wires<F>> = c.ins.iter().map(|v| plain(&mut cs, &mut fixed, v)).collect();
        let o = Gadget::mux_tree(cs.namespace(|| "t"), bits.iter(), &ins).map_err(|e| format!("tree refused: {}", e))?;
        bound(&cs, &fixed, &o, &want, &others, c.seed, "tree")?;
        // any other number of inputs is refused
        match c.extra {
            0 => { ins.pop(); }
            1 => ins.push(ins[0].clone()),
            2 => ins = ins.iter().chain(ins.iter()).cloned().collect(),
            3 => ins.truncate(ins.len() / 2),
            4 => ins = ins.iter().chain(ins.iter()).chain(ins.iter()).cloned().collect(),
            _ => ins.clear(),
        }
        if let Ok(Ok(_)) = quiet(|| Gadget::mux_tree(cs.namespace(|| "t2"), bits.iter(), &ins)) {
            return Err(format!("tree of {} bits accepts {} inputs", bits.len(), ins.len()));
        }
    } else {
        let ins: Vec<BigNat<F>> = c.ins.iter().map(|v| big(&mut cs, &mut fixed, v, c.w)).collect();
        let o = Gadget::mux_tree(cs.namespace(|| "t"), bits.iter(), &ins).map_err(|e| format!("tree refused: {}", e))?;
        let m = o.limbs.len();
        if m < c.ins[idx].len() {
            return Err(format!("tree gives {} limbs for an input of {}", m, c.ins[idx].len()));
        }
        let o = if m < n { o.with_n_limbs::<RecCS<F>>(n) } else { o };
        bound(&cs, &fixed, &o, &want, &others, c.seed, "tree")?;
        consistent(&cs, &o).map_err(|e| format!("selected number: {}", e))?;
    }
    okl(nontrivial, &[&format!("depth={}", c.bits.len()), if c.plain { "plain" } else { "bignat" }])
}

fn equal<F: PrimeField>(c: &Case) -> R {
    // second operand: equal to the first in all wires, or differing in one
    let mut b = c.ins[0].clone();
    let k = c.seed as usize % (2 * b.len());
    let p = crate::fields::modulus::<F>();
    let differ = k < b.len();
    if differ {
        b[k] = Z((&b[k].0 + 1u8 + (c.seed >> 8) % 3) % &p);
    }
    let differ = differ && from_int::<F>(&b[k].0) != from_int::<F>(&c.ins[0][k].0);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let (r, short) = if c.plain {
        let x = plain(&mut cs, &mut fixed, &c.ins[0]);
        let y = plain(&mut cs, &mut fixed, &b);
        let z = plain(&mut cs, &mut fixed, &b[1..]);
        let r = Gadget::assert_equal(cs.namespace(|| "e"), &x, &y);
        let mut cs2 = RecCS::<F>::new();
        (r, quiet(|| Gadget::assert_equal(&mut cs2, &x, &z).is_ok()))
    } else {
        let x = big(&mut cs, &mut fixed, &c.ins[0], c.w);
        let y = big(&mut cs, &mut fixed, &b, c.w);
        (Gadget::assert_equal(cs.namespace(|| "e"), &x, &y), Ok(false))
    };
    if short == Ok(true) {
        return Err("wire equality accepts different wire counts".into());
    }
    let ok = r.is_ok() && cs.satisfied();
    if ok == differ {
        return Err(format!("wire equality of {:?} and {:?}: {}", c.ins[0], b, if ok { "accepted" } else { "refused" }));
    }
    if differ && r.is_ok() {
        if let Res::Found(_) = forge_fixed(&cs, &fixed, &[], c.seed, 30, &|_| true) {
            return Err(format!("wire equality of {:?} and {:?} can be satisfied", c.ins[0], b));
        }
    }
    okl(true, &[if ok { "equal" } else { "different" }])
}

fn export<F: PrimeField>(c: &Case) -> R {
    let want: Vec<F> = c.ins[0].iter().map(|x| from_int(&x.0)).collect();
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let (a, b) = (plain(&mut cs, &mut fixed, &c.ins[0]), big(&mut cs, &mut fixed, &c.ins[0], c.w));
    let nums = if c.plain { a.as_nums(cs.namespace(|| "n")) } else { b.as_nums(cs.namespace(|| "n")) }.map_err(|e| format!("export refused: {}", e))?;
    let vals: Vec<Option<F>> = nums.iter().map(|n| n.get_value()).collect();
    if vals != want.iter().map(|x| Some(*x)).collect::<Vec<_>>() {
        return Err(format!("exported numbers {:?}, expected {:?}", vals, want));
    }
    let l: Vec<Lc<F>> = nums.iter().map(|n| Lc::var(cs.id(n.get_variable()))).collect();
    if !cs.satisfied() || l.iter().zip(&want).any(|(x, w)| x.eval(&cs.full().unwrap()) != *w) {
        return Err("exported numbers unsatisfied or different".into());
    }
    only(&cs, &fixed, &l, &want, &[], c.seed, "exported number")?;
    let before = cs.inputs.len();
    let r = if c.plain { a.inputize(cs.namespace(|| "i")) } else if c.seed & 1 == 0 { Gadget::inputize(&b, cs.namespace(|| "i")) } else { BigNat::inputize(&b, cs.namespace(|| "i")) };
    r.map_err(|e| format!("inputize refused: {}", e))?;
    let ins: Vec<u32> = cs.inputs[before..].to_vec();
    let got: Vec<Option<F>> = ins.iter().map(|i| cs.asg[*i as usize]).collect();
    if got != want.iter().map(|x| Some(*x)).collect::<Vec<_>>() || !cs.satisfied() {
        return Err(format!("public inputs {:?}, expected {:?}", got, want));
    }
    let l: Vec<Lc<F>> = ins.iter().map(|i| Lc::var(*i)).collect();
    only(&cs, &fixed, &l, &want, &[], c.seed, "public input")?;
    okl(want.len() > 1, &[if c.plain { "plain" } else { "bignat" }])
}

fn refused<F: PrimeField>(c: &Case) -> R {
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let s = bit(&mut cs, &mut fixed, c.bits[0]);
    if c.plain {
        let a = plain(&mut cs, &mut fixed, &c.ins[0]);
        let mut v = c.ins[1].clone();
        v.push(Z(BigInt::from(1)));
        let b = plain(&mut cs, &mut fixed, &v);
        if let Ok(Ok(_)) = quiet(|| Gadget::mux(cs.namespace(|| "m"), &s, &a, &b)) {
            return Err("selection accepts different wire counts".into());
        }
    } else {
        let a = big(&mut cs, &mut fixed, &c.ins[0], c.w);
        let b = big(&mut cs, &mut fixed, &c.ins[1], c.w + 1 + c.extra);
        if let Ok(Ok(_)) = quiet(|| Gadget::mux(cs.namespace(|| "m"), &s, &a, &b)) {
            return Err(format!("selection accepts limb widths {} and {}", c.w, c.w + 1 + c.extra));
        }
        if let Ok(Ok(_)) = quiet(|| Gadget::switch(cs.namespace(|| "m"), &s, &a, &b)) {
            return Err(format!("switch accepts limb widths {} and {}", c.w, c.w + 1 + c.extra));
        }
    }
    okl(true, &[])
}

fn run(ctx: &Ctx) {
    ctx.check("selection_and_switch", ctx.n(30000), || case(1), |c| with_field!(c.field, F => mux_case::<F>(c)));
    ctx.check("tree", ctx.n(12000), || case(4), |c| with_field!(c.field, F => tree::<F>(c)));
    ctx.check("wire_equality", ctx.n(30000), || case(1), |c| with_field!(c.field, F => equal::<F>(c)));
    ctx.check("export", ctx.n(20000), || case(1), |c| with_field!(c.field, F => export::<F>(c)));
    ctx.check("mismatch_refused", ctx.n(10000), || case(1), |c| with_field!(c.field, F => refused::<F>(c)));
}
