//! Bits and bit-vectors against a plain list of Booleans.
use super::Prop;
use crate::cs::RecCS;
use crate::fields::from_int;
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::with_field;
use bellpepper_core::boolean::{AllocatedBit, Boolean};
use bellpepper_core::{ConstraintSystem, LinearCombination};
use ff::{Field, PrimeField};
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "Random initial bit lists (allocated, constant, negated and converted bits; or obtained by decomposing a number) and random sequences of up to 12 bit-vector operations, mirrored on a Vec<bool>; after each operation values, linear combinations and the denoted number are compared, and the number equality is checked for the right number, neighbours and the initial number. Bits whose value is not known take part in further sequences: what is said about values must be right, and may only be missing if such a bit has been in the vector. Bits: every construction, every value, every constraint. Non-trivial: at least 3 operations changed the vector.",
    assumptions: &["shift and insert positions are within the vector; at most capacity bits when compared with a number"],
    run,
};
type R = Result<Info, String>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    field: u8,
    init: Vec<(bool, u8)>,
    decomposed: bool,
    ops: Vec<(u8, u16, Vec<(bool, u8)>)>,
}
fn seqs() -> BoxedStrategy<Seq> {
    let bits = |n: usize| prop::collection::vec((any::<bool>(), 0u8..5), 0..n);
    (0u8..6, bits(14), any::<bool>(), prop::collection::vec((0u8..10, any::<u16>(), bits(5)), 1..13)).prop_map(|(field, init, decomposed, ops)| Seq { field, init, decomposed, ops }).boxed()
}
fn mk<F: PrimeField>(cs: &mut RecCS<F>, v: bool, kind: u8) -> Bit<F> {
    match kind {
        0 => Bit::alloc(cs.namespace(|| "b"), Some(v)).unwrap(),
        1 => Bit::alloc(cs.namespace(|| "b"), Some(!v)).unwrap().not::<RecCS<F>>(),
        2 => Bit::new_value::<RecCS<F>>(v),
        3 => Bit::from_sapling::<RecCS<F>>(Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(v)).unwrap())),
        _ => Bit::from_sapling::<RecCS<F>>(Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(!v)).unwrap()).not()),
    }
}
fn fb<F: Field>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
fn same<F: PrimeField>(cs: &RecCS<F>, bv: &Bitvector<F>, m: &[bool]) -> Result<(), String> {
    if bv.values.as_deref() != Some(m) {
        return Err(format!("values {:?}, expected {:?}", bv.values, m));
    }
    let l: Vec<Option<F>> = bv.bits.iter().map(|l| cs.val(l)).collect();
    let w: Vec<Option<F>> = m.iter().map(|b| Some(fb(*b))).collect();
    if l != w {
        return Err(format!("linear combinations {:?}, expected {:?}", l, m));
    }
    Ok(())
}
fn bit_is<F: PrimeField>(cs: &RecCS<F>, b: &Bit<F>, v: bool) -> Result<(), String> {
    if b.value != Some(v) || cs.val(&b.bit) != Some(fb(v)) {
        return Err(format!("bit {:?} / {:?}, expected {}", b.value, cs.val(&b.bit), v));
    }
    Ok(())
}
fn number(m: &[bool]) -> BigInt {
    m.iter().enumerate().fold(BigInt::from(0), |a, (i, b)| if *b { a + p2(i) } else { a })
}
fn vector<F: PrimeField>(c: &Seq) -> R {
    let mut cs = RecCS::<F>::new();
    let cap = (F::CAPACITY as usize).min(40);
    let mut model: Vec<bool> = c.init.iter().map(|x| x.0).take(cap.min(11)).collect();
    let mut bv = if c.decomposed && !model.is_empty() {
        let v = from_int::<F>(&number(&model));
        let n = Num::alloc(cs.namespace(|| "n"), || Ok(v)).unwrap();
        n.decompose(cs.namespace(|| "d"), model.len()).map_err(|e| e.to_string())?
    } else {
        let b: Vec<Bit<F>> = c.init.iter().take(cap.min(11)).map(|(v, k)| mk(&mut cs, *v, *k)).collect();
        Bitvector::from_bits(b)
    };
    same(&cs, &bv, &model)?;
    let first = number(&model);
    let mut changed = 0;
    for (i, (op, k, bits)) in c.ops.iter().enumerate() {
        let k = *k as usize;
        let before = model.clone();
        match op {
            0 => {
                bv = bv.reversed();
                model.reverse();
            }
            1 => {
                let n = k % (model.len() + 3);
                bv = bv.truncate(n);
                model.truncate(n);
            }
            2 => {
                let n = k % (model.len() + 1);
                bv = bv.shr(n);
                model.drain(0..n);
            }
            3 => {
                let n = k % 4;
                bv = bv.shl(n);
                for _ in 0..n {
                    model.insert(0, false);
                }
            }
            4 => {
                let b = bv.pop();
                match (b, model.pop()) {
                    (None, None) => {}
                    (Some(b), Some(v)) => bit_is(&cs, &b, v)?,
                    _ => return Err("pop disagrees about emptiness".into()),
                }
            }
            5 => {
                for (v, kd) in bits {
                    let b = mk(&mut cs, *v, *kd);
                    bv.push(b);
                    model.push(*v);
                }
            }
            6 => {
                for (v, kd) in bits.iter().take(2) {
                    let at = k % (model.len() + 1);
                    let b = mk(&mut cs, *v, *kd);
                    bv.insert(at, b);
                    model.insert(at, *v);
                }
            }
            7 => {
                let b: Vec<Bit<F>> = bits.iter().map(|(v, k)| mk(&mut cs, *v, *k)).collect();
                bv.append(Bitvector::from_bits(b));
                model.extend(bits.iter().map(|x| x.0));
            }
            8 => {
                let at = k % (model.len() + 2);
                match (bv.get(at), model.get(at)) {
                    (None, None) => {}
                    (Some(b), Some(v)) => bit_is(&cs, &b, *v)?,
                    _ => return Err(format!("get({}) of {} bits", at, model.len())),
                }
            }
            _ => {
                let b = bv.into_bits();
                if b.len() != model.len() {
                    return Err("into_bits has another length".into());
                }
                for (x, v) in b.iter().zip(&model) {
                    bit_is(&cs, x, *v)?;
                }
                bv = Bitvector::from_bits(b);
            }
        }
        same(&cs, &bv, &model).map_err(|e| format!("operation {} (kind {}): {}", i, op, e))?;
        if before != model {
            changed += 1;
        }
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied".into());
    }
    if model.len() <= F::CAPACITY as usize {
        let v = number(&model);
        let p = field_modulus(c.field);
        for cand in [v.clone(), &v + 1u8, first, number(&model.iter().rev().cloned().collect::<Vec<_>>()), &v + p2(model.len())] {
            let cand = cand % &p;
            let mut t = RecCS { witness: true, asg: cs.asg.clone(), is_input: cs.is_input.clone(), inputs: cs.inputs.clone(), aux: cs.aux.clone(), cons: cs.cons.clone() };
            let f = from_int::<F>(&cand);
            let n = Num::alloc(t.namespace(|| "cand"), || Ok(f)).unwrap();
            let r = n.is_equal(t.namespace(|| "eq"), &bv);
            let acc = r.is_ok() && t.satisfied();
            if acc != (cand == v) {
                return Err(format!("bits denote {}, comparison with {} accepted = {}", v, cand, acc));
            }
        }
    }
    okl(changed >= 3, &[if changed >= 6 { "6+" } else { "short" }])
}

/// Bits whose value is not known, as without a witness, together with others: what is said about
/// a value is right, and it is only not known if such a bit has been in the vector.
fn unknown<F: PrimeField>(c: &Seq) -> R {
    // every seventh bit or so has no value
    let mut cs = RecCS::<F>::new();
    let mut nth = c.init.len() as u64 + c.ops.iter().map(|o| o.1 as u64).sum::<u64>();
    let mut make = |cs: &mut RecCS<F>, v: bool, kind: u8| -> (Bit<F>, Option<bool>) {
        nth = nth.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let b = mk(cs, v, kind);
        if (nth >> 33) % 5 < 2 {
            (Bit::new(b.bit, None), None)
        } else {
            (b, Some(v))
        }
    };
    let many = |cs: &mut RecCS<F>, l: &[(bool, u8)], make: &mut dyn FnMut(&mut RecCS<F>, bool, u8) -> (Bit<F>, Option<bool>)| -> (Vec<Bit<F>>, Vec<(bool, Option<bool>)>) {
        l.iter()
            .map(|(v, k)| {
                let (b, known) = make(cs, *v, *k);
                (b, (*v, known))
            })
            .unzip()
    };
    let (b, mut model) = many(&mut cs, &c.init[..c.init.len().min(4)], &mut make);
    let mut bv = Bitvector::from_bits(b);
    let mut lost = model.iter().any(|m| m.1.is_none());
    let mut mixed = false;
    for (i, (op, k, bits)) in c.ops.iter().enumerate() {
        let k = *k as usize;
        let here = |e: String| format!("operation {} (kind {}): {}", i, op, e);
        let (before, had) = (model.clone(), lost);
        match op {
            0 => {
                bv = bv.reversed();
                model.reverse();
            }
            1 => {
                let n = k % (model.len() + 3);
                bv = bv.truncate(n);
                model.truncate(n);
            }
            2 => {
                let n = k % (model.len() + 1);
                bv = bv.shr(n);
                model.drain(0..n);
            }
            3 => {
                bv = bv.shl(k % 4);
                for _ in 0..k % 4 {
                    model.insert(0, (false, Some(false)));
                }
            }
            4 => {
                let (b, m) = (bv.pop(), model.pop());
                one(&cs, b, m, lost).map_err(here)?;
            }
            5 | 6 => {
                let (b, m) = many(&mut cs, bits, &mut make);
                for (b, m) in b.into_iter().zip(m) {
                    lost |= m.1.is_none();
                    if *op == 5 {
                        bv.push(b);
                        model.push(m);
                    } else {
                        let at = k % (model.len() + 1);
                        bv.insert(at, b);
                        model.insert(at, m);
                    }
                }
            }
            7 => {
                let (b, m) = many(&mut cs, bits, &mut make);
                lost |= m.iter().any(|m| m.1.is_none());
                bv.append(Bitvector::from_bits(b));
                model.extend(m);
            }
            8 => one(&cs, bv.get(k % (model.len() + 2)), model.get(k % (model.len() + 2)).cloned(), lost).map_err(here)?,
            _ => {
                let b = bv.into_bits();
                if b.len() != model.len() {
                    return Err(here("into_bits has another length".into()));
                }
                for (x, v) in b.iter().zip(&model) {
                    one(&cs, Some(x.clone()), Some(*v), lost).map_err(here)?;
                }
                bv = Bitvector::from_bits(b);
            }
        }
        mixed |= lost && !had && !before.is_empty();
        let l: Vec<Option<F>> = bv.bits.iter().map(|l| cs.val(l)).collect();
        let w: Vec<Option<F>> = model.iter().map(|b| Some(fb(b.0))).collect();
        if l != w {
            return Err(here(format!("linear combinations {:?}, expected {:?}", l, model)));
        }
        match &bv.values {
            None if lost => {}
            Some(v) if v.len() == model.len() && v.iter().zip(&model).all(|(v, m)| *v == m.0 && m.1.is_some()) => {}
            v => return Err(here(format!("values {:?} of the bits {:?}", v, model))),
        }
    }
    okl(mixed, &[if lost { "unknown" } else { "known" }])
}
fn one<F: PrimeField>(cs: &RecCS<F>, b: Option<Bit<F>>, m: Option<(bool, Option<bool>)>, lost: bool) -> Result<(), String> {
    match (b, m) {
        (None, None) => Ok(()),
        (Some(b), Some((v, known))) if cs.val(&b.bit) == Some(fb(v)) && (b.value == known || b.value.is_none() && lost) => Ok(()),
        (b, m) => Err(format!("bit {:?}, expected {:?}", b.map(|b| b.value), m)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B {
    field: u8,
    v: bool,
    kind: u8,
    cand: Z,
    seed: u64,
}
fn bit<F: PrimeField>(c: &B) -> R {
    let mut cs = RecCS::<F>::new();
    let b = mk(&mut cs, c.v, c.kind);
    bit_is(&cs, &b, c.v)?;
    bit_is(&cs, &b.not::<RecCS<F>>(), !c.v).map_err(|e| format!("negation: {}", e))?;
    bit_is(&cs, &b.not::<RecCS<F>>().not::<RecCS<F>>(), c.v)?;
    bit_is(&cs, &Bit::<F>::new_true::<RecCS<F>>(), true)?;
    bit_is(&cs, &Bit::<F>::new_false::<RecCS<F>>(), false)?;
    bit_is(&cs, &Bit::<F>::new_value::<RecCS<F>>(c.v), c.v)?;
    if !cs.satisfied() {
        return Err("constraints not satisfied".into());
    }
    // an allocated bit is 0 or 1 and nothing else
    if c.kind < 2 {
        let x = from_int::<F>(&c.cand.0);
        let mut asg = cs.full().unwrap();
        asg[1] = x;
        let good = crate::cs::first_unsat(&cs.cons, &asg).is_none();
        if good != (x == F::ONE || x == F::ZERO) {
            return Err(format!("bit value {:?}: accepted = {}", x, good));
        }
    }
    for want in [false, true] {
        let mut t = RecCS { witness: true, asg: cs.asg.clone(), is_input: cs.is_input.clone(), inputs: cs.inputs.clone(), aux: cs.aux.clone(), cons: cs.cons.clone() };
        b.constrain_value(t.namespace(|| "c"), want);
        if t.satisfied() != (want == c.v) {
            return Err(format!("bit {} constrained to {}: accepted = {}", c.v, want, t.satisfied()));
        }
        // a linear combination that is neither 0 nor 1 is refused as well
        let three = Bit::new(LinearCombination::zero() + (F::from(3), RecCS::<F>::one()), None);
        three.constrain_value(t.namespace(|| "c3"), want);
        if t.satisfied() {
            return Err("3 accepted as a constrained bit".into());
        }
    }
    okl(true, &[["allocated", "negated", "constant", "converted", "converted-not"][c.kind as usize]])
}

fn run(ctx: &Ctx) {
    ctx.check("bitvector_histories", ctx.n(5 * 60000), seqs, |c| with_field!(c.field, F => vector::<F>(c)));
    ctx.check("unknown_bits", ctx.n(5 * 20000), seqs, |c| with_field!(c.field, F => unknown::<F>(c)));
    ctx.check(
        "bits",
        ctx.n(5 * 4000),
        || (0u8..6, any::<bool>(), 0u8..5, any::<u64>()).prop_flat_map(|(f, v, k, s)| (Just(f), Just(v), Just(k), prop_oneof![1 => below(&field_modulus(f)), 1 => (0u64..4).prop_map(|x| Z(z(x))), 1 => Just(Z(field_modulus(f) - 1u8))], Just(s))).prop_map(|(field, v, kind, cand, seed)| B { field, v, kind, cand, seed }),
        |c| with_field!(c.field, F => bit::<F>(c)),
    );
}
