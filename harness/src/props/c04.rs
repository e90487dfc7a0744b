//! Shape: the constraint system with a witness, with another witness and with none.
use super::c01;
use super::Prop;
use crate::bn::*;
use crate::btc::*;
use crate::cs::RecCS;
use crate::fields::from_int;
use crate::gen::*;
use crate::run::{quiet, Ctx, Info};
use crate::{with_field, with_step_field};
use bellpepper_core::boolean::Boolean;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::{PrimeField, PrimeFieldBits};
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use validate_btc_header::btc_validation::{difficulty_update, median as med};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "Random programs over all gadgets (big numbers, single numbers, bits and bit vectors, polynomials, selection, comparisons, median, retarget) whose decisions depend on public parameters only are synthesized three times: with a random witness, with another one and without any; operations a witness does not allow are taken out of the program and all three are repeated. Variables (with their order and kind) and constraints must be identical and synthesis without witness must neither panic nor fail. The header step likewise, with random valid states and headers, with the stand-in hash and the real one. Non-trivial: at least three operations (one for the single-gadget programs) were synthesized in all three ways.",
    assumptions: &["constants, bit widths, limb counts and widths, maximum words and list lengths are public parameters"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    field: u8,
    w: usize,
    /// limb counts of the leaves and their two values
    leaves: Vec<(usize, Z, Z)>,
    /// numbers, both values
    nums: Vec<(Z, Z)>,
    bits: Vec<(bool, bool)>,
    times: Vec<(u32, u32)>,
    ops: Vec<(u8, u8, u8, u64)>,
}
const OPS: u8 = 58;

fn prog(ops: std::ops::Range<usize>) -> BoxedStrategy<Prog> {
    layout(&[2, 3, 4, 5, 5], 4)
        .prop_flat_map(move |l| {
            let w = l.w;
            let cap = capacity(l.field);
            let leaf = (1usize..=4).prop_flat_map(move |n| (Just(n), nat(n * w), nat(n * w)));
            (
                Just(l),
                prop::collection::vec(leaf, 2..5),
                prop::collection::vec((nat(cap), nat(cap)), 2..4),
                prop::collection::vec((any::<bool>(), any::<bool>()), 2..4),
                prop::collection::vec((0u32..5, any::<u32>()), 1..=11),
                prop::collection::vec((0..OPS, any::<u8>(), any::<u8>(), any::<u64>()), ops.clone()),
            )
        })
        .prop_map(|(l, leaves, nums, bits, times, ops)| Prog { field: l.field, w: l.w, leaves, nums, bits, times, ops })
        .boxed()
}

struct Pools<F: PrimeField> {
    big: Vec<BigNat<F>>,
    num: Vec<AllocatedNum<F>>,
    bit: Vec<Bit<F>>,
    bv: Vec<Bitvector<F>>,
    bool: Vec<Boolean>,
}
type Sy<T> = Result<T, SynthesisError>;
fn opt<T>(x: Option<T>) -> Sy<T> {
    x.ok_or(SynthesisError::AssignmentMissing)
}

/// One operation. None: not applicable, which depends on public parameters only.
fn op<F: PrimeField>(cs: &mut RecCS<F>, p: &Prog, who: Option<bool>, o: &(u8, u8, u8, u64), s: &mut Pools<F>) -> Option<Sy<()>> {
    let (kind, x, y, k) = o;
    let cap = F::CAPACITY as usize;
    let (x, y, k) = (*x as usize, *y as usize, *k);
    let recent = |n: usize, q: usize| if q & 1 == 0 { n - 1 - (q >> 1) % n } else { n - 1 - (q >> 1) % n.min(3) };
    let a = s.big[recent(s.big.len(), x)].clone();
    let mut b = s.big[recent(s.big.len(), y)].clone();
    if b.params.limb_width != a.params.limb_width {
        b = s.big.iter().rev().find(|q| q.params.limb_width == a.params.limb_width).cloned().unwrap_or(b);
    }
    let n = s.num[recent(s.num.len(), x)].clone();
    let m = s.num[recent(s.num.len(), y)].clone();
    let bit = s.bit[recent(s.bit.len(), x)].clone();
    let bits = |m: BigInt| m.bits() as usize;
    let (mwa, mwb) = (a.params.max_word.clone(), b.params.max_word.clone());
    let w = a.params.limb_width;
    let canon = p2(w);
    let small = mwa < canon && mwb < canon;
    let sum_ok = bits(&mwa + &mwb) < cap;
    let eq_ok = bits(&mwa + &mwb).max(w) + 3 <= cap;
    let nmin = z(a.params.n_limbs.min(b.params.n_limbs) as u64);
    let mul_ok = bits(&nmin * &mwa * &mwb).max(bits(z(16) * &canon * &mwb)) + 4 <= cap && a.params.n_limbs + b.params.n_limbs <= 9;
    let kk = z(k) % p2((w + 1).min(20));
    let width = 1 + k as usize % (cap - 2);
    macro_rules! big {
        ($e:expr) => {
            match $e {
                Ok(v) => {
                    s.big.push(v);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        };
    }
    Some(match kind {
        0 if sum_ok => big!(a.add::<RecCS<F>>(&b)),
        1 | 2 if mul_ok => big!(a.mult(cs, &b)),
        3 if eq_ok => big!(a.sub(cs, &b)),
        4 if bits(&mwa + &kk) < cap => big!(Ok(a.shift::<RecCS<F>>(from_int(&kk)))),
        5 if bits(&mwa * &kk) < cap => big!(Ok(a.scale::<RecCS<F>>(from_int(&kk)))),
        6 if a.params.n_limbs + b.params.n_limbs <= 9 => big!(a.concat(&b)),
        7 => big!(Ok(a.truncate_limbs(1 + k as usize % (a.params.n_limbs + 1)))),
        8 => {
            let g = 1 + k as usize % 3;
            if bits(&mwa * p2(w * (g - 1))) + 1 >= cap {
                return None;
            }
            big!(Ok(a.group_limbs(g)))
        }
        9 if small => a.decompose(cs).map(|bv| s.bv.push(bv)),
        10 if !s.bv.is_empty() => {
            let bv = &s.bv[x % s.bv.len()];
            if bv.bits.is_empty() {
                return None;
            }
            big!(Ok(BigNat::recompose(bv, 1 + k as usize % (cap / 2 - 2))))
        }
        11 => big!(Ok(a.with_n_limbs::<RecCS<F>>(a.params.n_limbs + k as usize % 3))),
        12 if eq_ok && small => big!(a.min(cs, &b)),
        13 => big!(BigNat::mux(cs, &bit, &a, &b)),
        14 if mul_ok => a.mult_mod(cs, &a, &b).map(|(q, r)| s.big.extend([q, r])),
        15 if mul_ok => big!(a.red_mod(cs, &b)),
        16 if small => {
            let mut c = a.clone();
            let r = c.enforce_full_bits(cs);
            s.big.push(c);
            r
        }
        17 if small => {
            let mut c = a.clone();
            let r = c.enforce_min_bits(cs, 1 + (k as usize >> 3) % (w * a.params.n_limbs));
            s.big.push(c);
            r
        }
        18 if small => big!(Ok(BigNat::from_limbs(a.as_limbs::<RecCS<F>>(), w))),
        19 => big!(BigNat::from_num(cs, Num::from(n), w, 1 + k as usize % 4)),
        20 if small => a.equal(cs, &b),
        21 if small => a.is_equal(cs, &b).map(|b| s.bool.push(b)),
        22 if eq_ok => a.equal_when_carried(cs, &b),
        23 if eq_ok => a.equal_when_carried_regroup(cs, &b),
        24 if mul_ok => a.divides(cs, &b),
        25 if mul_ok && s.big.len() > 1 => {
            let r = s.big.iter().rev().nth(1).unwrap().clone();
            if r.params.limb_width != w || r.params.max_word >= canon {
                return None;
            }
            big!(a.assert_product_mod(cs, &b, &b, &r))
        }
        26 => a.inputize(cs),
        27 => Gadget::inputize(&a, cs),
        28 => a.as_nums(cs).map(|v| s.num.extend(v)),
        29 => BigNat::assert_equal(cs, &a, &b),
        30 => BigNat::switch(cs, &bit, &a, &b).map(|(q, r)| s.big.extend([q, r])),
        31 => {
            let d = k as usize % 3;
            let ins: Vec<BigNat<F>> = (0..1 << d).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect();
            let sel: Vec<Bit<F>> = (0..d).map(|i| s.bit[(x + i) % s.bit.len()].clone()).collect();
            big!(BigNat::mux_tree(cs, sel.iter(), &ins))
        }
        32 if small => a.assert_well_formed(cs),
        33 => med::less_than(cs, &n, &m, width).map(|b| s.bool.push(b)),
        34 => med::leq(cs, &n, &m, width).map(|b| s.bool.push(b)),
        35 => BigNat::equals(cs, &n, &m).map(|b| s.bool.push(b)),
        36 => Num::from(n).fits_in_bits(cs, width),
        37 => Num::from(n).decompose(cs, width).map(|bv| s.bv.push(bv)),
        38 if !s.bv.is_empty() => Num::from(n).is_equal(cs, &s.bv[y % s.bv.len()]),
        39 => Num::from(n).as_sapling_allocated_num(cs).map(|n| s.num.push(n)),
        40 => {
            let (p, q) = (as_poly(BigNat::<F>::from_poly, a.clone().into()), as_poly(BigNat::<F>::from_poly, b.clone().into()));
            if !mul_ok {
                return None;
            }
            let t = p.sum(&q);
            match p.alloc_product(cs, &t) {
                Ok(r) => big!(Ok(BigNat::from_poly(r, w, &nmin * &mwa * (&mwa + &mwb)))),
                Err(e) => Err(e),
            }
        }
        41 => {
            // bit vector manipulations
            let mut bv = match s.bv.last() {
                Some(v) => v.clone(),
                None => Bitvector::from_bits(s.bit.clone()),
            };
            let j = k as usize % (bv.bits.len() + 2);
            match y % 8 {
                0 => bv = bv.reversed(),
                1 => bv = bv.truncate(j),
                2 => {
                    let j = j.min(bv.bits.len());
                    bv = bv.shr(j)
                }
                3 if bv.bits.len() < 300 => bv = bv.shl(j),
                4 => {
                    if let Some(b) = bv.pop() {
                        s.bit.push(b)
                    }
                }
                5 => bv.push(bit),
                6 => {
                    let j = j.min(bv.bits.len());
                    bv.insert(j, bit)
                }
                _ if bv.bits.len() < 300 => bv.append(bv.clone()),
                _ => {}
            }
            if let Some(b) = bv.get(j) {
                s.bit.push(b)
            }
            s.bv.push(bv);
            Ok(())
        }
        42 => {
            s.bit.push(bit.not::<RecCS<F>>());
            Ok(())
        }
        43 => {
            bit.constrain_value(cs, k & 1 == 1);
            Ok(())
        }
        44 if !s.bool.is_empty() => {
            s.bit.push(Bit::from_sapling::<RecCS<F>>(s.bool[x % s.bool.len()].clone()));
            Ok(())
        }
        45 => Bit::alloc(cs.namespace(|| "b"), who.map(|w| w ^ (k & 1 == 1))).map(|b| s.bit.push(b)),
        46 => {
            // the list length has to be odd
            let len = ((k as usize % p.times.len()) | 1).min(p.times.len() - 1 + p.times.len() % 2);
            let ts: Sy<Vec<AllocatedNum<F>>> = p.times[..len]
                .iter()
                .map(|t| {
                    let v = who.map(|w| F::from(if w { t.0 } else { t.1 } as u64));
                    AllocatedNum::alloc(cs.namespace(|| "t"), || opt(v))
                })
                .collect();
            let v = who.map(|w| {
                let mut v: Vec<u32> = p.times[..len].iter().map(|t| if w { t.0 } else { t.1 }).collect();
                v.sort();
                F::from(v[if k & 64 == 0 { len / 2 } else { 0 }] as u64)
            });
            match (ts, AllocatedNum::alloc(cs.namespace(|| "m"), || opt(v))) {
                (Ok(ts), Ok(mm)) => med::verify_median(cs, &ts, &mm).map(|b| s.bool.push(b)),
                (Err(e), _) | (_, Err(e)) => Err(e),
            }
        }
        47 | 48 if cap > 200 => {
            let span = who.map(|w| F::from(if w { 302_401 + k % 4_000_000 } else { 4_838_399 - k % 4_000_000 }));
            match AllocatedNum::alloc(cs.namespace(|| "span"), || opt(span)) {
                Ok(sp) => big!(difficulty_update::calculate_difficulty_update(cs, &n, &sp)),
                Err(e) => Err(e),
            }
        }
        49 if cap > 200 => {
            // plain integers, so there is always a witness
            let (old, span) = if who == Some(false) { (k as u128, 302_401 + (k % 4_000_000) as u32) } else { (k as u128 * 77, 1_209_600) };
            let new = old * span as u128 / 1_209_600;
            difficulty_update::verify_difficulty_update(&mut *cs, 0, new, 0, old, span);
            Ok(())
        }
        50 => {
            let mut ts: Vec<u32> = p.times[..(p.times.len() - 1) | 1].iter().map(|t| if who != Some(false) { t.0 } else { t.1 }).collect();
            if ts.len() > p.times.len() {
                return None;
            }
            let mm = ts[k as usize % ts.len()];
            med::verify_median_timestamp(&mut *cs, &mut ts, mm).map(|b| s.bool.push(b))
        }
        51 => {
            let v = who.map(|w| from_int::<F>(&if w { p.nums[0].0 .0.clone() } else { p.nums[0].1 .0.clone() }));
            Num::alloc(cs.namespace(|| "n"), || opt(v)).and_then(|n| n.as_sapling_allocated_num(cs)).map(|n| s.num.push(n))
        }
        // constants, whose values are known without a witness as well, meet what is not
        52 => {
            s.bit.push(if k & 2 == 0 { Bit::new_value::<RecCS<F>>(k & 1 == 1) } else { Bit::from_sapling::<RecCS<F>>(Boolean::constant(k & 1 == 1)) });
            Ok(())
        }
        53 => {
            s.bv.push(Bitvector::from_bits((0..x % 4).map(|i| Bit::new_value::<RecCS<F>>(k >> i & 1 == 1)).collect()));
            Ok(())
        }
        54 => {
            let mut bv = if x & 3 == 0 || s.bv.is_empty() { Bitvector::from_bits(vec![]) } else { s.bv[x % s.bv.len()].clone() };
            let second = if y & 3 == 0 || s.bv.is_empty() { Bitvector::from_bits(s.bit.clone()) } else { s.bv[y % s.bv.len()].clone() };
            if bv.bits.len() + second.bits.len() > 300 {
                return None;
            }
            bv.append(second);
            s.bv.push(bv);
            Ok(())
        }
        55 if !s.bv.is_empty() => {
            let b = s.bv[x % s.bv.len()].clone().into_bits();
            s.bit.extend(b.iter().take(3).cloned());
            s.bv.push(Bitvector::from_bits(b));
            Ok(())
        }
        56 => {
            let limbs = (0..1 + x % 3)
                .map(|i| {
                    let v = from_int::<F>(&(z(k >> (8 * i)) % p2(w.min(60))));
                    Num::new(Some(v), LinearCombination::zero() + (v, RecCS::<F>::one()))
                })
                .collect();
            big!(Ok(BigNat::from_limbs(limbs, w)))
        }
        57 => {
            // a vector is made of bits one by one
            let mut bv = Bitvector::from_bits(vec![]);
            for i in 0..1 + x % 5 {
                let b = s.bit[recent(s.bit.len(), y + i)].clone();
                let at = (k as usize >> i) % (bv.bits.len() + 1);
                if k >> 40 & 1 == 1 {
                    bv.insert(at, b)
                } else {
                    bv.push(b)
                }
            }
            s.bv.push(bv);
            Ok(())
        }
        _ => return None,
    })
}

enum Ran<F: PrimeField> {
    Done(RecCS<F>, BTreeSet<usize>),
    /// operation that failed
    Failed(usize, String),
}
fn exec<F: PrimeField>(p: &Prog, who: Option<bool>, drop: &BTreeSet<usize>) -> Result<Ran<F>, String> {
    let mut cs = if who.is_some() { RecCS::new() } else { RecCS::shape_only() };
    let pick = |a: &Z, b: &Z| who.map(|w| if w { a.0.clone() } else { b.0.clone() });
    let mut s = Pools { big: vec![], num: vec![], bit: vec![], bv: vec![], bool: vec![] };
    let e = |e: SynthesisError| format!("leaf: {}", e);
    for (n, u, v) in &p.leaves {
        let val = pick(u, v);
        s.big.push(BigNat::alloc_from_nat(cs.namespace(|| "leaf"), || opt(val), p.w, *n).map_err(e)?);
    }
    // one by limbs, above the limb width
    let lv = who.map(|w| vec![from_int::<F>(&p2(p.w)), if w { F::ONE } else { F::ZERO }]);
    s.big.push(BigNat::alloc_from_limbs(cs.namespace(|| "limbs"), || opt(lv), Some(p2(p.w)), p.w, 2).map_err(e)?);
    for (u, v) in &p.nums {
        let val = pick(u, v).map(|x| from_int::<F>(&x));
        s.num.push(AllocatedNum::alloc(cs.namespace(|| "num"), || opt(val)).map_err(e)?);
    }
    for (u, v) in &p.bits {
        s.bit.push(Bit::alloc(cs.namespace(|| "bit"), who.map(|w| if w { *u } else { *v })).map_err(e)?);
    }
    let mut n = BTreeSet::new();
    for (i, o) in p.ops.iter().enumerate() {
        if drop.contains(&i) {
            continue;
        }
        let r = quiet(|| op(&mut cs, p, who, o, &mut s));
        match r {
            Ok(None) => {}
            Ok(Some(Ok(()))) => {
                n.insert(i);
            }
            Ok(Some(Err(e))) => return Ok(Ran::Failed(i, format!("error: {}", e))),
            Err(m) => return Ok(Ran::Failed(i, format!("panic: {}", m))),
        }
    }
    // everything that was made is looked at
    for b in &s.big {
        if b.value.is_some() != b.limb_values.is_some() || b.limb_values.as_ref().is_some_and(|v| v.len() != b.limbs.len()) {
            let (v, l) = (b.value.is_some(), b.limb_values.as_ref().map(|v| v.len()));
            return Err(format!("a number of {} limbs with value known = {} has {:?} limb values", b.limbs.len(), v, l));
        }
        let bits = (&b.params.max_word * 2u8).bits() as usize;
        if bits.max(b.params.limb_width) + 3 <= F::CAPACITY as usize && b.params.limb_width + 2 < F::CAPACITY as usize {
            if let Err(e) = quiet(|| b.equal_when_carried(cs.namespace(|| "look"), b)).and_then(|r| r.map_err(|e| e.to_string())) {
                return Ok(Ran::Failed(usize::MAX, e));
            }
        }
    }
    for v in &s.bv {
        let l = v.bits.iter().fold(LinearCombination::zero(), |l, b| l + b);
        cs.enforce(|| "look", |_| l, |c| c, |c| c);
        let seen = quiet(|| {
            let mut t = v.clone();
            (v.get(0).is_some(), v.get(v.bits.len().max(1) - 1).is_some(), v.clone().into_bits().len(), std::iter::from_fn(|| t.pop()).count())
        });
        let n = v.bits.len();
        match seen {
            Ok(s) if s == (n > 0, n > 0, n, n) => {}
            Ok(s) => return Err(format!("a vector of {} bits yields {:?}", n, s)),
            Err(m) => return Err(format!("the bits of a vector of {} cannot be looked at{}: {}", n, if who.is_none() { " without a witness" } else { "" }, m)),
        }
    }
    for b in &s.bit {
        cs.enforce(|| "look", |c| c + &b.bit, |c| c, |c| c);
    }
    Ok(Ran::Done(cs, n))
}
fn shapes<F: PrimeField>(p: &Prog, least: usize) -> Result<Info, String> {
    let mut drop = BTreeSet::new();
    // the program both witnesses allow
    let (a, n, b) = loop {
        match exec::<F>(p, Some(true), &drop)? {
            Ran::Failed(usize::MAX, _) => return Ok(Info { nontrivial: false, labels: vec!["look-refused".into()] }),
            Ran::Failed(i, _) => {
                drop.insert(i);
                continue;
            }
            Ran::Done(a, n) => match exec::<F>(p, Some(false), &drop)? {
                Ran::Failed(usize::MAX, _) => return Ok(Info { nontrivial: false, labels: vec!["look-refused".into()] }),
                Ran::Failed(i, _) => {
                    drop.insert(i);
                }
                Ran::Done(b, _) => break (a, n, b),
            },
        }
    };
    let none = match exec::<F>(p, None, &drop)? {
        Ran::Done(c, _) => c,
        Ran::Failed(i, e) => return Err(format!("operation {} (kind {}) fails without a witness: {}", i, p.ops.get(i).map_or(99, |o| o.0), e)),
    };
    a.shape_eq(&b).map_err(|e| format!("two witnesses: {}", e))?;
    a.shape_eq(&none).map_err(|e| format!("with and without witness: {}", e))?;
    let labels = n.iter().map(|i| format!("op{}", p.ops[*i].0)).collect();
    Ok(Info { nontrivial: n.len() >= least, labels })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    field: u8,
    real: bool,
    a: c01::Case,
    b: c01::Case,
}
fn step<F: PrimeField + PrimeFieldBits>(t: &Two) -> Result<Info, String> {
    let one = |c: &c01::Case, cs: RecCS<F>| {
        let hash = c01::arr(&c.hash);
        synth::<F>(cs, &c.state.z(), &c.header.bytes(), if t.real { None } else { Some(&hash) })
    };
    let none = one(&t.a, RecCS::shape_only()).map_err(|e| format!("the step fails without a witness: {}", e))?;
    let mut n = 0;
    for c in [&t.a, &t.b] {
        // the step may refuse a header; C01 decides when it must not
        if let Ok(s) = one(c, RecCS::new()) {
            s.cs.shape_eq(&none.cs).map_err(|e| format!("step with and without witness: {}", e))?;
            let ids = |s: &Step<F>| s.outs.iter().map(|o| s.cs.id(o.get_variable())).collect::<Vec<_>>();
            if ids(&s) != ids(&none) {
                return Err("the step's outputs are other variables without a witness".into());
            }
            n += 1;
        }
    }
    Ok(Info { nontrivial: n > 0, labels: vec![format!("witnesses={}", n), if t.real { "real-hash".into() } else { "stand-in".into() }] })
}
/// The header itself is a parameter of the circuit; without a witness any header must do.
fn step_any<F: PrimeField + PrimeFieldBits>(t: &Two) -> Result<Info, String> {
    let shape = |h: &Hex| {
        let hash = c01::arr(&t.a.hash);
        synth::<F>(RecCS::shape_only(), &t.a.state.z(), &h.bytes(), if t.real { None } else { Some(&hash) })
    };
    let a = shape(&t.a.header).map_err(|e| format!("the step fails without a witness: {}", e))?;
    let b = shape(&t.b.header).map_err(|e| format!("the step fails without a witness: {}", e))?;
    a.cs.shape_eq(&b.cs).map_err(|e| format!("headers of different shape: {}", e))?;
    Ok(Info { nontrivial: t.a.header != t.b.header, labels: vec![] })
}

fn run(ctx: &Ctx) {
    ctx.check("single_gadgets", ctx.n(24000), || prog(1..2), |p| with_field!(p.field, F => shapes::<F>(p, 1)));
    ctx.check("programs", ctx.n(16000), || prog(4..14), |p| with_field!(p.field, F => shapes::<F>(p, 3)));
    let f = STEP_FIELDS as u8;
    let hook = c01::hook_works();
    let valid = move || (c01::valid_case(f), c01::valid_case(f), c01::mined_case(f), c01::mined_case(f), 0u8..12).prop_map(move |(a, b, c, d, q)| {
        let real = q == 0 || !hook;
        let (a, mut b) = if real { (c, d) } else { (a, b) };
        b.field = a.field;
        Two { field: a.field, real, a, b }
    });
    ctx.check("step", ctx.n(2000), valid, |t| with_step_field!(t.field, F => step::<F>(t)));
    let any = move || (c01::case(f), c01::case(f), 0u8..16).prop_map(move |(a, b, q)| Two { field: a.field, real: q == 0 || !hook, a, b });
    ctx.check("step_any_header", ctx.n(1200), any, |t| with_step_field!(t.field, F => step_any::<F>(t)));
}
