//! Stateful check: every reachable big number is consistent with its limbs and metadata.
use super::Prop;
use crate::bn::*;
use crate::cs::RecCS;
use crate::fields::from_int;
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::Bit;
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "Random operation histories (3 to 14 operations out of 20, operands picked from everything computed so far, biased to recent results) over canonical leaves in six fields; after every operation every invariant is evaluated on the new number, and at the end on all of them. Non-trivial: at least 4 operations were accepted, at least one of them on a computed (not leaf) operand.",
    assumptions: &["an operation is skipped when its maximum word would leave the field (the callers' duty)"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub field: u8,
    pub w: usize,
    pub leaves: Vec<(usize, Z)>,
    pub ops: Vec<(u8, u8, u8, u64)>,
}
fn hist() -> BoxedStrategy<Hist> {
    layout(&[0, 1, 2, 3, 4, 5, 4], 4)
        .prop_flat_map(|l| {
            let w = l.w;
            let leaf = (1usize..=4).prop_flat_map(move |n| (Just(n), nat(n * w)));
            (Just(l), prop::collection::vec(leaf, 2..5), prop::collection::vec((0u8..20, any::<u8>(), any::<u8>(), any::<u64>()), 3..14))
        })
        .prop_map(|(l, leaves, ops)| Hist { field: l.field, w: l.w, leaves, ops })
        .boxed()
}

/// A list of values of another length than the number of limbs asked for never becomes a number:
/// it would not be consistent with its limbs.
fn limb_count<F: PrimeField>(h: &Hist) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let (_, _, y, k) = h.ops[0];
    let vals: Vec<F> = limbs_of(&h.leaves[0].1 .0, h.w, h.leaves[0].0).iter().map(from_int).collect();
    let n = match y % 4 {
        0 => vals.len(),
        1 => vals.len() + 1,
        2 => (vals.len() - 1).max(1),
        _ => 1 + (k % 6) as usize,
    };
    let out = quiet(|| BigNat::<F>::alloc_from_limbs(cs.namespace(|| "n"), || Ok(vals.clone()), None, h.w, n));
    match out {
        Ok(Ok(b)) if n == vals.len() => {
            consistent(&cs, &b)?;
            okl(false, &["same length"])
        }
        Ok(Ok(b)) => {
            consistent(&cs, &b).map_err(|e| format!("{} values accepted for {} limbs: {}", vals.len(), n, e))?;
            okl(true, &["accepted consistently"])
        }
        _ if n == vals.len() => Err("refused although the number of limbs is right".into()),
        _ => okl(true, &[if n < vals.len() { "too many refused" } else { "too few refused" }]),
    }
}

fn history<F: PrimeField>(h: &Hist) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let cap = F::CAPACITY as usize;
    let mut pool: Vec<BigNat<F>> = vec![];
    for (i, (n, v)) in h.leaves.iter().enumerate() {
        let b = alloc(cs.namespace(|| format!("leaf {}", i)), &v.0, h.w, *n).unwrap();
        consistent(&cs, &b).map_err(|e| format!("leaf {}: {}", i, e))?;
        if b.value.as_ref() != Some(&v.0) {
            return Err(format!("leaf {} has value {:?}", i, b.value.as_ref().map(|x| x.to_string())));
        }
        pool.push(b);
    }
    let leaves = pool.len();
    let mut accepted = 0;
    let mut computed = 0;
    let mut labels = vec![];
    for (i, (op, x, y, k)) in h.ops.iter().enumerate() {
        // indices from the end: recent results are picked more often
        let pick = |q: u8| if q & 1 == 0 { pool.len() - 1 - (q as usize >> 1) % pool.len() } else { pool.len() - 1 - (q as usize >> 1) % pool.len().min(3) };
        let (xi, yi) = (pick(*x), pick(*y));
        let a = pool[xi].clone();
        let mut b = pool[yi].clone();
        if b.params.limb_width != a.params.limb_width {
            match pool.iter().rev().find(|q| q.params.limb_width == a.params.limb_width) {
                Some(q) => b = q.clone(),
                None => {}
            }
        }
        let bits = |m: BigInt| m.bits() as usize;
        let (mwa, mwb) = (a.params.max_word.clone(), b.params.max_word.clone());
        let sum_ok = bits(&mwa + &mwb) < cap;
        let eq_ok = bits(&mwa + &mwb).max(a.params.limb_width) + 3 <= cap;
        let nmin = z(a.params.n_limbs.min(b.params.n_limbs) as u64);
        let canon = p2(a.params.limb_width);
        let mul_ok = bits(&nmin * &mwa * &mwb).max(bits(z(16) * &canon * &mwb)).max(bits(&nmin * &mwa * &mwb)) + 4 <= cap && a.params.n_limbs + b.params.n_limbs <= 9;
        let kk = z(*k) % p2((a.params.limb_width + 1).min(20));
        let w = a.params.limb_width;
        let mut ns = cs.namespace(|| format!("op {}", i));
        let out: Result<Result<Vec<BigNat<F>>, String>, String> = quiet(|| {
            let e = |r: Result<BigNat<F>, bellpepper_core::SynthesisError>| r.map(|x| vec![x]).map_err(|e| e.to_string());
            let skip = Err("skip".to_string());
            match op {
                0 | 1 if sum_ok => e(a.add::<RecCS<F>>(&b)),
                2 | 3 if mul_ok => e(a.mult(&mut ns, &b)),
                4 if eq_ok && a.value >= b.value => e(a.sub(&mut ns, &b)),
                5 if bits(&mwa + &kk) < cap => Ok(vec![a.shift::<RecCS<F>>(from_int(&kk))]),
                6 if bits(&mwa * &kk) < cap => Ok(vec![a.scale::<RecCS<F>>(from_int(&kk))]),
                7 if a.params.n_limbs + b.params.n_limbs <= 9 => e(a.concat(&b)),
                8 => Ok(vec![a.truncate_limbs(1 + (*k as usize) % (a.params.n_limbs + 1))]),
                9 => {
                    let g = 1 + (*k as usize) % 3;
                    if bits(&mwa * p2(w * (g - 1))) + 1 < cap {
                        Ok(vec![a.group_limbs(g)])
                    } else {
                        skip
                    }
                }
                10 if w <= cap => match a.decompose(&mut ns) {
                    Ok(bv) if mwa < canon => Ok(vec![BigNat::recompose(&bv, 1 + (*k as usize) % (cap / 2 - 2))]),
                    _ => skip,
                },
                11 => Ok(vec![a.with_n_limbs::<RecCS<F>>(a.params.n_limbs + (*k as usize) % 3)]),
                12 if eq_ok && mwa < canon && mwb < canon => e(a.min(&mut ns, &b)),
                13 => {
                    let s = Bit::alloc(ns.namespace(|| "s"), Some(k & 1 == 1)).unwrap();
                    e(BigNat::mux(&mut ns, &s, &a, &b))
                }
                14 if mul_ok && !b.value.as_ref().unwrap().is_zero() => a.mult_mod(&mut ns, &a, &b).map(|(q, r)| vec![q, r]).map_err(|e| e.to_string()),
                15 if mul_ok && !b.value.as_ref().unwrap().is_zero() => e(a.red_mod(&mut ns, &b)),
                16 if w <= cap => {
                    let mut c = a.clone();
                    c.enforce_full_bits(&mut ns).map_err(|e| e.to_string())?;
                    Ok(vec![c])
                }
                17 if w <= cap && mwa < canon => {
                    let mut c = a.clone();
                    let m = match k % 3 {
                        0 => a.value.as_ref().unwrap().bits() as usize,
                        _ => 1 + (*k as usize >> 3) % (w * a.params.n_limbs),
                    };
                    c.enforce_min_bits(&mut ns, m.max(1)).map_err(|e| e.to_string())?;
                    Ok(vec![c])
                }
                18 => {
                    let nums: Vec<Num<F>> = a.as_limbs::<RecCS<F>>();
                    if mwa < canon {
                        Ok(vec![BigNat::from_limbs(nums, w)])
                    } else {
                        Ok(vec![BigNat::from_poly(as_poly(BigNat::<F>::from_poly, a.clone().into()), w, mwa.clone())])
                    }
                }
                19 => {
                    let v = from_int::<F>(&(z(*k) % p2((cap - 1).min(w * 3))));
                    let n = Num::alloc(ns.namespace(|| "v"), || Ok(v)).unwrap();
                    let r = e(BigNat::from_num(&mut ns, n, w, 3));
                    r.map(|mut v| {
                        v.push(BigNat::one::<RecCS<F>>(w));
                        v
                    })
                }
                _ => skip,
            }
        });
        drop(ns);
        let Ok(Ok(rs)) = out else { continue };
        // a refused enforcement (unsatisfied constraints) promises nothing
        if (*op == 16 || *op == 17) && !cs.satisfied() {
            break;
        }
        accepted += 1;
        if xi >= leaves || yi >= leaves {
            computed += 1;
        }
        labels.push(format!("op{}", op));
        for r in rs {
            consistent(&cs, &r).map_err(|e| format!("operation {} (kind {}): {}", i, op, e))?;
            pool.push(r);
        }
    }
    for b in &pool {
        consistent(&cs, b).map_err(|e| format!("at the end: {}", e))?;
    }
    Ok(Info { nontrivial: accepted >= 4 && computed > 0, labels })
}

fn run(ctx: &Ctx) {
    ctx.check("limb_count", ctx.n(4000), hist, |h| with_field!(h.field, F => limb_count::<F>(h)));
    ctx.check("histories", ctx.n(2 * 60000), hist, |h| with_field!(h.field, F => history::<F>(h)));
}
