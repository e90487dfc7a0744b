//! Median time past: computation and verification on the honest path.
use super::Prop;
use crate::cs::RecCS;
use crate::gen::*;
use crate::run::{ok, okl, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::btc_validation::median::{compute_median_timestamp, verify_median_timestamp};

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "Random timestamp lists (odd length 1..11 for verification, up to 40 for computation; clustered values so that duplicates are common, ends of the 32-bit range included) with candidates drawn from the list, their neighbours, its median, or anywhere. Non-trivial: list longer than 1.",
    assumptions: &["verification is used with odd list lengths up to 11 (the step uses 11)", "32-bit comparisons need a field of more than 34 bits"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Med {
    pub field: u8,
    pub times: Vec<u32>,
    pub cand: u32,
    pub seed: u64,
}

/// Clustered 32-bit values.
pub fn times(len: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<u32>> {
    (any::<u32>(), 0u8..5, prop::collection::vec((any::<u32>(), 0u8..12), len))
        .prop_map(|(base, kind, v)| {
            v.into_iter()
                .map(|(x, k)| match (kind, k) {
                    (_, 0) => [0, u32::MAX, u32::MAX - 1, 1 << 31][x as usize % 4],
                    (0, _) => x,
                    (1, _) => base.saturating_add(x % 3),
                    (2, _) => base.saturating_add(x % 12),
                    (3, _) => base.saturating_add(x % 2),
                    _ => base.saturating_add(x % 5000),
                })
                .collect()
        })
        .boxed()
}
pub fn candidate(times: &[u32], pick: (u8, u32)) -> u32 {
    let mut s = times.to_vec();
    s.sort();
    let m = s[s.len() / 2];
    match pick.0 {
        0 | 1 => m,
        2 => s[pick.1 as usize % s.len()],
        3 => m.wrapping_add(1),
        4 => m.wrapping_sub(1),
        5 => s[(s.len() / 2 + 1) % s.len()],
        6 => s[(s.len() / 2).saturating_sub(1)],
        7 => s[pick.1 as usize % s.len()].wrapping_add(1),
        8 => *s.last().unwrap(),
        _ => pick.1,
    }
}
pub fn odd_case(max: usize) -> BoxedStrategy<Med> {
    let lens: Vec<usize> = (1..=max).step_by(2).chain([max, max, max]).collect();
    (prop::sample::select(vec![3u8, 3, 4, 5]), prop::sample::select(lens), any::<u64>())
        .prop_flat_map(|(f, n, seed)| (Just(f), times(n..=n), (0u8..10, any::<u32>()), Just(seed)))
        .prop_map(|(field, times, pick, seed)| {
            let cand = candidate(&times, pick);
            Med { field, times, cand, seed }
        })
        .boxed()
}

fn compute(v: &Vec<u32>) -> Result<Info, String> {
    let mut w = v.clone();
    let got = compute_median_timestamp(&mut w);
    // selection by counting, independent of sorting
    let below = v.iter().filter(|x| **x < got).count();
    let upto = v.iter().filter(|x| **x <= got).count();
    if !(below <= v.len() / 2 && v.len() / 2 < upto) {
        return Err(format!("median of {:?} computed as {}", v, got));
    }
    ok(v.len() > 1)
}

pub fn truth(c: &Med) -> bool {
    let mut s = c.times.clone();
    s.sort();
    s[s.len() / 2] == c.cand
}

fn verify<F: PrimeField>(c: &Med) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let r = verify_median_timestamp(cs.namespace(|| "m"), &mut c.times.clone(), c.cand).map_err(|e| format!("synthesis failed: {}", e))?;
    let t = truth(c);
    if r.get_value() != Some(t) {
        return Err(format!("bit {:?}, expected {} (sorted median differs)", r.get_value(), t));
    }
    if cs.val(&bool_lc(&r)) != Some(if t { F::ONE } else { F::ZERO }) {
        return Err("constrained bit differs from the reported value".into());
    }
    if !cs.satisfied() {
        return Err("constraints not satisfied by the produced witness".into());
    }
    okl(c.times.len() > 1, &[if t { "median" } else { "not-median" }])
}

fn run(ctx: &Ctx) {
    ctx.check("compute", ctx.n(5 * 40000), || times(1..=40), compute);
    ctx.check("verify", ctx.n(5 * 20000), || odd_case(11), |c| with_field!(c.field, F => verify::<F>(c)));
}
