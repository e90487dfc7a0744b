//! Median verification: adversarial search for a witness of the wrong bit.
use super::c08::{odd_case, truth, Med};
use super::Prop;
use crate::cs::RecCS;
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use validate_btc_header::btc_validation::median::verify_median_timestamp;

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "Random odd timestamp lists and candidates as for C08. The variables carrying the list and the candidate are found by comparing recordings with different inputs, then fixed; the returned bit is forced wrong and a constraint-directed search over everything else looks for a satisfying assignment. Non-trivial: search conclusive.",
    assumptions: &["timestamps and candidate are 32-bit, odd list length up to 11"],
    run,
};

fn record<F: PrimeField>(times: &[u32], cand: u32) -> Result<(RecCS<F>, crate::cs::Lc<F>), String> {
    let mut cs = RecCS::<F>::new();
    let r = verify_median_timestamp(cs.namespace(|| "m"), &mut times.to_vec(), cand).map_err(|e| format!("synthesis failed: {}", e))?;
    let lc = cs.lc(&bool_lc(&r));
    Ok((cs, lc))
}

fn attack<F: PrimeField>(c: &Med) -> Result<Info, String> {
    let n = c.times.len();
    let (cs, lc) = record::<F>(&c.times, c.cand)?;
    let mut runs = vec![];
    for k in 0..3u32 {
        // distinct values, in both orders
        let ts: Vec<u32> = (0..n as u32).map(|i| 1_000_003u32.wrapping_mul(i * 7 + k * 1009 + 11) ^ (k << 28)).collect();
        let m = 0x1234_5678u32.wrapping_mul(2 * k + 1) | 1;
        let (r, _) = record::<F>(&ts, m)?;
        let mut ins: Vec<F> = ts.iter().map(|t| F::from(*t as u64)).collect();
        ins.push(F::from(m as u64));
        runs.push((r, ins));
    }
    let ids = identify(&runs);
    let mut fixed = vec![];
    for (i, v) in ids.iter().enumerate() {
        let Some(v) = v.first() else { return okl(false, &["inputs-not-found"]) };
        let x = if i < n { c.times[i] } else { c.cand };
        if cs.asg[*v as usize] != Some(F::from(x as u64)) {
            return okl(false, &["inputs-not-found"]);
        }
        fixed.push((*v, F::from(x as u64)));
    }
    let t = truth(c);
    let (right, wrong) = if t { (F::ONE, F::ZERO) } else { (F::ZERO, F::ONE) };
    let out = forge_fixed(&cs, &fixed, &[(lc.clone(), wrong)], c.seed, 500, &|_| true);
    if let Res::Found(_) = &out {
        return Err(format!("bit {} forged for {:?}", !t, c));
    }
    let any = forge_fixed(&cs, &fixed, &[], c.seed, 60, &|asg| lc.eval(asg) != right);
    if let Res::Found(a) = &any {
        return Err(format!("bit forged to {:?} for {:?}", lc.eval(a), c));
    }
    okl(!matches!(out, Res::Budget), &[label(&out), if t { "median" } else { "not-median" }])
}

fn run(ctx: &Ctx) {
    ctx.check("forge_median_bit", ctx.n(4000), || odd_case(11), |c| with_field!(c.field, F => attack::<F>(c)));
}
