//! Comparison gadgets: adversarial search for a witness of the wrong bit.
use super::c06::{any_pair, cmp_case, Cmp};
use super::Prop;
use crate::cs::RecCS;
use crate::fields::from_int;
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use validate_btc_header::btc_validation::median::{leq, less_than};
use validate_btc_header::mp::bignat::BigNat;

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "Random (field, width, a, b) as for C06; the operands are fixed, the returned bit is forced to the wrong value, and a constraint-directed search over all other variables looks for a satisfying assignment. Non-trivial: the search was not inconclusive.",
    assumptions: &["operands of the order comparisons are below 2^n", "search is exhaustive only where labelled proved-none"],
    run,
};

fn attack<F: PrimeField>(c: &Cmp, kind: u8) -> Result<Info, String> {
    let mut cs = RecCS::<F>::new();
    let a = num(cs.namespace(|| "a"), &c.a.0).unwrap();
    let b = num(cs.namespace(|| "b"), &c.b.0).unwrap();
    let n_in = cs.n_vars();
    let (r, truth) = match kind {
        0 => (less_than(cs.namespace(|| "r"), &a, &b, c.n), c.a.0 < c.b.0),
        1 => (leq(cs.namespace(|| "r"), &a, &b, c.n), c.a.0 <= c.b.0),
        _ => (BigNat::<F>::equals(cs.namespace(|| "r"), &a, &b), from_int::<F>(&c.a.0) == from_int::<F>(&c.b.0)),
    };
    let r = r.map_err(|e| format!("synthesis failed: {}", e))?;
    let lc = cs.lc(&bool_lc(&r));
    // any value other than the true one is a forgery
    let wrong = if truth { F::ZERO } else { F::ONE };
    let right = if truth { F::ONE } else { F::ZERO };
    let out = forge(&cs, n_in, &[(lc.clone(), wrong)], c.seed, 600, &|_| true);
    if let Res::Found(asg) = &out {
        return Err(format!("bit {} forged (true answer {}), free variables = {:?}", !truth, truth, &asg[n_in..asg.len().min(n_in + 6)]));
    }
    let any = forge(&cs, n_in, &[], c.seed, 200, &|asg| lc.eval(asg) != right);
    if let Res::Found(asg) = &any {
        return Err(format!("bit set to {:?} (true answer {})", lc.eval(asg), truth));
    }
    okl(!matches!(out, Res::Budget), &[label(&out)])
}

fn run(ctx: &Ctx) {
    const MIX: &[u8] = &[0, 0, 1, 2, 3, 4, 5];
    ctx.check("forge_less_than", ctx.n(10 * 1600), || cmp_case(MIX), |c| with_field!(c.field, F => attack::<F>(c, 0)));
    ctx.check("forge_less_or_equal", ctx.n(10 * 1600), || cmp_case(MIX), |c| with_field!(c.field, F => attack::<F>(c, 1)));
    ctx.check("forge_equality", ctx.n(10 * 3000), || any_pair(MIX), |c| with_field!(c.field, F => attack::<F>(c, 2)));
}
