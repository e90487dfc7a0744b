//! Retargeting: adversarial search for a witness of a wrong new target.
use super::c10::*;
use super::Prop;
use crate::bn::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, modulus, to_int};
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::solver::{Res, System};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{ToPrimitive, Zero};
use rand::SeedableRng;
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use validate_btc_header::btc_validation::difficulty_update::calculate_difficulty_update;

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "Random old targets and spans as for C10. The circuit is recorded on one honest witness, then old target and span (found by comparing recordings where they are allocated inside) are fixed to the case's values and wrong new targets (neighbours, wraps modulo the field, limbs out of range, other quotients) are proposed; a constraint-directed search decides each. Non-trivial: at least one proposal conclusively refuted.",
    assumptions: &["time spans are below 2^64", "search exhaustive only where labelled proved-none"],
    run,
};

/// Variables that carry one of the constants of the computation in every recording.
fn constants<F: PrimeField>(runs: &[&RecCS<F>]) -> Vec<(u32, u32)> {
    let vars = runs.iter().map(|r| r.n_vars()).min().unwrap();
    let mut out = vec![];
    for v in 1..vars {
        for k in [LOW, HIGH, WEEKS, WEEKS - 1] {
            if runs.iter().all(|r| r.asg[v] == Some(F::from(k as u64))) {
                out.push((v as u32, k));
            }
        }
    }
    out
}
fn record<F: PrimeField>(old: &BigInt, span: u32) -> Result<(RecCS<F>, Vec<Lc<F>>, usize), String> {
    let mut cs = RecCS::<F>::new();
    let a = num(cs.namespace(|| "t"), old).unwrap();
    let s = num(cs.namespace(|| "s"), &BigInt::from(span)).unwrap();
    let n = calculate_difficulty_update(cs.namespace(|| "u"), &a, &s).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &n);
    Ok((cs, out, n.params.limb_width))
}
/// Constant overrides worth trying, with the weeks constant they leave.
fn lies(consts: &[(u32, u32)], span: u32) -> Vec<(Vec<(u32, u64)>, u32)> {
    let mut all = vec![(vec![], WEEKS)];
    if consts.is_empty() {
        return all;
    }
    let honest: Vec<(u32, u64)> = consts.iter().map(|(v, k)| (*v, *k as u64)).collect();
    all.push((honest.clone(), WEEKS));
    let with = |k: u32, x: u32| -> Vec<(u32, u64)> {
        consts.iter().map(|(v, c)| (*v, if *c == k { x as u64 } else if k == WEEKS && *c == WEEKS - 1 { x as u64 - 1 } else { *c as u64 })).collect()
    };
    if !in_limits(span) {
        all.push((with(LOW, span.wrapping_sub(1) % LOW), WEEKS));
        all.push((with(HIGH, span.saturating_add(1).max(HIGH)), WEEKS));
    }
    for m in [WEEKS + 1, WEEKS - 1, WEEKS / 2] {
        all.push((with(WEEKS, m), m));
    }
    all
}

thread_local! {
    static CACHE: RefCell<HashMap<u8, Rc<dyn Any>>> = RefCell::new(HashMap::new());
}
/// Recorded on benign witnesses, attacked on the cases' inputs.
struct Calculation<F: PrimeField> {
    sys: System<F>,
    asgs: Vec<Vec<Option<F>>>,
    out: Vec<Lc<F>>,
    w: usize,
    consts: Vec<(u32, u32)>,
}
fn calculation<F: PrimeField>(field: u8) -> Result<Rc<Calculation<F>>, String> {
    let key = 100 + field;
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
        return Ok(r.downcast::<Calculation<F>>().unwrap());
    }
    let (cs, out, w) = record::<F>(&(z(0xffff) << 208usize), WEEKS + 5)?;
    let (cs2, _, _) = record::<F>(&z(0x1234_5678_9abc), WEEKS / 2)?;
    let (cs3, _, _) = record::<F>(&(z(0x1234_5678_9abc) << 99usize), LOW + 77)?;
    let consts = constants(&[&cs, &cs2, &cs3]);
    let r = Rc::new(Calculation { sys: System::new(cs.n_vars(), &cs.cons), out, w, consts, asgs: vec![cs.asg, cs2.asg, cs3.asg] });
    CACHE.with(|c| c.borrow_mut().insert(key, r.clone()));
    Ok(r)
}
fn calc<F: PrimeField>(c: &Calc) -> Result<Info, String> {
    let r = calculation::<F>(c.field)?;
    let (w, out, consts) = (r.w, &r.out, &r.consts);
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.seed);
    let forge = |fixed: &[(u32, F)], eqs: &[(Lc<F>, F)], rounds: usize, rng: &mut rand_chacha::ChaCha8Rng, want: &dyn Fn(&[F]) -> bool| match r.sys.start(fixed, eqs) {
        None => Res::Exhausted,
        Some(st) => match r.sys.search_hinted(&st, &r.asgs, &[], rng, rounds, want) {
            Some(a) => Res::Found(a),
            None => r.sys.search(st, &r.asgs[0], rng, 30, want),
        },
    };
    let inside = in_limits(c.span);
    let t = truth(&c.old.0, c.span);
    let nl = out.len();
    let m = p2(w * nl);
    let weeks = BigInt::from(WEEKS);
    let p = modulus::<F>();
    let prod = &c.old.0 * BigInt::from(c.span);
    let outs = |asg: &[F]| out.iter().map(|l| to_int(&l.eval(asg))).collect::<Vec<BigInt>>();
    let good = |l: &[BigInt]| inside && join(l, w) == t;
    let mut labels = vec![];
    let mut refuted = 0;
    for (i, (pins, mm)) in lies(consts, c.span).into_iter().enumerate() {
        let tm = &prod / BigInt::from(mm);
        let mut vals = vec![&tm - 1u8, tm.clone(), &tm + 1u8];
        if i < 2 {
            vals.extend([(&prod + &p).div_floor(&weeks), (&prod - &p).div_floor(&weeks), BigInt::zero(), c.old.0.clone(), z(c.seed)]);
        }
        let mut cands: Vec<Vec<BigInt>> = vals.into_iter().map(|v| limbs_of(&v.mod_floor(&m), w, nl)).collect();
        if i < 2 && t < m {
            cands.push(skew(&limbs_of(&t, w, nl), w, c.seed));
            let mut f = vec![BigInt::zero(); nl];
            f[0] = t.clone();
            cands.push(f);
        }
        let mut fixed = vec![(1, from_int::<F>(&c.old.0)), (2, F::from(c.span as u64))];
        fixed.extend(pins.iter().map(|(v, x)| (*v, F::from(*x))));
        for cand in cands.iter() {
            let red: Vec<BigInt> = cand.iter().map(|x| to_int(&from_int::<F>(x))).collect();
            if good(&red) {
                continue;
            }
            let r = forge(&fixed, &eqs(out, cand), 1, &mut rng, &|_| true);
            match &r {
                Res::Found(a) => return Err(format!("new target {} accepted for {} over {} s, expected {}", join(&outs(a), w), c.old.0, c.span, if inside { t.to_string() } else { "none".into() })),
                Res::Exhausted if i < 2 => refuted += 1,
                _ => {}
            }
            labels.push(match (i, label(&r)) {
                (0, l) => l.to_string(),
                (1, l) => format!("constants-pinned:{}", l),
                (_, l) => format!("constant-lie:{}", l),
            });
        }
    }
    let fixed = vec![(1, from_int::<F>(&c.old.0)), (2, F::from(c.span as u64))];
    let r = forge(&fixed, &[], 6, &mut rng, &|a| !good(&outs(a)));
    if let Res::Found(a) = &r {
        return Err(format!("new target {} accepted for {} over {} s", join(&outs(a), w), c.old.0, c.span));
    }
    labels.push(format!("free:{}", label(&r)));
    Ok(Info { nontrivial: refuted > 0, labels })
}

fn inputs<F: PrimeField>(old: &BigInt, new: &BigInt, span: u32) -> Vec<F> {
    let ((nu, nl), (ou, ol)) = (halves(new), halves(old));
    vec![F::from_u128(nu), F::from_u128(nl), F::from_u128(ou), F::from_u128(ol), F::from(span as u64)]
}
struct Recorded<F: PrimeField> {
    sys: System<F>,
    asgs: Vec<Vec<Option<F>>>,
    /// the variables that carry each of the five inputs
    ids: Vec<Vec<u32>>,
    consts: Vec<(u32, u32)>,
}
fn recorded<F: PrimeField>(field: u8) -> Result<Rc<Recorded<F>>, String> {
    if let Some(r) = CACHE.with(|c| c.borrow().get(&field).cloned()) {
        return Ok(r.downcast::<Recorded<F>>().unwrap());
    }
    let mut runs = vec![];
    for k in 1u64..4 {
        let old = (z(0x1234_5678_9abc_def1).wrapping(k) << 64usize) + (z(0xfedc_ba98_7654_3211).wrapping(k * 3) << 140usize) + z(77 * k);
        let span = 500_001 + 300_007 * k as u32;
        let new = truth(&old, span);
        match ver_synth::<F>(&old, &new, span) {
            Ok(cs) => runs.push((cs, inputs::<F>(&old, &new, span))),
            Err(e) => return Err(format!("correct new target refused: {}", e)),
        }
    }
    let mut ids = identify(&runs);
    let sys = System::new(runs[0].0.n_vars(), &runs[0].0.cons);
    // a variable in no constraint carries nothing
    let used = sys.used();
    ids.iter_mut().for_each(|v| v.retain(|x| used.contains(x)));
    let consts = constants(&runs.iter().map(|r| &r.0).collect::<Vec<_>>());
    let r = Rc::new(Recorded { sys, ids, consts, asgs: runs.into_iter().map(|r| r.0.asg).collect() });
    CACHE.with(|c| c.borrow_mut().insert(field, r.clone()));
    Ok(r)
}
/// Other values for the copies of the inputs inside the circuit: those with which the claimed new
/// target would be right.
fn alternatives(c: &Ver) -> [Vec<BigInt>; 5] {
    let (ru, rl) = halves(&(truth(&c.old.0, c.span) % p2(256)));
    let spans: Vec<BigInt> = if c.old.0.is_zero() { vec![z(WEEKS as u64)] } else { vec![z(WEEKS as u64), (&c.new.0 * WEEKS + &c.old.0 - 1u8) / &c.old.0, z(LOW as u64 + 1)] };
    let olds = if c.span == 0 { vec![] } else { vec![(&c.new.0 * WEEKS + c.span - 1u8) / c.span] };
    let (mut ou, mut ol) = (vec![], vec![]);
    for o in olds.into_iter().filter(|o| o.bits() <= 256) {
        let (u, l) = halves(&o);
        ou.push(BigInt::from(u));
        ol.push(BigInt::from(l));
    }
    [vec![ru.into()], vec![rl.into()], ou, ol, spans]
}
fn ver<F: PrimeField>(c: &Ver) -> Result<Info, String> {
    let r = recorded::<F>(c.field)?;
    if r.ids.iter().any(|v| v.is_empty()) {
        return okl(false, &["inputs-not-found"]);
    }
    let vals = inputs::<F>(&c.old.0, &c.new.0, c.span);
    // the first variable that carries each input stands for it
    let fixed: Vec<(u32, F)> = r.ids.iter().zip(&vals).map(|(v, x)| (v[0], *x)).collect();
    let expect = in_limits(c.span) && truth(&c.old.0, c.span) == c.new.0;
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.seed);
    let mut labels = vec![];
    let mut conclusive = false;
    let mut all: Vec<(&str, Vec<(u32, F)>)> = vec![];
    let mut more = lies(&r.consts, c.span);
    let prod = &c.old.0 * BigInt::from(c.span);
    if !r.consts.is_empty() && !expect && !c.new.0.is_zero() {
        if let Some(m) = (&prod / &c.new.0).to_u64() {
            for m in [m, m.saturating_sub(1)] {
                if m > 0 && prod.clone() / m == c.new.0 {
                    more.push((r.consts.iter().map(|(v, k)| (*v, if *k == WEEKS { m } else { *k as u64 })).collect(), 0));
                }
            }
        }
    }
    for (i, (pins, _)) in more.into_iter().enumerate() {
        let pins = pins.iter().filter(|(v, _)| !r.ids.iter().any(|x| x[0] == *v)).map(|(v, x)| (*v, F::from(*x))).collect();
        all.push((["", "constants-pinned:", "constant-lie:"][i.min(2)], pins));
    }
    if !expect {
        for (vs, alts) in r.ids.iter().zip(alternatives(c)) {
            for v in &vs[1..] {
                for a in &alts {
                    all.push(("split:", vec![(*v, from_int::<F>(a))]));
                }
            }
        }
    }
    for (i, (what, pins)) in all.into_iter().enumerate() {
        let mut fixed = fixed.clone();
        fixed.extend(pins);
        let res = match r.sys.start(&fixed, &[]) {
            None => Res::Exhausted,
            Some(st) => match r.sys.search_hinted(&st, &r.asgs, &vals, &mut rng, if i == 0 { 6 } else { 2 }, &|_| true) {
                Some(a) => Res::Found(a),
                None => r.sys.search(st, &r.asgs[0], &mut rng, 40, &|_| true),
            },
        };
        match res {
            Res::Found(_) if !expect => return Err(format!("new target {} accepted for {} over {} s", c.new.0, c.old.0, c.span)),
            Res::Exhausted if expect && i == 0 => return Err(format!("correct new target {} for {} over {} s has no witness", c.new.0, c.old.0, c.span)),
            _ => {}
        }
        conclusive |= i < 2 && !matches!(res, Res::Budget);
        labels.push(format!("{}{}", what, if matches!(res, Res::Found(_)) { "accepted" } else { label(&res) }));
    }
    Ok(Info { nontrivial: conclusive, labels })
}
trait Wrapping {
    fn wrapping(self, k: u64) -> BigInt;
}
impl Wrapping for BigInt {
    fn wrapping(self, k: u64) -> BigInt {
        (self * k) % p2(64)
    }
}

fn run(ctx: &Ctx) {
    ctx.check("forge_verified", ctx.n(2000), ver_case, |c| with_field!(c.field, F => ver::<F>(c)));
    ctx.check("forge_calculated", ctx.n(1500), calc_case, |c| with_field!(c.field, F => calc::<F>(c)));
}
