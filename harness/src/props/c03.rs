//! Soundness of the header step: adversarial search over everything but state and header.
use super::c01::*;
use super::Prop;
use crate::btc::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{Ctx, Info};
use crate::solver::{Res, System};
use crate::with_step_field;
use bellpepper_core::boolean::Boolean;
use ff::{PrimeField, PrimeFieldBits};
use num_bigint::BigInt;
use proptest::prelude::*;
use rand::SeedableRng;
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "The step's constraints are recorded once per field (hash function replaced by free digest bits through the verif_hash hook). For random states, headers and hashes (as for C01: valid, one fault, two faults; `forge_one_fault`: a valid case with one near fault, everything else consistent with it) the 16 inputs, the 640 hashed bits and the digest bits are fixed and a constraint-directed search looks for any assignment of the rest; for valid headers every output must be forced to the reference client's next state, and wrong outputs are proposed one by one. Non-trivial: an invalid header was proved to have no assignment, or at least 12 of a valid one's 16 outputs were proved to be forced.",
    assumptions: &["state hash < 2^224, state target at most the difficulty-1 target, 32-bit timestamps, counter 0..2015", "the SHA-256 gadget of bellpepper is sound"],
    run,
};

struct Template<F: PrimeField> {
    sys: System<F>,
    asg: Vec<Option<F>>,
    ins: Vec<u32>,
    outs: Vec<u32>,
    /// header bits, first digest, bits hashed second, second digest
    bits: [Vec<(u32, bool)>; 4],
}
thread_local! {
    static CACHE: RefCell<HashMap<u8, std::rc::Rc<dyn Any>>> = RefCell::new(HashMap::new());
}
fn vars<F: PrimeField>(cs: &RecCS<F>, b: &[Boolean]) -> Option<Vec<(u32, bool)>> {
    b.iter()
        .map(|b| match b {
            Boolean::Is(x) => Some((cs.id(x.get_variable()), false)),
            Boolean::Not(x) => Some((cs.id(x.get_variable()), true)),
            Boolean::Constant(_) => None,
        })
        .collect()
}
fn template<F: PrimeField + PrimeFieldBits>() -> Result<Template<F>, String> {
    let s = State { hash: Z(p2(200) + 77u8), times: (0..11).map(|i| 1_300_000_000 + 7 * i * i).collect(), target: Z(max_target() >> 12u8), start: 1_299_000_000, counter: 77, work: Z(z(9)) };
    let s = State { target: Z(expand(compact(&s.target.0))), ..s };
    let h = build(1, &s.hash.0, &[7; 32], 1_300_009_100, compact(&s.target.0), 3);
    let st = synth::<F>(RecCS::new(), &s.z(), &h, Some(&le32(&(p2(190) + 12345u32))))?;
    let a = st.calls.iter().position(|c| c.0.len() == 640).ok_or("no call with 640 bits")?;
    let b = st.calls.iter().rposition(|c| c.0.len() == 256).ok_or("no call with 256 bits")?;
    let get = |x: &[Boolean]| vars(&st.cs, x).ok_or("constant bits");
    let bits = [get(&st.calls[a].0)?, get(&st.calls[a].1)?, get(&st.calls[b].0)?, get(&st.calls[b].1)?];
    Ok(Template {
        sys: System::new(st.cs.n_vars(), &st.cs.cons),
        ins: st.ins.clone(),
        outs: st.outs.iter().map(|o| st.cs.id(o.get_variable())).collect(),
        asg: st.cs.asg.clone(),
        bits,
    })
}
fn with<F: PrimeField + PrimeFieldBits, T>(field: u8, f: impl FnOnce(&Template<F>) -> T) -> Result<T, String> {
    let cached = CACHE.with(|c| c.borrow().get(&field).cloned());
    let t = match cached {
        Some(t) => t,
        None => {
            let t: std::rc::Rc<dyn Any> = std::rc::Rc::new(template::<F>()?);
            CACHE.with(|c| c.borrow_mut().insert(field, t.clone()));
            t
        }
    };
    Ok(f(t.downcast_ref::<Template<F>>().unwrap()))
}
/// bits of bytes, most significant bit of each byte first
fn bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |k| x >> (7 - k) & 1 == 1)).collect()
}
/// Assignments of cases next to this one, valid ones: the state adapted to the header, and the
/// header adapted to the state.
fn hints<F: PrimeField + PrimeFieldBits>(t: &Template<F>, c: &Case) -> Vec<Vec<Option<F>>> {
    let mut out = vec![];
    for to_state in [false, true] {
        let (mut s, mut h, mut hash) = (c.state.clone(), c.header.bytes(), arr(&c.hash));
        for _ in 0..8 {
            match next(&s, &h, &hash) {
                Ok(_) => break,
                Err("prev-hash") if to_state || parse(&h).prev >= p2(224) => h[4..36].copy_from_slice(&le32(&s.hash.0)),
                Err("prev-hash") => s.hash = Z(parse(&h).prev),
                Err("nbits") => h[72..76].copy_from_slice(&compact(&s.target.0.clone().max(num_bigint::BigInt::from(0x8000))).to_le_bytes()),
                Err("pow") => hash = [0; 32],
                Err("time") if to_state || u32_at(&h, 68) == 0 => h[68..72].copy_from_slice(&median(&s.times).saturating_add(1).to_le_bytes()),
                Err("time") => {
                    let m = u32_at(&h, 68) - 1;
                    s.times.iter_mut().for_each(|t| *t = (*t).min(m));
                }
                Err("target") if to_state => h[72..76].copy_from_slice(&compact(&expected(&s).unwrap()).to_le_bytes()),
                Err("target") => {
                    s.counter = s.counter.max(1);
                    s.target = Z(expand(u32_at(&h, 72)));
                }
                Err("span") if to_state => {
                    s.times[10] = s.times[10].max(WEEKS as u32);
                    s.start = s.times[10] - WEEKS as u32;
                }
                Err(_) => s.counter = 1,
            }
        }
        if let Ok(st) = synth::<F>(RecCS::new(), &s.z(), &h, Some(&hash)) {
            if st.cs.asg.len() == t.asg.len() {
                out.push(st.cs.asg);
            }
        }
    }
    if out.is_empty() {
        out.push(t.asg.clone());
    }
    out
}
/// Values a witness variable might want: those of the state, the reference and their neighbours.
fn pool<F: PrimeField + PrimeFieldBits>(c: &Case) -> Vec<F> {
    let mut p: Vec<F> = c.state.z();
    let h = c.header.bytes();
    let t = expand(u32_at(&h, 72));
    p.push(from_int(&t));
    p.push(F::from(u32_at(&h, 68) as u64));
    p.extend([F::ZERO, F::ONE, -F::ONE]);
    if t.sign() == num_bigint::Sign::Plus {
        p.push(from_int(&(max_target() / &t)));
        p.push(from_int(&(max_target() % &t)));
        p.push(from_int(&(max_target() / &t - 1u8)));
        p.push(from_int(&(max_target() % &t + &t)));
    }
    if let Some(e) = expected(&c.state) {
        p.push(from_int(&e));
    }
    let span = F::from(c.state.times[10] as u64) - F::from(c.state.start as u64);
    p.extend([span, F::from(WEEKS), from_int(&max_target()), F::from(c.state.times[5] as u64)]);
    p.dedup();
    p
}
fn attack<F: PrimeField + PrimeFieldBits>(t: &Template<F>, c: &Case) -> Result<Info, String> {
    let (h, hash) = (c.header.bytes(), arr(&c.hash));
    let token = sha(&h);
    let want = next(&c.state, &h, &hash);
    let mut fixed: Vec<(u32, F)> = t.ins.iter().cloned().zip(c.state.z::<F>()).collect();
    for (vs, by) in [(&t.bits[0], &h[..]), (&t.bits[1], &token[..]), (&t.bits[3], &hash[..])] {
        for ((v, neg), b) in vs.iter().zip(bits(by)) {
            fixed.push((*v, if b != *neg { F::ONE } else { F::ZERO }));
        }
    }
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(u64::from_le_bytes(token[..8].try_into().unwrap()));
    let start = t.sys.start(&fixed, &[]);
    let Ok(n) = want else {
        let fault = want.unwrap_err();
        let r = match start {
            None => Res::Exhausted,
            Some(st) => {
                let (hs, pool) = (hints(t, c), pool::<F>(c));
                match t.sys.search_hinted(&st, &hs, &pool, &mut rng, 8, &|_| true) {
                    Some(a) => Res::Found(a),
                    None => t.sys.search(st, &hs[0], &mut rng, 20, &|_| true),
                }
            }
        };
        return match r {
            Res::Found(_) => Err(format!("a witness exists for an invalid header (fault: {})", fault)),
            r => Ok(Info { nontrivial: matches!(r, Res::Exhausted), labels: vec![format!("invalid:{}:{}", fault, label(&r))] }),
        };
    };
    let Some(st) = start else { return Err("a valid header has no witness".into()) };
    let ref_out = n.z::<F>();
    let mut labels = vec![];
    // what is hashed second is the first digest
    let link: Vec<Option<F>> = t.bits[2].iter().map(|(v, _)| t.sys.known(&st, *v)).collect();
    if link.iter().all(|x| x.is_some()) {
        for (((_, neg), x), b) in t.bits[2].iter().zip(&link).zip(bits(&token)) {
            if *x != Some(if b != *neg { F::ONE } else { F::ZERO }) {
                return Err("the second hash is not of the first digest".into());
            }
        }
    } else {
        labels.push("link-unknown".into());
    }
    let (hs, pool) = (hints(t, c), pool::<F>(c));
    let outs = t.outs.clone();
    let wrong = |a: &[F]| outs.iter().zip(&ref_out).any(|(v, x)| a[*v as usize] != *x);
    for (k, v) in t.outs.iter().enumerate() {
        match t.sys.known(&st, *v) {
            Some(x) if x == ref_out[k] => labels.push("output-forced".to_string()),
            Some(x) => return Err(format!("output {} is forced to {}, expected {}", k, to_int(&x), to_int(&ref_out[k]))),
            None => {
                // propose wrong values
                let p = &ref_out[k];
                let alts = [*p + F::ONE, *p - F::ONE, F::ZERO, F::ONE, c.state.z::<F>()[k], F::from(u32::from_le_bytes(token[..4].try_into().unwrap()) as u64)];
                for a in alts.iter().filter(|a| *a != p) {
                    let r = match t.sys.start(&fixed, &[(Lc::var(*v), *a)]) {
                        None => Res::Exhausted,
                        Some(st) => match t.sys.search_hinted(&st, &hs, &pool, &mut rng, 4, &|_| true) {
                            Some(a) => Res::Found(a),
                            None => Res::Budget,
                        },
                    };
                    if let Res::Found(_) = r {
                        return Err(format!("output {} can be {}, expected {}", k, to_int(a), to_int(p)));
                    }
                    labels.push(format!("output-proposed:{}", label(&r)));
                }
            }
        }
    }
    if t.outs.iter().any(|v| t.sys.known(&st, *v).is_none()) {
        match t.sys.search_hinted(&st, &hs, &pool, &mut rng, 8, &wrong) {
            Some(a) => {
                let k = (0..16).find(|k| a[outs[*k] as usize] != ref_out[*k]).unwrap();
                return Err(format!("output {} can be {}, expected {}", k, to_int(&a[outs[k] as usize]), to_int(&ref_out[k])));
            }
            None => labels.push("outputs:none-in-budget".into()),
        }
        // the honest witness has to be found
        if t.sys.search_hinted(&st, &hs, &pool, &mut rng, 2, &|_| true).is_none() {
            labels.push("HONEST-NOT-FOUND".into());
        }
    } else {
        labels.push("outputs:forced".into());
    }
    let forced = labels.iter().filter(|l| *l == "output-forced").count();
    Ok(Info { nontrivial: forced >= 12, labels })
}

/// Valid except for one thing, and that only just.
fn one_fault() -> BoxedStrategy<Case> {
    (valid_case(STEP_FIELDS as u8), 0u8..12, any::<u32>(), nat(224))
        .prop_map(|(mut c, kind, k, big)| {
            let mut h = c.header.bytes();
            let (bits, med) = (u32_at(&h, 72), median(&c.state.times));
            let s = &mut c.state;
            let span = s.times[10] as i64 - s.start as i64;
            let near = |x: &BigInt| match k % 4 {
                0 => x + 1u8,
                1 => (x - 1u8).max(BigInt::from(0)),
                2 => x ^ p2(k as usize / 4 % 224),
                _ => big.0.clone(),
            };
            match kind {
                0 | 1 => s.hash = Z(near(&s.hash.0) % p2(224)),
                2 | 3 => h[68..72].copy_from_slice(&med.saturating_sub([0, 1, k / 8 % 5000, k / 8][k as usize % 4]).to_le_bytes()),
                4 if s.counter != 0 => s.target = Z(expand(compact(&near(&s.target.0).max(BigInt::from(0x8000)))).min(max_target())),
                5 if s.counter != 0 => s.target = Z(near(&s.target.0).max(BigInt::from(1)).min(max_target())),
                4 | 5 => s.start = s.start.wrapping_add(1 + k % 5000),
                6 | 7 if s.counter == 0 => {
                    // the target an impossible span would give
                    let bad = [WEEKS as i64 / 4, WEEKS as i64 * 4, WEEKS as i64 / 4 - 1 - (k / 8 % 300_000) as i64, WEEKS as i64 * 4 + (k / 8 % 5_000_000) as i64][k as usize % 4];
                    s.times[10] = s.times[10].max(bad.max(0) as u32);
                    s.start = (s.times[10] as i64 - bad) as u32;
                    let m = median(&s.times);
                    if u32_at(&h, 68) <= m {
                        h[68..72].copy_from_slice(&m.saturating_add(1).to_le_bytes());
                    }
                    let t: BigInt = &s.target.0 * BigInt::from(bad) / BigInt::from(WEEKS);
                    h[72..76].copy_from_slice(&compact(&t.min(max_target())).to_le_bytes());
                }
                8 if s.counter == 0 => {
                    // the old target instead of the new one
                    h[72..76].copy_from_slice(&compact(&s.target.0).to_le_bytes())
                }
                8 => {
                    // the new target in the middle of an epoch
                    let t: BigInt = &s.target.0 * BigInt::from(span.max(1)) / BigInt::from(WEEKS);
                    h[72..76].copy_from_slice(&compact(&t.min(max_target())).to_le_bytes());
                }
                9 => h[72..76].copy_from_slice(&((bits & 0x7f_ffff) >> 8 | ((bits >> 24) + 1) << 24).to_le_bytes()),
                10 => h[72..76].copy_from_slice(&(bits ^ 1 << (k % 32)).to_le_bytes()),
                _ => c.hash = hex(&le32(&(expand(bits) + if k % 2 == 0 { 0 } else { k / 8 }).min(p2(224) - 1u8))),
            }
            if kind != 11 {
                let t = expand(u32_at(&h, 72));
                if le(&arr(&c.hash)) >= t {
                    c.hash = hex(&le32(&(t.max(BigInt::from(1)) - 1u8)));
                }
            }
            c.header = hex(&h);
            c
        })
        .boxed()
}

fn run(ctx: &Ctx) {
    if hook_works() {
        ctx.check("forge_one_fault", ctx.n(600), one_fault, |c| {
            with_step_field!(c.field, F => with::<F, _>(c.field, |t| attack::<F>(t, c)).and_then(|r| r))
        });
    }
    if hook_works() {
        ctx.check("forge_step", ctx.n(400), || case(STEP_FIELDS as u8), |c| {
            with_step_field!(c.field, F => with::<F, _>(c.field, |t| attack::<F>(t, c)).and_then(|r| r))
        });
    }
}
