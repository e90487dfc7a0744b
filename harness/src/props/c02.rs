//! State transition: the step folded over chains, against the reference client.
use super::c01::*;
use super::Prop;
use crate::btc::*;
use crate::gen::*;
use crate::run::{Ctx, Info};
use crate::with_step_field;
use ff::{PrimeField, PrimeFieldBits};
use num_bigint::BigInt;
use num_traits::One;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "Model-based histories: a random initial state (any timestamps, counter weighted to 0, 1, 2014, 2015) and a list of block commands (time step, hash, version, merkle root, nonce; now and then a fault). Each header is built for the reference client's current state, so histories cross retargets and epoch ends; after every step all 16 outputs are compared with the reference and fed into the next step, a faulty header must be refused and leaves the state. `long` folds more than a whole epoch of 2016 blocks; `mined` folds real-SHA-256 headers. Non-trivial: at least two headers were accepted (one in `single`).",
    assumptions: &["state hash < 2^224, state target at most the difficulty-1 target, 32-bit timestamps, counter 0..2015", "in stand_in runs SHA-256 is replaced by an arbitrary function"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmd {
    pub dt: i64,
    pub hash: Z,
    pub hash_kind: u8,
    pub version: u32,
    pub merkle: Hex,
    pub nonce: u32,
    pub fault: Option<(u8, u32, Z)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub field: u8,
    pub init: State,
    pub cmds: Vec<Cmd>,
}
pub fn cmd() -> BoxedStrategy<Cmd> {
    (
        prop_oneof![3 => Just(1i64), 3 => 1i64..1200, 2 => 1i64..20_000, 1 => 100_000i64..4_000_000, 1 => Just(i64::MAX)],
        nat(224),
        0u8..5,
        any::<u32>(),
        prop::collection::vec(any::<u8>(), 32),
        any::<u32>(),
        prop::option::weighted(0.15, (0u8..24, any::<u32>(), nat(256))),
    )
        .prop_map(|(dt, hash, hash_kind, version, merkle, nonce, fault)| Cmd { dt, hash, hash_kind, version, merkle: hex(&merkle), nonce, fault })
        .boxed()
}
/// The next header for this state as the command says, and its hash.
pub fn forge_block(s: &State, c: &Cmd) -> Option<(Vec<u8>, BigInt)> {
    let target = expected(s)?;
    if target == BigInt::from(0) || expand(compact(&target)) != target {
        return None;
    }
    let time = (median(&s.times) as i64).saturating_add(c.dt).min(u32::MAX as i64) as u32;
    let hash = match c.hash_kind {
        0 => &target - 1u8,
        1 => BigInt::from(0),
        _ => &c.hash.0 % &target,
    };
    Some((build(c.version, &s.hash.0, &c.merkle.bytes(), time, compact(&target), c.nonce), hash))
}
pub fn history(fields: u8, max: usize) -> BoxedStrategy<History> {
    // a state near an epoch boundary
    let init = (state(), prop_oneof![3 => 2008u32..2016, 1 => Just(0u32), 1 => 0u32..2016], any::<bool>()).prop_map(|(mut s, c, compacted)| {
        s.counter = c;
        if compacted || c != 0 {
            s.target = Z(expand(compact(&s.target.0)).max(BigInt::one()));
        }
        s
    });
    (0..fields, init, prop::collection::vec(cmd(), 2..max)).prop_map(|(field, init, cmds)| History { field, init, cmds }).boxed()
}
fn fold<F: PrimeField + PrimeFieldBits>(h: &History, real: bool) -> Result<Info, String> {
    let modulus = crate::fields::modulus::<F>();
    let mut model = h.init.clone();
    let mut zs: Vec<F> = h.init.z();
    let mut accepted = 0;
    let mut labels = vec![];
    for (i, c) in h.cmds.iter().enumerate() {
        let Some((mut head, mut hash)) = forge_block(&model, c) else {
            labels.push("no-valid-successor".into());
            break;
        };
        if let Some(m) = &c.fault {
            let mut st = model.clone();
            mutate(&mut st, &mut head, &mut hash, &modulus, m);
            hash %= p2(256);
        }
        let hash = le32(&hash);
        let want = next(&model, &head, &hash);
        let got = accept::<F>(&zs, &head, if real { None } else { Some(&hash) });
        match (want, got) {
            (Ok(n), Ok(out)) => {
                let w = n.z::<F>();
                if let Some(k) = (0..16).find(|k| w[*k] != out[*k]) {
                    return Err(format!("step {} (counter {}): output {} is {}, expected {}", i, model.counter, k, show(&out[k..k + 1]), show(&w[k..k + 1])));
                }
                accepted += 1;
                labels.push(match model.counter {
                    0 => "epoch-start".to_string(),
                    2015 => "epoch-end".to_string(),
                    _ => "inside-epoch".to_string(),
                });
                model = n;
                zs = out;
            }
            (Err(e), Err(_)) => labels.push(format!("refused:{}", e)),
            (Ok(_), Err(e)) => return Err(format!("step {} (counter {}): valid header refused ({})", i, model.counter, e)),
            (Err(e), Ok(_)) => return Err(format!("step {} (counter {}): invalid header accepted (fault: {})", i, model.counter, e)),
        }
    }
    Ok(Info { nontrivial: accepted >= 2, labels })
}
fn single<F: PrimeField + PrimeFieldBits>(c: &Case) -> Result<Info, String> {
    let (h, hash) = (c.header.bytes(), arr(&c.hash));
    let Ok(n) = next(&c.state, &h, &hash) else { return Ok(Info::default()) };
    let out = accept::<F>(&c.state.z(), &h, Some(&hash)).map_err(|e| format!("valid header refused ({})", e))?;
    let w = n.z::<F>();
    match (0..16).find(|k| w[*k] != out[*k]) {
        Some(k) => Err(format!("counter {}: output {} is {}, expected {}", c.state.counter, k, show(&out[k..k + 1]), show(&w[k..k + 1]))),
        None => Ok(Info { nontrivial: true, labels: vec![format!("counter:{}", match c.state.counter { 0 => "0", 2015 => "2015", _ => "other" })] }),
    }
}
/// One command per block of a history longer than an epoch.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    field: u8,
    init: State,
    seed: u64,
    blocks: usize,
}
fn long(l: &Long) -> History {
    use rand::{Rng, SeedableRng};
    let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(l.seed);
    // around ten minutes per block past the median, so that the spans stay inside the limits
    let cmds = (0..l.blocks)
        .map(|_| Cmd {
            dt: r.gen_range(1200..6600),
            hash: Z(BigInt::from(r.gen::<u64>()) * BigInt::from(r.gen::<u64>()) * BigInt::from(r.gen::<u64>())),
            hash_kind: 3,
            version: r.gen(),
            merkle: hex(&r.gen::<[u8; 32]>()),
            nonce: r.gen(),
            fault: None,
        })
        .collect();
    History { field: l.field, init: l.init.clone(), cmds }
}
/// A run of the mined chain with the real hash function.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mined {
    pub field: u8,
    pub genesis: bool,
    pub from: usize,
    pub to: usize,
    pub init: State,
}
pub fn mined_state(first: &[u8], counter: u32, times: &[u32], back: u32, work: &Z) -> State {
    let f = parse(first);
    let target = expand(f.bits);
    let mut times = times.to_vec();
    times.iter_mut().for_each(|t| *t = f.time - 1 - *t % 7200);
    // a span of just two weeks, or enough for the cap
    let start = times[10] - WEEKS as u32 - back % 500_000;
    State { hash: Z(f.prev.clone()), times, target: Z(target), start, counter, work: work.clone() }
}
fn fold_mined<F: PrimeField + PrimeFieldBits>(m: &Mined) -> Result<Info, String> {
    let all = if m.genesis { &corpus().genesis } else { &corpus().chain };
    let mut model = m.init.clone();
    let mut zs: Vec<F> = model.z();
    let mut n = 0;
    for h in &all[m.from..m.to] {
        let Ok(next) = next(&model, h, &sha_d(h)) else { break };
        let out = accept::<F>(&zs, h, None).map_err(|e| format!("header {}: valid header refused ({})", n, e))?;
        let w = next.z::<F>();
        if let Some(k) = (0..16).find(|k| w[*k] != out[*k]) {
            return Err(format!("header {} (counter {}): output {} is {}, expected {}", n, model.counter, k, show(&out[k..k + 1]), show(&w[k..k + 1])));
        }
        model = next;
        zs = out;
        n += 1;
    }
    Ok(Info { nontrivial: n >= 2, labels: vec![format!("headers={}", n)] })
}

fn run(ctx: &Ctx) {
    let f = STEP_FIELDS as u8;
    if hook_works() {
        ctx.check("single", ctx.n(6000), || valid_case(f), |c| with_step_field!(c.field, F => single::<F>(c)));
        ctx.check("fold", ctx.n(1500), || history(f, 12), |h| with_step_field!(h.field, F => fold::<F>(h, false)));
        let longs = || {
            (0..f, state(), prop_oneof![Just(0u32), 0u32..2016], any::<u64>()).prop_map(|(field, mut init, counter, seed)| {
                init.target = Z(expand(compact(&init.target.0)).max(max_target() >> 20u8));
                init.counter = counter;
                let last = 1_400_000_000 + (seed % 100_000_000) as u32;
                init.times = (0..11).map(|i| last - 600 * (10 - i)).collect();
                init.start = last - 600 * if counter == 0 { 2016 } else { counter };
                Long { field, init, seed, blocks: 2100 }
            })
        };
        ctx.check("long", ctx.n(4), longs, |l| with_step_field!(l.field, F => fold::<F>(&long(l), false)));
    }
    let mined = || {
        let c = corpus();
        (0..f, any::<bool>(), 0usize..100, 0usize..100, counter(), prop::collection::vec(any::<u32>(), 11), any::<u32>(), nat(200)).prop_map(move |(field, genesis, a, b, k, times, back, work)| {
            let all = if genesis { &c.genesis } else { &c.chain };
            let from = a % (all.len() - 1);
            let to = from + 2 + b % (all.len() - 1 - from);
            let k = if k > 1 && b % 2 == 0 { 2014 + (b as u32 / 2) % 2 } else { k };
            Mined { field, genesis, from, to, init: mined_state(&all[from], k, &times, back, &work) }
        })
    };
    ctx.check("mined", ctx.n(240), mined, |m| with_step_field!(m.field, F => fold_mined::<F>(m)));
}
