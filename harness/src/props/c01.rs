//! Acceptance of headers by the step, against the reference client.
use super::Prop;
use crate::btc::*;
use crate::gen::*;
use crate::run::{Ctx, Info};
use crate::with_step_field;
use ff::{PrimeField, PrimeFieldBits};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "Random chain states (timestamps in any order, with ties, near 0 and 2^32; counters 0, 1, 2014, 2015 and others; retarget spans inside, at and outside the limits) with a header built to be valid for them, then 0 to 2 mutations of header, hash or state (boundary timestamps, non-canonical or neighbouring nBits, hash at and around the target or congruent modulo the field, wrong prev-hash). The reference client decides validity; the step must agree. `stand_in` runs put the hash under the generator's control through the verif_hash hook; `mined` runs use the real SHA-256 on mined and historic headers. Non-trivial: the header is valid, or has exactly one fault.",
    assumptions: &["state hash < 2^224, state target at most the difficulty-1 target, 32-bit timestamps, counter 0..2015", "in stand_in runs SHA-256 is replaced by an arbitrary function"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub field: u8,
    pub state: State,
    pub header: Hex,
    pub hash: Hex,
}

pub fn arr(h: &Hex) -> [u8; 32] {
    h.bytes().try_into().unwrap()
}

/// Canonical nBits of some target.
pub fn nbits() -> BoxedStrategy<u32> {
    let e = prop_oneof![4 => Just(29u32), 3 => 24u32..29, 3 => 3u32..=29];
    let m = prop_oneof![
        3 => 0x8000u32..=0x7f_ffff,
        2 => 0x8000u32..=0xffff,
        1 => Just(0x8000u32), 1 => Just(0x7f_ffffu32), 1 => Just(0xffffu32), 1 => Just(0x1_0000u32),
        1 => (0x80u32..=0xffff).prop_map(|x| (x << 8) & 0x7f_ffff | 0x8000)
    ];
    (e, m).prop_map(|(e, m)| e << 24 | if e == 29 { 0x8000 | m & 0x7fff } else { m.max(0x8000) }).boxed()
}

/// Eleven timestamps.
pub fn times() -> BoxedStrategy<Vec<u32>> {
    let base = prop_oneof![6 => 1_230_000_000u32..1_800_000_000, 1 => 0u32..20, 1 => (u32::MAX - 4_900_000)..u32::MAX, 2 => any::<u32>()];
    (base, prop_oneof![2 => Just(4u32), 1 => Just(0u32), 4 => Just(7200u32), 1 => Just(u32::MAX)], prop::collection::vec(any::<u32>(), 11), any::<bool>())
        .prop_map(|(b, spread, offs, sorted)| {
            let mut v: Vec<u32> = offs.iter().map(|o| b.saturating_add(if spread == u32::MAX { *o } else { o % (spread + 1) })).collect();
            if sorted {
                v.sort();
            }
            v
        })
        .boxed()
}
pub fn counter() -> BoxedStrategy<u32> {
    prop_oneof![5 => Just(0u32), 1 => Just(1u32), 1 => Just(2014u32), 2 => Just(2015u32), 3 => 0u32..2016].boxed()
}
pub fn span() -> BoxedStrategy<i64> {
    let w = WEEKS as i64;
    prop_oneof![
        4 => (w / 4 + 1)..(4 * w),
        1 => Just(w / 4), 1 => Just(w / 4 + 1), 1 => Just(4 * w - 1), 1 => Just(4 * w),
        2 => (w - 3)..(w + 3),
        1 => 0i64..10_000_000,
        1 => -3i64..3,
        1 => -4_000_000_000i64..4_000_000_000
    ]
    .boxed()
}
/// Old target: mostly a compact one, sometimes any number up to the maximum.
pub fn old_target() -> BoxedStrategy<Z> {
    prop_oneof![
        5 => nbits().prop_map(|b| Z(expand(b))),
        2 => below(&max_target()).prop_map(|x| Z(x.0 + 1)),
        1 => Just(Z(max_target())),
    ]
    .boxed()
}
pub fn state() -> BoxedStrategy<State> {
    (below(&p2(224)), times(), old_target(), counter(), span(), prop_oneof![nat(64), nat(250)])
        .prop_map(|(hash, mut times, target, counter, span, work)| {
            let last = times[10] as i64;
            // mostly move the last timestamp when the start would be negative
            let mut start = last - span;
            if start < 0 && span > 0 && span < 1 << 32 {
                times[10] = span as u32;
                start = 0;
            }
            State { hash, times, target, start: start.clamp(0, u32::MAX as i64) as u32, counter, work }
        })
        .boxed()
}
#[derive(Clone, Debug)]
pub struct Parts {
    pub version: u32,
    pub merkle: Vec<u8>,
    pub nonce: u32,
    pub dt: u32,
    pub hash: (u8, Z),
    pub muts: Vec<(u8, u32, Z)>,
}
pub fn parts() -> BoxedStrategy<Parts> {
    (
        any::<u32>(),
        prop::collection::vec(any::<u8>(), 32),
        any::<u32>(),
        prop_oneof![2 => Just(1u32), 2 => 1u32..10_000, 1 => any::<u32>()],
        (0u8..5, nat(224)),
        prop_oneof![3 => Just(0usize), 5 => Just(1usize), 1 => Just(2usize)].prop_flat_map(|n| prop::collection::vec((prop_oneof![24 => 0u8..24, 1 => Just(30u8)], any::<u32>(), nat(256)), n)),
    )
        .prop_map(|(version, merkle, nonce, dt, hash, muts)| Parts { version, merkle, nonce, dt, hash, muts })
        .boxed()
}
/// A header valid for the state if there is one, with its hash.
pub fn valid_header(s: &State, p: &Parts) -> (Vec<u8>, BigInt) {
    let target = expected(s).unwrap_or_else(|| s.target.0.clone());
    let bits = compact(&target);
    let time = median(&s.times).saturating_add(p.dt.max(1));
    let target = expand(bits).max(BigInt::one());
    let hash = match p.hash.0 {
        0 => &target - 1u8,
        1 => BigInt::zero(),
        2 => &target - 1u8 - (&p.hash.1 .0 % 5u8).min(&target - 1u8),
        _ => &p.hash.1 .0 % &target,
    };
    (build(p.version, &s.hash.0, &p.merkle, time, bits, p.nonce), hash)
}
pub fn mutate(s: &mut State, h: &mut Vec<u8>, hash: &mut BigInt, p: &BigInt, m: &(u8, u32, Z)) {
    let (kind, k, big) = m;
    let set = |h: &mut Vec<u8>, at: usize, v: u32| h[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let bits = u32_at(h, 72);
    let med = median(&s.times);
    let top = p2(256);
    match kind {
        0 => h[4 + (*k as usize / 8) % 32] ^= 1 << (k % 8),
        1 => {
            // congruent previous hash
            let a = &s.hash.0 + p * (1 + k % 4);
            if a < top {
                h[4..36].copy_from_slice(&le32(&a));
            }
        }
        2 => h[4..36].reverse(),
        3 => set(h, 68, med),
        4 => set(h, 68, med.wrapping_sub(1)),
        5 => set(h, 68, med.swap_bytes()),
        6 => set(h, 68, *k),
        7 => set(h, 72, bits ^ 1 << (k % 32)),
        8 => {
            // the same number one byte up
            set(h, 72, (bits & 0x7f_ffff) >> 8 | ((bits >> 24) + 1) << 24)
        }
        9 => set(h, 72, (bits & 0x7f_ffff) << 8 & 0xff_ffff | ((bits >> 24).wrapping_sub(1)) << 24),
        10 => set(h, 72, bits.wrapping_add(k % 3).wrapping_sub(1)),
        11 => set(h, 72, *k),
        12 => {
            // hash around the target
            *hash = expand(bits) + BigInt::from(k % 3) - BigInt::one();
            if *hash < BigInt::zero() {
                *hash = BigInt::zero();
            }
        }
        13 => {
            let a = &*hash + p * (1 + k % 4);
            if a < top {
                *hash = a;
            }
        }
        14 => *hash = big.0.clone(),
        15 => *hash += p2(224 + *k as usize % 32),
        16 => s.target = Z(expand(compact(&s.target.0).wrapping_add(k % 3).wrapping_sub(1)).max(BigInt::one()).min(max_target())),
        17 => s.counter = if s.counter == 0 { 1 + k % 2015 } else { 0 },
        18 => s.start = s.start.wrapping_add(1 + k % 4).wrapping_sub(2),
        19 => {
            let i = *k as usize % 11;
            s.times[i] = u32_at(h, 68).wrapping_add(k / 16 % 3).wrapping_sub(1)
        }
        20 => set(h, 72, compact(&max_target()) | 0x100_0000 * (k % 3)),
        21 => {
            // the untruncated or uncapped target, encoded anyway
            let t: BigInt = &s.target.0 * BigInt::from((s.times[10] as i64 - s.start as i64).max(0)) / BigInt::from(WEEKS);
            set(h, 72, compact(&t).wrapping_add(k % 2))
        }
        30 => {
            // canonical, with an exponent below 3
            let t = 1 + k % 0x7fff;
            s.target = Z(BigInt::from(t));
            s.counter = s.counter.max(1);
            set(h, 72, compact(&s.target.0));
            *hash = BigInt::from(k / 0x7fff % t);
        }
        22 => s.target = Z(&s.target.0 ^ BigInt::one() << (*k as usize % 224)).clone(),
        _ => set(h, 72, compact(&s.target.0)),
    }
    s.target = Z(s.target.0.clone().max(BigInt::one()).min(max_target()));
}
pub fn case(fields: u8) -> BoxedStrategy<Case> {
    (0..fields, state(), parts())
        .prop_map(|(field, mut s, p)| {
            let modulus = with_step_field!(field, F => crate::fields::modulus::<F>());
            let (mut h, mut hash) = valid_header(&s, &p);
            for m in &p.muts {
                mutate(&mut s, &mut h, &mut hash, &modulus, m);
            }
            hash = hash % p2(256);
            Case { field, state: s, header: hex(&h), hash: hex(&le32(&hash)) }
        })
        .boxed()
}
/// A state with a successor, and that successor.
pub fn valid_case(fields: u8) -> BoxedStrategy<Case> {
    (0..fields, state(), parts(), 302_401i64..4_838_400)
        .prop_map(|(field, mut s, p, span)| {
            if s.counter == 0 && expected(&s).is_none() {
                s.times[10] = s.times[10].max(5_000_000);
                s.start = (s.times[10] as i64 - span) as u32;
            }
            if s.counter != 0 || expected(&s).map_or(true, |t| t < BigInt::from(0x8000)) {
                s.target = Z(expand(compact(&s.target.0.clone().max(BigInt::from(0x80_0000)))));
            }
            if median(&s.times) == u32::MAX {
                s.times.iter_mut().for_each(|t| *t -= 77);
                s.start -= 77;
            }
            let (h, hash) = valid_header(&s, &p);
            Case { field, state: s, header: hex(&h), hash: hex(&le32(&hash)) }
        })
        .boxed()
}

fn faults(c: &Case) -> usize {
    let h = c.header.bytes();
    let f = parse(&h);
    let t = expand(f.bits);
    let e = f.bits >> 24;
    let nb = f.bits & 0x80_0000 != 0 || !(3..=29).contains(&e) || compact(&t) != f.bits || t > max_target();
    [f.prev != c.state.hash.0, nb, le(&arr(&c.hash)) >= t, f.time <= median(&c.state.times), expected(&c.state) != Some(t)].iter().filter(|x| **x).count()
}
fn decide<F: PrimeField + PrimeFieldBits>(c: &Case, real: bool) -> Result<Info, String> {
    let h = c.header.bytes();
    let hash = arr(&c.hash);
    let want = next(&c.state, &h, &hash);
    let got = accept::<F>(&c.state.z(), &h, if real { None } else { Some(&hash) });
    let label = match (&want, &got) {
        (Ok(_), Ok(_)) => format!("accepted:{}", if c.state.counter == 0 { "retarget" } else { "same-target" }),
        (Err(e), Err(_)) => format!("refused:{}", e),
        (Ok(_), Err(e)) => return Err(format!("valid header refused ({})", e)),
        (Err(e), Ok(_)) => return Err(format!("invalid header accepted (fault: {})", e)),
    };
    let n = faults(c);
    Ok(Info { nontrivial: n <= 1, labels: vec![label, format!("faults={}", n.min(2))] })
}

/// A real header with a state it is valid for (the alias ones and mutated ones are not).
pub fn mined_case(fields: u8) -> BoxedStrategy<Case> {
    let c = corpus();
    let pick = prop_oneof![
        5 => (0..c.singles.len()).prop_map(|i| (0u8, c.singles[i].clone())),
        2 => (0..c.chain.len() + c.genesis.len()).prop_map(|i| (0u8, c.chain.iter().chain(&c.genesis).nth(i).unwrap().clone())),
        3 => (0..c.alias.len()).prop_map(|i| (1u8, c.alias[i].clone())),
    ];
    let muts = prop_oneof![2 => Just(0usize), 3 => Just(1usize), 1 => Just(2usize)].prop_flat_map(|n| prop::collection::vec((0u8..30, any::<u32>(), nat(256)), n));
    (0..fields, pick, times(), counter(), 302_401i64..4_838_400, nat(200), muts)
        .prop_map(|(field, (kind, mut h), mut times, counter, span, work, muts)| {
            let field = if kind == 1 { 0 } else { field };
            let modulus = with_step_field!(field, F => crate::fields::modulus::<F>());
            let f = parse(&h);
            let (time, bits) = (f.time, f.bits);
            times.sort();
            for i in 0..6 {
                times[i] = times[i] % time;
            }
            times.rotate_left((time % 11) as usize);
            // an old target that leads to the header's: the same, or scaled back
            let target = expand(bits).min(max_target()).max(BigInt::one());
            let (mut old, mut start) = (target.clone(), 0u32);
            if counter == 0 {
                let last = times[10];
                if last < 302_401 {
                    times[10] = 5_000_000 + last;
                }
                let room = (times[10] as i64).min(span);
                start = (times[10] as i64 - room) as u32;
                old = (&target * BigInt::from(WEEKS) + BigInt::from(room) - 1u8) / BigInt::from(room);
                if old > max_target() {
                    old = target.clone();
                    start = (times[10] as i64 - WEEKS as i64).max(0) as u32;
                }
            }
            let mut s = State { hash: Z(f.prev.clone()), times, target: Z(old), start, counter, work };
            let mut hash = BigInt::zero();
            for m in &muts {
                match m.0 {
                    24 => {
                        // any bit of the header
                        let k = m.1 as usize % 640;
                        h[k / 8] ^= 1 << (k % 8);
                    }
                    25 => h[76..80].copy_from_slice(&m.1.to_le_bytes()),
                    26 => h[..4].copy_from_slice(&m.1.to_le_bytes()),
                    27 => {
                        // any hash is below such a target
                        h[72..76].copy_from_slice(&(0x2000_ffffu32 | m.1 << 24 & 0x0f00_0000 | m.1 & 0x3f_0000).to_le_bytes());
                        s.counter = 1 + m.1 % 2015;
                    }
                    28 => h[36..68].rotate_left(1 + m.1 as usize % 31),
                    29 => {
                        // a looser target than the mined one
                        h[72..76].copy_from_slice(&0x1d00_ffffu32.to_le_bytes());
                        s.target = Z(max_target());
                        s.counter = s.counter.max(1);
                    }
                    _ => mutate(&mut s, &mut h, &mut hash, &modulus, m),
                }
            }
            let hash = sha_d(&h);
            Case { field, state: s, header: hex(&h), hash: hex(&hash) }
        })
        .boxed()
}

/// Does the step ask the stand-in? Decided on one valid header.
pub fn hook_works() -> bool {
    type F = pasta_curves::Fq;
    let s = State { hash: Z(z(5)), times: (0..11).map(|i| 1_300_000_000 + i).collect(), target: Z(max_target()), start: 1_299_000_000, counter: 7, work: Z(z(9)) };
    let h = build(1, &z(5), &[7; 32], 1_300_000_100, 0x1d00ffff, 3);
    match synth::<F>(crate::cs::RecCS::new(), &s.z(), &h, Some(&le32(&z(12345)))) {
        Ok(st) => hooked(&st.calls),
        Err(_) => {
            // refused: see whether the hook recorded anything with no witness
            match synth::<F>(crate::cs::RecCS::shape_only(), &s.z(), &h, Some(&le32(&z(12345)))) {
                Ok(st) => hooked(&st.calls),
                Err(_) => true,
            }
        }
    }
}

fn run(ctx: &Ctx) {
    if hook_works() {
        ctx.check("stand_in", ctx.n(20000), || case(STEP_FIELDS as u8), |c| with_step_field!(c.field, F => decide::<F>(c, false)));
    }
    ctx.check("mined", ctx.n(1600), || mined_case(STEP_FIELDS as u8), |c| with_step_field!(c.field, F => decide::<F>(c, true)));
}
