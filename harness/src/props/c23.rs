//! The circuits made from a list of headers, and the starting state that ships with them.
use super::c01::hook_works;
use super::Prop;
use crate::btc::*;
use crate::cs::RecCS;
use crate::fields::to_int;
use crate::gen::*;
use crate::run::{ok, okl, quiet, Ctx, Info};
use crate::with_step_field;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::ConstraintSystem;
use ff::{PrimeField, PrimeFieldBits};
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigInt;
use num_traits::Num;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::btc_validation::header_step::BlockHeader;
use validate_btc_header::verif_hash::{set_stand_in, take_calls};

pub const PROP: Prop = Prop {
    id: "C23",
    rule: "Random lists of headers (up to 9000, some of them equal) become circuits; up to 5 of them are run on a state its header is valid for, with a stand-in hash, and must hash its own 80 bytes and output its own hash; lists of arbitrary 80-byte headers (blank, equal, sparse) are counted, and one of their circuits is synthesized without a witness. The starting state is compared with the chain's values in every field; the real header of block 123456, as it is or with random changes, is offered to it or to a random change of it, with the real hash, and the reference client decides. Non-trivial: a list of at least two headers; a changed header or state.",
    assumptions: &["the timestamps of blocks 122976 and 123445 to 123455 are those written in the pinned commit"],
    run,
};

const BLOCK_123456: &str = "010000009500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b0000000000006cd862370395dedf1da2841ccda0fc489e3039de5f1ccddef0e834991a65600ea6c8cb4db3936a1ae3143991";

/// The chain after block 123455, with work counted from there.
fn start_state() -> State {
    State {
        hash: Z(BigInt::from_str_radix("0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095", 16).unwrap()),
        times: vec![1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301, 1305200460, 1305200584],
        target: Z(expand(0x1a6a93b3)),
        start: 1304975844,
        counter: 123456 % 2016,
        work: Z(z(0)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct List {
    field: u8,
    headers: Vec<(u32, u64, Vec<u8>, u32, u8, u32)>,
    /// the list is made of these headers, repeated in an order that depends on this
    length: usize,
    order: u64,
}
fn list() -> BoxedStrategy<List> {
    let header = (
        prop_oneof![3 => any::<u32>(), 1 => Just(0), 1 => Just(1)],
        prop_oneof![3 => any::<u64>(), 1 => Just(0)],
        prop_oneof![3 => prop::collection::vec(any::<u8>(), 32), 1 => (0usize..1).prop_map(|_| vec![0; 32])],
        20u32..,
        0u8..60,
        prop_oneof![3 => any::<u32>(), 1 => Just(0)],
    );
    let length = prop_oneof![4 => 0usize..8, 1 => 8usize..100, 1 => 100usize..9000];
    (0u8..STEP_FIELDS as u8, prop::collection::vec(header, 1..7), length, any::<u64>()).prop_map(|(field, headers, length, order)| List { field, headers, length, order }).boxed()
}
fn circuits<F: PrimeField + PrimeFieldBits>(l: &List) -> Result<Info, String> {
    let mut states = vec![];
    let mut headers = vec![];
    for (version, prev, merkle, time, k, nonce) in &l.headers {
        let prev = z(*prev) << 60usize;
        let target = expand(compact(&(max_target() >> *k as usize)));
        states.push(State { hash: Z(prev.clone()), times: (0..11).map(|i| time - 12 + i).collect(), target: Z(target.clone()), start: 5, counter: 9, work: Z(z(0)) });
        headers.push(build(*version, &prev, merkle, *time, compact(&target), *nonce));
    }
    // an even order keeps the headers in sequence, an odd one mixes them; both repeat them
    let pick = |i: usize| (if l.order % 2 == 0 { i } else { (l.order as usize >> 1).wrapping_mul(i * i + 1) >> 7 }) % headers.len();
    let all = BlockHeader::<F>::new_blocks((0..l.length).map(|i| words(&headers[pick(i)])).collect());
    if all.len() != l.length {
        return Err(format!("{} circuits for {} headers", all.len(), l.length));
    }
    let some = (0..l.length).filter(|i| l.length < 5 || *i == 0 || *i == l.length - 1 || (l.order >> 20) as usize % l.length == *i);
    for place in some {
        let (c, i) = (&all[place], pick(place));
        if c.arity() != 16 {
            return Err(format!("arity {}", c.arity()));
        }
        // a small hash that depends on the header
        let mut hash = [0u8; 32];
        hash[..16].copy_from_slice(&sha(&headers[i])[..16]);
        stand_in(&headers[i], &hash);
        take_calls();
        let mut rec = RecCS::<F>::new();
        let zs: Vec<AllocatedNum<F>> = states[i].z::<F>().iter().enumerate().map(|(k, v)| AllocatedNum::alloc(rec.namespace(|| format!("z{}", k)), || Ok(*v)).unwrap()).collect();
        let r = quiet(|| c.synthesize(&mut rec, &zs).map_err(|e| e.to_string()));
        set_stand_in(None);
        let calls = take_calls();
        let outs = match r {
            Ok(Ok(o)) => o,
            Ok(Err(e)) | Err(e) => return Err(format!("circuit {} refuses its header: {}", i, e)),
        };
        if !rec.satisfied() {
            return Err(format!("circuit {} leaves a constraint unsatisfied for its header", i));
        }
        if outs.len() != 16 {
            return Err(format!("{} outputs", outs.len()));
        }
        let hashed: Vec<bool> = headers[i].iter().flat_map(|x| (0..8).map(move |k| x >> (7 - k) & 1 == 1)).collect();
        if !calls.iter().any(|c| c.0.iter().map(|b| b.get_value()).collect::<Option<Vec<bool>>>() == Some(hashed.clone())) {
            return Err(format!("circuit {} does not hash its header", i));
        }
        if outs[0].get_value().map(|v| to_int(&v)) != Some(le(&hash)) {
            return Err(format!("circuit {} outputs another hash", i));
        }
    }
    ok(l.length > 1)
}

/// Headers of any content, as many of them equal or blank as it may be: the circuits are as many, and
/// synthesized without a witness each hashes its own 80 bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AnyList {
    field: u8,
    headers: Vec<[u64; 10]>,
    place: u8,
    hook: bool,
}
fn any_list() -> BoxedStrategy<AnyList> {
    let hook = hook_works();
    let word = prop_oneof![2 => any::<u64>(), 2 => Just(0u64), 1 => Just(u64::MAX), 1 => 0u64..4, 1 => (0u32..64).prop_map(|i| 1 << i), 1 => any::<u32>().prop_map(|x| (x as u64) << 32)];
    let header = prop_oneof![4 => prop::array::uniform10(word), 1 => Just([0u64; 10])];
    let headers = prop::collection::vec(header, 0..12).prop_flat_map(|v| {
        let n = v.len();
        (Just(v), prop::collection::vec((0..n.max(1), 0..n.max(1)), 0..5))
    });
    (0u8..STEP_FIELDS as u8, headers, any::<u8>())
        .prop_map(move |(field, (mut headers, copies), place)| {
            for (a, b) in copies {
                if a < headers.len() {
                    headers[a] = headers[b];
                }
            }
            AnyList { field, headers, place, hook }
        })
        .boxed()
}
fn any_headers<F: PrimeField + PrimeFieldBits>(l: &AnyList) -> Result<Info, String> {
    let all = BlockHeader::<F>::new_blocks(l.headers.clone());
    if all.len() != l.headers.len() {
        return Err(format!("{} circuits for {} headers", all.len(), l.headers.len()));
    }
    if all.is_empty() || !l.hook {
        return ok(false);
    }
    let i = l.place as usize % all.len();
    let bytes: Vec<u8> = l.headers[i].iter().flat_map(|w| w.to_be_bytes()).collect();
    stand_in(&bytes, &[0u8; 32]);
    take_calls();
    let mut rec = RecCS::<F>::shape_only();
    let zs: Vec<AllocatedNum<F>> = (0..16).map(|k| AllocatedNum::alloc(rec.namespace(|| format!("z{}", k)), || Ok(F::ZERO)).unwrap()).collect();
    let r = quiet(|| all[i].synthesize(&mut rec, &zs).map(|_| ()).map_err(|e| e.to_string()));
    set_stand_in(None);
    let calls = take_calls();
    if let Err(e) | Ok(Err(e)) = r {
        return Err(format!("circuit {} fails without a witness: {}", i, e));
    }
    let hashed: Vec<bool> = bytes.iter().flat_map(|x| (0..8).map(move |k| x >> (7 - k) & 1 == 1)).collect();
    for c in calls.iter().filter(|c| c.0.len() == 640) {
        // the bits may be unknown without a witness
        if let Some(got) = c.0.iter().map(|b| b.get_value()).collect::<Option<Vec<bool>>>() {
            if got != hashed {
                return Err(format!("circuit {} hashes another header than its own", i));
            }
            return okl(true, &["hashed bits compared"]);
        }
    }
    okl(l.headers.len() > 1, &["counted"])
}

fn starting<F: PrimeField + PrimeFieldBits>() -> Result<Info, String> {
    let want = start_state().z::<F>();
    let got = BlockHeader::<F>::initial_z_i_scalars();
    if got.len() != 16 {
        return Err(format!("{} elements", got.len()));
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        if a != b {
            return Err(format!("element {} is {}, expected {}", i, to_int(a), to_int(b)));
        }
    }
    ok(true)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change {
    field: u8,
    /// bits of the header flipped
    flips: Vec<u16>,
    /// state element and what is added to it
    add: Vec<(u8, i32)>,
}
fn change() -> BoxedStrategy<Change> {
    (
        0u8..STEP_FIELDS as u8,
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(0u16..640, 1..3)],
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((0u8..16, prop_oneof![Just(1), Just(-1), -5000i32..5000, any::<i32>()]), 1..3)],
    )
        .prop_map(|(field, flips, add)| Change { field, flips, add })
        .boxed()
}
fn first_block<F: PrimeField + PrimeFieldBits>(c: &Change) -> Result<Info, String> {
    let mut h = Hex(BLOCK_123456.into()).bytes();
    for f in &c.flips {
        h[*f as usize / 8] ^= 1 << (f % 8);
    }
    let mut s = start_state();
    let mut zs = BlockHeader::<F>::initial_z_i_scalars();
    for (i, d) in &c.add {
        let i = *i as usize;
        let (big, small) = (BigInt::from(*d), |x: u32| (x as i64 + *d as i64).rem_euclid(1 << 32) as u32);
        let new = match i {
            0 => {
                s.hash = Z((&s.hash.0 + &big) % p2(224));
                s.hash.0.clone()
            }
            1..=11 => {
                s.times[i - 1] = small(s.times[i - 1]);
                s.times[i - 1].into()
            }
            12 => {
                s.target = Z((&s.target.0 + &big).min(max_target()));
                s.target.0.clone()
            }
            13 => {
                s.start = small(s.start);
                s.start.into()
            }
            14 => {
                s.counter = (s.counter as i64 + *d as i64).rem_euclid(2016) as u32;
                s.counter.into()
            }
            _ => {
                s.work = Z(BigInt::from(d.unsigned_abs()));
                s.work.0.clone()
            }
        };
        zs[i] = crate::fields::from_int(&new);
    }
    let want = next(&s, &h, &sha_d(&h));
    let got = accept::<F>(&zs, &h, None);
    match (want, got) {
        (Ok(n), Ok(g)) if n.z::<F>() == g => okl(!c.flips.is_empty() || !c.add.is_empty(), &["accepted"]),
        (Ok(n), Ok(g)) => Err(format!("next state {}, expected {}", show(&g), show(&n.z::<F>()))),
        (Ok(_), Err(e)) => Err(format!("refused: {}", e)),
        (Err(e), Ok(_)) => Err(format!("accepted, although: {}", e)),
        (Err(e), Err(_)) => okl(true, &[e]),
    }
}

fn run(ctx: &Ctx) {
    if hook_works() {
        ctx.check("circuits", ctx.n(1500), list, |l| with_step_field!(l.field, F => circuits::<F>(l)));
    }
    ctx.check("any_headers", ctx.n(1500), any_list, |l| with_step_field!(l.field, F => any_headers::<F>(l)));
    ctx.check("starting_state", 16, || 0u8..STEP_FIELDS as u8, |f| with_step_field!(*f, F => starting::<F>()));
    ctx.check("first_block", ctx.n(600), change, |c| with_step_field!(c.field, F => first_block::<F>(c)));
}
