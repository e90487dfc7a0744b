//! Nova end to end: chains of headers proved and verified, with tampering.
use super::c01::*;
use super::c02::*;
use super::Prop;
use crate::btc::*;
use crate::gen::*;
use crate::run::{quiet, Ctx, Info};
use ff::{Field, PrimeField, PrimeFieldBits};
use nova_snark::traits::circuit::TrivialCircuit;
use nova_snark::traits::snark::default_ck_hint;
use nova_snark::traits::Engine;
use nova_snark::{CompressedSNARK, PublicParams, RecursiveSNARK};
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use validate_btc_header::btc_validation::header_step::BlockHeader;
use validate_btc_header::verif_hash::{set_stand_in, take_calls};

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "Model-based histories proved with nova over four engines (Pallas/Vesta both ways, Bn256/Grumpkin, Secp256k1/Secq256k1): public parameters from a random header, one folding step per header of a random valid chain across epoch boundaries, verification after every step, whose result must be the reference client's state. Then tampering: another step count, another value of each component of the initial state, another secondary state, and invalid headers (one fault) offered as the next or the first step: verification must fail. Public parameters from two random headers must be the same. `chain` uses the stand-in hash, `mined` the real one on mined headers and the repository's example, `compressed` also the compressed proof. Non-trivial: at least one step was proved, verified and tampered with.",
    assumptions: &["nova's folding and its verifiers are correct", "state hash < 2^224, state target between 1 and the difficulty-1 target, 32-bit timestamps, counter 0..2015", "in stand-in runs SHA-256 is replaced by an arbitrary function"],
    run,
};

#[macro_export]
macro_rules! with_engines {
    ($i:expr, $a:ident, $b:ident => $e:expr) => {
        match $i {
            1 => { type $a = nova_snark::provider::VestaEngine; type $b = nova_snark::provider::PallasEngine; $e }
            2 => { type $a = nova_snark::provider::Bn256EngineIPA; type $b = nova_snark::provider::GrumpkinEngine; $e }
            3 => { type $a = nova_snark::provider::Secp256k1Engine; type $b = nova_snark::provider::Secq256k1Engine; $e }
            _ => { type $a = nova_snark::provider::PallasEngine; type $b = nova_snark::provider::VestaEngine; $e }
        }
    };
}
type C1<E1> = BlockHeader<<E1 as Engine>::Scalar>;
type C2<E2> = TrivialCircuit<<E2 as Engine>::Scalar>;
type PP<E1, E2> = PublicParams<E1, E2, C1<E1>, C2<E2>>;
type Rec<E1, E2> = RecursiveSNARK<E1, E2, C1<E1>, C2<E2>>;
type EE<E> = nova_snark::provider::ipa_pc::EvaluationEngine<E>;
type S<E> = nova_snark::spartan::snark::RelaxedR1CSSNARK<E, EE<E>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    h: History,
    /// header of the public parameters that are compared with the cached ones
    setup: Option<Hex>,
    /// component of the initial state, what is added to it
    tamper: Vec<(u8, u32)>,
    count: u32,
}

/// Hash function under which the headers have the hashes of the history.
#[derive(Clone, Default)]
struct Table(Arc<Mutex<HashMap<Vec<u8>, [u8; 32]>>>);
impl Table {
    fn add(&self, h: &[u8], hash: &BigInt) {
        let mut t = self.0.lock().unwrap();
        t.insert(h.to_vec(), sha(h));
        t.insert(sha(h).to_vec(), le32(hash));
    }
    fn install(&self) {
        let t = self.0.clone();
        set_stand_in(Some(Box::new(move |x| t.lock().unwrap().get(x).copied().unwrap_or_else(|| sha(x)))));
    }
}

static CACHE: Mutex<Option<HashMap<(u8, bool), Arc<Mutex<Option<Arc<dyn Any + Send + Sync>>>>>>> = Mutex::new(None);

fn setup<E1, E2>(header: Option<&[u8]>) -> Result<PP<E1, E2>, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
{
    let c = match header {
        None => C1::<E1>::default(),
        Some(h) => C1::<E1>::new_blocks(vec![words(h)]).remove(0),
    };
    quiet(|| PP::<E1, E2>::setup(&c, &C2::<E2>::default(), &*default_ck_hint::<E1>(), &*default_ck_hint::<E2>()).map_err(|e| format!("{:?}", e)))
        .and_then(|r| r)
        .map_err(|e| format!("no public parameters: {}", e))
}
fn cached<E1, E2>(field: u8, real: bool) -> Result<Arc<PP<E1, E2>>, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
{
    let slot = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).entry((field, real)).or_default().clone();
    let mut slot = slot.lock().unwrap_or_else(|e| e.into_inner());
    if slot.is_none() {
        *slot = Some(Arc::new(setup::<E1, E2>(None)?));
    }
    Ok(slot.clone().unwrap().downcast::<PP<E1, E2>>().unwrap())
}
fn circuit<E1: Engine>(h: &[u8]) -> C1<E1> {
    C1::<E1>::new_blocks(vec![words(h)]).remove(0)
}
/// One more step; a new proof if there is none yet.
fn extend<E1, E2>(pp: &PP<E1, E2>, rec: Option<Rec<E1, E2>>, z0: &[E1::Scalar], h: &[u8]) -> Result<Rec<E1, E2>, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
{
    let c = circuit::<E1>(h);
    quiet(move || {
        let mut rec = match rec {
            Some(r) => r,
            None => Rec::<E1, E2>::new(pp, &c, &C2::<E2>::default(), z0, &[E2::Scalar::ZERO]).map_err(|e| format!("new: {:?}", e))?,
        };
        rec.prove_step(pp, &c, &C2::<E2>::default()).map_err(|e| format!("prove_step: {:?}", e))?;
        Ok(rec)
    })
    .and_then(|r| r)
}
fn check<E1, E2>(pp: &PP<E1, E2>, rec: &Rec<E1, E2>, n: usize, z0: &[E1::Scalar], s0: u64) -> Result<Vec<E1::Scalar>, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
{
    quiet(|| rec.verify(pp, n, z0, &[E2::Scalar::from(s0)]).map(|x| x.0).map_err(|e| format!("{:?}", e))).and_then(|r| r)
}
fn same<F: PrimeField>(what: &str, got: &[F], want: &State) -> Result<(), String> {
    let w = want.z::<F>();
    if got.len() != 16 {
        return Err(format!("{}: {} components", what, got.len()));
    }
    match (0..16).find(|k| w[*k] != got[*k]) {
        Some(k) => Err(format!("{}: component {} is {}, expected {}", what, k, show(&got[k..k + 1]), show(&w[k..k + 1]))),
        None => Ok(()),
    }
}
fn tampered<E1, E2>(r: &Run, pp: &PP<E1, E2>, rec: &Rec<E1, E2>, n: usize, z0: &[E1::Scalar], labels: &mut Vec<String>) -> Result<(), String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
{
    for m in [n + 1, n - 1, n + 2 + r.count as usize % 1000, 0] {
        if m != n && check(pp, rec, m, z0, 0).is_ok() {
            return Err(format!("a proof of {} steps verifies for {}", n, m));
        }
    }
    for (k, d) in &r.tamper {
        let mut z = z0.to_vec();
        let k = *k as usize % 16;
        let d = match d % 3 {
            0 => E1::Scalar::ONE,
            1 => -E1::Scalar::ONE,
            _ => E1::Scalar::from(1 + *d as u64),
        };
        z[k] += d;
        if check(pp, rec, n, &z, 0).is_ok() {
            return Err(format!("the proof verifies for another initial state (component {})", k));
        }
        labels.push(format!("tampered:{:02}", k));
    }
    if check(pp, rec, n, z0, 1).is_ok() {
        return Err("the proof verifies for another secondary state".into());
    }
    Ok(())
}
fn chain<E1, E2>(r: &Run, compressed: bool) -> Result<Info, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
    E1::Scalar: PrimeFieldBits,
{
    let table = Table::default();
    table.install();
    let out = chain_in::<E1, E2>(r, compressed, &table);
    set_stand_in(None);
    take_calls();
    out
}
fn chain_in<E1, E2>(r: &Run, compressed: bool, table: &Table) -> Result<Info, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
    E1::Scalar: PrimeFieldBits,
{
    let modulus = crate::fields::modulus::<E1::Scalar>();
    let pp = cached::<E1, E2>(r.h.field, false)?;
    let mut labels = vec![];
    if let Some(h) = &r.setup {
        if setup::<E1, E2>(Some(&h.bytes()))?.digest() != pp.digest() {
            return Err("the public parameters depend on the header".into());
        }
        labels.push("setup".into());
    }
    let mut model = r.h.init.clone();
    let z0 = model.z::<E1::Scalar>();
    let mut rec: Option<Rec<E1, E2>> = None;
    let mut n = 0;
    for c in &r.h.cmds {
        let Some((head, hash)) = forge_block(&model, c) else {
            labels.push("no-valid-successor".into());
            break;
        };
        if let Some(m) = &c.fault {
            let (mut st, mut bad, mut bad_hash) = (model.clone(), head.clone(), hash.clone());
            mutate(&mut st, &mut bad, &mut bad_hash, &modulus, m);
            bad_hash %= p2(256);
            table.add(&bad, &bad_hash);
            if let Err(fault) = next(&model, &bad, &le32(&bad_hash)) {
                labels.push(format!("refused:{}", fault));
                if let Ok(x) = extend(&pp, rec.clone(), &z0, &bad) {
                    if check(&pp, &x, n + 1, &z0, 0).is_ok() {
                        return Err(format!("step {}: a proof with an invalid header verifies (fault: {})", n, fault));
                    }
                }
            }
        }
        table.add(&head, &hash);
        let Ok(nx) = next(&model, &head, &le32(&hash)) else { break };
        let x = extend(&pp, rec.take(), &z0, &head).map_err(|e| format!("step {} (counter {}): a valid header is not proved ({})", n, model.counter, e))?;
        labels.push(match model.counter {
            0 => "epoch-start".to_string(),
            2015 => "epoch-end".to_string(),
            _ => "inside-epoch".to_string(),
        });
        model = nx;
        n += 1;
        let got = check(&pp, &x, n, &z0, 0).map_err(|e| format!("the proof of {} valid headers does not verify ({})", n, e))?;
        same("verified state", &got, &model)?;
        same("outputs", x.outputs().0, &model)?;
        rec = Some(x);
    }
    let Some(rec) = rec else { return Ok(Info { nontrivial: false, labels }) };
    labels.push(format!("steps={}", n));
    tampered(r, &pp, &rec, n, &z0, &mut labels)?;
    if compressed {
        let (pp, rec): (&dyn Any, &dyn Any) = (&*pp, &rec);
        if let (Some(pp), Some(rec)) = (pp.downcast_ref::<PP<A, B>>(), rec.downcast_ref::<Rec<A, B>>()) {
            compress(pp, rec, n, &r.h.init, &model)?;
            labels.push("compressed".into());
        }
    }
    Ok(Info { nontrivial: true, labels })
}
type A = nova_snark::provider::PallasEngine;
type B = nova_snark::provider::VestaEngine;
fn compress(pp: &PP<A, B>, rec: &Rec<A, B>, n: usize, init: &State, want: &State) -> Result<(), String> {
    let z0 = &init.z::<<A as Engine>::Scalar>()[..];
    let e = |e: nova_snark::errors::NovaError| format!("compressed: {:?}", e);
    let (pk, vk) = CompressedSNARK::<_, _, _, _, S<A>, S<B>>::setup(pp).map_err(e)?;
    let p = CompressedSNARK::<_, _, _, _, S<A>, S<B>>::prove(pp, &pk, rec).map_err(e)?;
    let zero = [<B as Engine>::Scalar::ZERO];
    let out = p.verify(&vk, n, z0, &zero).map_err(e)?;
    same("compressed", &out.0, want)?;
    if p.verify(&vk, n + 1, z0, &zero).is_ok() {
        return Err("a compressed proof verifies for another step count".into());
    }
    for k in 0..16 {
        let mut z = z0.to_vec();
        z[k] += <A as Engine>::Scalar::ONE;
        if p.verify(&vk, n, &z, &zero).is_ok() {
            return Err(format!("a compressed proof verifies for another initial state (component {})", k));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    m: Mined,
    /// invalid header offered after the chain: bit that is flipped
    flip: u32,
    r: Run,
}
fn real<E1, E2>(x: &Real) -> Result<Info, String>
where
    E1: Engine<Base = <E2 as Engine>::Scalar> + 'static,
    E2: Engine<Base = <E1 as Engine>::Scalar> + 'static,
    E1::Scalar: PrimeFieldBits,
{
    set_stand_in(None);
    let pp = cached::<E1, E2>(x.m.field, true)?;
    let all = if x.m.genesis { &corpus().genesis } else { &corpus().chain };
    let mut model = x.m.init.clone();
    let z0 = model.z::<E1::Scalar>();
    let mut rec: Option<Rec<E1, E2>> = None;
    let mut n = 0;
    let mut labels = vec![];
    for (i, h) in all[x.m.from..x.m.to].iter().enumerate() {
        if x.flip as usize % (x.m.to - x.m.from) == i {
            let mut bad = h.clone();
            let k = (x.flip >> 8) as usize % 640;
            bad[k / 8] ^= 1 << (k % 8);
            if let Err(fault) = next(&model, &bad, &sha_d(&bad)) {
                labels.push(format!("refused:{}", fault));
                if let Ok(p) = extend(&pp, rec.clone(), &z0, &bad) {
                    if check(&pp, &p, n + 1, &z0, 0).is_ok() {
                        return Err(format!("step {}: a proof with an invalid header verifies (fault: {})", n, fault));
                    }
                }
            }
        }
        let Ok(nx) = next(&model, h, &sha_d(h)) else { break };
        let p = extend(&pp, rec.take(), &z0, h).map_err(|e| format!("step {} (counter {}): a valid header is not proved ({})", n, model.counter, e))?;
        model = nx;
        n += 1;
        rec = Some(p);
    }
    take_calls();
    let Some(rec) = rec else { return Ok(Info { nontrivial: false, labels }) };
    let got = check(&pp, &rec, n, &z0, 0).map_err(|e| format!("the proof of {} valid headers does not verify ({})", n, e))?;
    same("verified state", &got, &model)?;
    labels.push(format!("steps={}", n));
    tampered(&x.r, &pp, &rec, n, &z0, &mut labels)?;
    Ok(Info { nontrivial: true, labels })
}

fn runs(max: usize, setup: bool) -> BoxedStrategy<Run> {
    let tamper = prop::collection::vec((0u8..16, any::<u32>()), 1..4);
    let head = prop::option::weighted(if setup { 0.15 } else { 0.01 }, prop::collection::vec(any::<u8>(), 80).prop_map(|b| hex(&b)));
    (history(STEP_FIELDS as u8, max), head, tamper, any::<u32>())
        .prop_map(|(mut h, setup, tamper, count)| {
            // mostly a first step to prove
            if h.init.counter == 0 && expected(&h.init).map_or(true, |t| t < BigInt::from(0x8000)) {
                h.init.counter = 2015;
                h.init.target = Z(expand(compact(&h.init.target.0.clone().max(BigInt::from(0x80_0000)))));
            }
            Run { h, setup, tamper, count }
        })
        .boxed()
}
fn run(ctx: &Ctx) {
    if hook_works() {
        ctx.check("chain", ctx.n(96), || runs(5, true), |r| with_engines!(r.h.field, X, Y => chain::<X, Y>(r, false)));
        ctx.check("compressed", ctx.n(6), || runs(3, false).prop_map(|mut r| {
            r.h.field = 0;
            r
        }), |r| with_engines!(r.h.field, X, Y => chain::<X, Y>(r, true)));
    }
    let mined = || {
        let c = corpus();
        let tamper = prop::collection::vec((0u8..16, any::<u32>()), 1..4);
        ((0u8..STEP_FIELDS as u8, any::<bool>(), 0usize..100, 0usize..100, counter(), prop::collection::vec(any::<u32>(), 11), any::<u32>(), nat(200)), tamper, any::<u32>(), any::<u32>()).prop_map(
            move |((field, genesis, a, b, k, times, back, work), tamper, flip, count)| {
                let all = if genesis { &c.genesis } else { &c.chain };
                let from = a % (all.len() - 1);
                let to = (from + 2 + b % (all.len() - 1 - from)).min(from + 4);
                let k = if k > 1 && b % 2 == 0 { 2014 + (b as u32 / 2) % 2 } else { k };
                let init = mined_state(&all[from], k, &times, back, &work);
                let h = History { field, init: init.clone(), cmds: vec![] };
                Real { m: Mined { field, genesis, from, to, init }, flip, r: Run { h, setup: None, tamper, count } }
            },
        )
    };
    ctx.check("mined", ctx.n(12), mined, |m| with_engines!(m.m.field, X, Y => real::<X, Y>(m)));
}
