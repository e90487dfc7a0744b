//! Reference client: chain state, header validity and state transition, written from the
//! documentation of the header fields; and the plumbing that runs the step circuit.
use crate::cs::RecCS;
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::quiet;
use bellpepper_core::boolean::Boolean;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::ConstraintSystem;
use ff::{PrimeField, PrimeFieldBits};
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::{BigInt, Sign};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use validate_btc_header::btc_validation::header_step::BlockHeader;
use validate_btc_header::verif_hash::{set_stand_in, take_calls};

pub const WEEKS: u64 = 1_209_600;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct State {
    pub hash: Z,
    pub times: Vec<u32>,
    pub target: Z,
    pub start: u32,
    pub counter: u32,
    pub work: Z,
}
/// 80 bytes as hex
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hex(pub String);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub fn hex(b: &[u8]) -> Hex {
    Hex(b.iter().map(|x| format!("{:02x}", x)).collect())
}
impl Hex {
    pub fn bytes(&self) -> Vec<u8> {
        (0..self.0.len() / 2).map(|i| u8::from_str_radix(&self.0[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
}
pub fn le(b: &[u8]) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, b)
}
/// 32 little-endian bytes of a number below 2^256
pub fn le32(n: &BigInt) -> [u8; 32] {
    let mut out = [0; 32];
    let b = n.to_bytes_le().1;
    out[..b.len()].copy_from_slice(&b);
    out
}
pub fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
pub fn max_target() -> BigInt {
    BigInt::from(0xffff) << 208usize
}
pub fn u32_at(h: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([h[i], h[i + 1], h[i + 2], h[i + 3]])
}
pub struct Fields<'a> {
    pub prev: BigInt,
    pub time: u32,
    pub bits: u32,
    pub raw: &'a [u8],
}
pub fn parse(h: &[u8]) -> Fields {
    Fields { prev: le(&h[4..36]), time: u32_at(h, 68), bits: u32_at(h, 72), raw: h }
}
pub fn build(version: u32, prev: &BigInt, merkle: &[u8], time: u32, bits: u32, nonce: u32) -> Vec<u8> {
    let mut h = version.to_le_bytes().to_vec();
    h.extend(le32(prev));
    h.extend(&merkle[..32]);
    h.extend(time.to_le_bytes());
    h.extend(bits.to_le_bytes());
    h.extend(nonce.to_le_bytes());
    h
}
/// Canonical compact encoding (as nodes compute it), and the number it stands for.
pub fn compact(n: &BigInt) -> u32 {
    let mut size = (n.bits() as usize + 7) / 8;
    let mut m = if size <= 3 { n << (8 * (3 - size)) } else { n >> (8 * (size - 3)) };
    if m >= BigInt::from(0x80_0000) {
        m >>= 8usize;
        size += 1;
    }
    let digits = m.to_u32_digits().1;
    digits.first().copied().unwrap_or(0) | (size as u32) << 24
}
pub fn expand(bits: u32) -> BigInt {
    let m = BigInt::from(bits & 0x7f_ffff);
    let e = (bits >> 24) as usize;
    if e >= 3 {
        m << (8 * (e - 3))
    } else {
        m >> (8 * (3 - e))
    }
}
pub fn median(times: &[u32]) -> u32 {
    let mut t = times.to_vec();
    t.sort();
    t[5]
}
/// The target the next header has to have; None where no header is valid.
pub fn expected(s: &State) -> Option<BigInt> {
    if s.counter != 0 {
        return Some(s.target.0.clone());
    }
    let span = s.times[10] as i64 - s.start as i64;
    if span <= WEEKS as i64 / 4 || span >= WEEKS as i64 * 4 {
        return None;
    }
    let t: BigInt = &s.target.0 * BigInt::from(span) / BigInt::from(WEEKS);
    Some(expand(compact(&t.min(max_target()))))
}
/// The reference client.
pub fn next(s: &State, h: &[u8], hash: &[u8; 32]) -> Result<State, &'static str> {
    let f = parse(h);
    let e = f.bits >> 24;
    let target = expand(f.bits);
    if f.prev != s.hash.0 {
        return Err("prev-hash");
    }
    if f.bits & 0x80_0000 != 0 || !(3..=29).contains(&e) || compact(&target) != f.bits || target > max_target() {
        return Err("nbits");
    }
    if le(hash) >= target {
        return Err("pow");
    }
    if f.time <= median(&s.times) {
        return Err("time");
    }
    match expected(s) {
        None => return Err("span"),
        Some(t) if t != target => return Err("target"),
        _ => {}
    }
    let mut times = s.times[1..].to_vec();
    times.push(f.time);
    Ok(State {
        hash: Z(le(hash)),
        times,
        start: if s.counter == 0 { f.time } else { s.start },
        counter: (s.counter + 1) % 2016,
        work: Z(&s.work.0 + max_target() / &target),
        target: Z(target),
    })
}

impl State {
    pub fn z<F: PrimeField>(&self) -> Vec<F> {
        let mut z = vec![from_int(&self.hash.0)];
        z.extend(self.times.iter().map(|t| F::from(*t as u64)));
        z.extend([from_int(&self.target.0), F::from(self.start as u64), F::from(self.counter as u64), from_int(&self.work.0)]);
        z
    }
}
pub fn show<F: PrimeField>(z: &[F]) -> String {
    z.iter().map(|x| to_int(x).to_string()).collect::<Vec<_>>().join(", ")
}
pub fn words(h: &[u8]) -> [u64; 10] {
    let mut w = [0; 10];
    for i in 0..10 {
        w[i] = u64::from_be_bytes(h[8 * i..8 * i + 8].try_into().unwrap());
    }
    w
}
/// Installs a stand-in under which the header has the given double hash.
pub fn stand_in(h: &[u8], hash: &[u8; 32]) {
    let (h, hash, token) = (h.to_vec(), *hash, sha(h));
    set_stand_in(Some(Box::new(move |x| if x == &token[..] { hash } else if x == &h[..] { token } else { sha(x) })));
}

pub struct Step<F: PrimeField> {
    pub cs: RecCS<F>,
    /// variables of the 16 inputs
    pub ins: Vec<u32>,
    pub outs: Vec<AllocatedNum<F>>,
    pub calls: Vec<(Vec<Boolean>, Vec<Boolean>)>,
}
impl<F: PrimeField> Step<F> {
    pub fn out_vals(&self) -> Vec<F> {
        self.outs.iter().map(|o| self.cs.asg[self.cs.id(o.get_variable()) as usize].unwrap()).collect()
    }
}
/// Runs the step with the stand-in hash (Some) or the real one.
pub fn synth<F: PrimeField + PrimeFieldBits>(mut cs: RecCS<F>, z: &[F], h: &[u8], hash: Option<&[u8; 32]>) -> Result<Step<F>, String> {
    match hash {
        Some(x) => stand_in(h, x),
        None => set_stand_in(None),
    }
    take_calls();
    let circuit = BlockHeader::<F>::new_blocks(vec![words(h)]).remove(0);
    let zs: Vec<AllocatedNum<F>> = z
        .iter()
        .enumerate()
        .map(|(i, v)| AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || Ok(*v)).unwrap())
        .collect();
    let ins = zs.iter().map(|n| cs.id(n.get_variable())).collect();
    let r = quiet(|| circuit.synthesize(&mut cs, &zs).map_err(|e| e.to_string()));
    set_stand_in(None);
    let calls = take_calls();
    let outs = r??;
    Ok(Step { cs, ins, outs, calls })
}
/// Was the stand-in's hash of this header asked for?
pub fn hooked(calls: &[(Vec<Boolean>, Vec<Boolean>)]) -> bool {
    calls.iter().any(|c| c.0.len() == 640) && calls.iter().any(|c| c.0.len() == 256)
}
/// Ok(outputs) if the step accepts.
pub fn accept<F: PrimeField + PrimeFieldBits>(z: &[F], h: &[u8], hash: Option<&[u8; 32]>) -> Result<Vec<F>, String> {
    let s = synth(RecCS::new(), z, h, hash)?;
    if s.outs.len() != 16 {
        return Err(format!("{} outputs", s.outs.len()));
    }
    if !s.cs.satisfied() {
        return Err("unsatisfied".into());
    }
    Ok(s.out_vals())
}

pub const STEP_FIELDS: usize = 4;
/// Scalar fields of the engines nova offers.
#[macro_export]
macro_rules! with_step_field {
    ($i:expr, $f:ident => $e:expr) => {
        match $i {
            1 => { type $f = pasta_curves::Fp; $e }
            2 => { type $f = <nova_snark::provider::Bn256EngineIPA as nova_snark::traits::Engine>::Scalar; $e }
            3 => { type $f = <nova_snark::provider::Secp256k1Engine as nova_snark::traits::Engine>::Scalar; $e }
            _ => { type $f = pasta_curves::Fq; $e }
        }
    };
}

pub fn sha_d(h: &[u8]) -> [u8; 32] {
    sha(&sha(h))
}
/// Real headers: mined offline (tools/miner) and historic.
pub struct Corpus {
    /// each header follows the one before
    pub chain: Vec<Vec<u8>>,
    /// valid on their own
    pub singles: Vec<Vec<u8>>,
    /// the hash reduced modulo the Pallas scalar field is below the target, the hash is not
    pub alias: Vec<Vec<u8>>,
    /// blocks 1 to 3 of the main chain
    pub genesis: Vec<Vec<u8>>,
}
pub fn corpus() -> &'static Corpus {
    static C: std::sync::OnceLock<Corpus> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut c = Corpus { chain: vec![], singles: vec![], alias: vec![], genesis: vec![] };
        for l in include_str!("../corpus/headers.txt").lines() {
            let Some((kind, h)) = l.split_once(' ') else { continue };
            let h = Hex(h.trim().into()).bytes();
            match kind {
                "chain" => c.chain.push(h),
                "genesis" => c.genesis.push(h),
                "alias" => c.alias.push(h),
                _ => c.singles.push(h),
            }
        }
        c
    })
}
