//! Offline corpus generator: mines 80-byte Bitcoin headers that satisfy their own
//! compact target (work around 2^32 double SHA-256 each).  Not run by any check.
//! usage: miner singles N OUT SEED | miner chain N OUT SEED START_PREV_HEX START_TIME
use std::arch::x86_64::*;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

const K: [u32; 64] = [
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
const IV: [u32; 8] = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];

#[target_feature(enable = "sha,sse2,ssse3,sse4.1")]
unsafe fn compress(state: &mut [u32; 8], w: &[u32; 16]) {
    let lo = _mm_loadu_si128(state.as_ptr() as *const __m128i); // a b c d
    let hi = _mm_loadu_si128(state.as_ptr().add(4) as *const __m128i);
    let cdab = _mm_shuffle_epi32(lo, 0xB1);
    let efgh = _mm_shuffle_epi32(hi, 0x1B);
    let mut s0 = _mm_alignr_epi8(cdab, efgh, 8); // ABEF
    let mut s1 = _mm_blend_epi16(efgh, cdab, 0xF0); // CDGH
    let (o0, o1) = (s0, s1);
    let mut m = [_mm_setzero_si128(); 4];
    for i in 0..4 { m[i] = _mm_loadu_si128(w.as_ptr().add(4 * i) as *const __m128i); }
    for r in 0..16 {
        let k = _mm_loadu_si128(K.as_ptr().add(4 * r) as *const __m128i);
        let cur = m[r & 3];
        let wk = _mm_add_epi32(cur, k);
        s1 = _mm_sha256rnds2_epu32(s1, s0, wk);
        s0 = _mm_sha256rnds2_epu32(s0, s1, _mm_shuffle_epi32(wk, 0x0E));
        if r < 12 {
            let (m0, m1, m2, m3) = (m[r & 3], m[(r + 1) & 3], m[(r + 2) & 3], m[(r + 3) & 3]);
            let t = _mm_sha256msg1_epu32(m0, m1);
            let t = _mm_add_epi32(t, _mm_alignr_epi8(m3, m2, 4));
            m[r & 3] = _mm_sha256msg2_epu32(t, m3);
        }
    }
    s0 = _mm_add_epi32(s0, o0);
    s1 = _mm_add_epi32(s1, o1);
    let feba = _mm_shuffle_epi32(s0, 0x1B);
    let dchg = _mm_shuffle_epi32(s1, 0xB1);
    let lo = _mm_blend_epi16(feba, dchg, 0xF0);
    let hi = _mm_alignr_epi8(dchg, feba, 8);
    _mm_storeu_si128(state.as_mut_ptr() as *mut __m128i, lo);
    _mm_storeu_si128(state.as_mut_ptr().add(4) as *mut __m128i, hi);
}
fn words(b: &[u8]) -> [u32; 16] {
    let mut w = [0u32; 16];
    for i in 0..16 { w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
    w
}
/// returns hash as little-endian number words, most significant first
#[target_feature(enable = "sha,sse2,ssse3,sse4.1")]
unsafe fn finish(mid: &[u32; 8], tail: &[u32; 16]) -> [u32; 8] {
    let mut s = *mid;
    compress(&mut s, tail);
    let mut w = [0u32; 16];
    w[..8].copy_from_slice(&s);
    w[8] = 0x80000000; w[15] = 256;
    let mut t = IV;
    compress(&mut t, &w);
    let mut out = [0u32; 8];
    for i in 0..8 { out[i] = t[7 - i].swap_bytes(); }
    out
}
struct Rng(u64);
impl Rng { fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) } }

fn target_be(nbits: u32) -> [u8; 32] {
    let e = (nbits >> 24) as usize; let m = nbits & 0xffffff;
    let mut t = [0u8; 32];
    for (j, sh) in [(0usize, 0u32), (1, 8), (2, 16)] {
        let byte = ((m >> sh) & 0xff) as u8;
        let pos = e - 3 + j; // byte index from least significant
        if pos < 32 { t[31 - pos] = byte; }
    }
    t
}
fn be(h: &[u32; 8]) -> [u8; 32] { let mut o = [0u8; 32]; for i in 0..8 { o[4*i..4*i+4].copy_from_slice(&h[i].to_be_bytes()); } o }

fn mine(base: [u8; 80], seed: u64, keep_alias: bool, aliases: &Mutex<Vec<String>>) -> [u8; 80] {
    let nbits = u32::from_le_bytes(base[72..76].try_into().unwrap());
    let target = target_be(nbits);
    let found: Mutex<Option<[u8; 80]>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let ctr = AtomicU64::new(seed);
    let nt = std::thread::available_parallelism().unwrap().get();
    std::thread::scope(|s| {
        for _ in 0..nt { s.spawn(|| {
            while !stop.load(Relaxed) {
                let mut h = base;
                let mut r = Rng(ctr.fetch_add(1, Relaxed).wrapping_mul(0xD1342543DE82EF95));
                for i in 0..4 { h[36 + 8*i..44 + 8*i].copy_from_slice(&r.n().to_le_bytes()); }
                let mut mid = IV;
                unsafe { compress(&mut mid, &words(&h[..64])); }
                let mut tail = [0u8; 64];
                tail[..16].copy_from_slice(&h[64..80]);
                tail[16] = 0x80; tail[62] = 0x02; tail[63] = 0x80;
                let mut w = words(&tail);
                for n in 0u32..(1 << 27) {
                    w[3] = n.swap_bytes();
                    let o = unsafe { finish(&mid, &w) };
                    if o[0] & 0x3fffffff == 0 {
                        h[76..80].copy_from_slice(&n.to_le_bytes());
                        if o[0] == 0 {
                            if be(&o) < target { *found.lock().unwrap() = Some(h); stop.store(true, Relaxed); return; }
                        } else if keep_alias { aliases.lock().unwrap().push(hex(&h)); }
                    }
                    if n & 0xfffff == 0 && stop.load(Relaxed) { return; }
                }
            }
        }); }
    });
    let r = found.lock().unwrap().unwrap(); r
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hash_bytes(h: &[u8; 80]) -> [u8; 32] {
    let mut mid = IV; let mut tail = [0u8; 64]; tail[..16].copy_from_slice(&h[64..80]); tail[16]=0x80; tail[62]=2; tail[63]=0x80;
    unsafe { compress(&mut mid, &words(&h[..64])); let mut o = be(&finish(&mid, &words(&tail))); o.reverse(); o }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[2].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let mut r = Rng(seed);
    let al = Mutex::new(vec![]);
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).unwrap();
    let mut prev: Option<[u8; 32]> = a.get(5).map(|s| unhex(s).try_into().unwrap());
    let mut time: u32 = a.get(6).map(|s| s.parse().unwrap()).unwrap_or(0);
    // genesis self test
    let g: [u8; 80] = unhex("0100000000000000000000000000000000000000000000000000000000000000000000003ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a29ab5f49ffff001d1dac2b7c").try_into().unwrap();
    let mut gh = hash_bytes(&g); gh.reverse();
    assert_eq!(hex(&gh), "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f");
    for i in 0..n {
        let t0 = std::time::Instant::now();
        let mut h = [0u8; 80];
        h[..4].copy_from_slice(&(r.n() as u32).to_le_bytes());
        let nbits: u32 = if a[1] == "chain" { 0x1d00ffff } else {
            match i % 8 { 0 | 1 => 0x1d00ffff, 2 => 0x1d000000 | (0xc000 + (r.n() % 0x3fff) as u32), 3 => 0x1d008000 + (r.n() % 0x7fff) as u32,
              4 => 0x1c700000 + (r.n() % 0x0fffff) as u32, 5 => 0x1c7f0000 | (r.n() & 0xffff) as u32, 6 => 0x1e000080 + (r.n() % 0x7f) as u32, _ => 0x1d00f000 + (r.n() & 0xfff) as u32 } };
        if a[1] == "chain" {
            h[4..36].copy_from_slice(&prev.unwrap());
            time = time.wrapping_add(1 + (r.n() % 1200) as u32);
        } else {
            for k in 0..28 { h[4 + k] = r.n() as u8; } // top 4 bytes zero
            if i % 3 == 0 { for k in 24..28 { h[4+k] = 0; } }
            time = match i % 6 { 0 => 0xffff_ffff - (r.n() % 3) as u32, 1 => (r.n() % 70000) as u32 + 1, _ => (r.n() as u32) | 1 };
        }
        h[68..72].copy_from_slice(&time.to_le_bytes());
        h[72..76].copy_from_slice(&nbits.to_le_bytes());
        let m = mine(h, r.n(), nbits == 0x1d00ffff, &al);
        prev = Some(hash_bytes(&m));
        let mut hh = prev.unwrap(); hh.reverse();
        writeln!(out, "{} {}", if a[1]=="chain" {"chain"} else {"single"}, hex(&m)).unwrap();
        for x in al.lock().unwrap().drain(..) { writeln!(out, "alias {}", x).unwrap(); }
        out.flush().unwrap();
        eprintln!("{i} {} {:?}", hex(&hh), t0.elapsed());
    }
}
