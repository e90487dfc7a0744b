//! Conversions between numbers, field elements, machine words and limbs.
use super::Prop;
use crate::bn::*;
use crate::fields::{from_int, modulus, to_int};
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::with_field;
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::mp::bignat::{limbs_to_nat, nat_to_limbs};
use validate_btc_header::util::convert::{f_to_nat, f_to_usize, nat_to_f, usize_to_f};

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "Random integers around 0, the modulus and its multiples, negative and huge ones, in six fields; random 64-bit words; random naturals and layouts (also too small by one bit) for the limb conversions; random limb lists. Non-trivial: value at least 256 or at a boundary.",
    assumptions: &["limb width at most the field capacity"],
    run,
};
type R = Result<Info, String>;

/// A field element of 2^64 or more never becomes a machine word.
fn large<F: PrimeField>(v: &BigInt) -> R {
    let v = v % modulus::<F>();
    let f = from_int::<F>(&v);
    match quiet(|| f_to_usize(&f)) {
        Ok(n) if z(n as u64) == v => okl(v.bits() > 8, &["word"]),
        Ok(n) => Err(format!("{} became the word {}", v, n)),
        Err(_) if v.bits() <= 64 => Err(format!("{} refused although it is a word", v)),
        Err(_) => okl(true, &["too large, refused"]),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N {
    field: u8,
    v: Z,
}
fn ints() -> BoxedStrategy<N> {
    (0u8..6)
        .prop_flat_map(|field| {
            let m = field_modulus(field);
            (Just(field), nat(m.bits() as usize + 8), 0u8..8, 0u64..4)
        })
        .prop_map(|(field, v, mode, k)| {
            let p = field_modulus(field);
            let v = match mode {
                0 | 1 | 2 => v.0 % p,
                3 => p + z(k),
                4 => p - 1u8 - z(k),
                5 => -(v.0 % p),
                6 => v.0,
                _ => p * z(k + 1) + v.0 % 3u8,
            };
            N { field, v: Z(v) }
        })
        .boxed()
}
fn nat_f<F: PrimeField>(c: &N) -> R {
    let p = modulus::<F>();
    let v = &c.v.0;
    let inside = *v >= BigInt::zero() && *v < p;
    let got = nat_to_f::<F>(v);
    if inside {
        let f = got.ok_or(format!("{} refused", v))?;
        if to_int(&f) != *v || f != from_int::<F>(v) {
            return Err(format!("{} became {:?}", v, f));
        }
        if f_to_nat(&f) != *v {
            return Err(format!("{} came back as {}", v, f_to_nat(&f)));
        }
    } else if let Some(f) = got {
        return Err(format!("{} accepted as {:?} although not below the modulus", v, f));
    }
    let f = from_int::<F>(v);
    if f_to_nat(&f) != to_int(&f) {
        return Err("field element to number differs from its canonical representation".into());
    }
    okl(v.bits() > 8, &[if inside { "inside" } else if *v < BigInt::zero() { "negative" } else { "too-big" }])
}
fn words<F: PrimeField>(n: u64) -> R {
    let p = modulus::<F>();
    if z(n) >= p {
        return okl(false, &["does-not-fit"]);
    }
    let f = usize_to_f::<F>(n as usize);
    if to_int(&f) != z(n) {
        return Err(format!("{} became {:?}", n, f));
    }
    let b = f_to_usize(&f);
    if b as u64 != n {
        return Err(format!("{} came back as {}", n, b));
    }
    okl(n > 255, &[])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct L {
    field: u8,
    w: usize,
    n: usize,
    v: Z,
}
fn layouts() -> BoxedStrategy<L> {
    (0u8..6)
        .prop_flat_map(|field| {
            let cap = capacity(field);
            let sp: Vec<usize> = [1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 128, cap - 1, cap].iter().cloned().filter(|w| *w >= 1 && *w <= cap).collect();
            (Just(field), prop_oneof![2 => prop::sample::select(sp), 1 => 1..=cap], 1usize..8)
        })
        .prop_flat_map(|(field, w, n)| (Just(field), Just(w), Just(n), nat(w * n), 0u8..6, nat(w * n + 70)))
        .prop_map(|(field, w, n, v, mode, big)| {
            let v = match mode {
                0 => p2(w * n),
                1 => p2(w * n) - 1u8,
                2 => big.0,
                _ => v.0,
            };
            L { field, w, n, v: Z(v) }
        })
        .boxed()
}
fn limbs<F: PrimeField>(c: &L) -> R {
    let fits = c.v.0 < p2(c.w * c.n);
    let r = quiet(|| nat_to_limbs::<F>(&c.v.0, c.w, c.n));
    match r {
        Ok(Ok(l)) => {
            if !fits {
                return Err(format!("{} split into {} limbs of {} bits", c.v.0, c.n, c.w));
            }
            if l.len() != c.n {
                return Err(format!("{} limbs instead of {}", l.len(), c.n));
            }
            let got: Vec<BigInt> = l.iter().map(to_int).collect();
            if got != limbs_of(&c.v.0, c.w, c.n) {
                return Err(format!("limbs of {}: {:?}", c.v.0, got.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
            }
            let back = limbs_to_nat::<F, _, _>(l.iter(), c.w);
            if back != c.v.0 {
                return Err(format!("{} came back as {}", c.v.0, back));
            }
        }
        Ok(Err(e)) if fits => return Err(format!("refused: {}", e)),
        Err(p) if fits => return Err(format!("panicked: {}", p)),
        _ => {}
    }
    okl(c.n > 1, &[if fits { "fits" } else { "too-large" }])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    field: u8,
    w: usize,
    v: Vec<Z>,
}
fn lists() -> BoxedStrategy<Raw> {
    (0u8..6, 1usize..260)
        .prop_flat_map(|(field, w)| (Just(field), Just(w), prop::collection::vec(below(&field_modulus(field)), 0..7)))
        .prop_map(|(field, w, v)| Raw { field, w, v })
        .boxed()
}
fn evaluate<F: PrimeField>(c: &Raw) -> R {
    let fs: Vec<F> = c.v.iter().map(|x| from_int(&x.0)).collect();
    let got = limbs_to_nat::<F, _, _>(fs.iter(), c.w);
    let mut want = BigInt::zero();
    for (i, x) in c.v.iter().enumerate() {
        want += &x.0 << (i * c.w);
    }
    if got != want {
        return Err(format!("evaluated to {}, expected {}", got, want));
    }
    okl(c.v.len() > 1, &[])
}

fn run(ctx: &Ctx) {
    ctx.check("integer_field", ctx.n(5 * 40000), ints, |c| with_field!(c.field, F => nat_f::<F>(c)));
    ctx.check(
        "words",
        ctx.n(5 * 40000),
        || (0u8..6, any::<u64>(), 0u32..64, 0u8..4).prop_map(|(f, x, s, m)| (f, match m { 0 => x, 1 => x >> s, 2 => (1u64 << s).wrapping_sub(x & 1), _ => x & 0x3ff })),
        |(f, n)| with_field!(*f, F => words::<F>(*n)),
    );
    ctx.check(
        "large_elements",
        ctx.n(5 * 8000),
        || (0u8..6, prop_oneof![3 => nat(72), 1 => nat(66), 2 => nat(256)]),
        |(f, v)| with_field!(*f, F => large::<F>(&v.0)),
    );
    ctx.check("limbs", ctx.n(5 * 40000), layouts, |c| with_field!(c.field, F => limbs::<F>(c)));
    ctx.check("limb_lists", ctx.n(5 * 20000), lists, |c| with_field!(c.field, F => evaluate::<F>(c)));
}
