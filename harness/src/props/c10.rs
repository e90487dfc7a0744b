//! Retargeting: the computed value against integer arithmetic, and acceptance of the verifying variant.
use super::Prop;
use crate::bn::*;
use crate::cs::RecCS;
use crate::fields::to_int;
use crate::gen::*;
use crate::run::{okl, quiet, Ctx, Info};
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use validate_btc_header::btc_validation::difficulty_update::{calculate_difficulty_update, verify_difficulty_update};

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "Random field (BLS12-381 scalars or Pallas), old target below the modulus weighted to limb and power-of-two boundaries and to real compact targets, time span inside the limits, at their edges or outside; the verifying variant gets the right new target or a near miss. Non-trivial: a span strictly inside the limits and a non-zero old target.",
    assumptions: &["time spans are 32-bit", "fields of at least 255 bits"],
    run,
};

pub const LOW: u32 = 302_400;
pub const HIGH: u32 = 4_838_400;
pub const WEEKS: u32 = 1_209_600;
pub fn in_limits(s: u32) -> bool {
    LOW < s && s < HIGH
}
pub fn truth(old: &BigInt, span: u32) -> BigInt {
    old * BigInt::from(span) / BigInt::from(WEEKS)
}
pub fn span() -> BoxedStrategy<u32> {
    prop_oneof![
        5 => LOW + 1..HIGH,
        2 => prop::sample::select(vec![LOW - 1, LOW, LOW + 1, LOW + 2, HIGH - 2, HIGH - 1, HIGH, HIGH + 1, WEEKS - 1, WEEKS, WEEKS + 1, 2 * WEEKS, WEEKS / 2, 0, 1, u32::MAX, u32::MAX - 1, 1 << 31]),
        1 => any::<u32>(),
        1 => 0..LOW,
    ]
    .boxed()
}
pub fn compact() -> impl Strategy<Value = Z> {
    (3u32..=29, 0x8000u64..0x80_0000).prop_map(|(e, m)| Z(BigInt::from(m) << (8 * (e - 3)) as usize))
}
/// Natural below the smaller of the two moduli.
pub fn target() -> BoxedStrategy<Z> {
    prop_oneof![3 => below(&field_modulus(4)), 1 => below(&p2(254)), 3 => compact(), 1 => (any::<u32>(), 0usize..8).prop_map(|(k, i)| Z(p2(32 * (i + 1)) * k / p2(32))), 1 => (1u64..5_000_000).prop_map(|k| Z(z(k)))]
        .prop_map(|x| Z(x.0 % field_modulus(5).min(field_modulus(4))))
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Calc {
    pub field: u8,
    pub old: Z,
    pub span: u32,
    pub seed: u64,
}
pub fn calc_case() -> BoxedStrategy<Calc> {
    (prop::sample::select(&BIG[..]), target(), span(), any::<u64>())
        .prop_flat_map(|(field, old, span, seed)| {
            // multiples of 1209600 / gcd give exact divisions
            (Just(field), Just(old), Just(span), Just(seed), 0u8..6)
        })
        .prop_map(|(field, old, span, seed, k)| {
            let w = BigInt::from(WEEKS);
            let old = match k {
                0 => Z(&old.0 / &w * &w),
                1 if in_limits(span) => {
                    // quotient just above or below an integer
                    let q = &old.0 / 2u8 / BigInt::from(span);
                    Z((q * &w + BigInt::from(span) - 1u8) / BigInt::from(span))
                }
                _ => old,
            };
            Calc { field, old: Z(old.0 % field_modulus(field)), span, seed }
        })
        .boxed()
}

fn calc<F: PrimeField>(c: &Calc) -> Result<Info, String> {
    let inside = in_limits(c.span);
    let r = quiet(|| {
        let mut cs = RecCS::<F>::new();
        let a = num(cs.namespace(|| "t"), &c.old.0).unwrap();
        let s = num(cs.namespace(|| "s"), &BigInt::from(c.span)).unwrap();
        calculate_difficulty_update(cs.namespace(|| "u"), &a, &s).map(|n| (cs, n))
    });
    let label = if !inside { "outside" } else { "inside" };
    match r {
        Ok(Ok((cs, n))) if cs.satisfied() => {
            if !inside {
                return Err(format!("span {} accepted", c.span));
            }
            let t = truth(&c.old.0, c.span);
            denotes(&cs, &n, &t).map_err(|e| format!("new target of {} over {} s: {}", c.old.0, c.span, e))?;
            okl(!c.old.0.is_zero(), &[label])
        }
        _ if !inside => okl(false, &[label]),
        Ok(Ok(_)) => Err(format!("target {} over {} s leaves a constraint unsatisfied", c.old.0, c.span)),
        Ok(Err(e)) => Err(format!("target {} over {} s refused: {}", c.old.0, c.span, e)),
        Err(p) => Err(format!("target {} over {} s panicked: {}", c.old.0, c.span, p)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ver {
    pub field: u8,
    pub old: Z,
    pub new: Z,
    pub span: u32,
    pub seed: u64,
}
pub fn halves(n: &BigInt) -> (u128, u128) {
    ((n >> 128u8).to_u128().unwrap(), (n % p2(128)).to_u128().unwrap())
}
pub fn ver_case() -> BoxedStrategy<Ver> {
    (prop::sample::select(&BIG[..]), prop_oneof![3 => nat(256), 2 => target()], span(), 0u8..15, any::<u64>(), 0usize..256)
        .prop_map(|(field, old, span, kind, seed, bit)| {
            let t = truth(&old.0, span);
            let m = p2(256);
            let pos = |x: BigInt| if x < BigInt::zero() { x + p2(256) } else { x };
            let new = match kind {
                0..=4 => t,
                5 => t + 1u8,
                6 => pos(t - 1u8),
                7 => (&t % p2(128) << 128usize) + (&t >> 128usize),
                8 => pos(t % &m - field_modulus(field)),
                9 => {
                    let f = (&t >> bit) % 2u8 == BigInt::zero();
                    if f { t + p2(bit) } else { t - p2(bit) }
                }
                10 => old.0.clone(),
                11 => t % p2(128),
                // what another divisor or another span would give
                12 => &old.0 * BigInt::from(span) / (seed % 3_000_000 + 1),
                13 => &old.0 * BigInt::from(span) / [WEEKS - 1, WEEKS + 1, WEEKS / 2, 1_000_000, WEEKS - 600][seed as usize % 5],
                _ => truth(&old.0, LOW + 1 + (seed % (HIGH - LOW - 1) as u64) as u32),
            };
            Ver { field, old, new: Z(new % m), span, seed }
        })
        .boxed()
}
pub fn ver_synth<F: PrimeField>(old: &BigInt, new: &BigInt, span: u32) -> Result<RecCS<F>, String> {
    quiet(|| {
        let mut cs = RecCS::<F>::new();
        let ((nu, nl), (ou, ol)) = (halves(new), halves(old));
        let _ = verify_difficulty_update(cs.namespace(|| "v"), nu, nl, ou, ol, span);
        cs
    })
}
fn ver<F: PrimeField>(c: &Ver) -> Result<Info, String> {
    let t = truth(&c.old.0, c.span);
    let expect = in_limits(c.span) && t == c.new.0;
    let got = matches!(ver_synth::<F>(&c.old.0, &c.new.0, c.span), Ok(cs) if cs.satisfied());
    if got != expect {
        return Err(format!("old {} over {} s gives {}; new target {} {}", c.old.0, c.span, t, c.new.0, if got { "accepted" } else { "refused" }));
    }
    okl(in_limits(c.span) && !c.old.0.is_zero(), &[if got { "accepted" } else { "refused" }])
}

fn wide<F: PrimeField>(c: &(u8, Z, Z)) -> Result<Info, String> {
    // spans beyond 32 bits are never within the limits
    let s = &c.2 .0 + p2(32);
    let r = quiet(|| {
        let mut cs = RecCS::<F>::new();
        let a = num(cs.namespace(|| "t"), &c.1 .0).unwrap();
        let s = num(cs.namespace(|| "s"), &s).unwrap();
        calculate_difficulty_update(cs.namespace(|| "u"), &a, &s).map(|_| cs)
    });
    match r {
        Ok(Ok(cs)) if cs.satisfied() => Err(format!("span {} accepted", to_int(&cs.asg[2].unwrap()))),
        _ => okl(true, &[]),
    }
}

fn run(ctx: &Ctx) {
    ctx.check("calculate", ctx.n(6000), calc_case, |c| with_field!(c.field, F => calc::<F>(c)));
    ctx.check("wide_spans", ctx.n(600), || (prop::sample::select(&BIG[..]), target(), prop_oneof![nat(64), nat(40)]), |c| with_field!(c.0, F => wide::<F>(c)));
    ctx.check("verify", ctx.n(6000), ver_case, |c| with_field!(c.field, F => ver::<F>(c)));
}
