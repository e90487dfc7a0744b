//! Big-number arithmetic: adversarial search for satisfying assignments of false relations.
use super::Prop;
use crate::bn::*;
use crate::cs::{Lc, RecCS};
use crate::fields::{from_int, to_int};
use crate::gen::*;
use crate::run::{okl, Ctx, Info};
use crate::solver::Res;
use crate::with_field;
use bellpepper_core::ConstraintSystem;
use ff::PrimeField;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use validate_btc_header::mp::bignat::BigNat;

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "Random field, layout and canonical operands as for C13 (smaller limb counts). The operands are fixed; false results are proposed (neighbours, wraps modulo the field or the top limb, limbs out of range denoting the right number, random ones) and a constraint-directed search decides each and also searches freely. Non-trivial: at least one proposal conclusively refuted.",
    assumptions: &["2*width + 7 <= field capacity", "operands canonical; search is exhaustive only where labelled proved-none"],
    run,
};

pub struct Target<F: PrimeField> {
    pub cs: RecCS<F>,
    pub fixed: Vec<(u32, F)>,
    /// output limbs and the verdict on their values
    pub out: Vec<Lc<F>>,
    pub cands: Vec<Vec<BigInt>>,
}
/// Tries the candidates and then a free search; `good` says whether given output limbs are legitimate.
pub fn attack<F: PrimeField>(t: &Target<F>, seed: u64, budget: usize, good: &dyn Fn(&[BigInt]) -> bool) -> Result<Info, String> {
    let outs = |asg: &[F]| t.out.iter().map(|l| to_int(&l.eval(asg))).collect::<Vec<BigInt>>();
    let mut refuted = 0;
    let mut labels = vec![];
    for (i, c) in t.cands.iter().enumerate() {
        let reduced: Vec<BigInt> = c.iter().map(|x| to_int(&from_int::<F>(x))).collect();
        if good(&reduced) {
            continue;
        }
        let r = forge_fixed(&t.cs, &t.fixed, &eqs(&t.out, c), seed ^ i as u64, budget, &|_| true);
        match &r {
            Res::Found(a) => return Err(format!("false result accepted: output limbs {:?}", outs(a).iter().map(|x| x.to_string()).collect::<Vec<_>>())),
            Res::Exhausted => refuted += 1,
            Res::Budget => {}
        }
        labels.push(label(&r));
    }
    let r = forge_fixed(&t.cs, &t.fixed, &[], seed, budget, &|a| !good(&outs(a)));
    if let Res::Found(a) = &r {
        return Err(format!("false result accepted: output limbs {:?}", outs(a).iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    }
    if matches!(r, Res::Exhausted) {
        refuted += 1;
    }
    labels.push(label(&r));
    okl(refuted > 0, &labels)
}

type R = Result<Info, String>;
const BUDGET: usize = 60;

fn inp<F: PrimeField>(cs: &mut RecCS<F>, fixed: &mut Vec<(u32, F)>, template: &BigInt, actual: &BigInt, w: usize, n: usize) -> BigNat<F> {
    let from = cs.n_vars();
    let b = alloc(cs.namespace(|| "in"), template, w, n).unwrap();
    for (i, l) in limbs_of(actual, w, n).iter().enumerate() {
        fixed.push(((from + i) as u32, from_int(l)));
    }
    b
}
/// Wrong values for a result of `n` limbs whose true value is `t`.
fn wrong(t: &BigInt, w: usize, n: usize, p: &BigInt, o: &Ops) -> Vec<Vec<BigInt>> {
    let top = p2(w * n);
    let zero = BigInt::zero();
    let mut v: Vec<BigInt> = vec![t + 1u8, t - 1u8, t + p, t - p, t % p2(w * (n.max(2) - 1)), t + p2(w * (n - 1)), z(o.seed) * z(o.k) % &top];
    v.retain(|x| *x >= zero && *x < top && x != t);
    let mut r: Vec<Vec<BigInt>> = v.iter().map(|x| limbs_of(x, w, n)).collect();
    if *t >= zero && *t < top {
        r.push(skew(&limbs_of(t, w, n), w, o.k));
        r.push(skew(&limbs_of(t, w, n), w, o.k ^ 64));
    }
    // the true value folded into few limbs
    let mut f = vec![zero.clone(); n];
    f[0] = t.clone();
    r.push(f);
    r
}
fn in_range(l: &[BigInt], w: usize) -> bool {
    l.iter().all(|x| x.bits() as usize <= w)
}

fn sub<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::zero(), &o.b.0, w, n[1]);
    let d = a.sub(cs.namespace(|| "s"), &b).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &d);
    let truth = &o.a.0 - &o.b.0;
    let cands = wrong(&truth, w, out.len(), &crate::fields::modulus::<F>(), o);
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| in_range(l, w) && join(l, w) == truth)
}
fn mult<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::one(), &o.b.0, w, n[1]);
    let d = a.mult(cs.namespace(|| "s"), &b).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &d);
    let truth = &o.a.0 * &o.b.0;
    let cands = wrong(&truth, w, out.len(), &crate::fields::modulus::<F>(), o);
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| in_range(l, w) && join(l, w) == truth)
}
fn min<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::zero(), &o.b.0, w, n[1]);
    let d = a.min(cs.namespace(|| "s"), &b).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &d);
    let truth = (&o.a.0).min(&o.b.0).clone();
    let big = (&o.a.0).max(&o.b.0).clone();
    let mut cands = wrong(&truth, w, out.len(), &crate::fields::modulus::<F>(), o);
    cands.insert(0, limbs_of(&big, w, out.len()));
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| in_range(l, w) && join(l, w) == truth)
}
fn nz(x: &BigInt) -> BigInt {
    if x.is_zero() {
        BigInt::one()
    } else {
        x.clone()
    }
}
/// quotient and remainder proposals for value = q*m + r
fn qr(v: &BigInt, m: &BigInt, w: usize, nq: usize, nr: usize, p: &BigInt, o: &Ops) -> Vec<Vec<BigInt>> {
    let (q, r) = v.div_rem(m);
    let mut c: Vec<(BigInt, BigInt)> = vec![(q.clone(), &r + 1u8), (&q + 1u8, r.clone()), (q.clone(), z(o.k) % p2(w * nr)), (&q % p2(w * (nq.max(2) - 1)), r.clone()), (q.clone(), &r % p2(w * (nr.max(2) - 1))), (BigInt::zero(), BigInt::zero()), (z(o.seed) % p2(w * nq), z(o.k) % p2(w * nr))];
    for vv in [v + p, v - p, v + p2(w), v - p2(w)] {
        if vv >= BigInt::zero() {
            let (a, b) = vv.div_rem(m);
            c.push((a, b));
        }
    }
    let mut out: Vec<Vec<BigInt>> = c.into_iter().filter(|(a, b)| a.bits() as usize <= w * nq && b.bits() as usize <= w * nr && *b >= BigInt::zero()).map(|(a, b)| [limbs_of(&a, w, nq), limbs_of(&b, w, nr)].concat()).collect();
    if q.bits() as usize <= w * nq {
        let (lq, lr) = (limbs_of(&q, w, nq), limbs_of(&r, w, nr));
        out.push([skew(&lq, w, o.k), lr.clone()].concat());
        out.push([lq.clone(), skew(&lr, w, o.k)].concat());
        // one more / one less with the remainder out of range
        let mut lr2 = lr.clone();
        let lm = limbs_of(m, w, nr);
        for (x, y) in lr2.iter_mut().zip(&lm) {
            *x -= y;
        }
        let q2 = &q + 1u8;
        if q2.bits() as usize <= w * nq {
            out.push([limbs_of(&q2, w, nq), lr2].concat());
        }
        if q > BigInt::zero() {
            let q2 = &q - 1u8;
            let s: Vec<BigInt> = lr.iter().zip(&lm).map(|(x, y)| x + y).collect();
            out.push([limbs_of(&q2, w, nq), s].concat());
        }
    }
    out
}
fn mult_mod<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let m = nz(&o.c.0);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::one(), &o.b.0, w, n[1]);
    let mb = inp(&mut cs, &mut fixed, &BigInt::one(), &m, w, n[2]);
    let (q, r) = a.mult_mod(cs.namespace(|| "s"), &b, &mb).map_err(|e| e.to_string())?;
    let (nq, nr) = (q.limbs.len(), r.limbs.len());
    let out = [lcs(&cs, &q), lcs(&cs, &r)].concat();
    let v = &o.a.0 * &o.b.0;
    let cands = qr(&v, &m, w, nq, nr, &crate::fields::modulus::<F>(), o);
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| in_range(l, w) && join(&l[..nq], w) * &m + join(&l[nq..], w) == v)
}
fn red_mod<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let m = nz(&o.c.0);
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let (x, v) = if o.k & 1 == 0 {
        let b = inp(&mut cs, &mut fixed, &BigInt::one(), &o.b.0, w, n[1]);
        (a.add::<RecCS<F>>(&b).map_err(|e| e.to_string())?, &o.a.0 + &o.b.0)
    } else {
        (a, o.a.0.clone())
    };
    let mb = inp(&mut cs, &mut fixed, &BigInt::one(), &m, w, n[2]);
    let r = x.red_mod(cs.namespace(|| "s"), &mb).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &r);
    let truth = &v % &m;
    let mut cands = wrong(&truth, w, out.len(), &crate::fields::modulus::<F>(), o);
    let other = (&v + crate::fields::modulus::<F>()) % &m;
    cands.push(limbs_of(&other, w, out.len()));
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| {
        let r = join(l, w);
        in_range(l, w) && r <= v && ((&v - r) % &m).is_zero()
    })
}
fn product_mod<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let m = nz(&o.c.0);
    let v = &o.a.0 * &o.b.0;
    let top = p2(w * n[2]);
    let p = crate::fields::modulus::<F>();
    let rem = match o.k % 5 {
        0 => &v % &m,
        1 => (&v % &m + 1u8) % &top,
        2 => ((&v + &p) % &m) % &top,
        3 => (&v % &m + &m) % &top,
        _ => z(o.seed) % &top,
    };
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &o.a.0, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::one(), &o.b.0, w, n[1]);
    let mb = inp(&mut cs, &mut fixed, &BigInt::one(), &m, w, n[2]);
    let rb = inp(&mut cs, &mut fixed, &BigInt::zero(), &rem, w, n[2]);
    let q = a.assert_product_mod(cs.namespace(|| "s"), &b, &mb, &rb).map_err(|e| e.to_string())?;
    let out = lcs(&cs, &q);
    let nq = out.len();
    let t = if v >= rem { (&v - &rem) / &m } else { BigInt::zero() };
    let mut cands = wrong(&t, w, nq, &p, o);
    cands.push(limbs_of(&t, w, nq));
    attack(&Target { cs, fixed, out, cands }, o.seed, BUDGET, &|l| in_range(l, w) && join(l, w) * &m + &rem == v)
}
fn divides<F: PrimeField>(o: &Ops) -> R {
    let (w, n) = (o.l.w, &o.l.n);
    let d = nz(&o.a.0);
    let top = p2(w * n[1]);
    let p = crate::fields::modulus::<F>();
    // values that are multiples only modulo the field or the layout are the interesting ones
    let x = match o.k % 4 {
        0 => o.b.0.clone(),
        1 => (&d * z(o.seed) + 1u8) % &top,
        2 => (&d * z(o.seed % 1000) + &p) % &top,
        _ => (&d * &o.c.0) % &top,
    };
    let mut cs = RecCS::<F>::new();
    let mut fixed = vec![];
    let a = inp(&mut cs, &mut fixed, &BigInt::one(), &d, w, n[0]);
    let b = inp(&mut cs, &mut fixed, &BigInt::zero(), &x, w, n[1]);
    a.divides(cs.namespace(|| "s"), &b).map_err(|e| e.to_string())?;
    if (&x % &d).is_zero() {
        return okl(false, &["divides"]);
    }
    let n_in = cs.n_vars().min(1 + n[0] + n[1]);
    // the factor is the first thing allocated after the operands: propose near-factors for it too
    let out: Vec<Lc<F>> = (0..n[1]).map(|i| Lc::var((n_in + i) as u32)).collect();
    let cands = if cs.n_vars() >= n_in + n[1] {
        let inv = from_int::<F>(&d).invert();
        let mut c: Vec<Vec<BigInt>> = vec![limbs_of(&(&x / &d), w, n[1]), limbs_of(&((&x / &d + 1u8) % &top), w, n[1])];
        if bool::from(inv.is_some()) {
            // field quotient, in one limb
            let q = to_int(&(inv.unwrap() * from_int::<F>(&x)));
            let mut v = vec![BigInt::zero(); n[1]];
            v[0] = q;
            c.push(v);
        }
        c
    } else {
        vec![]
    };
    attack(&Target { cs, fixed, out: if cands.is_empty() { vec![] } else { out }, cands }, o.seed, BUDGET, &|_| false)
}

fn run(ctx: &Ctx) {
    const A: &[u8] = &[0, 0, 1, 1, 2, 2, 3, 4];
    macro_rules! go {
        ($name:expr, $n:expr, $l:expr, $f:ident) => {
            ctx.check($name, ctx.n(2 * $n), || ops(A, $l), |o| with_field!(o.l.field, F => $f::<F>(o)))
        };
    }
    go!("forge_sub", 1500, 3, sub);
    go!("forge_mult", 1000, 3, mult);
    go!("forge_min", 1500, 3, min);
    go!("forge_mult_mod", 600, 2, mult_mod);
    go!("forge_red_mod", 1000, 3, red_mod);
    go!("forge_product_mod", 800, 2, product_mod);
    go!("forge_divides", 1500, 3, divides);
}
