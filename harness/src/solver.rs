//! Adversarial witness search: given the constraints a gadget emitted and some fixed variables,
//! look for a full satisfying assignment of all the others. It knows nothing about gadget
//! internals (no variable names, no order): it works on the recorded R1CS only.
//!
//! Result: Found (a complete assignment, re-checked against every original constraint),
//! Exhausted (none exists), or Budget (inconclusive, never reported as anything).
use crate::cs::{first_unsat, Con, Lc};
use crate::fields::{from_int, modulus, to_int};
use ff::PrimeField;
use num_bigint::{BigInt, Sign};
use num_traits::{One, Signed, Zero};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use std::collections::{BTreeSet, VecDeque};

pub enum Res<F> {
    Found(Vec<F>),
    Exhausted,
    Budget,
}

pub struct System<F: PrimeField> {
    /// number of variables of the recorded system (virtual ones come after)
    pub n_orig: usize,
    pub n: usize,
    pub orig: Vec<Con<F>>,
    cons: Vec<Con<F>>,
    occ: Vec<Vec<u32>>,
    dom: Vec<Option<[F; 2]>>,
    contradiction: bool,
}

#[derive(Clone)]
pub struct St<F: PrimeField> {
    pub val: Vec<Option<F>>,
    dom: Vec<Option<[F; 2]>>,
    extra: Vec<Con<F>>,
    extra_occ: Vec<(u32, u32)>,
    /// constraints not identically satisfied yet
    live: Vec<u32>,
}

struct Conflict;
type P<T = ()> = Result<T, Conflict>;

fn is0<F: PrimeField>(f: &F) -> bool {
    bool::from(f.is_zero())
}

/// L + const with L without the constant variable
fn split_const<F: PrimeField>(l: &Lc<F>) -> (F, Vec<(u32, F)>) {
    let mut c = F::ZERO;
    let mut r = vec![];
    for (v, k) in &l.0 {
        if *v == 0 {
            c += *k
        } else {
            r.push((*v, *k))
        }
    }
    (c, r)
}

impl<F: PrimeField> System<F> {
    pub fn new(n_vars: usize, cons: &[Con<F>]) -> Self {
        let mut s = System { n_orig: n_vars, n: n_vars, orig: cons.to_vec(), cons: vec![], occ: vec![], dom: vec![None; n_vars], contradiction: false };
        for k in cons {
            let (a0, a) = split_const(&k.a);
            let (b0, b) = split_const(&k.b);
            if k.c.0.is_empty() && !a.is_empty() && a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0) {
                let r = b[0].1 * a[0].1.invert().unwrap();
                if a.iter().zip(&b).all(|(x, y)| x.1 * r == y.1) {
                    // (L + a0)(rL + b0) = 0
                    let r1 = -a0;
                    let r2 = -(b0 * r.invert().unwrap());
                    if a.len() == 1 {
                        let ki = a[0].1.invert().unwrap();
                        s.restrict_static(a[0].0, [r1 * ki, r2 * ki]);
                    } else {
                        let v = s.n as u32;
                        s.n += 1;
                        s.dom.push(Some([r1, r2]));
                        let mut l = a.clone();
                        l.push((v, -F::ONE));
                        s.cons.push(Con { a: Lc(vec![]), b: Lc(vec![]), c: Lc::norm(l) });
                    }
                    continue;
                }
            }
            s.cons.push(k.clone());
        }
        s.occ = vec![vec![]; s.n];
        for (i, k) in s.cons.iter().enumerate() {
            let mut vs: Vec<u32> = k.a.0.iter().chain(&k.b.0).chain(&k.c.0).map(|x| x.0).filter(|v| *v != 0).collect();
            vs.sort();
            vs.dedup();
            for v in vs {
                s.occ[v as usize].push(i as u32);
            }
        }
        s
    }
    fn restrict_static(&mut self, v: u32, d: [F; 2]) {
        let e = &mut self.dom[v as usize];
        *e = match e {
            None => Some(d),
            Some(old) => {
                let keep: Vec<F> = old.iter().filter(|x| d.contains(x)).cloned().collect();
                match keep.len() {
                    0 => {
                        self.contradiction = true;
                        Some(d)
                    }
                    1 => Some([keep[0], keep[0]]),
                    _ => Some([keep[0], keep[1]]),
                }
            }
        };
    }

    /// State with the given variables fixed and the extra linear equations (lc = value) added.
    /// None: already contradictory.
    /// The variables that occur in constraints.
    pub fn used(&self) -> BTreeSet<u32> {
        self.orig.iter().flat_map(|k| k.a.0.iter().chain(&k.b.0).chain(&k.c.0)).map(|x| x.0).collect()
    }

    pub fn start(&self, fixed: &[(u32, F)], eqs: &[(Lc<F>, F)]) -> Option<St<F>> {
        if self.contradiction {
            return None;
        }
        let mut st = St { val: vec![None; self.n], dom: self.dom.clone(), extra: vec![], extra_occ: vec![], live: (0..self.cons.len() as u32).collect() };
        st.val[0] = Some(F::ONE);
        for (v, x) in fixed {
            match st.val[*v as usize] {
                Some(y) if y != *x => return None,
                _ => {}
            }
            if let Some(d) = &st.dom[*v as usize] {
                if !d.contains(x) {
                    return None;
                }
            }
            st.val[*v as usize] = Some(*x);
        }
        for (l, x) in eqs {
            let mut t = l.0.clone();
            t.push((0, -*x));
            st.push_extra(Lc::norm(t));
        }
        match self.propagate(&mut st, None) {
            Ok(()) => Some(st),
            Err(_) => None,
        }
    }

    fn con<'a>(&'a self, st: &'a St<F>, i: u32) -> &'a Con<F> {
        if (i as usize) < self.cons.len() {
            &self.cons[i as usize]
        } else {
            &st.extra[i as usize - self.cons.len()]
        }
    }

    fn split(st: &St<F>, l: &Lc<F>) -> (F, Vec<(u32, F)>) {
        let mut c = F::ZERO;
        let mut u = Vec::new();
        for (v, k) in &l.0 {
            match &st.val[*v as usize] {
                Some(x) => c += *x * k,
                None => u.push((*v, *k)),
            }
        }
        (c, u)
    }

    /// The constraint as a linear equation sum(terms) = rhs, if it currently is one.
    fn as_linear(&self, st: &St<F>, i: u32) -> Option<(Vec<(u32, F)>, F)> {
        let k = self.con(st, i);
        let (ca, ua) = Self::split(st, &k.a);
        let (cb, ub) = Self::split(st, &k.b);
        let (s, mut u, oc) = if ua.is_empty() {
            (ca, ub, cb)
        } else if ub.is_empty() {
            (cb, ua, ca)
        } else {
            return None;
        };
        let (cc, uc) = Self::split(st, &k.c);
        if is0(&s) {
            u.clear();
        }
        for t in &mut u {
            t.1 *= s;
        }
        let rhs = cc - s * oc;
        if !uc.is_empty() {
            if u.is_empty() {
                u = uc.into_iter().map(|(v, c)| (v, -c)).collect();
            } else {
                u.extend(uc.into_iter().map(|(v, c)| (v, -c)));
                u = Lc::norm(u).0;
            }
        }
        Some((u, rhs))
    }

    /// Runs propagation to a fixed point. `from`: start only from these variables' constraints.
    fn propagate(&self, st: &mut St<F>, from: Option<Vec<u32>>) -> P {
        let total = self.cons.len() + st.extra.len();
        let mut q: VecDeque<u32> = VecDeque::new();
        let mut inq = vec![false; total];
        let mut slow: BTreeSet<u32> = BTreeSet::new();
        match from {
            None => {
                for i in 0..total as u32 {
                    q.push_back(i);
                    inq[i as usize] = true;
                }
                for v in 1..self.n {
                    if st.val[v].is_none() {
                        if let Some(d) = st.dom[v] {
                            if d[0] == d[1] {
                                st.val[v] = Some(d[0]);
                            }
                        }
                    }
                }
            }
            Some(vs) => {
                for v in vs {
                    self.wake(st, v, &mut q, &mut inq);
                }
                // extras may be new
                for e in 0..st.extra.len() {
                    let i = self.cons.len() + e;
                    if !inq[i] {
                        inq[i] = true;
                        q.push_back(i as u32);
                    }
                }
            }
        }
        let mut new: Vec<u32> = vec![];
        loop {
            if let Some(i) = q.pop_front() {
                inq[i as usize] = false;
                if self.visit(st, i, &mut new)? {
                    slow.insert(i);
                }
            } else if let Some(i) = slow.pop_first() {
                if let Some((u, r)) = self.as_linear(st, i) {
                    self.decode(st, &u, r, &mut new)?;
                }
            } else {
                self.substitute(st, &mut new)?;
                if new.is_empty() {
                    self.gauss(st, true, &mut new)?;
                }
                if new.is_empty() {
                    self.gauss(st, false, &mut new)?;
                }
                if new.is_empty() {
                    let mut live = std::mem::take(&mut st.live);
                    live.retain(|i| self.as_linear(st, *i).map_or(true, |(u, _)| !u.is_empty()));
                    st.live = live;
                    return Ok(());
                }
            }
            for v in std::mem::take(&mut new) {
                self.wake(st, v, &mut q, &mut inq);
            }
        }
    }

    fn wake(&self, st: &St<F>, v: u32, q: &mut VecDeque<u32>, inq: &mut [bool]) {
        for &i in &self.occ[v as usize] {
            if !inq[i as usize] {
                inq[i as usize] = true;
                q.push_back(i);
            }
        }
        for &(w, e) in &st.extra_occ {
            let i = self.cons.len() as u32 + e;
            if w == v && !inq[i as usize] {
                inq[i as usize] = true;
                q.push_back(i);
            }
        }
    }

    fn assign(&self, st: &mut St<F>, v: u32, x: F, new: &mut Vec<u32>) -> P {
        match st.val[v as usize] {
            Some(y) => {
                if x == y {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            None => {
                if let Some(d) = &st.dom[v as usize] {
                    if !d.contains(&x) {
                        return Err(Conflict);
                    }
                }
                st.val[v as usize] = Some(x);
                new.push(v);
                Ok(())
            }
        }
    }
    fn restrict(&self, st: &mut St<F>, v: u32, d: Vec<F>, new: &mut Vec<u32>) -> P {
        let keep: Vec<F> = match &st.dom[v as usize] {
            None => d,
            Some(old) => old.iter().filter(|x| d.contains(x)).cloned().collect(),
        };
        match keep.len() {
            0 => Err(Conflict),
            1 => self.assign(st, v, keep[0], new),
            _ => {
                if keep[0] == keep[1] {
                    return self.assign(st, v, keep[0], new);
                }
                if st.dom[v as usize].is_none() {
                    st.dom[v as usize] = Some([keep[0], keep[1]]);
                    new.push(v);
                }
                Ok(())
            }
        }
    }

    /// true: deserves a decode pass later
    fn visit(&self, st: &mut St<F>, i: u32, new: &mut Vec<u32>) -> P<bool> {
        if let Some((u, rhs)) = self.as_linear(st, i) {
            return self.linear(st, u, rhs, new);
        }
        let k = self.con(st, i);
        let (ca, ua) = Self::split(st, &k.a);
        let (cb, ub) = Self::split(st, &k.b);
        let (cc, uc) = Self::split(st, &k.c);
        let mut vars: Vec<u32> = ua.iter().chain(&ub).chain(&uc).map(|x| x.0).collect();
        vars.sort();
        vars.dedup();
        if vars.len() == 1 {
            let x = vars[0];
            let g = |u: &Vec<(u32, F)>| u.iter().fold(F::ZERO, |s, t| s + t.1);
            let (a, b, c) = (g(&ua), g(&ub), g(&uc));
            // (a x + ca)(b x + cb) = c x + cc
            let (q2, q1, q0) = (a * b, a * cb + b * ca - c, ca * cb - cc);
            if let Some(roots) = solve_quadratic(q2, q1, q0) {
                self.restrict(st, x, roots, new)?;
            }
            return Ok(false);
        }
        if vars.len() <= 3 && vars.iter().all(|v| st.dom[*v as usize].is_some()) {
            let doms: Vec<[F; 2]> = vars.iter().map(|v| st.dom[*v as usize].unwrap()).collect();
            let mut seen = vec![[false; 2]; vars.len()];
            let mut any = false;
            for m in 0..1u32 << vars.len() {
                let pick = |v: u32| {
                    let j = vars.iter().position(|w| *w == v).unwrap();
                    doms[j][(m >> j & 1) as usize]
                };
                let f = |c: F, u: &Vec<(u32, F)>| u.iter().fold(c, |s, t| s + t.1 * pick(t.0));
                if f(ca, &ua) * f(cb, &ub) == f(cc, &uc) {
                    any = true;
                    for j in 0..vars.len() {
                        seen[j][(m >> j & 1) as usize] = true;
                    }
                }
            }
            if !any {
                return Err(Conflict);
            }
            for j in 0..vars.len() {
                if seen[j] != [true, true] {
                    let x = if seen[j][0] { doms[j][0] } else { doms[j][1] };
                    self.assign(st, vars[j], x, new)?;
                }
            }
            return Ok(false);
        }
        if uc.is_empty() && is0(&cc) {
            // A = 0 or B = 0: if one side cannot be zero the other must be
            let never0 = |c: &F, u: &Vec<(u32, F)>| {
                u.len() == 1
                    && match &st.dom[u[0].0 as usize] {
                        Some(d) => d.iter().all(|x| !is0(&(*c + u[0].1 * x))),
                        None => false,
                    }
            };
            if never0(&ca, &ua) {
                return self.linear(st, ub, -cb, new);
            }
            if never0(&cb, &ub) {
                return self.linear(st, ua, -ca, new);
            }
        }
        Ok(false)
    }

    fn linear(&self, st: &mut St<F>, u: Vec<(u32, F)>, rhs: F, new: &mut Vec<u32>) -> P<bool> {
        match u.len() {
            0 => {
                if is0(&rhs) {
                    Ok(false)
                } else {
                    Err(Conflict)
                }
            }
            1 => {
                let x = if u[0].1 == F::ONE { rhs } else { rhs * u[0].1.invert().unwrap() };
                self.assign(st, u[0].0, x, new)?;
                Ok(false)
            }
            n => {
                if u.iter().all(|(v, _)| st.dom[*v as usize].is_some()) {
                    if n <= 4 {
                        self.enumerate(st, &u, rhs, new)?;
                        Ok(false)
                    } else {
                        Ok(true)
                    }
                } else {
                    Ok(false)
                }
            }
        }
    }

    fn enumerate(&self, st: &mut St<F>, u: &[(u32, F)], rhs: F, new: &mut Vec<u32>) -> P {
        let doms: Vec<[F; 2]> = u.iter().map(|(v, _)| st.dom[*v as usize].unwrap()).collect();
        let mut seen = vec![[false; 2]; u.len()];
        let mut any = false;
        for m in 0..1u32 << u.len() {
            let mut s = F::ZERO;
            for j in 0..u.len() {
                s += u[j].1 * doms[j][(m >> j & 1) as usize];
            }
            if s == rhs {
                any = true;
                for j in 0..u.len() {
                    seen[j][(m >> j & 1) as usize] = true;
                }
            }
        }
        if !any {
            return Err(Conflict);
        }
        for j in 0..u.len() {
            if seen[j] != [true, true] {
                let x = if seen[j][0] { doms[j][0] } else { doms[j][1] };
                self.assign(st, u[j].0, x, new)?;
            }
        }
        Ok(())
    }

    /// Linear equation over two-valued variables, seen as an integer equation.
    fn decode(&self, st: &mut St<F>, u: &[(u32, F)], rhs: F, new: &mut Vec<u32>) -> P {
        if u.is_empty() {
            return if is0(&rhs) { Ok(()) } else { Err(Conflict) };
        }
        if u.iter().any(|(v, _)| st.dom[*v as usize].is_none()) {
            return Ok(());
        }
        let p = modulus::<F>();
        let half: BigInt = &p >> 1;
        // sum c_i b_i = r, b_i in {0,1}
        let mut r = rhs;
        let mut t: Vec<(u32, BigInt)> = vec![];
        for (v, c) in u {
            let d = st.dom[*v as usize].unwrap();
            r -= *c * d[0];
            let k = *c * (d[1] - d[0]);
            let mut n = to_int(&k);
            if n > half {
                n -= &p;
            }
            t.push((*v, n));
        }
        let lo: BigInt = t.iter().filter(|x| x.1.is_negative()).map(|x| x.1.clone()).sum();
        let hi: BigInt = t.iter().filter(|x| x.1.is_positive()).map(|x| x.1.clone()).sum();
        let mut cand = to_int(&r);
        // smallest representative >= lo
        use num_integer::Integer;
        let off = (&cand - &lo).div_floor(&p);
        cand -= off * &p;
        if cand > hi {
            return Err(Conflict);
        }
        if &cand + &p <= hi {
            return Ok(()); // several integer readings
        }
        let mut rr = cand;
        let mut items: Vec<(u32, BigInt, bool)> = vec![];
        for (v, c) in t {
            if c.is_negative() {
                rr -= &c;
                items.push((v, -c, true));
            } else {
                items.push((v, c, false));
            }
        }
        items.sort_by(|a, b| b.1.cmp(&a.1));
        let mut sum: BigInt = items.iter().map(|x| x.1.clone()).sum();
        let mut out: Vec<(u32, bool)> = vec![];
        let mut s = 0;
        // from the top
        while s < items.len() {
            if rr.is_negative() || rr > sum {
                return Err(Conflict);
            }
            let (v, c, neg) = &items[s];
            let b = if *c > rr {
                false
            } else if &sum - c < rr {
                true
            } else {
                break;
            };
            sum -= c;
            if b {
                rr -= c;
            }
            out.push((*v, b ^ neg));
            s += 1;
        }
        if s == items.len() && !rr.is_zero() {
            return Err(Conflict);
        }
        // from the bottom (parity)
        let mut rest: Vec<(u32, BigInt, bool)> = items.split_off(s);
        let val2 = |x: &BigInt| x.trailing_zeros().unwrap_or(0);
        rest.sort_by_key(|x| std::cmp::Reverse(val2(&x.1)));
        while let Some(last) = rest.last() {
            let m = val2(&last.1);
            if !rr.is_zero() && val2(&rr) < m {
                return Err(Conflict);
            }
            if rest.len() >= 2 && val2(&rest[rest.len() - 2].1) == m {
                break;
            }
            let (v, c, neg) = rest.pop().unwrap();
            let b = rr.bit(m);
            if b {
                rr -= c;
            }
            if rr.sign() == Sign::Minus {
                return Err(Conflict);
            }
            out.push((v, b ^ neg));
        }
        if rest.is_empty() && !rr.is_zero() {
            return Err(Conflict);
        }
        for (v, b) in out {
            let x = st.dom[v as usize].unwrap()[b as usize];
            self.assign(st, v, x, new)?;
        }
        Ok(())
    }

    /// Replaces free variables that a linear equation defines by two-valued ones (a limb by its
    /// bits, say) in the other linear equations, and reads those as integer equations.
    fn substitute(&self, st: &mut St<F>, new: &mut Vec<u32>) -> P {
        let mut rows: Vec<(u32, Vec<(u32, F)>, F, usize)> = vec![];
        for i in self.rows(st) {
            if let Some((u, r)) = self.as_linear(st, i) {
                if u.len() >= 2 {
                    let free = u.iter().filter(|(v, _)| st.dom[*v as usize].is_none()).count();
                    if free >= 1 {
                        rows.push((i, u, r, free));
                    }
                }
            }
        }
        // v = sum(terms) + c, by shortest definition
        let mut def: std::collections::HashMap<u32, (u32, Vec<(u32, F)>, F)> = Default::default();
        for (i, u, r, free) in &rows {
            if *free == 1 {
                let (v, k) = *u.iter().find(|(v, _)| st.dom[*v as usize].is_none()).unwrap();
                if def.get(&v).map_or(true, |d| d.1.len() > u.len()) {
                    let inv = k.invert().unwrap();
                    let t: Vec<(u32, F)> = u.iter().filter(|x| x.0 != v).map(|(w, c)| (*w, -*c * inv)).collect();
                    def.insert(v, (*i, t, *r * inv));
                }
            }
        }
        if def.is_empty() {
            return Ok(());
        }
        for (i, u, r, _) in &rows {
            if !u.iter().all(|(v, _)| st.dom[*v as usize].is_some() || def.get(v).map_or(false, |d| d.0 != *i)) {
                continue;
            }
            let mut rhs = *r;
            let mut t: Vec<(u32, F)> = vec![];
            for (v, k) in u {
                if st.dom[*v as usize].is_some() {
                    t.push((*v, *k));
                } else {
                    let d = &def[v];
                    rhs -= *k * d.2;
                    t.extend(d.1.iter().map(|(w, c)| (*w, *c * k)));
                }
            }
            let t = Lc::norm(t).0;
            // values assigned meanwhile
            let mut u = vec![];
            for (v, k) in t {
                match st.val[v as usize] {
                    Some(x) => rhs -= k * x,
                    None => u.push((v, k)),
                }
            }
            if self.linear(st, u.clone(), rhs, new)? {
                self.decode(st, &u, rhs, new)?;
            }
        }
        Ok(())
    }

    /// Gaussian elimination over the equations that are linear at the moment (small systems only).
    /// `free_only`: only equations among variables that are not two-valued (interpolation systems).
    fn gauss(&self, st: &mut St<F>, free_only: bool, new: &mut Vec<u32>) -> P {
        let total = (self.cons.len() + st.extra.len()) as u32;
        if total > 6000 && !free_only {
            return Ok(());
        }
        let mut rows: Vec<(Vec<(u32, F)>, F)> = vec![];
        for i in self.rows(st) {
            if let Some((u, r)) = self.as_linear(st, i) {
                if free_only && u.iter().any(|(v, _)| st.dom[*v as usize].is_some()) {
                    continue;
                }
                if u.len() >= 2 && u.len() <= 80 {
                    rows.push((u, r));
                    if rows.len() > 250 {
                        return Ok(());
                    }
                }
            }
        }
        if rows.len() < 2 {
            return Ok(());
        }
        let mut vars: Vec<u32> = rows.iter().flat_map(|r| r.0.iter().map(|t| t.0)).collect();
        vars.sort();
        vars.dedup();
        // eliminate undetermined non-domain variables first
        vars.sort_by_key(|v| (st.dom[*v as usize].is_some(), *v));
        if vars.len() > 400 {
            return Ok(());
        }
        let idx: std::collections::HashMap<u32, usize> = vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let n = vars.len();
        let mut m: Vec<Vec<F>> = rows
            .iter()
            .map(|(u, r)| {
                let mut v = vec![F::ZERO; n + 1];
                for (x, c) in u {
                    v[idx[x]] = *c;
                }
                v[n] = *r;
                v
            })
            .collect();
        let mut row = 0;
        for col in 0..n {
            let Some(pr) = (row..m.len()).find(|r| !is0(&m[*r][col])) else { continue };
            m.swap(row, pr);
            let inv = m[row][col].invert().unwrap();
            for j in col..=n {
                m[row][j] *= inv;
            }
            for r in 0..m.len() {
                if r != row && !is0(&m[r][col]) {
                    let f = m[r][col];
                    for j in col..=n {
                        let t = m[row][j] * f;
                        m[r][j] -= t;
                    }
                }
            }
            row += 1;
            if row == m.len() {
                break;
            }
        }
        for r in &m {
            let u: Vec<(u32, F)> = (0..n).filter(|j| !is0(&r[*j])).map(|j| (vars[j], r[j])).collect();
            if u.len() <= 1 || (u.iter().all(|(v, _)| st.dom[*v as usize].is_some())) {
                let u: Vec<(u32, F)> = u.into_iter().collect();
                let rhs = r[n] - u.iter().filter_map(|(v, c)| st.val[*v as usize].map(|x| x * c)).sum::<F>();
                let u: Vec<(u32, F)> = u.into_iter().filter(|(v, _)| st.val[*v as usize].is_none()).collect();
                if self.linear(st, u.clone(), rhs, new)? {
                    self.decode(st, &u, rhs, new)?;
                }
            }
        }
        Ok(())
    }

    fn rows(&self, st: &St<F>) -> Vec<u32> {
        let n = self.cons.len() as u32;
        st.live.iter().cloned().chain(n..n + st.extra.len() as u32).collect()
    }
    /// unknown variables of constraints that are not identically satisfied yet
    fn open(&self, st: &St<F>) -> Vec<u32> {
        let mut r = vec![];
        for i in self.rows(st) {
            match self.as_linear(st, i) {
                Some((u, _)) => {
                    if !u.is_empty() {
                        r.push(i)
                    }
                }
                None => r.push(i),
            }
        }
        r
    }

    /// Values of all original variables if everything is determined (free ones filled in).
    fn finish(&self, st: &St<F>) -> Option<Vec<F>> {
        let mut a = vec![];
        for v in 0..self.n_orig {
            a.push(match (st.val[v], st.dom[v]) {
                (Some(x), _) => x,
                (None, Some(d)) => d[0],
                _ => F::ZERO,
            });
        }
        if first_unsat(&self.orig, &a).is_none() {
            Some(a)
        } else {
            None
        }
    }

    /// Depth-first search for a solution accepted by `want`.
    /// `hint`: the honest witness; other values are tried first.
    pub fn search(&self, st: St<F>, hint: &[Option<F>], rng: &mut ChaCha8Rng, budget: usize, want: &dyn Fn(&[F]) -> bool) -> Res<F> {
        let mut left = budget;
        let mut incomplete = false;
        let big = modulus::<F>().bits() > 20;
        match self.dfs(st, hint, rng, &mut left, &mut incomplete, big, want) {
            Some(a) => Res::Found(a),
            None => {
                if left == 0 || incomplete {
                    Res::Budget
                } else {
                    Res::Exhausted
                }
            }
        }
    }

    /// Guided search: `hints` are satisfying assignments of neighbouring cases. Open variables are
    /// taken in order of allocation, set to a hint's value (in some rounds one of them is set to
    /// something else), and the consequences propagated. Finds only, proves nothing.
    pub fn search_hinted(&self, st: &St<F>, hints: &[Vec<Option<F>>], pool: &[F], rng: &mut ChaCha8Rng, rounds: usize, want: &dyn Fn(&[F]) -> bool) -> Option<Vec<F>> {
        for h in hints {
            let a: Option<Vec<F>> = (0..self.n_orig).map(|v| st.val[v].or(h[v])).collect();
            if let Some(a) = a {
                if first_unsat(&self.orig, &a).is_none() && want(&a) {
                    return Some(a);
                }
            }
        }
        for round in 0..rounds {
            // which decision deviates from the hints; the first rounds none
            let main = round % hints.len();
            let mut deviate = if round < hints.len() { usize::MAX } else { rng.gen_range(0..6) };
            let mut left = 60;
            if let Some(a) = self.dfs_hinted(st.clone(), hints, main, pool, rng, &mut deviate, &mut left, want) {
                return Some(a);
            }
        }
        None
    }
    fn dfs_hinted(&self, st: St<F>, hints: &[Vec<Option<F>>], main: usize, pool: &[F], rng: &mut ChaCha8Rng, deviate: &mut usize, left: &mut usize, want: &dyn Fn(&[F]) -> bool) -> Option<Vec<F>> {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        let open = self.open(&st);
        if open.is_empty() {
            let a = self.finish(&st)?;
            return if want(&a) { Some(a) } else { None };
        }
        let mut v = u32::MAX;
        for &i in &open {
            let k = self.con(&st, i);
            for (x, _) in k.a.0.iter().chain(&k.b.0).chain(&k.c.0) {
                if st.val[*x as usize].is_none() {
                    v = v.min(*x);
                }
            }
        }
        if v == u32::MAX {
            return None;
        }
        let hs: Vec<F> = (0..hints.len()).filter_map(|i| hints[(main + i) % hints.len()].get(v as usize).cloned().flatten()).collect();
        let now = *deviate == 0;
        *deviate = deviate.wrapping_sub(1);
        let mut cands: Vec<F> = match st.dom[v as usize] {
            Some(d) => {
                let mut c = d.to_vec();
                if let Some(h) = hs.first() {
                    if (c[0] == *h) == now {
                        c.swap(0, 1);
                    }
                }
                c
            }
            None => {
                let mut c = vec![];
                if now {
                    let k = rng.gen_range(0..226usize);
                    c.push(match (rng.gen_range(0..6), hs.first()) {
                        (0, Some(h)) => *h + F::ONE,
                        (1, Some(h)) => *h - F::ONE,
                        (2, Some(h)) => *h + crate::fields::pow2::<F>(k),
                        (3, _) => F::random(&mut *rng),
                        _ => *pool.choose(rng).unwrap_or(&F::ZERO),
                    });
                }
                c.extend(hs.iter().cloned());
                c.extend(pool.iter().cloned());
                let mut seen: Vec<F> = vec![];
                c.retain(|x| {
                    let new = !seen.contains(x);
                    if new {
                        seen.push(*x)
                    };
                    new
                });
                c
            }
        };
        for x in cands.drain(..) {
            let mut s = st.clone();
            s.val[v as usize] = Some(x);
            if self.propagate(&mut s, Some(vec![v])).is_ok() {
                if let Some(a) = self.dfs_hinted(s, hints, main, pool, rng, deviate, left, want) {
                    return Some(a);
                }
            } else {
                *left = left.saturating_sub(1);
            }
            if *left == 0 {
                return None;
            }
        }
        None
    }

    fn dfs(&self, st: St<F>, hint: &[Option<F>], rng: &mut ChaCha8Rng, left: &mut usize, incomplete: &mut bool, big: bool, want: &dyn Fn(&[F]) -> bool) -> Option<Vec<F>> {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        let open = self.open(&st);
        if open.is_empty() {
            let a = self.finish(&st)?;
            return if want(&a) {
                Some(a)
            } else {
                // unconstrained leftovers could still matter for `want`
                let free: Vec<u32> = (1..self.n_orig as u32).filter(|v| st.val[*v as usize].is_none()).collect();
                if free.is_empty() {
                    return None;
                }
                for _ in 0..4 {
                    let mut b = a.clone();
                    for v in &free {
                        b[*v as usize] = match st.dom[*v as usize] {
                            Some(d) => d[rng.gen_range(0..2)],
                            None => F::from(rng.gen::<u64>()),
                        };
                    }
                    if first_unsat(&self.orig, &b).is_none() && want(&b) {
                        return Some(b);
                    }
                }
                *incomplete = true;
                None
            };
        }
        // candidates for branching
        let mut best: Option<(u32, BigInt)> = None; // domain variable with a large coefficient
        let mut split: Option<u32> = None;
        let mut free: Vec<u32> = vec![];
        for &i in open.iter().take(4000) {
            if let Some((u, _)) = self.as_linear(&st, i) {
                for (v, c) in &u {
                    if st.dom[*v as usize].is_some() {
                        let mut n = to_int(c);
                        let p = modulus::<F>();
                        if n > (&p >> 1u32) {
                            n = p - n;
                        }
                        // many ambiguous readings or not: the top bit first, short equations first
                        let score = n * BigInt::from(1000) / BigInt::from(u.len());
                        if best.as_ref().map_or(true, |b| score > b.1) {
                            best = Some((*v, score));
                        }
                    } else {
                        free.push(*v);
                    }
                }
            } else {
                let k = self.con(&st, i);
                let (_, ua) = Self::split(&st, &k.a);
                let (_, ub) = Self::split(&st, &k.b);
                let (cc, uc) = Self::split(&st, &k.c);
                if uc.is_empty() && is0(&cc) && split.is_none() {
                    split = Some(i);
                }
                for (v, _) in ua.iter().chain(&ub).chain(&uc) {
                    if st.dom[*v as usize].is_some() {
                        if best.is_none() {
                            best = Some((*v, BigInt::one()));
                        }
                    } else {
                        free.push(*v);
                    }
                }
            }
        }
        if let Some((v, _)) = best {
            let d = st.dom[v as usize].unwrap();
            let mut vals = vec![d[0], d[1]];
            match hint.get(v as usize).cloned().flatten() {
                // mostly try the dishonest value first, sometimes the honest one
                Some(h) => {
                    if (vals[0] == h) != rng.gen_bool(0.4) {
                        vals.swap(0, 1)
                    }
                }
                None => vals.shuffle(rng),
            }
            for x in vals {
                let mut s = st.clone();
                s.val[v as usize] = Some(x);
                if self.propagate(&mut s, Some(vec![v])).is_ok() {
                    if let Some(a) = self.dfs(s, hint, rng, left, incomplete, big, want) {
                        return Some(a);
                    }
                }
                if *left == 0 {
                    return None;
                }
            }
            return None;
        }
        if let Some(i) = split {
            let k = self.con(&st, i).clone();
            let mut sides = vec![k.a, k.b];
            sides.shuffle(rng);
            for side in sides {
                let mut s = st.clone();
                s.push_extra(side);
                if self.propagate(&mut s, Some(vec![])).is_ok() {
                    if let Some(a) = self.dfs(s, hint, rng, left, incomplete, big, want) {
                        return Some(a);
                    }
                }
                if *left == 0 {
                    return None;
                }
            }
            return None;
        }
        free.sort();
        free.dedup();
        let v = *free.choose(rng)?;
        let h = hint.get(v as usize).cloned().flatten();
        let mut cands: Vec<F> = vec![];
        if big {
            *incomplete = true;
            if let Some(h) = h {
                let k = rng.gen_range(0..40usize);
                cands.extend([h + F::ONE, h - F::ONE, h + crate::fields::pow2::<F>(k), h - crate::fields::pow2::<F>(k)]);
            }
            cands.extend([F::ZERO, F::ONE, -F::ONE, F::from(rng.gen::<u32>() as u64), F::random(&mut *rng)]);
            if let Some(h) = h {
                cands.push(h);
            }
            cands.dedup();
        } else {
            let p = modulus::<F>();
            let n: u64 = u64::try_from(&p).unwrap();
            let start = rng.gen_range(0..n);
            // small values and values near the honest one first, then everything, in random rotation
            if let Some(h) = h {
                cands.extend([h + F::ONE, h - F::ONE, h + F::from(8), h - F::from(8)]);
            }
            for k in 0..n {
                cands.push(from_int(&BigInt::from((start + k * 4099 % n) % n)));
            }
        }
        for x in cands {
            let mut s = st.clone();
            s.val[v as usize] = Some(x);
            if self.propagate(&mut s, Some(vec![v])).is_ok() {
                if let Some(a) = self.dfs(s, hint, rng, left, incomplete, big, want) {
                    return Some(a);
                }
            } else {
                *left = left.saturating_sub(1);
            }
            if *left == 0 {
                return None;
            }
        }
        None
    }

    /// Does propagation alone determine this variable?
    pub fn known(&self, st: &St<F>, v: u32) -> Option<F> {
        st.val[v as usize]
    }
}

impl<F: PrimeField> St<F> {
    fn push_extra(&mut self, l: Lc<F>) {
        let e = self.extra.len() as u32;
        for (v, _) in &l.0 {
            if *v != 0 {
                self.extra_occ.push((*v, e));
            }
        }
        self.extra.push(Con { a: Lc(vec![]), b: Lc(vec![]), c: l });
    }
}

/// Roots, or None when every value is a root.
fn solve_quadratic<F: PrimeField>(a: F, b: F, c: F) -> Option<Vec<F>> {
    if is0(&a) {
        if is0(&b) {
            return if is0(&c) { None } else { Some(vec![]) };
        }
        return Some(vec![-c * b.invert().unwrap()]);
    }
    let two = F::ONE.double();
    let disc = b.square() - two.double() * a * c;
    let s: Option<F> = if is0(&disc) { Some(F::ZERO) } else { disc.sqrt().into() };
    Some(match s {
        None => vec![],
        Some(s) => {
            let i = (two * a).invert().unwrap();
            vec![(-b + s) * i, (-b - s) * i]
        }
    })
}
