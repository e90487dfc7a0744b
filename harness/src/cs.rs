//! A constraint system that records everything the code under test emits.
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::collections::BTreeMap;

/// Sparse linear combination over recorded variable ids (id 0 is the constant ONE).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lc<F>(pub Vec<(u32, F)>);

impl<F: PrimeField> Lc<F> {
    pub fn eval(&self, asg: &[F]) -> F {
        let mut s = F::ZERO;
        for (v, c) in &self.0 {
            s += *c * asg[*v as usize];
        }
        s
    }
    pub fn norm(v: Vec<(u32, F)>) -> Self {
        let mut m: BTreeMap<u32, F> = BTreeMap::new();
        for (k, c) in v {
            *m.entry(k).or_insert(F::ZERO) += c;
        }
        Lc(m.into_iter().filter(|(_, c)| !bool::from(c.is_zero())).collect())
    }
    pub fn var(v: u32) -> Self {
        Lc(vec![(v, F::ONE)])
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Con<F> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

pub struct RecCS<F: PrimeField> {
    /// run the witness closures?
    pub witness: bool,
    pub asg: Vec<Option<F>>,
    /// for every variable: is it a public input?
    pub is_input: Vec<bool>,
    pub inputs: Vec<u32>,
    pub aux: Vec<u32>,
    pub cons: Vec<Con<F>>,
}

impl<F: PrimeField> RecCS<F> {
    pub fn new() -> Self {
        Self { witness: true, asg: vec![Some(F::ONE)], is_input: vec![true], inputs: vec![0], aux: vec![], cons: vec![] }
    }
    pub fn shape_only() -> Self {
        let mut s = Self::new();
        s.witness = false;
        s
    }
    pub fn n_vars(&self) -> usize {
        self.asg.len()
    }
    pub fn id(&self, v: Variable) -> u32 {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn lc(&self, l: &LinearCombination<F>) -> Lc<F> {
        Lc::norm(l.iter().map(|(v, c)| (self.id(v), *c)).collect())
    }
    pub fn full(&self) -> Option<Vec<F>> {
        self.asg.iter().cloned().collect()
    }
    /// Evaluates a linear combination under the recorded witness.
    pub fn val(&self, l: &LinearCombination<F>) -> Option<F> {
        let mut s = F::ZERO;
        for (v, c) in l.iter() {
            s += *c * self.asg[self.id(v) as usize]?;
        }
        Some(s)
    }
    pub fn satisfied(&self) -> bool {
        match self.full() {
            Some(a) => first_unsat(&self.cons, &a).is_none(),
            None => false,
        }
    }
    /// Allocations and constraints, without values.
    pub fn shape_eq(&self, o: &Self) -> Result<(), String> {
        if self.is_input != o.is_input {
            return Err(format!("variables differ: {} vs {}", self.is_input.len(), o.is_input.len()));
        }
        if self.cons.len() != o.cons.len() {
            return Err(format!("constraint counts differ: {} vs {}", self.cons.len(), o.cons.len()));
        }
        for (i, (x, y)) in self.cons.iter().zip(&o.cons).enumerate() {
            if x != y {
                return Err(format!("constraint {} differs", i));
            }
        }
        Ok(())
    }
}

pub fn first_unsat<F: PrimeField>(cons: &[Con<F>], asg: &[F]) -> Option<usize> {
    cons.iter().position(|k| k.a.eval(asg) * k.b.eval(asg) != k.c.eval(asg))
}

impl<F: PrimeField> ConstraintSystem<F> for RecCS<F> {
    type Root = Self;

    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        let id = self.asg.len() as u32;
        self.asg.push(v);
        self.is_input.push(false);
        self.aux.push(id);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        let id = self.asg.len() as u32;
        self.asg.push(v);
        self.is_input.push(true);
        self.inputs.push(id);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LCC>(&mut self, _: A, a: LA, b: LB, c: LCC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LCC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let a = a(LinearCombination::zero());
        let b = b(LinearCombination::zero());
        let c = c(LinearCombination::zero());
        let k = Con { a: self.lc(&a), b: self.lc(&b), c: self.lc(&c) };
        self.cons.push(k);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
