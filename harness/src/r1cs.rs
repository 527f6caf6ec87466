//! Recording constraint system and exact evaluation of what was recorded.
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// like the prover: closures are evaluated, their errors returned
    Prove,
    /// like key generation: closures are never called
    KeyGen,
    /// closures are evaluated, a failure is recorded as an unknown value
    Lenient,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Alloc(usize),
    Input(usize),
    Enforce(usize),
    Push(String),
    Pop,
}

pub type Terms<F> = Vec<(Index, F)>;

pub struct Rec<F: PrimeField> {
    pub mode: Mode,
    pub inputs: Vec<(Option<F>, String)>,
    pub aux: Vec<(Option<F>, String)>,
    pub cons: Vec<(Terms<F>, Terms<F>, Terms<F>, String)>,
    pub ns: Vec<String>,
    pub trace: Vec<Ev>,
    /// allocation index at which alloc fails (fault injection), counted over alloc + alloc_input
    pub fail_at: Option<usize>,
    pub allocs: usize,
    pub pops_underflow: usize,
    pub panic_at: Option<usize>,
}

impl<F: PrimeField> Rec<F> {
    pub fn new(mode: Mode) -> Self {
        Rec {
            mode,
            inputs: vec![(Some(F::ONE), "ONE".into())],
            aux: vec![],
            cons: vec![],
            ns: vec![],
            trace: vec![],
            fail_at: None,
            allocs: 0,
            pops_underflow: 0,
            panic_at: None,
        }
    }
    /// A name given twice in one namespace, or one the testing system would refuse.
    pub fn refused_name(&self) -> Option<String> {
        let mut used = std::collections::HashSet::new();
        used.insert("ONE".to_string());
        let mut stack: Vec<&str> = vec![];
        for e in &self.trace {
            let full = match e {
                Ev::Alloc(i) => self.aux[*i].1.clone(),
                Ev::Input(i) => self.inputs[*i].1.clone(),
                Ev::Enforce(i) => self.cons[*i].3.clone(),
                Ev::Push(n) => {
                    stack.push(n);
                    stack.join("/")
                }
                Ev::Pop => {
                    stack.pop();
                    continue;
                }
            };
            let depth = stack.len() + if let Ev::Push(_) = e { 0 } else { 1 };
            if full.matches('/').count() + 1 != depth {
                return Some(full);
            }
            if let Some(twice) = used.replace(full) {
                return Some(twice);
            }
        }
        None
    }
    fn path(&self, n: String) -> String {
        let mut s = self.ns.join("/");
        if !s.is_empty() {
            s.push('/');
        }
        s + &n
    }
    fn value<G: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: G) -> Result<Option<F>, SynthesisError> {
        let k = self.allocs;
        self.allocs += 1;
        if self.fail_at == Some(k) {
            return Err(SynthesisError::AssignmentMissing);
        }
        if self.panic_at == Some(k) {
            panic!("injected panic in alloc");
        }
        match self.mode {
            Mode::KeyGen => Ok(None),
            Mode::Prove => f().map(Some),
            Mode::Lenient => Ok(f().ok()),
        }
    }
    pub fn assignment(&self) -> Option<(Vec<F>, Vec<F>)> {
        let a: Option<Vec<F>> = self.inputs.iter().map(|x| x.0).collect();
        let b: Option<Vec<F>> = self.aux.iter().map(|x| x.0).collect();
        Some((a?, b?))
    }
    pub fn sys(&self) -> Sys<F> {
        Sys {
            n_in: self.inputs.len(),
            n_aux: self.aux.len(),
            cons: self
                .cons
                .iter()
                .map(|(a, b, c, _)| {
                    let f = |t: &Terms<F>| merge(t, self.inputs.len());
                    [f(a), f(b), f(c)]
                })
                .collect(),
        }
    }
    /// A canonical form of the whole shape: counts and merged coefficients, in order.
    pub fn shape(&self) -> Shape<F> {
        Shape { n_in: self.inputs.len(), n_aux: self.aux.len(), cons: self.sys().cons }
    }
}
#[derive(PartialEq, Clone)]
pub struct Shape<F: PrimeField> {
    pub n_in: usize,
    pub n_aux: usize,
    pub cons: Vec<[Vec<(usize, F)>; 3]>,
}
impl<F: PrimeField> Shape<F> {
    pub fn diff(&self, o: &Self) -> Option<String> {
        if self.n_in != o.n_in {
            return Some(format!("{} inputs vs {}", self.n_in, o.n_in));
        }
        if self.n_aux != o.n_aux {
            return Some(format!("{} private variables vs {}", self.n_aux, o.n_aux));
        }
        if self.cons.len() != o.cons.len() {
            return Some(format!("{} constraints vs {}", self.cons.len(), o.cons.len()));
        }
        for (i, (a, b)) in self.cons.iter().zip(o.cons.iter()).enumerate() {
            if a != b {
                return Some(format!("constraint {} differs: {:?} vs {:?}", i, a, b));
            }
        }
        None
    }
}

/// Flat variable number: inputs first, then aux.
pub fn flat(i: Index, n_in: usize) -> usize {
    match i {
        Index::Input(k) => k,
        Index::Aux(k) => n_in + k,
    }
}
pub fn merge<F: PrimeField>(t: &Terms<F>, n_in: usize) -> Vec<(usize, F)> {
    let mut m: BTreeMap<usize, F> = BTreeMap::new();
    for (i, c) in t {
        *m.entry(flat(*i, n_in)).or_insert(F::ZERO) += c;
    }
    m.into_iter().filter(|(_, c)| *c != F::ZERO).collect()
}
pub fn terms<F: PrimeField>(lc: &LinearCombination<F>) -> Terms<F> {
    lc.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect()
}

#[derive(Clone)]
pub struct Sys<F: PrimeField> {
    pub n_in: usize,
    pub n_aux: usize,
    pub cons: Vec<[Vec<(usize, F)>; 3]>,
}
impl<F: PrimeField> Sys<F> {
    pub fn n(&self) -> usize {
        self.n_in + self.n_aux
    }
    pub fn eval(t: &[(usize, F)], w: &[F]) -> F {
        t.iter().fold(F::ZERO, |a, (i, c)| a + w[*i] * c)
    }
    /// index of the first violated constraint
    pub fn violated(&self, w: &[F]) -> Option<usize> {
        self.cons
            .iter()
            .position(|[a, b, c]| Self::eval(a, w) * Self::eval(b, w) != Self::eval(c, w))
    }
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.value(f)?;
        let n = self.path(annotation().into());
        self.aux.push((v, n));
        let i = self.aux.len() - 1;
        self.trace.push(Ev::Alloc(i));
        Ok(Variable::new_unchecked(Index::Aux(i)))
    }
    fn alloc_input<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.value(f)?;
        let n = self.path(annotation().into());
        self.inputs.push((v, n));
        let i = self.inputs.len() - 1;
        self.trace.push(Ev::Input(i));
        Ok(Variable::new_unchecked(Index::Input(i)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let n = self.path(annotation().into());
        let a = terms(&a(LinearCombination::zero()));
        let b = terms(&b(LinearCombination::zero()));
        let c = terms(&c(LinearCombination::zero()));
        self.cons.push((a, b, c, n));
        self.trace.push(Ev::Enforce(self.cons.len() - 1));
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let n = name_fn().into();
        self.trace.push(Ev::Push(n.clone()));
        self.ns.push(n);
    }
    fn pop_namespace(&mut self) {
        self.trace.push(Ev::Pop);
        if self.ns.pop().is_none() {
            self.pops_underflow += 1;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
