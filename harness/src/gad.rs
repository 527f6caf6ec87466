//! Monitors for gadgets: run a gadget on recording and testing constraint systems and decide
//! value, satisfaction, uniqueness of the outputs and witness independence of the shape.
use crate::field::FieldExt;
use crate::forge::{brute, forge, Verdict};
use crate::r1cs::*;
use crate::run::*;
use crate::{ensure, fail};
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

pub struct Out<F: PrimeField> {
    pub label: String,
    pub lc: Terms<F>,
    pub expected: F,
    /// Some(None): the gadget reported no value
    pub reported: Option<Option<F>>,
}
/// What a gadget run exposes to the monitor.
pub struct Io<F: PrimeField> {
    pub inputs: Vec<Index>,
    pub outs: Vec<Out<F>>,
    /// expected public inputs, in order, after the leading one
    pub public: Vec<F>,
    /// native checks that failed while synthesizing
    pub errs: Vec<String>,
    /// false: witness values are withheld
    pub known: bool,
    /// witness values asked for so far
    pub asked: std::cell::Cell<u64>,
    /// withholds a random part of the witness
    pub hide: Option<u64>,
    pub hidden: std::cell::Cell<u64>,
}
pub fn bf<F: PrimeField>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
impl<F: PrimeField> Io<F> {
    pub fn new(known: bool) -> Self {
        Io { inputs: vec![], outs: vec![], public: vec![], errs: vec![], known, asked: std::cell::Cell::new(0), hide: None, hidden: std::cell::Cell::new(0) }
    }
    pub fn w<T>(&self, v: T) -> Option<T> {
        self.asked.set(self.asked.get() + 1);
        // half of the partial runs withhold a single value, the others about every third
        let out = match self.hide {
            Some(h) if h % 2 == 0 => h / 2 % 16 == self.asked.get() - 1,
            Some(h) => mix(h, self.asked.get()) % 3 == 0,
            None => false,
        };
        if self.known && !out {
            Some(v)
        } else {
            self.hidden.set(self.hidden.get() + 1);
            None
        }
    }
    pub fn input(&mut self, v: Variable) {
        self.inputs.push(v.get_unchecked());
    }
    pub fn out_lc(&mut self, label: impl Into<String>, lc: &LinearCombination<F>, expected: F, reported: Option<Option<F>>) {
        self.outs.push(Out { label: label.into(), lc: terms(lc), expected, reported });
    }
    pub fn out_bool(&mut self, label: impl Into<String>, b: &Boolean, expected: bool, one: Variable) {
        let label = label.into();
        if let Boolean::Constant(_) = b {
            if b.get_value() != Some(expected) {
                self.errs.push(format!("{}: constant {:?}, expected {}", label, b.get_value(), expected));
            }
        }
        if b.is_constant() != matches!(b, Boolean::Constant(_)) {
            self.errs.push(format!("{}: is_constant wrong", label));
        }
        let r = b.get_value().map(bf);
        let lc = b.lc(one, F::ONE);
        // a scaled combination must scale
        for (name, k) in [("x3", F::from(3)), ("x-1", -F::ONE), ("x0", F::ZERO)] {
            let scaled = terms(&b.lc(one, k));
            self.outs.push(Out { label: format!("{} ({})", label, name), lc: scaled, expected: bf::<F>(expected) * k, reported: None });
        }
        self.outs.push(Out { label, lc: terms(&lc), expected: bf(expected), reported: Some(r) });
    }
    pub fn out_bit(&mut self, label: impl Into<String>, b: &AllocatedBit, expected: bool) {
        let lc = LinearCombination::zero() + b.get_variable();
        self.out_lc(label, &lc, bf(expected), Some(b.get_value().map(bf)));
    }
    pub fn out_num(&mut self, label: impl Into<String>, n: &AllocatedNum<F>, expected: F) {
        let lc = LinearCombination::zero() + n.get_variable();
        self.out_lc(label, &lc, expected, Some(n.get_value()));
    }
    pub fn out_numlc(&mut self, label: impl Into<String>, n: &Num<F>, expected: F) {
        let label = label.into();
        for (name, k) in [("x5", F::from(5)), ("x-1", -F::ONE), ("x0", F::ZERO)] {
            self.out_lc(format!("{} ({})", label, name), &n.lc(k), expected * k, None);
        }
        self.out_lc(label, &n.lc(F::ONE), expected, Some(n.get_value()));
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.errs.push(msg())
        }
    }
}

pub trait Gadget<F: FieldExt> {
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError>;
    fn describe(&self) -> String;
}

pub struct Opts {
    pub forge: u64,
    pub brute: Option<u64>,
    pub testcs: bool,
    pub shape: bool,
    /// alarm when the forger cannot decide (used where it is known to decide)
    pub shape_with_other: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { forge: 400, brute: None, testcs: true, shape: false, shape_with_other: false }
    }
}

fn show<F: PrimeField>(w: &[F]) -> String {
    let mut s = format!("{:?}", &w[..w.len().min(12)]);
    if w.len() > 12 {
        s.push_str("...");
    }
    s
}

/// Everything but the shape: honest satisfaction, values, public inputs, uniqueness.
pub fn check_gadget<F: FieldExt, G: Gadget<F>>(c: &mut Case, g: &G, o: &Opts) -> R {
    let mut rec = Rec::<F>::new(Mode::Prove);
    let mut io = Io::new(true);
    if let Err(e) = g.synth(&mut rec, &mut io) {
        fail!("{}: honest synthesis failed with {:?}; {}", F::NAME, e, g.describe());
    }
    ensure!(rec.pops_underflow == 0 && rec.ns.is_empty(), "namespaces unbalanced; {}", g.describe());
    ensure!(io.errs.is_empty(), "{}: {} ; {}", F::NAME, io.errs[0], g.describe());
    if rec.cons.len() < 5000 || c.idx % 16 == 0 {
        if let Some(n) = rec.refused_name() {
            fail!("{}: the name {:?} is given twice or contains a separator, so the testing system refuses the circuit; {}", F::NAME, n, g.describe());
        }
        c.count("names_checked", rec.trace.len() as u64);
    }
    let (mut w, aux) = rec.assignment().expect("prove mode assigns everything");
    let n_in = w.len();
    w.extend(aux);
    let sys = rec.sys();
    c.ev(1);
    c.max("max_constraints", sys.cons.len() as u64);
    if let Some(i) = sys.violated(&w) {
        fail!("{}: honest witness violates constraint {} ({}); {}", F::NAME, i, rec.cons[i].3, g.describe());
    }
    let mut outs = vec![];
    for x in &io.outs {
        let lc = merge(&x.lc, n_in);
        let v = Sys::eval(&lc, &w);
        c.count("outputs_compared", 1);
        ensure!(
            v == x.expected,
            "{}: output {} has linear combination value {:?}, expected {:?}; {}",
            F::NAME, x.label, v, x.expected, g.describe()
        );
        if let Some(r) = &x.reported {
            ensure!(
                *r == Some(x.expected),
                "{}: output {} reports value {:?}, expected {:?}; {}",
                F::NAME, x.label, r, x.expected, g.describe()
            );
        }
        outs.push(lc);
    }
    ensure!(
        w[1..n_in] == io.public[..],
        "{}: public inputs are {:?}, expected {:?}; {}",
        F::NAME, &w[1..n_in], io.public, g.describe()
    );
    if n_in > 1 {
        // a published value is an output too
        outs.extend((1..n_in).map(|i| vec![(i, F::ONE)]));
    }
    let fixed: Vec<usize> = io.inputs.iter().map(|i| flat(*i, n_in)).collect();
    let mut forged = None;
    if let Some(p) = o.brute {
        let (n, f) = brute(&sys, &fixed, &w, &outs, p);
        c.count("assignments_enumerated", n);
        forged = f;
    }
    if forged.is_none() && o.forge > 0 {
        match forge(&sys, &fixed, &w, &outs, o.forge) {
            Verdict::Unique { searched: false } => c.count("uniqueness_derived", 1),
            Verdict::Unique { searched: true } => c.count("uniqueness_by_exhausted_search", 1),
            Verdict::Inconclusive => c.count("uniqueness_undecided", 1),
            Verdict::Forged { witness, .. } => {
                ensure!(sys.violated(&witness).is_none(), "harness error: bad forgery");
                forged = Some(witness)
            }
        }
    }
    if o.testcs || forged.is_some() {
        let mut t = TestConstraintSystem::<F>::new();
        let mut io2 = Io::new(true);
        if let Err(e) = g.synth(&mut t, &mut io2) {
            fail!("{}: TestConstraintSystem synthesis failed with {:?}; {}", F::NAME, e, g.describe());
        }
        ensure!(t.is_satisfied(), "{}: TestConstraintSystem unsatisfied at {:?}; {}", F::NAME, t.which_is_unsatisfied(), g.describe());
        ensure!(t.num_constraints() == sys.cons.len(), "{}: num_constraints {} vs {} recorded; {}", F::NAME, t.num_constraints(), sys.cons.len(), g.describe());
        ensure!(t.num_inputs() == n_in, "{}: num_inputs {} vs {} recorded; {}", F::NAME, t.num_inputs(), n_in, g.describe());
        ensure!(t.verify(&io.public), "{}: expected public inputs not verified; {}", F::NAME, g.describe());
        if let Some(f) = &forged {
            for (i, x) in f.iter().enumerate().skip(1) {
                if i < n_in {
                    t.set(&rec.inputs[i].1, *x)
                } else {
                    t.set(&rec.aux[i - n_in].1, *x)
                }
            }
            ensure!(t.is_satisfied(), "harness error: forgery not confirmed by TestConstraintSystem; {}", g.describe());
        }
    }
    if let Some(f) = forged {
        let k = outs.iter().position(|l| Sys::eval(l, &f) != Sys::eval(l, &w)).expect("harness: forged output");
        let label = if k < io.outs.len() { io.outs[k].label.clone() } else { format!("public input {}", k + 1 - io.outs.len()) };
        let diff: Vec<String> = (0..f.len())
            .filter(|i| f[*i] != w[*i])
            .take(8)
            .map(|i| format!("{}: {:?} -> {:?}", if i < n_in { &rec.inputs[i].1 } else { &rec.aux[i - n_in].1 }, w[i], f[i]))
            .collect();
        fail!(
            "{}: forged satisfying assignment gives output {} = {:?} instead of {:?} with the same inputs; changed {}; honest {}; {}",
            F::NAME, label, Sys::eval(&outs[k], &f), Sys::eval(&outs[k], &w), diff.join(", "), show(&w), g.describe()
        );
    }
    c.seen(mix(hash_bytes(F::NAME.as_bytes()), shape_hash(&sys) ^ hash_w(&w)));
    c.sample(|| format!("{} {} ({} constraints, {} variables)", F::NAME, g.describe(), sys.cons.len(), sys.n()));
    Ok(())
}
pub fn hash_w<F: PrimeField>(w: &[F]) -> u64 {
    let mut h = 7;
    for x in w {
        h = mix(h, hash_bytes(x.to_repr().as_ref()));
    }
    h
}
pub fn shape_hash<F: PrimeField>(s: &Sys<F>) -> u64 {
    let mut h = mix(s.n_in as u64, s.n_aux as u64);
    for c in &s.cons {
        for t in c {
            h = mix(h, 0x1234);
            for (v, x) in t {
                h = mix(h, *v as u64);
                h = mix(h, hash_bytes(x.to_repr().as_ref()));
            }
        }
    }
    h
}

/// The circuit that was built with one witness computes and accepts the results for another.
pub fn check_transfer<F: FieldExt, G: Gadget<F>>(c: &mut Case, a: &G, b: &G) -> R {
    let run = |g: &G| -> Result<(Rec<F>, Io<F>), String> {
        let mut r = Rec::<F>::new(Mode::Prove);
        let mut io = Io::new(true);
        g.synth(&mut r, &mut io).map_err(|e| format!("{}: honest synthesis failed with {:?}; {}", F::NAME, e, g.describe()))?;
        Ok((r, io))
    };
    let (ra, ia) = run(a)?;
    let (rb, ib) = run(b)?;
    let sys = ra.sys();
    let (mut w, aux) = rb.assignment().expect("prove mode assigns everything");
    let n_in = w.len();
    let n_aux = aux.len();
    w.extend(aux);
    ensure!(
        (sys.n_in, sys.n_aux, ia.outs.len()) == (n_in, n_aux, ib.outs.len()),
        "{}: the circuit has {} public and {} private variables for one witness and {} and {} for another; {}; {}",
        F::NAME, sys.n_in, sys.n_aux, n_in, n_aux, a.describe(), b.describe()
    );
    c.ev(1);
    if let Some(i) = sys.violated(&w) {
        fail!("{}: an honest witness violates constraint {} ({}) of the circuit built with another; {}; {}", F::NAME, i, ra.cons[i].3, a.describe(), b.describe());
    }
    for (x, y) in ia.outs.iter().zip(&ib.outs) {
        let v = Sys::eval(&merge(&x.lc, n_in), &w);
        c.count("outputs_for_other_witnesses", 1);
        ensure!(
            v == y.expected,
            "{}: output {} of the circuit built with one witness has value {:?} for another, expected {:?}; {}; {}",
            F::NAME, x.label, v, y.expected, a.describe(), b.describe()
        );
    }
    Ok(())
}

/// C13: the same gadget, another witness, no witness, key generation.
pub fn check_shape<F: FieldExt, G: Gadget<F>>(c: &mut Case, a: &G, b: &G) -> R {
    let asked = std::cell::Cell::new(0);
    let run = |g: &G, mode: Mode, known: bool| -> (Rec<F>, Result<(), SynthesisError>) {
        let mut r = Rec::<F>::new(mode);
        let mut io = Io::new(known);
        let e = g.synth(&mut r, &mut io);
        asked.set(io.asked.get());
        (r, e)
    };
    let (ra, ea) = run(a, Mode::Prove, true);
    ensure!(ea.is_ok(), "{}: honest synthesis failed {:?}; {}", F::NAME, ea, a.describe());
    let base = ra.shape();
    let variants: Vec<(&str, &G, Mode, bool)> = vec![
        ("other witness", b, Mode::Prove, true),
        ("absent witness", a, Mode::Lenient, false),
        ("key generation, witness present", a, Mode::KeyGen, true),
        ("key generation, other witness", b, Mode::KeyGen, true),
        ("key generation, witness absent", a, Mode::KeyGen, false),
    ];
    for (name, g, mode, known) in variants {
        let (r, e) = run(g, mode, known);
        c.ev(1);
        ensure!(e.is_ok(), "{}: synthesis with {} failed with {:?}; {}", F::NAME, name, e, a.describe());
        if let Some(d) = base.diff(&r.shape()) {
            fail!("{}: shape with {} differs: {}; {}", F::NAME, name, d, a.describe());
        }
        ensure!(r.ns.is_empty() && r.pops_underflow == 0, "unbalanced namespaces");
    }
    // proving without values: the documented error as soon as a value is needed
    let (_, e) = run(a, Mode::Prove, false);
    c.ev(1);
    match e {
        Err(SynthesisError::AssignmentMissing) => c.count("missing_assignment_reported", 1),
        Err(e) => fail!("{}: proving without witness failed with {:?} instead of AssignmentMissing; {}", F::NAME, e, a.describe()),
        Ok(()) => {
            ensure!(
                asked.get() == 0,
                "{}: proving without witness values succeeded; {}",
                F::NAME, a.describe()
            );
        }
    }
    // with all of the witness or a part of it withheld, a value that is still there does not
    // depend on what was withheld: it is the one of the complete witness
    for k in 0..4 {
        let hide = if k == 0 { None } else { Some(c.below(u64::MAX / 2)) };
        let mut r = Rec::<F>::new(Mode::Lenient);
        let mut io = Io::new(k > 0);
        io.hide = hide;
        let e = a.synth(&mut r, &mut io);
        c.ev(1);
        ensure!(e.is_ok(), "{}: synthesis with a part of the witness withheld failed with {:?}; {}", F::NAME, e, a.describe());
        if let Some(d) = base.diff(&r.shape()) {
            fail!("{}: shape with a part of the witness withheld differs: {}; {}", F::NAME, d, a.describe());
        }
        let full = ra.inputs.iter().chain(&ra.aux);
        for (i, (x, y)) in full.zip(r.inputs.iter().chain(&r.aux)).enumerate() {
            ensure!(y.0.is_none() || y.0 == x.0, "{}: variable {} is assigned {:?} although its witness is withheld (complete witness: {:?}); {}", F::NAME, i, y.0, x.0, a.describe());
            c.count(if y.0.is_some() { "values_independent_of_withheld" } else { "values_withheld" }, 1);
        }
        for o in &io.outs {
            if let Some(Some(v)) = o.reported {
                ensure!(v == o.expected, "{}: output {} reports {:?} although its witness is withheld (complete witness: {:?}); {}", F::NAME, o.label, v, o.expected, a.describe());
            }
        }
        if k > 0 && io.hidden.get() > 0 {
            let mut r = Rec::<F>::new(Mode::Prove);
            let mut io = Io::new(true);
            io.hide = hide;
            let e = a.synth(&mut r, &mut io);
            c.ev(1);
            ensure!(
                matches!(e, Err(SynthesisError::AssignmentMissing)) || io.hidden.get() == 0,
                "{}: proving with a part of the witness withheld gave {:?}; {}",
                F::NAME, e, a.describe()
            );
            c.count("partial_witness_refused", 1);
        }
    }
    // digest of the testing constraint system
    let d = |g: &G| -> Option<String> {
        let mut t = TestConstraintSystem::<F>::new();
        let mut io = Io::new(true);
        g.synth(&mut t, &mut io).ok()?;
        Some(t.hash())
    };
    if std::mem::size_of::<F::Repr>() == 32 && base.cons.len() < 4000 {
        c.count("testcs_digests_compared", 1);
        ensure!(d(a) == d(b), "{}: TestConstraintSystem digest depends on the witness; {}", F::NAME, a.describe());
    }
    let h = mix(hash_bytes(F::NAME.as_bytes()), shape_hash(&ra.sys()));
    c.seen(h);
    c.max("max_constraints", base.cons.len() as u64);
    c.sample(|| format!("{} {} ({} constraints)", F::NAME, a.describe(), base.cons.len()));
    Ok(())
}

/// A gadget as a circuit, with every allocated variable touched by one constraint.
pub struct AsCircuit<'a, G> {
    pub g: &'a G,
    pub known: bool,
}
impl<'a, F: FieldExt, G: Gadget<F>> Circuit<F> for AsCircuit<'a, G> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut io = Io::new(self.known);
        let mut count = Counting { cs, aux: 0, _p: std::marker::PhantomData };
        self.g.synth(&mut count, &mut io)?;
        let n = count.aux;
        for i in 0..n {
            let v = Variable::new_unchecked(Index::Aux(i));
            cs.enforce(|| format!("touch {}", i), |l| l + v, |l| l + CS::one(), |l| l + v);
        }
        Ok(())
    }
}
struct Counting<'a, F: PrimeField, CS: ConstraintSystem<F>> {
    cs: &'a mut CS,
    aux: usize,
    _p: std::marker::PhantomData<F>,
}
impl<'a, F: PrimeField, CS: ConstraintSystem<F>> ConstraintSystem<F> for Counting<'a, F, CS> {
    type Root = Self;
    fn alloc<G, A, AR>(&mut self, a: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux += 1;
        self.cs.alloc(a, f)
    }
    fn alloc_input<G, A, AR>(&mut self, a: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.cs.alloc_input(a, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        self.cs.enforce(n, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.cs.pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

/// A gadget as a circuit; only the variables no constraint of the gadget uses are touched.
pub struct Bare<'a, G> {
    pub g: &'a G,
    pub known: bool,
    pub touch: Vec<usize>,
}
impl<'a, G> Bare<'a, G> {
    /// The circuit and its recorded system and assignment.
    pub fn new<F: FieldExt>(g: &'a G) -> Result<(Bare<'a, G>, Sys<F>, Vec<F>), SynthesisError>
    where
        G: Gadget<F>,
    {
        let mut rec = Rec::<F>::new(Mode::Prove);
        g.synth(&mut rec, &mut Io::new(true))?;
        let s = rec.sys();
        let mut used = vec![false; s.n()];
        for c in &s.cons {
            for t in c {
                for (v, _) in t {
                    used[*v] = true;
                }
            }
        }
        let touch = (0..s.n_aux).filter(|i| !used[s.n_in + i]).collect();
        let b = Bare { g, known: true, touch };
        let mut rec = Rec::<F>::new(Mode::Prove);
        b.again(true).synthesize(&mut rec)?;
        let (mut w, a) = rec.assignment().unwrap();
        w.extend(a);
        Ok((b, rec.sys(), w))
    }
    pub fn again(&self, known: bool) -> Bare<'a, G> {
        Bare { g: self.g, known, touch: self.touch.clone() }
    }
}
impl<'a, F: FieldExt, G: Gadget<F>> Circuit<F> for Bare<'a, G> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        self.g.synth(cs, &mut Io::new(self.known))?;
        for i in self.touch {
            let v = Variable::new_unchecked(Index::Aux(i));
            cs.enforce(|| format!("touch {}", i), |l| l + v, |l| l + CS::one(), |l| l + v);
        }
        Ok(())
    }
}
