//! C26 errors surface as errors and leave the library usable.
use super::source::*;
use bellman::{Circuit, ConstraintSystem, LinearCombination, SynthesisError, Variable};
use bls12_381::Bls12;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use groth16::*;
use std::io;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use vh::circ::*;
use vh::engine::{Dlog, A1, A2};
use vh::sn::*;
use vh::*;

/// A constraint system that fails at its n-th operation.
struct Inject<'a, CS> {
    cs: &'a mut CS,
    n: usize,
    at: usize,
    mode: Mode,
    fault: &'a Fault,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// the value closure fails
    Value,
    /// the allocation itself fails
    Alloc,
    /// the circuit returns the error
    Return,
    /// the circuit panics
    Panic,
}
const BOOM: &str = "circuit panics";
impl<'a, CS> Inject<'a, CS> {
    fn hit(&mut self) -> bool {
        self.n += 1;
        if self.n - 1 == self.at && self.mode == Mode::Panic {
            panic!("{}", BOOM);
        }
        self.n - 1 == self.at
    }
}
impl<'a, F: PrimeField, CS: ConstraintSystem<F>> ConstraintSystem<F> for Inject<'a, CS> {
    type Root = Self;
    fn alloc<Fn, A, AR>(&mut self, a: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        match (self.hit(), self.mode) {
            (true, Mode::Alloc) => Err(self.fault.err()),
            (true, Mode::Value) => {
                let e = self.fault.err();
                self.cs.alloc(a, || Err(e))
            }
            _ => self.cs.alloc(a, f),
        }
    }
    fn alloc_input<Fn, A, AR>(&mut self, a: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        match (self.hit(), self.mode) {
            (true, Mode::Alloc) => Err(self.fault.err()),
            (true, Mode::Value) => {
                let e = self.fault.err();
                self.cs.alloc_input(a, || Err(e))
            }
            _ => self.cs.alloc_input(a, f),
        }
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        if self.mode == Mode::Panic {
            self.hit();
        }
        self.cs.enforce(n, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.cs.pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
#[derive(Clone)]
struct Faulty<F: PrimeField> {
    z: Circ<F>,
    at: usize,
    mode: Mode,
    fault: Fault,
}
impl<F: FieldExt> Circuit<F> for Faulty<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut w = Inject { cs, n: 0, at: self.at, mode: self.mode, fault: &self.fault };
        self.z.synthesize(&mut w)?;
        if self.mode == Mode::Return {
            return Err(self.fault.err());
        }
        Ok(())
    }
}

struct Setup<E: Eng> {
    z: Circ<E::F>,
    k: Trap<E::F>,
    p: Parameters<E>,
    r: E::F,
    s: E::F,
    honest: Proof<E>,
}
fn same<E: Eng>(a: &Proof<E>, b: &Proof<E>) -> bool {
    a.a == b.a && a.b == b.b && a.c == b.c
}
fn setup<E: Eng>(c: &mut Case, max_log: u32) -> R<Option<Setup<E>>> {
    let s = Spec::random(c, max_log);
    setup_of::<E>(c, &s)
}
/// A circuit whose multi-exponentiations use wide windows and whose lists are long.
fn large<E: Eng>(c: &mut Case) -> R<Option<Setup<E>>> {
    let n_aux = *c.pick(&[65usize, 130, 404, 500, 700, 1100]) + c.below(40) as usize;
    let n_cons = *c.pick(&[3usize, 60, 127, 255, 500]) + c.below(6) as usize;
    let s = Spec { n_pub: 1 + c.below(4) as usize, n_aux, n_cons, witnesses: 1, plain: c.coin() };
    let s = setup_of::<E>(c, &s)?;
    if s.is_some() {
        c.count("large_circuits", 1);
    }
    Ok(s)
}
fn setup_of<E: Eng>(c: &mut Case, s: &Spec) -> R<Option<Setup<E>>> {
    let z = Circ::<E::F>::random(c, s);
    let k = Trap::random(c);
    let sys = z.sys();
    if sys.cons.len() + sys.n_in > 1usize << (E::F::S - 1).min(20) {
        return Ok(None);
    }
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, &k) {
        return Ok(None);
    }
    let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("honest key generation failed with {:?}; {}", e, z.describe()))?;
    let (r, s) = (nonzero(&mut c.rng), nonzero(&mut c.rng));
    let honest = proof_of::<E>(&proof_oracle(&sys, &q, &k, &z.ws[0], r, s));
    Ok(Some(Setup { z, k, p, r, s, honest }))
}
impl<E: Eng> Setup<E> {
    /// the library still works
    fn usable(&self, c: &mut Case, after: &str) -> R {
        let pr = create_proof::<E, _, _>(self.z.clone(), &self.p, self.r, self.s).map_err(|e| format!("after {}: honest proving fails with {:?}; {}", after, e, self.z.describe()))?;
        ensure!(same(&pr, &self.honest), "after {}: an honest proof is wrong; {}", after, self.z.describe());
        ensure!(verify_proof(&prepare_verifying_key(&self.p.vk), &pr, &self.z.pubs()).is_ok(), "after {}: an honest proof is rejected; {}", after, self.z.describe());
        let p = gen::<E, _>(self.z.with(None), &self.k).map_err(|e| format!("after {}: key generation fails with {:?}; {}", after, e, self.z.describe()))?;
        ensure!(p == self.p, "after {}: key generation gives other parameters; {}", after, self.z.describe());
        c.count("honest_after_faults", 1);
        Ok(())
    }
    fn prove<C: Circuit<E::F>, P: ParameterSource<E>>(&self, z: C, p: P) -> Result<Result<Proof<E>, SynthesisError>, String> {
        guarded(|| create_proof::<E, _, _>(z, p, self.r, self.s))
    }
}

/// The circuit fails.
fn circuit<E: Eng>(c: &mut Case) -> R {
    let Some(s) = setup::<E>(c, 4)? else { return Ok(()) };
    circuit_of(c, s)
}
fn circuit_of<E: Eng>(c: &mut Case, s: Setup<E>) -> R {
    let ops = s.z.order.len();
    for _ in 0..4 {
        let fault = Fault::random(c);
        let mode = *c.pick(&[Mode::Value, Mode::Alloc, Mode::Return, Mode::Panic]);
        if ops == 0 && mode != Mode::Return {
            continue;
        }
        let total = if mode == Mode::Panic { ops + s.z.cons.len() } else { ops };
        let at = c.below(total.max(1) as u64) as usize;
        let z = Faulty { z: s.z.clone(), at, mode, fault: fault.clone() };
        let what = format!("{:?} ({:?}) at operation {} of {} of the circuit", fault, mode, at, total);
        let got = s.prove(z.clone(), &s.p);
        c.ev(1);
        match (mode, &got) {
            (Mode::Panic, Err(p)) if p.contains(BOOM) => {}
            (Mode::Panic, _) => fail!("{}: proving gives {:?}", what, got),
            (_, Ok(Err(e))) if fault.is(e) => {}
            (_, _) => fail!("{}: proving gives {:?}; {}", what, got, s.z.describe()),
        }
        c.count(&format!("proving_{:?}", mode), 1);
        if mode != Mode::Value {
            let z = Faulty { z: s.z.with(None), ..z };
            let got = guarded(|| gen::<E, _>(z, &s.k).map(|_| "parameters"));
            c.ev(1);
            match (mode, &got) {
                (Mode::Panic, Err(p)) if p.contains(BOOM) => {}
                (Mode::Panic, _) => fail!("{}: key generation gives {:?}", what, got),
                (_, Ok(Err(e))) if fault.is(e) => {}
                (_, _) => fail!("{}: key generation gives {:?}; {}", what, got, s.z.describe()),
            }
            c.count(&format!("generating_{:?}", mode), 1);
        }
        c.seen(hash_bytes(what.as_bytes()) ^ s.z.hash());
        c.sample(|| what.clone());
        if c.coin() {
            s.usable(c, &what)?;
        }
    }
    s.usable(c, "circuit faults")
}
/// The parameter source or one of its base sources fails.
fn source<E: Eng>(c: &mut Case) -> R {
    let m = if c.below(12) == 0 { 7 } else { 5 };
    let Some(s) = setup::<E>(c, m)? else { return Ok(()) };
    source_of(c, s)
}
fn source_of<E: Eng>(c: &mut Case, s: Setup<E>) -> R {
    for _ in 0..6 {
        let mut src = Src::new(&s.p);
        if c.below(25) == 0 {
            src.slow = 1 + c.below(120);
        }
        let n = if c.below(6) == 0 { 2 } else { 1 };
        for _ in 0..n {
            let place = c.below(PLACES.len() as u64) as usize;
            let len = match place {
                0..=5 => 1,
                6 => s.p.h.len(),
                7 => s.p.l.len(),
                8 => s.z.n_in,
                9 => s.p.a.len() - s.z.n_in,
                _ => s.p.b_g1.len(),
            };
            let at = match c.below(4) {
                0 => 0,
                1 => len.saturating_sub(1),
                _ => c.below(len.max(1) as u64) as usize,
            };
            src.plans.push(Plan { place, at, fault: Fault::random(c), on_skip: c.coin() });
        }
        let plans = src.plans.clone();
        let log = src.log.clone();
        let what = || {
            format!(
                "{} pool {:?}; {}",
                plans.iter().map(|p| format!("{:?} from {} (base {}, when skipped: {})", p.fault, PLACES[p.place], p.at, p.on_skip)).collect::<Vec<_>>().join(" and "),
                std::env::var("RAYON_NUM_THREADS"),
                s.z.describe()
            )
        };
        let got = s.prove(s.z.clone(), src);
        let hits = log.faults.load(Ordering::SeqCst);
        c.ev(1);
        match &got {
            Err(p) => fail!("proving panics ({}) on {}", p, what()),
            Ok(Err(e)) => {
                ensure!(hits > 0, "proving fails with {:?} although no fault was raised: {}", e, what());
                ensure!(plans.iter().any(|p| p.fault.is(e)), "proving gives {:?} on {}", e, what());
                c.sample(|| format!("{} -> {:?}", what(), e));
                c.count(&format!("error_from_{}", PLACES[plans[0].place].replace(' ', "_")), 1);
            }
            Ok(Ok(p)) => {
                // jobs of an abandoned proof may still be running, but none was abandoned here
                ensure!(hits == 0, "a proof is returned although the source failed {} times: {}", hits, what());
                ensure!(same(p, &s.honest), "the proof from a custom source differs from the definition: {}", what());
                c.count("faults_not_reached", 1);
            }
        }
        c.seen(hash_bytes(what().as_bytes()));
        if c.below(3) == 0 {
            s.usable(c, "source faults")?;
        }
    }
    s.usable(c, "source faults")
}
fn broken<G: PrimeCurveAffine>(c: &mut Case, v: &mut Arc<Vec<G>>) -> Option<String> {
    let v = Arc::make_mut(v);
    if v.is_empty() {
        return None;
    }
    let n = v.len() as u64;
    Some(match c.below(3) {
        0 => {
            let k = c.below(n) as usize;
            v.truncate(k);
            format!("truncated from {} to {}", n, k)
        }
        1 => {
            v.pop();
            format!("truncated from {} by one", n)
        }
        _ => {
            let k = c.below(n) as usize;
            v[k] = G::identity();
            format!("identity at {} of {}", k, n)
        }
    })
}
/// Parameters that are too short or contain identities.
fn params<E: Eng>(c: &mut Case) -> R {
    let Some(s) = setup::<E>(c, 5)? else { return Ok(()) };
    params_of(c, s)
}
fn params_of<E: Eng>(c: &mut Case, s: Setup<E>) -> R {
    let eof = |e: &SynthesisError| matches!(e, SynthesisError::IoError(e) if e.kind() == io::ErrorKind::UnexpectedEof);
    let ident = |e: &SynthesisError| matches!(e, SynthesisError::UnexpectedIdentity);
    for _ in 0..8 {
        let mut p = s.p.clone();
        let kind = c.below(8);
        let (note, must) = match kind {
            0 => (broken(c, &mut p.h).map(|x| "h ".to_string() + &x), false),
            1 => (broken(c, &mut p.l).map(|x| "l ".to_string() + &x), false),
            2 => (broken(c, &mut p.a).map(|x| "a ".to_string() + &x), false),
            3 => (broken(c, &mut p.b_g1).map(|x| "b_g1 ".to_string() + &x), false),
            4 => (broken(c, &mut p.b_g2).map(|x| "b_g2 ".to_string() + &x), false),
            5 => {
                p.vk.delta_g1 = E::g1(E::F::ZERO);
                (Some("delta_g1 identity".to_string()), true)
            }
            6 => {
                p.vk.delta_g2 = E::g2(E::F::ZERO);
                (Some("delta_g2 identity".to_string()), true)
            }
            _ => {
                // longer parameters: the excess is not used
                Arc::make_mut(&mut p.h).push(E::g1(E::F::ONE));
                Arc::make_mut(&mut p.l).push(E::g1(E::F::ONE));
                Arc::make_mut(&mut p.a).push(E::g1(E::F::ZERO));
                Arc::make_mut(&mut p.b_g2).push(E::g2(E::F::ZERO));
                (Some("excess elements".to_string()), false)
            }
        };
        let Some(note) = note else { continue };
        let got = s.prove(s.z.clone(), &p);
        c.ev(1);
        let what = || format!("{}; {}", note, s.z.describe());
        match &got {
            Err(x) => fail!("proving panics ({}) on parameters with {}", x, what()),
            Ok(Ok(x)) => {
                ensure!(!must && same(x, &s.honest), "proving with {} returns {} proof; {}", note, if same(x, &s.honest) { "the honest" } else { "another" }, what());
                c.count("damage_not_used", 1);
            }
            Ok(Err(e)) => {
                let fine = if note.contains("identity") {
                    ident(e)
                } else {
                    note.contains("truncated") && eof(e)
                };
                ensure!(fine, "proving gives {:?} on parameters with {}", e, what());
                c.count(if note.contains("identity") { "identity_reported" } else { "truncation_reported" }, 1);
            }
        }
        c.seen(hash_bytes(what().as_bytes()));
    }
    s.usable(c, "damaged parameters")
}
/// Every element of every query is needed when its exponent is not zero.
fn dense(c: &mut Case) -> R {
    type E = Dlog<F5_55>;
    let s = Spec { n_pub: 1 + c.below(3) as usize, n_aux: 1 + c.below(5) as usize, n_cons: 3 + c.below(8) as usize, witnesses: 1, plain: true };
    let z = Circ::<F5_55>::random(c, &s);
    let k = Trap::random(c);
    let sys = z.sys();
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, &k) {
        return Ok(());
    }
    let w = &z.ws[0];
    if w.iter().any(|x| x.is_zero_vartime()) {
        return Ok(());
    }
    let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
    let (r, s) = (nonzero(&mut c.rng), nonzero(&mut c.rng));
    let honest = proof_of::<E>(&proof_oracle(&sys, &q, &k, w, r, s));
    for list in 1..5 {
        let n = [p.h.len(), p.l.len(), p.a.len(), p.b_g1.len(), p.b_g2.len()][list];
        for at in 0..n {
            for cut in [false, true] {
                let mut d = p.clone();
                fn hurt<G: PrimeCurveAffine>(v: &mut Arc<Vec<G>>, at: usize, cut: bool) {
                    let v = Arc::make_mut(v);
                    if cut {
                        v.truncate(at)
                    } else {
                        v[at] = G::identity()
                    }
                }
                match list {
                    1 => hurt(&mut d.l, at, cut),
                    2 => hurt(&mut d.a, at, cut),
                    3 => hurt(&mut d.b_g1, at, cut),
                    _ => hurt(&mut d.b_g2, at, cut),
                }
                let what = || format!("element {} of {} of {} {}; {}", at, n, ["h", "l", "a", "b_g1", "b_g2"][list], if cut { "and all following missing" } else { "is the identity" }, z.describe());
                let got = guarded(|| create_proof::<E, _, _>(z.clone(), &d, r, s)).map_err(|x| format!("proving panics ({}): {}", x, what()))?;
                c.ev(1);
                let fine = match &got {
                    Err(SynthesisError::UnexpectedIdentity) => !cut,
                    Err(SynthesisError::IoError(e)) => cut && e.kind() == io::ErrorKind::UnexpectedEof,
                    _ => false,
                };
                ensure!(fine, "{}: proving gives {:?}", what(), got.map(|p| if same(&p, &honest) { "the honest proof" } else { "another proof" }));
                c.count("each_element_damaged", 1);
            }
        }
    }
    c.seen(z.hash());
    let pr = create_proof::<E, _, _>(z.clone(), &p, r, s).map_err(|e| format!("{:?}", e))?;
    ensure!(same(&pr, &honest), "an honest proof after damaged parameters is wrong; {}", z.describe());
    Ok(())
}
/// Circuits too large for the field.
fn too_large(c: &mut Case) -> R {
    type E = Dlog<F193>;
    #[derive(Clone)]
    struct Endless(Parameters<E>);
    impl<'a> ParameterSource<E> for &'a Endless {
        type G1Builder = Many<A1<F193>>;
        type G2Builder = Many<A2<F193>>;
        fn get_vk(&mut self, _: usize) -> Result<VerifyingKey<E>, SynthesisError> {
            Ok(self.0.vk.clone())
        }
        fn get_h(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
            Ok(Many(A1(F193::ONE)))
        }
        fn get_l(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
            Ok(Many(A1(F193::ONE)))
        }
        fn get_a(&mut self, _: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
            Ok((Many(A1(F193::ONE)), Many(A1(F193::ONE))))
        }
        fn get_b_g1(&mut self, _: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
            Ok((Many(A1(F193::ONE)), Many(A1(F193::ONE))))
        }
        fn get_b_g2(&mut self, _: usize, _: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
            Ok((Many(A2(F193::ONE)), Many(A2(F193::ONE))))
        }
    }
    #[derive(Clone)]
    struct Many<G>(G);
    impl<G: PrimeCurveAffine> bellman::multiexp::SourceBuilder<G> for Many<G> {
        type Source = Many<G>;
        fn build(self) -> Many<G> {
            self
        }
    }
    impl<G: PrimeCurveAffine> bellman::multiexp::Source<G> for Many<G> {
        fn next(&mut self) -> Result<&G, SynthesisError> {
            Ok(&self.0)
        }
        fn skip(&mut self, _: usize) -> Result<(), SynthesisError> {
            Ok(())
        }
    }
    let Some(s) = setup::<E>(c, 4)? else { return Ok(()) };
    // 2^6 is the largest power-of-two subgroup; the largest domain is 2^5 or 2^6 depending on
    // where the limit is drawn, so only sizes beyond both are judged
    let n = 65 + c.below(200) as usize;
    let z = Circ::<F193>::random(c, &Spec { n_pub: 1, n_aux: 2, n_cons: n - 2, witnesses: 1, plain: true });
    let got = s.prove(z.clone(), &Endless(s.p.clone()));
    c.ev(2);
    ensure!(matches!(got, Ok(Err(SynthesisError::PolynomialDegreeTooLarge))), "proving a circuit with {} rows over f193 gives {:?}", n, got);
    let got = guarded(|| gen::<E, _>(z.with(None), &s.k).map(|_| "parameters"));
    ensure!(matches!(got, Ok(Err(SynthesisError::PolynomialDegreeTooLarge))), "generating a key for {} rows over f193 gives {:?}", n, got);
    c.count("too_large", 1);
    c.seen(n as u64);
    s.usable(c, "a circuit that is too large")
}
/// Many abandoned proofs in a row, then honest ones.
fn storm(c: &mut Case) -> R {
    type E = Dlog<F5_55>;
    let Some(s) = setup::<E>(c, 5)? else { return Ok(()) };
    let place = *c.pick(&[1usize, 2, 3, 4, 5, 5, 5, 7, 8, 12]);
    let mut n = 60 + c.below(200);
    let slow: u64 = if c.below(8) == 0 { 1 } else { 0 };
    if slow > 0 {
        n = 12;
    }
    let mut raised = 0;
    for _ in 0..n {
        let mut src = Src::new(&s.p);
        src.slow = slow;
        let fault = Fault::random(c);
        src.plans.push(Plan { place, at: 0, fault: fault.clone(), on_skip: true });
        let got = s.prove(s.z.clone(), src);
        c.ev(1);
        match got {
            Ok(Err(e)) if fault.is(&e) => raised += 1,
            Ok(Ok(p)) if place > 5 && same(&p, &s.honest) => {}
            x => fail!("{:?} from {} gives {:?}; {}", fault, PLACES[place], x, s.z.describe()),
        }
    }
    c.count("abandoned_proofs", raised);
    c.seen(s.z.hash() ^ place as u64);
    for _ in 0..3 {
        s.usable(c, &format!("{} faults from {}", raised, PLACES[place]))?;
    }
    Ok(())
}
fn any(c: &mut Case) -> R {
    match c.below(8) {
        0 | 1 => circuit::<Dlog<F5_55>>(c),
        2 | 3 => source::<Dlog<F5_55>>(c),
        4 => params::<Dlog<F5_55>>(c),
        5 => source::<Dlog<BabyBear>>(c),
        6 => too_large(c),
        _ => {
            if let Some(s) = setup::<Dlog<F5_55>>(c, 6)? {
                for _ in 0..5 {
                    s.usable(c, "nothing, beside failing callers")?;
                }
            }
            Ok(())
        }
    }
}
pub fn c26(r: &Runner) -> &'static str {
    let me = std::env::current_exe().expect("exe");
    let alt = std::env::var_os("VH_NMC").map(std::path::PathBuf::from);
    const F: &[(&str, u64)] = &[("circuit", 250), ("source", 160), ("params", 200), ("dense", 12), ("large", 24), ("too_large", 40), ("storm", 12), ("concurrent", 300), ("bls12_381", 3)];
    const T: &[usize] = &[1, 2, 3, 4, 8, 16];
    if r.limit == u64::MAX {
        // each family in fresh processes, so that aborts and hangs are observed and contained
        let n = (F.len() * (T.len() + 1)) as u64;
        r.seq("processes", n, 3 * n, |c| {
            let k = c.idx as usize % n as usize;
            let (f, n) = F[k % F.len()];
            let n = if c.thorough { 6 * n } else { n };
            match (T.get(k / F.len()), &alt) {
                (Some(t), _) => with_pool(c, r, &me, f, n, *t),
                (None, Some(a)) => {
                    c.count("runs_without_multicore", 1);
                    with_pool(c, r, a, f, n, 1)
                }
                _ => Ok(()),
            }
        });
    } else {
        r.seq("circuit", 1 << 30, 1 << 30, circuit::<Dlog<F5_55>>);
        r.seq("source", 1 << 30, 1 << 30, source::<Dlog<F5_55>>);
        r.seq("params", 1 << 30, 1 << 30, params::<Dlog<F5_55>>);
        r.seq("large", 1 << 30, 1 << 30, |c| {
            let Some(s) = large::<Dlog<F5_55>>(c)? else { return Ok(()) };
            match c.idx % 3 {
                0 => circuit_of(c, s),
                1 => source_of(c, s),
                _ => params_of(c, s),
            }
        });
        r.seq("dense", 1 << 30, 1 << 30, dense);
        r.seq("too_large", 1 << 30, 1 << 30, too_large);
        r.seq("storm", 1 << 30, 1 << 30, storm);
        r.par("concurrent", 1 << 30, 1 << 30, any);
        r.seq("bls12_381", 1 << 30, 1 << 30, |c| match c.below(3) {
            0 => circuit::<Bls12>(c),
            1 => source::<Bls12>(c),
            _ => params::<Bls12>(c),
        });
    }
    "faults of every error kind at every allocation, value and return of random circuits, at every call of a parameter source and every base of its sources (slow ones too), panics in synthesis, truncated, damaged and excessive parameters, all of these also with circuits of up to 1140 variables, circuits too large for the field, hundreds of abandoned proofs in a row, and faulty callers beside honest ones, in processes with 1..16 pool threads and without multicore, each followed by honest key generation, proving and verification checked against their definitions; distinct = distinct faults"
}
