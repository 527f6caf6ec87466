//! C18 completeness, C19 verifier, C20 soundness, C24 parameters, C25 proofs.
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable, VerificationError};
use bls12_381::{Bls12, Scalar};
use ff::{Field, PrimeField};
use groth16::*;
use rand_core::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use vh::circ::special;
use vh::circ::*;
use vh::engine::{Dlog, A1, A2};
use vh::gad::*;
use vh::prog::*;
use vh::sn::*;
use vh::*;

fn rs<F: PrimeField>(c: &mut Case) -> F {
    match c.below(6) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        _ => F::random(&mut c.rng),
    }
}
#[cfg(feature = "multicore")]
fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex, OnceLock};
    static POOLS: OnceLock<Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let p = {
        let mut m = POOLS.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
        m.entry(n).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).clone()
    };
    p.install(f)
}
#[cfg(not(feature = "multicore"))]
fn with_threads<T: Send>(_n: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}
/// the family again in processes whose pool has other sizes, and without the multicore feature
fn pools(r: &Runner, family: &'static str, quick: u64, thorough: u64) {
    let me = std::env::current_exe().expect("exe");
    let alt = std::env::var_os("VH_NMC").map(std::path::PathBuf::from);
    if r.limit != u64::MAX {
        return;
    }
    const P: &[usize] = &[1, 2, 3, 5, 12, 16, 33];
    r.seq("pools", P.len() as u64 + 1, 8 * (P.len() as u64 + 1), |c| {
        let n = if c.thorough { thorough } else { quick };
        match (P.get(c.idx as usize % (P.len() + 1)), &alt) {
            (Some(t), _) => with_pool(c, r, &me, family, n, *t),
            (None, Some(a)) => {
                c.count("runs_without_multicore", 1);
                with_pool(c, r, a, family, n, 1)
            }
            _ => Ok(()),
        }
    });
}
const THREADS: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 16, 32];

// ---------------------------------------------------------------- C18
fn complete<E: Eng>(c: &mut Case, z: &Circ<E::F>, k: &Trap<E::F>, name: &str) -> R {
    let sys = z.sys();
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, k) {
        c.count("degenerate_skipped", 1);
        return Ok(());
    }
    let what = || format!("{} {} w={:?}", name, z.describe(), z.ws[0]);
    ensure!(sys.violated(&z.ws[0]).is_none(), "harness: unsatisfied circuit");
    let p = gen::<E, _>(z.with(None), k).map_err(|e| format!("key generation failed with {:?}; {}", e, what()))?;
    let pvk = prepare_verifying_key(&p.vk);
    let (r, s) = (rs(c), rs(c));
    let pr = create_proof::<E, _, _>(z.clone(), &p, r, s).map_err(|e| format!("proving failed with {:?} (r={:?} s={:?}); {}", e, r, s, what()))?;
    c.ev(2);
    let v = verify_proof(&pvk, &pr, &z.pubs());
    ensure!(v.is_ok(), "honest proof rejected with {:?} (r={:?} s={:?}); {}", v, r, s, what());
    let pr = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("random proving failed with {:?}; {}", e, what()))?;
    let v = verify_proof(&pvk, &pr, &z.pubs());
    ensure!(v.is_ok(), "honest random proof rejected with {:?}; {}", v, what());
    c.count("proofs_accepted", 2);
    let m = sys.cons.len() + sys.n_in;
    c.max("largest_domain", 1 << domain_log(m));
    if m.is_power_of_two() {
        c.count("exact_domains", 1);
    }
    c.seen(z.hash());
    c.sample(what);
    Ok(())
}
fn c18_random<F: FieldExt>(c: &mut Case) -> R {
    let cap = (F::S - 1).min(6);
    let s = Spec::random(c, cap);
    let z = Circ::<F>::random(c, &s);
    if z.cons.len() + z.n_in > 1 << (F::S - 1).min(20) {
        return Ok(());
    }
    let k = Trap::random(c);
    complete::<Dlog<F>>(c, &z, &k, F::NAME)
}
/// More variables of one kind than constraints, and the reverse.
#[allow(dead_code)]
fn wide(c: &mut Case) -> Spec {
    let mut f = |a: &[u64]| { let m = *c.pick(a); c.below(m) as usize };
    Spec { n_pub: f(&[3, 30, 300, 600]), n_aux: f(&[5, 50, 700, 1500]), n_cons: f(&[20, 200, 700]), witnesses: 1, plain: false }
}
/// Sizes past 2^16: rows, private variables or public inputs, or all of them.
#[allow(dead_code)]
fn vast(c: &mut Case) -> Spec {
    let n_pub = *c.pick(&[2usize, 3, 40, 3000, 66000]);
    let n_aux = *c.pick(&[5usize, 2000, 40000, 66000, 70000]);
    let n = *c.pick(&[65537usize, 65600, 90000, 131071, 131072, 131073]);
    Spec { n_pub, n_aux, n_cons: n - n_pub.min(n - 500) - 1, witnesses: 1, plain: false }
}
pub fn c18(r: &Runner) -> &'static str {
    pools(r, "random", 400, 4000);
    r.par("random", 12000, 300000, |c| on_field!(c, c18_random, [F5_55, F5_55, F5_55, BabyBear, F193, F257, F65537]));
    // every small shape
    r.par("wide", 400, 8000, |c| {
        let s = wide(c);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        complete::<Dlog<F5_55>>(c, &z, &k, "wide")
    });
    r.par("shapes", 1500, 20000, |c| {
        let i = c.idx as usize;
        let s = Spec { n_pub: i % 4, n_aux: i / 4 % 5, n_cons: i / 20 % 30, witnesses: 1, plain: c.coin() };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        complete::<Dlog<F5_55>>(c, &z, &k, "shape")
    });
    r.seq("vast", 4, 40, |c| {
        let s = vast(c);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        complete::<Dlog<F5_55>>(c, &z, &k, "vast")
    });
    r.seq("large", 6, 60, |c| {
        let l = 9 + c.below(if c.thorough { 6 } else { 4 });
        let n = (1i64 << l) + *c.pick(&[-1i64, 0, 1]);
        let n_pub = c.below(40) as usize;
        let s = Spec { n_pub, n_aux: c.below(n as u64) as usize, n_cons: (n - n_pub as i64 - 1) as usize, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        complete::<Dlog<F5_55>>(c, &z, &k, "large")
    });
    r.seq("bls12_381", 40, 500, |c| {
        let s = Spec::random(c, if c.idx % 8 == 7 { 6 } else { 4 });
        let z = Circ::<Scalar>::random(c, &s);
        let k = Trap::random(c);
        complete::<Bls12>(c, &z, &k, "bls12-381")
    });
    fn gadget<E: Eng>(c: &mut Case, set: &'static [K], n: usize) -> R {
        let p = Prog::random(c, set, n, 1);
        let (b, sys, w) = Bare::new::<E::F>(&p).map_err(|e| format!("{:?}", e))?;
        ensure!(sys.violated(&w).is_none(), "gadgets produced an unsatisfied system: {:?}", p);
        let k = Trap::random(c);
        let q = Qap::new(&sys, k.tau);
        if !regular(&sys, &q, &k) || sys.cons.len() + sys.n_in > 1 << (E::F::S - 1).min(20) {
            c.count("degenerate_skipped", 1);
            return Ok(());
        }
        let pk = gen::<E, _>(b.again(false), &k).map_err(|e| format!("key generation failed with {:?}; {:?}", e, p))?;
        let pr = create_random_proof::<E, _, _, _>(b, &pk, &mut c.rng).map_err(|e| format!("proving failed with {:?}; {:?}", e, p))?;
        c.ev(1);
        let v = verify_proof(&prepare_verifying_key(&pk.vk), &pr, &w[1..sys.n_in]);
        ensure!(v.is_ok(), "honest proof of a gadget circuit rejected with {:?}; {:?}", v, p);
        c.count("gadget_circuits", 1);
        c.seen(shape_hash(&sys));
        Ok(())
    }
    const SETS: &[&[K]] = &[BOOL_OPS, NUM_OPS, BITS_OPS, LOOKUP_OPS, PACK_OPS];
    r.par("gadgets", 4000, 150000, |c| {
        let set = *c.pick(SETS);
        let n = 1 + c.below(8) as usize;
        gadget::<Dlog<F5_55>>(c, set, n)
    });
    r.par("word_gadgets", 600, 20000, |c| {
        let n = 1 + c.below(4) as usize;
        gadget::<Dlog<Scalar>>(c, WORD_OPS, n)
    });
    r.seq("gadgets_bls12_381", 4, 60, |c| {
        let set = *c.pick(SETS);
        gadget::<Bls12>(c, set, 3)
    });
    r.seq("sha256", 1, 4, |c| {
        let mut msg = vec![0u8; c.below(64) as usize];
        c.rng.fill_bytes(&mut msg);
        let z = Sha { msg: msg.clone(), known: true };
        let k = Trap::<Scalar>::random(c);
        type E = Dlog<Scalar>;
        let pk = gen::<E, _>(Sha { msg: vec![0; msg.len()], known: false }, &k).map_err(|e| format!("key generation failed with {:?}", e))?;
        let pr = create_random_proof::<E, _, _, _>(z, &pk, &mut c.rng).map_err(|e| format!("proving failed with {:?}", e))?;
        c.ev(1);
        let d = vh::refhash::sha256(&msg);
        let bits: Vec<bool> = d.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
        let pubs = pack_ref::<Scalar>(&bits);
        let v = verify_proof(&prepare_verifying_key(&pk.vk), &pr, &pubs);
        ensure!(v.is_ok(), "proof of a SHA-256 preimage rejected with {:?}; {:?}", v, msg);
        c.count("gadget_circuits", 1);
        c.seen(hash_bytes(&msg));
        Ok(())
    });
    "random satisfiable systems (zero, repeated and cancelling terms, empty combinations, every small shape, sizes at and around powers of two, interleaved public and private variables), gadget programs and a SHA-256 circuit through key generation, proving with special and random r, s, and verification on transparent engines over 5 fields and on BLS12-381; distinct = distinct (system, witness)"
}
struct Sha {
    msg: Vec<u8>,
    known: bool,
}
impl<F: FieldExt> Circuit<F> for Sha {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        use bellman::gadgets::boolean::{AllocatedBit, Boolean};
        let mut bits = vec![];
        for (i, b) in self.msg.iter().enumerate() {
            for k in (0..8).rev() {
                let v = if self.known { Some(b >> k & 1 == 1) } else { None };
                bits.push(Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("b{} {}", i, k)), v)?));
            }
        }
        let d = bellman::gadgets::sha256::sha256(cs.namespace(|| "sha"), &bits)?;
        bellman::gadgets::multipack::pack_into_inputs(cs.namespace(|| "pack"), &d)
    }
}

// ---------------------------------------------------------------- C19
fn check_verify<E: Eng>(c: &mut Case, e: &Expect<E::F>, p: &[E::F; 3], inputs: &[E::F], name: &str) -> R {
    let vk = vk_of::<E>(e);
    let pvk = prepare_verifying_key(&vk);
    let proof = proof_of::<E>(p);
    c.ev(1);
    let got = verdict(&verify_proof(&pvk, &proof, inputs));
    let want = if inputs.len() + 1 != e.ic.len() {
        2
    } else if equation(e, p, inputs) {
        0
    } else {
        1
    };
    c.count(["accepted", "rejected_proof", "rejected_count"][want as usize], 1);
    ensure!(
        got == want,
        "{}: verdict {} expected {} (0 accept, 1 invalid proof, 2 invalid key); {} key {:?} proof {:?} inputs {:?}",
        E::F::NAME, got, want, name, e, p, inputs
    );
    c.seen(hash_bytes(format!("{:?}{:?}{:?}", e, p, inputs).as_bytes()));
    Ok(())
}
fn c19_random<E: Eng>(c: &mut Case) -> R {
    let n = if c.below(400) == 0 { 7 + c.below(40) } else { c.below(7) } as usize;
    let any = c.below(3) == 0;
    let e = random_key::<E::F>(&mut c.rng, n, any);
    let f = |c: &mut Case| special::<E::F>(c);
    // arbitrary proof and inputs
    let p = [f(c), f(c), f(c)];
    let inputs: Vec<E::F> = (0..n).map(|_| f(c)).collect();
    check_verify::<E>(c, &e, &p, &inputs, "arbitrary")?;
    let Some((p, x)) = forge_valid(&mut c.rng, &e) else { return Ok(()) };
    check_verify::<E>(c, &e, &p, &x, "valid")?;
    ensure!(equation(&e, &p, &x), "harness: forged proof invalid");
    // algebraic mauling
    let k: E::F = nonzero(&mut c.rng);
    let ki = k.invert().unwrap();
    let d = nonzero::<E::F>(&mut c.rng);
    let t = e.delta_g2;
    for (q, name) in [
        ([p[0] * k, p[1] * ki, p[2]], "scaled pair"),
        ([-p[0], -p[1], p[2]], "negated pair"),
        ([-p[0], p[1], p[2]], "negated A"),
        ([p[0], -p[1], p[2]], "negated B"),
        ([p[0], p[1], -p[2]], "negated C"),
        ([p[0] + d, p[1], p[2]], "perturbed A"),
        ([p[0], p[1] + d, p[2]], "perturbed B"),
        ([p[0], p[1], p[2] + d], "perturbed C"),
        ([p[0], p[1] + d * t, p[2] + d * p[0]], "compensated B and C"),
        ([p[2], p[1], p[0]], "A and C swapped"),
        ([p[0] + p[0], p[1], p[2] + p[2]], "doubled A and C"),
        ([E::F::ZERO, p[1], p[2]], "zero A"),
        ([p[0], E::F::ZERO, p[2]], "zero B"),
        ([p[0], p[1], E::F::ZERO], "zero C"),
        ([E::F::ZERO; 3], "all zero"),
        ([e.alpha_g1, e.beta_g2, p[2]], "alpha, beta"),
    ] {
        check_verify::<E>(c, &e, &q, &x, name)?;
    }
    // inputs: each perturbed, all pairs swapped, compensated, rotated
    for i in 0..n {
        let mut y = x.clone();
        y[i] += d;
        check_verify::<E>(c, &e, &p, &y, "one input changed")?;
        let mut y = x.clone();
        y[i] = E::F::ZERO;
        check_verify::<E>(c, &e, &p, &y, "one input zero")?;
        for j in 0..i {
            let mut y = x.clone();
            y.swap(i, j);
            check_verify::<E>(c, &e, &p, &y, "two inputs swapped")?;
            // moves value between two inputs along the kernel of (ic_i, ic_j)
            let mut y = x.clone();
            y[i] += d * e.ic[j + 1];
            y[j] -= d * e.ic[i + 1];
            check_verify::<E>(c, &e, &p, &y, "compensated inputs")?;
            let mut y = x.clone();
            y[i] += d;
            y[j] -= d;
            check_verify::<E>(c, &e, &p, &y, "shifted inputs")?;
        }
    }
    // wrong counts
    for m in 0..n + 4 {
        if m == n {
            continue;
        }
        let mut y = x.clone();
        let pad = if c.coin() { E::F::ZERO } else { d };
        y.resize(m, pad);
        check_verify::<E>(c, &e, &p, &y, "wrong count")?;
    }
    let mut y = x.clone();
    y.insert(0, E::F::ONE);
    check_verify::<E>(c, &e, &p, &y, "leading one supplied")?;
    // other key: every component
    for i in 0..7 + n {
        let mut g = e.clone();
        match i {
            0 => g.alpha_g1 += d,
            1 => g.beta_g1 += d,
            2 => g.beta_g2 += d,
            3 => g.gamma_g2 += d,
            4 => g.delta_g1 += d,
            5 => g.delta_g2 += d,
            _ => g.ic[i - 6] += d,
        }
        check_verify::<E>(c, &g, &p, &x, "key component changed")?;
    }
    for i in 0..n {
        let mut g = e.clone();
        g.ic.swap(i, i + 1);
        check_verify::<E>(c, &g, &p, &x, "key elements swapped")?;
    }
    let mut g = e.clone();
    std::mem::swap(&mut g.gamma_g2, &mut g.delta_g2);
    check_verify::<E>(c, &g, &p, &x, "gamma and delta swapped")?;
    let mut g = e.clone();
    std::mem::swap(&mut g.beta_g2, &mut g.delta_g2);
    check_verify::<E>(c, &g, &p, &x, "beta and delta swapped")?;
    c.sample(|| format!("{} {} inputs: valid and mauled proofs, inputs and keys", E::F::NAME, n));
    Ok(())
}
fn c19_dlog<F: FieldExt>(c: &mut Case) -> R {
    c19_random::<Dlog<F>>(c)
}
/// Every input vector and proof of a tiny field for one key.
fn c19_exhaustive(c: &mut Case) -> R {
    type E = Dlog<F5>;
    let n = 1 + c.idx as usize % 2;
    let e = random_key::<F5>(&mut c.rng, n, c.idx % 5 == 0);
    for a in 0..5u64 {
        for b in 0..5 {
            for cc in 0..5 {
                for x in 0..5u64.pow(n as u32) {
                    let inputs: Vec<F5> = (0..n as u32).map(|i| F5::from(x / 5u64.pow(i))).collect();
                    let p = [F5::from(a), F5::from(b), F5::from(cc)];
                    let got = verify_proof(&prepare_verifying_key(&vk_of::<E>(&e)), &proof_of::<E>(&p), &inputs).is_ok();
                    c.ev(1);
                    let want = equation(&e, &p, &inputs);
                    ensure!(got == want, "verdict {} expected {}: key {:?} proof {:?} inputs {:?}", got, want, e, p, inputs);
                    c.count("enumerated", 1);
                }
            }
        }
    }
    c.seen(c.idx);
    Ok(())
}
pub fn c19(r: &Runner) -> &'static str {
    r.par("random", 60000, 2000000, |c| on_field!(c, c19_dlog, [F5, F7, F13, F97, BabyBear, Gold, M61, F5_55, Scalar]));
    r.par("many_inputs", 2000, 40000, |c| {
        let n = match c.below(100) {
            0 => *c.pick(&[65535u64, 65536, 65537, 65534, 70000]),
            1..=9 => *c.pick(&[254u64, 255, 256, 257, 511, 512, 1023, 1024, 1025]),
            _ => c.below(300),
        } as usize;
        let e = random_key::<Gold>(&mut c.rng, n, false);
        let (p, x) = forge_valid(&mut c.rng, &e).unwrap();
        check_verify::<Dlog<Gold>>(c, &e, &p, &x, "valid")?;
        if n > 0 {
            let i = c.below(n as u64) as usize;
            let mut y = x.clone();
            y[i] += Gold::ONE;
            check_verify::<Dlog<Gold>>(c, &e, &p, &y, "one of many inputs changed")?;
        }
        for m in [0, n.saturating_sub(1), n + 1, 2 * n + 1] {
            let mut y = x.clone();
            y.resize(m, Gold::ZERO);
            check_verify::<Dlog<Gold>>(c, &e, &p, &y, "count")?;
        }
        Ok(())
    });
    r.par("exhaustive", 300, 6000, c19_exhaustive);
    r.par("bls12_381", 24, 600, |c| c19_random::<Bls12>(c));
    // honest proofs of circuits, by way of the library
    r.seq("circuits", 1000, 20000, |c| {
        let s = Spec::random(c, 4);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        if !regular(&z.sys(), &Qap::new(&z.sys(), k.tau), &k) {
            return Ok(());
        }
        type E = Dlog<F5_55>;
        let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
        let pr = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("{:?}", e))?;
        let e = dlogs(&p);
        let x = z.pubs();
        check_verify::<E>(c, &e, &proof_dlogs(&pr), &x, "honest")?;
        for i in 0..x.len() {
            let mut y = x.clone();
            y[i] += F5_55::ONE;
            check_verify::<E>(c, &e, &proof_dlogs(&pr), &y, "input changed")?;
        }
        Ok(())
    });
    "valid, arbitrary and algebraically mauled proofs, changed / swapped / compensated inputs, changed keys and wrong input counts on transparent engines over 9 fields and on BLS12-381, each verdict compared with the pairing equation over discrete logarithms; all proofs and inputs enumerated for keys over F5; distinct = distinct (key, proof, inputs)"
}

// ---------------------------------------------------------------- C20
/// Proves with `prover`, key from `keyed`, presents `inputs`; must not be accepted.
fn must_reject<E: Eng>(c: &mut Case, keyed: &Circ<E::F>, prover: &Circ<E::F>, inputs: &[E::F], what: &dyn Fn() -> String) -> R {
    let k = Trap::random(c);
    let q = Qap::new(&keyed.sys(), k.tau);
    if !regular(&keyed.sys(), &q, &k) {
        c.count("degenerate_skipped", 1);
        return Ok(());
    }
    let p = gen::<E, _>(keyed.with(None), &k).map_err(|e| format!("key generation failed with {:?}; {}", e, what()))?;
    let (r, s) = (rs(c), rs(c));
    c.ev(1);
    match create_proof::<E, _, _>(prover.clone(), &p, r, s) {
        Err(_) => c.count("refused_by_prover", 1),
        Ok(pr) => {
            c.count("proofs_rejected", 1);
            let v = verify_proof(&prepare_verifying_key(&p.vk), &pr, inputs);
            ensure!(v.is_err(), "a proof was accepted; {}", what());
            ensure!(verdict(&v) == 1 || inputs.len() + 1 != p.vk.ic.len(), "rejected with {:?}; {}", v, what());
        }
    }
    Ok(())
}
fn c20_case<E: Eng>(c: &mut Case, max_log: u32, name: &str) -> R {
    let s = Spec::random(c, max_log);
    let z = Circ::<E::F>::random(c, &s);
    let n = z.cons.len();
    let one = Index::Input(0);
    let d: E::F = nonzero(&mut c.rng);
    // positions: ends, around the middle of the domain, random
    let mut ks: Vec<usize> = if n <= 6 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, c.below(n as u64) as usize] };
    ks.dedup();
    for k in ks {
        let what = |x: &str| format!("{} {} in constraint {} of {}; {} w={:?}", name, x, k, n, z.describe(), z.ws[0]);
        // the circuit itself is violated in exactly this constraint
        let mut bad = z.clone();
        bad.cons[k][2].push((one, d));
        must_reject::<E>(c, &bad, &bad, &z.pubs(), &|| what("violated"))?;
        // the key is for the violated circuit, the prover uses the satisfied one
        must_reject::<E>(c, &bad, &z, &z.pubs(), &|| what("key differs in C"))?;
        // a coefficient of A or B differs so that the assignment violates the keyed constraint
        for side in 0..2 {
            let mut bad = z.clone();
            let v = c.below((z.n_in + z.n_aux) as u64) as usize;
            let iv = if v < z.n_in { Index::Input(v) } else { Index::Aux(v - z.n_in) };
            bad.cons[k][side].push((iv, d));
            let sys = bad.sys();
            if sys.violated(&z.ws[0]) == Some(k) {
                must_reject::<E>(c, &bad, &z, &z.pubs(), &|| what(if side == 0 { "key differs in A" } else { "key differs in B" }))?;
                must_reject::<E>(c, &bad, &bad, &z.pubs(), &|| what(if side == 0 { "violated in A" } else { "violated in B" }))?;
                c.count("side_cases", 1);
            }
        }
        // the prover leaves the violated constraint out, or moves it
        let mut omit = z.clone();
        omit.cons.remove(k);
        must_reject::<E>(c, &bad, &omit, &z.pubs(), &|| what("violated constraint omitted by the prover"))?;
        let mut blank = z.clone();
        blank.cons[k] = [vec![], vec![], vec![]];
        must_reject::<E>(c, &bad, &blank, &z.pubs(), &|| what("violated constraint blanked by the prover"))?;
    }
    // a witness changed in one private variable
    for _ in 0..3 {
        if z.n_aux == 0 {
            break;
        }
        let mut bad = z.clone();
        let v = z.n_in + c.below(z.n_aux as u64) as usize;
        bad.ws[0][v] += d;
        let viol = bad.sys().violated(&bad.ws[0]);
        if let Some(k) = viol {
            must_reject::<E>(c, &z, &bad, &z.pubs(), &|| format!("{} private variable {} changed, violating constraint {}; {}", name, v, k, z.describe()))?;
            c.count("changed_witnesses", 1);
        }
    }
    // another statement
    let x = z.pubs();
    if !x.is_empty() {
        let k = Trap::random(c);
        let q = Qap::new(&z.sys(), k.tau);
        if regular(&z.sys(), &q, &k) {
            let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
            let pvk = prepare_verifying_key(&p.vk);
            let pr = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("honest proving failed: {:?}; {}", e, z.describe()))?;
            for i in 0..x.len() {
                for mode in 0..4 {
                    let mut y = x.clone();
                    match mode {
                        0 => y[i] += d,
                        1 => y[i] = -y[i],
                        2 => y.rotate_left(i + 1),
                        _ => {
                            y.swap(0, i);
                        }
                    }
                    if y == x {
                        continue;
                    }
                    c.ev(1);
                    ensure!(verify_proof(&pvk, &pr, &y).is_err(), "{} a proof for {:?} was accepted for {:?}; {}", name, x, y, z.describe());
                    c.count("other_statements", 1);
                }
            }
            // the prover lies about a public input
            let i = 1 + c.below(x.len() as u64) as usize;
            let mut bad = z.clone();
            bad.ws[0][i] += d;
            let pr = create_random_proof::<E, _, _, _>(bad.clone(), &p, &mut c.rng);
            if let Ok(pr) = pr {
                c.ev(2);
                ensure!(verify_proof(&pvk, &pr, &x).is_err(), "{} a proof made for {:?} was accepted for {:?}; {}", name, bad.pubs(), x, z.describe());
                if bad.sys().violated(&bad.ws[0]).is_some() {
                    ensure!(verify_proof(&pvk, &pr, &bad.pubs()).is_err(), "{} a proof for the unsatisfied statement {:?} was accepted; {}", name, bad.pubs(), z.describe());
                }
            }
        }
    }
    c.seen(z.hash());
    c.sample(|| z.describe());
    Ok(())
}
/// An adversary who knows a randomly generated key, one honest proof and nothing else: every proof
/// whose elements are simple combinations of what is known, presented for another statement.
fn c20_public_key<E: Eng>(c: &mut Case, tries: usize, name: &str) -> R {
    use group::{prime::PrimeCurveAffine, Curve};
    let n_pub = if tries > 100 && c.below(10) == 0 { 4 + c.below(60) } else { 1 + c.below(3) } as usize;
    let s = Spec { n_pub, n_aux: 1 + c.below(3) as usize, n_cons: 2 + c.below(4) as usize, witnesses: 1, plain: true };
    let z = Circ::<E::F>::random(c, &s);
    let p = match generate_random_parameters::<E, _, _>(z.with(None), &mut c.rng) {
        Ok(p) => p,
        Err(SynthesisError::UnconstrainedVariable) => return Ok(()),
        Err(e) => fail!("{}: key generation failed with {:?}; {}", name, e, z.describe()),
    };
    let vk = &p.vk;
    let pvk = prepare_verifying_key(vk);
    let pr = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("{:?}", e))?;
    let x = z.pubs();
    ensure!(verify_proof(&pvk, &pr, &x).is_ok(), "{}: honest proof rejected; {}", name, z.describe());
    let mut g1: Vec<E::G1Affine> = vec![vk.alpha_g1, vk.beta_g1, vk.delta_g1, pr.a, pr.c];
    g1.extend(vk.ic.iter());
    for l in [&p.h, &p.l, &p.a, &p.b_g1] {
        g1.extend(l.iter().take(3));
    }
    let mut g2: Vec<E::G2Affine> = vec![vk.beta_g2, vk.gamma_g2, vk.delta_g2, pr.b];
    g2.extend(p.b_g2.iter().take(3));
    let mut attack = |c: &mut Case, q: Proof<E>, y: &[E::F], how: &dyn Fn() -> String| -> R {
        if y == &x[..] {
            return Ok(());
        }
        c.ev(1);
        c.count("public_key_attacks", 1);
        ensure!(verify_proof(&pvk, &q, y).is_err(), "{}: a forged proof of another statement was accepted: {}; {}", name, how(), z.describe());
        Ok(())
    };
    // shift one input and compensate in one element by a multiple of something known
    for i in 0..x.len().min(4) {
        let i = if x.len() > 4 { c.below(x.len() as u64) as usize } else { i };
        for d in [E::F::ONE, E::F::from(5), rs(c)] {
            let mut y = x.clone();
            y[i] += d;
            for (j, t) in g1.iter().enumerate().take(if tries < 100 { 12 } else { 99 }) {
                for k in [d, -d] {
                    let q = Proof { a: pr.a, b: pr.b, c: (*t * k + pr.c).to_affine() };
                    attack(c, q, &y, &|| format!("input {} moved by {:?}, c by {:?} times known element {}", i, d, k, j))?;
                    let q = Proof { a: (*t * k + pr.a).to_affine(), b: pr.b, c: pr.c };
                    attack(c, q, &y, &|| format!("input {} moved by {:?}, a by {:?} times known element {}", i, d, k, j))?;
                }
            }
        }
    }
    // any statement, from the key alone
    for n in 0..tries {
        let y: Vec<E::F> = x.iter().map(|_| rs(c)).collect();
        let mut acc: E::G1 = vk.ic[0].to_curve();
        for (b, y) in vk.ic[1..].iter().zip(&y) {
            acc += *b * *y;
        }
        let (a, b) = if n % 3 == 0 { (vk.alpha_g1, vk.beta_g2) } else { (*c.pick(&g1), *c.pick(&g2)) };
        let t: E::G1 = match c.below(4) { 0 => c.pick(&g1).to_curve(), 1 => (*c.pick(&g1) * rs::<E::F>(c)).into(), _ => acc };
        let q = Proof { a, b, c: (if c.coin() { t } else { -t }).to_affine() };
        attack(c, q, &y, &|| "elements of the key used as a proof".into())?;
    }
    c.seen(z.hash());
    Ok(())
}
pub fn c20(r: &Runner) -> &'static str {
    r.par("public_key", 1500, 30000, |c| match c.below(3) {
        0 => c20_public_key::<Dlog<Scalar>>(c, 200, "transparent bls12-381-fr"),
        _ => c20_public_key::<Dlog<F5_55>>(c, 200, "f5_55"),
    });
    r.seq("public_key_bls12_381", 1, 20, |c| c20_public_key::<Bls12>(c, 10, "bls12-381"));
    // many public inputs: each of them matters
    r.par("many_inputs", 300, 6000, |c| {
        type E = Dlog<F5_55>;
        let s = Spec { n_pub: *c.pick(&[9usize, 17, 40, 65, 127, 256, 300]), n_aux: 1 + c.below(9) as usize, n_cons: c.below(60) as usize, witnesses: 1, plain: true };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        if !regular(&z.sys(), &Qap::new(&z.sys(), k.tau), &k) {
            return Ok(());
        }
        let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let pvk = prepare_verifying_key(&p.vk);
        let pr = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("{:?}", e))?;
        let x = z.pubs();
        ensure!(verify_proof(&pvk, &pr, &x).is_ok(), "honest proof rejected; {}", z.describe());
        for i in 0..x.len() {
            for how in 0..3 {
                let mut y = x.clone();
                match how {
                    0 => y[i] += F5_55::ONE,
                    1 => y[i] = rs(c),
                    _ => y.swap(i, (i + 1) % x.len()),
                }
                if y == x {
                    continue;
                }
                c.ev(1);
                c.count("other_statements", 1);
                ensure!(verify_proof(&pvk, &pr, &y).is_err(), "accepted for a statement that differs at input {} of {} (kind {}); {}", i, x.len(), how, z.describe());
            }
        }
        c.seen(z.hash());
        Ok(())
    });
    r.par("random", 1800, 40000, |c| {
        let m = if c.below(10) == 0 { 7 } else { 5 };
        c20_case::<Dlog<F5_55>>(c, m, "f5_55")
    });
    r.seq("bls12_381", 4, 60, |c| c20_case::<Bls12>(c, 3, "bls12-381"));
    // every constraint of larger systems, one at a time
    r.par("every_constraint", 24, 300, |c| {
        type E = Dlog<F5_55>;
        let l = 5 + c.below(3);
        let m = (1i64 << l) + *c.pick(&[-1i64, 0, 1]);
        let n_pub = c.below(5) as usize;
        let s = Spec { n_pub, n_aux: 1 + c.below(20) as usize, n_cons: (m - 1) as usize - n_pub, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        let q = Qap::new(&z.sys(), k.tau);
        if !regular(&z.sys(), &q, &k) {
            return Ok(());
        }
        let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let pvk = prepare_verifying_key(&p.vk);
        for i in 0..z.cons.len() {
            // what the key demands differs from what the prover evaluates in exactly this place
            let mut bad = z.clone();
            bad.cons[i][2].push((Index::Input(0), nonzero(&mut c.rng)));
            let pr = create_random_proof::<E, _, _, _>(bad, &p, &mut c.rng);
            c.ev(1);
            if let Ok(pr) = pr {
                c.count("proofs_rejected", 1);
                ensure!(
                    verify_proof(&pvk, &pr, &z.pubs()).is_err(),
                    "the value of constraint {} does not matter to the prover; {}", i, z.describe()
                );
            }
            let mut bad = z.clone();
            bad.cons[i][2].push((Index::Input(0), nonzero(&mut c.rng)));
            let p2 = gen::<E, _>(bad.with(None), &k).map_err(|e| format!("{:?}", e))?;
            let pr = create_random_proof::<E, _, _, _>(bad, &p2, &mut c.rng);
            c.ev(1);
            if let Ok(pr) = pr {
                c.count("proofs_rejected", 1);
                ensure!(
                    verify_proof(&prepare_verifying_key(&p2.vk), &pr, &z.pubs()).is_err(),
                    "constraint {} of {} may be violated; {}", i, z.cons.len(), z.describe()
                );
            }
        }
        c.seen(z.hash());
        Ok(())
    });
    // gadget circuits with one witness value changed
    r.par("gadgets", 2500, 60000, |c| {
        type E = Dlog<F5_55>;
        const SETS: &[&[K]] = &[BOOL_OPS, NUM_OPS, BITS_OPS, LOOKUP_OPS, PACK_OPS];
        let set = *c.pick(SETS);
        let n = 1 + c.below(5) as usize;
        let p = Prog::random(c, set, n, 1);
        let (b, sys, w) = Bare::new::<F5_55>(&p).map_err(|e| format!("{:?}", e))?;
        let k = Trap::random(c);
        if sys.n_aux == 0 || !regular(&sys, &Qap::new(&sys, k.tau), &k) {
            return Ok(());
        }
        let pk = gen::<E, _>(b.again(false), &k).map_err(|e| format!("{:?}", e))?;
        let pvk = prepare_verifying_key(&pk.vk);
        for _ in 0..6 {
            let mut w2 = w.clone();
            let v = 1 + c.below((sys.n() - 1) as u64) as usize;
            w2[v] += nonzero::<F5_55>(&mut c.rng);
            if sys.violated(&w2).is_none() {
                continue;
            }
            let z = Given { sys: &sys, w: &w2 };
            c.ev(1);
            if let Ok(pr) = create_random_proof::<E, _, _, _>(z, &pk, &mut c.rng) {
                c.count("proofs_rejected", 1);
                ensure!(verify_proof(&pvk, &pr, &w2[1..sys.n_in]).is_err(), "proof from a violated gadget circuit accepted (variable {}); {:?}", v, p);
            }
        }
        c.seen(shape_hash(&sys));
        Ok(())
    });
    "proofs produced by the library from circuits violated in exactly one chosen constraint, from keys that differ from the proving circuit in one term of A, B or C, with omitted or blanked constraints, changed private values, changed / permuted / negated public inputs, on a transparent engine and BLS12-381; every one must be rejected; distinct = distinct (system, witness)"
}
/// A recorded system with a given assignment, as a circuit.
struct Given<'a, F: PrimeField> {
    sys: &'a Sys<F>,
    w: &'a [F],
}
impl<'a, F: PrimeField> Circuit<F> for Given<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vs = vec![CS::one()];
        for i in 1..self.sys.n() {
            let v = self.w[i];
            vs.push(if i < self.sys.n_in { cs.alloc_input(|| "", || Ok(v))? } else { cs.alloc(|| "", || Ok(v))? });
        }
        let lc = |t: &Vec<(usize, F)>| t.iter().fold(LinearCombination::zero(), |l, (v, x)| l + (*x, vs[*v]));
        for t in &self.sys.cons {
            cs.enforce(|| "", |_| lc(&t[0]), |_| lc(&t[1]), |_| lc(&t[2]));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C24
fn diff_params<F: PrimeField>(want: &Expect<F>, got: &Expect<F>) -> Option<String> {
    let one = |n: &str, a: &F, b: &F| if a == b { None } else { Some(format!("{} is {:?}, expected {:?}", n, b, a)) };
    let many = |n: &str, a: &[F], b: &[F]| {
        if a.len() != b.len() {
            return Some(format!("{} has {} elements, expected {}", n, b.len(), a.len()));
        }
        a.iter().zip(b).position(|(x, y)| x != y).map(|i| format!("{}[{}] of {} is {:?}, expected {:?}", n, i, a.len(), b[i], a[i]))
    };
    one("alpha_g1", &want.alpha_g1, &got.alpha_g1)
        .or_else(|| one("beta_g1", &want.beta_g1, &got.beta_g1))
        .or_else(|| one("beta_g2", &want.beta_g2, &got.beta_g2))
        .or_else(|| one("gamma_g2", &want.gamma_g2, &got.gamma_g2))
        .or_else(|| one("delta_g1", &want.delta_g1, &got.delta_g1))
        .or_else(|| one("delta_g2", &want.delta_g2, &got.delta_g2))
        .or_else(|| many("ic", &want.ic, &got.ic))
        .or_else(|| many("h", &want.h, &got.h))
        .or_else(|| many("l", &want.l, &got.l))
        .or_else(|| many("a", &want.a, &got.a))
        .or_else(|| many("b_g1", &want.b_g1, &got.b_g1))
        .or_else(|| many("b_g2", &want.b_g2, &got.b_g2))
}
fn c24_random<F: FieldExt>(c: &mut Case) -> R {
    let s = Spec::random(c, (F::S - 1).min(7));
    let z = Circ::<F>::random(c, &s);
    let mut k: Trap<F> = Trap::random(c);
    match c.below(6) {
        0 => {
            k.g1 = F::ONE;
            k.g2 = F::ONE;
        }
        1 => k.alpha = k.beta,
        2 => k.gamma = k.delta,
        3 => k.delta = F::ONE,
        4 => k.gamma = -F::ONE,
        _ => {}
    }
    c24_one::<F>(c, &z, &k)
}
fn c24_one<F: FieldExt>(c: &mut Case, z: &Circ<F>, k: &Trap<F>) -> R {
    let sys = z.sys();
    if sys.cons.len() + sys.n_in > 1usize << (F::S - 1).min(20) {
        return Ok(());
    }
    let q = Qap::new(&sys, k.tau);
    if q.tau_in_domain || k.tau.is_zero_vartime() {
        c.count("degenerate_skipped", 1);
        return Ok(());
    }
    let threads = *c.pick(THREADS);
    let what = || format!("{} threads={} {:?} {}", F::NAME, threads, k, z.describe());
    let p = with_threads(threads, || gen::<Dlog<F>, _>(z.with(if z.n_aux % 2 == 0 { None } else { Some(0) }), k));
    let e = Expect::new(&sys, &q, k);
    c.ev(1);
    if e.l.iter().any(|x| x.is_zero_vartime()) {
        c.count("accidentally_unconstrained", 1);
        ensure!(matches!(p, Err(SynthesisError::UnconstrainedVariable)), "a private variable whose L element is the identity gave {:?}; {}", p.map(|_| "parameters"), what());
        return Ok(());
    }
    let p = p.map_err(|x| format!("key generation failed with {:?}; {}", x, what()))?;
    let d = dlogs(&p);
    if let Some(x) = diff_params(&e, &d) {
        fail!("{}; {}", x, what());
    }
    for (n, v) in [("h", &d.h), ("l", &d.l), ("a", &d.a), ("b_g1", &d.b_g1), ("b_g2", &d.b_g2)] {
        ensure!(v.iter().all(|x| !x.is_zero_vartime()), "{} contains the identity; {}", n, what());
    }
    c.ev((d.ic.len() + d.h.len() + d.l.len() + d.a.len() + 2 * d.b_g1.len()) as u64);
    c.count("elements_compared", (6 + d.ic.len() + d.h.len() + d.l.len() + d.a.len() + 2 * d.b_g1.len()) as u64);
    c.count("omitted_elements", (2 * sys.n() - d.a.len() - d.b_g1.len()) as u64);
    c.max("largest_domain", q.n as u64);
    c.seen(shape_hash(&sys));
    c.sample(what);
    Ok(())
}
/// Trapdoors recovered from parameters made by random key generation.
fn recover<F: FieldExt>(z: &Circ<F>, d: &Expect<F>) -> Option<Vec<Trap<F>>> {
    if d.h.len() < 2 {
        return None;
    }
    let inv = |x: F| x.invert().unwrap();
    let tau = d.h[1] * inv(d.h[0]);
    let q = Qap::new(&z.sys(), tau);
    if q.t.is_zero_vartime() {
        return None;
    }
    // h0 = g1 t / delta, delta_g1 = g1 delta
    let sq = d.h[0] * d.delta_g1 * inv(q.t);
    let g: Option<F> = sq.sqrt().into();
    let g = g?;
    Some(
        [g, -g]
            .into_iter()
            .map(|g1| {
                let delta = d.delta_g1 * inv(g1);
                let g2 = d.delta_g2 * inv(delta);
                Trap { g1, g2, alpha: d.alpha_g1 * inv(g1), beta: d.beta_g1 * inv(g1), gamma: d.gamma_g2 * inv(g2), delta, tau }
            })
            .collect(),
    )
}
/// x / p as a floating point number
fn fraction<F: PrimeField>(x: &F) -> f64 {
    let f = |x: &F| x.to_repr().as_ref().iter().enumerate().map(|(i, b)| *b as f64 * 256f64.powi(i as i32)).sum::<f64>();
    f(x) / (f(&-F::ONE) + 1.0)
}
const TRAPS: [&str; 7] = ["g1", "g2", "alpha", "beta", "gamma", "delta", "tau"];
/// The trapdoors of `n` random key generations, each a column.
fn random_traps<F: FieldExt>(c: &mut Case, n: usize) -> R<Vec<Vec<F>>> {
    let s = Spec { n_pub: c.below(3) as usize, n_aux: 1 + c.below(3) as usize, n_cons: 2 + c.below(6) as usize, witnesses: 1, plain: true };
    let z = Circ::<F>::random(c, &s);
    let mut cols: Vec<Vec<F>> = vec![vec![]; 7];
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64());
    for i in 0..n {
        if i % 3 == 0 {
            // separately seeded callers
            rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64());
        }
        let mut again = rng.clone();
        let p = generate_random_parameters::<Dlog<F>, _, _>(z.with(None), &mut rng).map_err(|e| format!("random generation failed with {:?}; {}", e, z.describe()))?;
        let d = dlogs(&p);
        c.ev(1);
        let cands = recover(&z, &d).ok_or_else(|| format!("harness: cannot recover trapdoors; {}", z.describe()))?;
        let sys = z.sys();
        let Some(k) = cands.into_iter().find(|k| Expect::new(&sys, &Qap::new(&sys, k.tau), k) == d) else {
            fail!("parameters of random generation match their definition for no trapdoors; {}", z.describe());
        };
        // g1 and -g1 with matching signs of the rest cannot be told apart
        for (v, x) in cols.iter_mut().zip([k.g1, k.g2, k.alpha, k.beta, k.gamma, k.delta, k.tau]) {
            v.push(x);
        }
        // the caller's generator is the only source of randomness
        if i % 8 == 0 {
            let p2 = generate_random_parameters::<Dlog<F>, _, _>(z.with(None), &mut again).map_err(|e| format!("{:?}", e))?;
            ensure!(p2 == p, "random generation with the same generator state gave other parameters");
        }
        c.count("trapdoors_recovered", 7);
    }
    c.seen(z.hash());
    Ok(cols)
}
/// Freshness, range and relations of the trapdoors of random key generations over a large field.
fn c24_relations<F: FieldExt>(c: &mut Case) -> R {
    let n = 40;
    let t = random_traps::<F>(c, n)?;
    let mut rels: Vec<(String, Vec<F>)> = vec![];
    let inv = |x: &F| -> F { Option::from(x.invert()).unwrap_or(F::ZERO) };
    for i in 0..7 {
        rels.push((TRAPS[i].into(), t[i].clone()));
        rels.push((format!("{} - previous {}", TRAPS[i], TRAPS[i]), t[i].windows(2).map(|x| x[1] - x[0]).collect()));
        for j in 0..7 {
            let two = |f: &dyn Fn(F, F) -> F| -> Vec<F> { t[i].iter().zip(&t[j]).map(|(x, y)| f(*x, *y)).collect() };
            if i < j {
                rels.push((format!("{} - {}", TRAPS[i], TRAPS[j]), two(&|x, y| x - y)));
                rels.push((format!("{} + {}", TRAPS[i], TRAPS[j]), two(&|x, y| x + y)));
                rels.push((format!("{} {}", TRAPS[i], TRAPS[j]), two(&|x, y| x * y)));
                rels.push((format!("{} / {}", TRAPS[i], TRAPS[j]), two(&|x, y| x * inv(&y))));
            }
            if i != j {
                rels.push((format!("{} - {}^2", TRAPS[i], TRAPS[j]), two(&|x, y| x - y.square())));
                rels.push((format!("{} - previous {}", TRAPS[i], TRAPS[j]), t[i].iter().skip(1).zip(&t[j]).map(|(x, y)| *x - y).collect()));
            }
        }
    }
    for (name, v) in &rels {
        let set: HashSet<Vec<u8>> = v.iter().map(|x| x.to_repr().as_ref().to_vec()).collect();
        ensure!(set.len() == v.len(), "{} takes only {} values in {} key generations", name, set.len(), n);
        // the largest of 39 values is below p/4 once in 2^78 times
        let top = v.iter().map(fraction).fold(0f64, f64::max);
        ensure!(top > 0.25, "{} stays below {} of the field's order in {} key generations", name, top, n);
        let low = v.iter().map(fraction).fold(1f64, f64::min);
        ensure!(low < 0.75, "{} stays above {} of the field's order in {} key generations", name, low, n);
        c.count("relations_examined", 1);
    }
    Ok(())
}
/// Do the trapdoors fill the field evenly?
fn c24_uniform<F: FieldExt>(c: &mut Case, n: usize) -> R {
    let t = random_traps::<F>(c, n)?;
    for (v, name) in t.iter().zip(TRAPS) {
        // only known up to sign together with g1: fold
        let fold = |x: &F| { let f = fraction(x); if f > 0.5 { 1.0 - f } else { f } };
        let mut hist = [[0u32; 16]; 2];
        for x in v {
            hist[0][((fold(x) * 32.0) as usize).min(15)] += 1;
            // x^2 is known
            hist[1][(x.square().to_repr().as_ref()[0] & 15) as usize] += 1;
        }
        for (h, what) in hist.iter().zip(["top bits", "low bits of the square"]) {
            let e = n as f64 / 16.0;
            let x: f64 = h.iter().map(|o| (*o as f64 - e).powi(2) / e).sum();
            c.ev(1);
            // 15 degrees of freedom: one in 10^12
            ensure!(x < 95.0, "{}: {} not uniform over {} key generations: chi-square {:.0} with 15 degrees of freedom ({:?})", name, what, n, x, h);
            c.max("chi_square", x as u64);
        }
    }
    Ok(())
}
pub fn c24(r: &Runner) -> &'static str {
    pools(r, "random", 400, 4000);
    r.par("random", 60000, 1500000, |c| on_field!(c, c24_random, [F5_55, F5_55, BabyBear, F193, F257, F65537]));
    r.par("shapes", 6000, 60000, |c| {
        let i = c.idx as usize;
        let s = Spec { n_pub: i % 4, n_aux: i / 4 % 5, n_cons: i / 20 % 30, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c24_one::<F5_55>(c, &z, &k)
    });
    r.par("wide", 300, 6000, |c| {
        let s = Spec { n_pub: c.below(200) as usize, n_aux: c.below(500) as usize, n_cons: c.below(300) as usize, witnesses: 1, plain: c.coin() };
        let z = Circ::<BabyBear>::random(c, &s);
        let k = Trap::random(c);
        c24_one::<BabyBear>(c, &z, &k)
    });
    r.seq("vast", 4, 40, |c| {
        let s = vast(c);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c24_one::<F5_55>(c, &z, &k)
    });
    r.seq("large", 15, 150, |c| {
        let n = (1i64 << (10 + c.below(4))) + *c.pick(&[-1i64, 0, 1]);
        let s = Spec { n_pub: 3, n_aux: c.below(n as u64) as usize, n_cons: (n - 4) as usize, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c24_one::<F5_55>(c, &z, &k)
    });
    // BLS12-381: the same definition, element by element, by multiplying generators
    r.par("bls12_381", 96, 1500, |c| {
        let s = Spec { n_pub: c.below(3) as usize, n_aux: c.below(5) as usize, n_cons: c.below(6) as usize, witnesses: 1, plain: false };
        let z = Circ::<Scalar>::random(c, &s);
        let k = Trap::random(c);
        let sys = z.sys();
        let q = Qap::new(&sys, k.tau);
        let p = gen::<Bls12, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let e = params_of::<Bls12>(&Expect::new(&sys, &q, &k));
        c.ev(1);
        ensure!(p == e, "parameters differ from their definition on BLS12-381; {:?} {}", k, z.describe());
        c.count("bls_parameters", 1);
        c.seen(shape_hash(&sys));
        Ok(())
    });
    r.par("errors", 12000, 200000, |c| {
        type F = F5_55;
        let s = if c.idx % 200 == 199 {
            Spec { n_pub: c.below(30) as usize, n_aux: 3000 - c.below(2900) as usize, n_cons: c.below(300) as usize, witnesses: 1, plain: false }
        } else {
            Spec::random(c, 5)
        };
        let z = Circ::<F>::random(c, &s);
        let mut k = Trap::random(c);
        let kind = c.below(7);
        c.ev(1);
        let threads = *c.pick(THREADS);
        let run = |z: &Circ<F>, k: &Trap<F>| with_threads(threads, || gen::<Dlog<F>, _>(z.with(None), k)).map(|_| "parameters");
        match kind {
            0 | 1 | 2 => {
                if kind != 1 {
                    k.gamma = F::ZERO;
                }
                if kind != 0 {
                    k.delta = F::ZERO;
                }
                let g = run(&z, &k);
                ensure!(matches!(g, Err(SynthesisError::UnexpectedIdentity)), "gamma={:?} delta={:?} gave {:?}; {}", k.gamma, k.delta, g, z.describe());
                c.count("zero_trapdoors", 1);
            }
            _ => {
                // a private variable without effect
                let mut z = z.clone();
                let at = c.below(z.n_aux as u64 + 1) as usize;
                // renumber so that the dead variable may be anywhere
                for t in z.cons.iter_mut().flatten().flatten() {
                    if let Index::Aux(i) = t.0 {
                        if i >= at {
                            t.0 = Index::Aux(i + 1);
                        }
                    }
                }
                z.n_aux += 1;
                let pos = c.below(z.order.len() as u64 + 1) as usize;
                z.order.insert(pos, false);
                for w in z.ws.iter_mut() {
                    w.insert(z.n_in + at, F::ONE);
                }
                let v = Index::Aux(at);
                let x: F = nonzero(&mut c.rng);
                for _ in 0..c.below(3) {
                    if z.cons.is_empty() {
                        break;
                    }
                    let i = c.below(z.cons.len() as u64) as usize;
                    let side = c.below(3) as usize;
                    match kind {
                        3 => {} // never mentioned
                        4 => z.cons[i][side].push((v, F::ZERO)),
                        _ => {
                            z.cons[i][side].insert(0, (v, x));
                            z.cons[i][side].push((v, -x));
                        }
                    }
                }
                let g = run(&z, &k);
                ensure!(matches!(g, Err(SynthesisError::UnconstrainedVariable)), "a private variable without effect (aux {}) gave {:?}; {}", at, g, z.describe());
                c.count("unconstrained_variables", 1);
            }
        }
        c.seen(mix(z.hash(), kind));
        Ok(())
    });
    r.par("too_large", 12, 12, |c| {
        fn over<F: FieldExt>(c: &mut Case, extra: usize) -> R {
            let top = 1usize << F::S;
            let s = Spec { n_pub: 1, n_aux: 1, n_cons: top - 1 + extra, witnesses: 1, plain: true };
            let z = Circ::<F>::random(c, &s);
            let k = Trap::random(c);
            let g = gen::<Dlog<F>, _>(z.with(None), &k).map(|_| "parameters");
            c.ev(1);
            c.count("too_large_refused", 1);
            c.seen(extra as u64 ^ top as u64);
            ensure!(matches!(g, Err(SynthesisError::PolynomialDegreeTooLarge)), "{}: {} rows gave {:?}", F::NAME, top + 1 + extra, g);
            Ok(())
        }
        match c.idx {
            0..=5 => over::<F193>(c, c.idx as usize),
            _ => over::<F257>(c, c.idx as usize - 6),
        }
    });
    r.seq("random_generation", 12, 200, c24_relations::<F5_55>);
    r.seq("random_generation_255_bits", 6, 100, c24_relations::<Scalar>);
    r.seq("uniformity", 1, 10, |c| c24_uniform::<F5_55>(c, 3000));
    r.seq("uniformity_255_bits", 1, 10, |c| c24_uniform::<Scalar>(c, 1000));
    "parameters generated for random systems of all shapes (omitted and cancelled terms, empty sides, sizes around powers of two) and trapdoors on pools of 1..32 threads, every element compared with its definition over discrete logarithms (and element-wise on BLS12-381); error cases; trapdoors of random generation recovered and examined; distinct = distinct systems"
}

// ---------------------------------------------------------------- C25
fn c25_oracle<F: FieldExt>(c: &mut Case) -> R {
    let s = Spec::random(c, (F::S - 1).min(6));
    let z = Circ::<F>::random(c, &s);
    let k = Trap::random(c);
    c25_one::<F>(c, &z, &k)
}
fn c25_one<F: FieldExt>(c: &mut Case, z: &Circ<F>, k: &Trap<F>) -> R {
    type E<F> = Dlog<F>;
    let sys = z.sys();
    if sys.cons.len() + sys.n_in > 1usize << (F::S - 1).min(20) {
        return Ok(());
    }
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, k) {
        c.count("degenerate_skipped", 1);
        return Ok(());
    }
    let p = gen::<E<F>, _>(z.with(None), k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
    for _ in 0..2 {
        let (r, s) = (rs(c), rs(c));
        let pr = create_proof::<E<F>, _, _>(z.clone(), &p, r, s).map_err(|e| format!("proving failed with {:?}; {}", e, z.describe()))?;
        let want = proof_oracle(&sys, &q, k, &z.ws[0], r, s);
        c.ev(3);
        let got = proof_dlogs(&pr);
        ensure!(got == want, "proof for r={:?} s={:?} is {:?}, expected {:?}; {:?} {} w={:?}", r, s, got, want, k, z.describe(), z.ws[0]);
        c.count("proofs_compared", 1);
        if (r.is_zero() | s.is_zero()).into() {
            c.count("zero_randomness", 1);
        }
    }
    c.seen(z.hash());
    c.sample(|| z.describe());
    Ok(())
}
/// r and s recovered from a transparent proof.
fn recover_rs<F: FieldExt>(_sys: &Sys<F>, q: &Qap<F>, k: &Trap<F>, w: &[F], pr: &[F; 3]) -> (F, F) {
    let dot = |x: &[F]| x.iter().zip(w).fold(F::ZERO, |a, (x, w)| a + *x * w);
    let di = k.delta.invert().unwrap();
    let r = (pr[0] * k.g1.invert().unwrap() - k.alpha - dot(&q.u)) * di;
    let s = (pr[1] * k.g2.invert().unwrap() - k.beta - dot(&q.v)) * di;
    (r, s)
}
fn c25_random_proofs<F: FieldExt>(c: &mut Case, proofs: usize, min_bits: u32) -> R {
    let s = Spec { n_pub: c.below(3) as usize, n_aux: 1 + c.below(4) as usize, n_cons: 1 + c.below(6) as usize, witnesses: 1, plain: c.coin() };
    let z = Circ::<F>::random(c, &s);
    let k = Trap::random(c);
    let sys = z.sys();
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, &k) {
        return Ok(());
    }
    let p = gen::<Dlog<F>, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
    let mut all: Vec<(F, F)> = vec![];
    let mut elems: HashSet<(usize, Vec<u8>)> = HashSet::new();
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64());
    for i in 0..proofs {
        let mut again = rng.clone();
        if i % 3 == 0 {
            // separately seeded callers
            rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64());
            again = rng.clone();
        }
        let pr = create_random_proof::<Dlog<F>, _, _, _>(z.clone(), &p, &mut rng).map_err(|e| format!("{:?}", e))?;
        let d = proof_dlogs(&pr);
        let (r, s) = recover_rs(&sys, &q, &k, &z.ws[0], &d);
        c.ev(1);
        ensure!(proof_oracle(&sys, &q, &k, &z.ws[0], r, s) == d, "random proof matches its definition for no r, s; {}", z.describe());
        let pr2 = create_random_proof::<Dlog<F>, _, _, _>(z.clone(), &p, &mut again).map_err(|e| format!("{:?}", e))?;
        ensure!(pr2 == pr, "two proofs from the same generator state differ: other randomness is mixed in or the proof is not determined; {}", z.describe());
        all.push((r, s));
        if min_bits > 0 {
            for (i, e) in d.iter().enumerate() {
                ensure!(elems.insert((i, e.to_repr().as_ref().to_vec())), "two proofs share element {} ({:?}); {}", i, e, z.describe());
            }
        }
    }
    // relations between r and s that must not be systematic
    let inv = |x: F| -> F { Option::from(x.invert()).unwrap_or(F::ZERO) };
    let rels: Vec<(&str, Vec<F>)> = vec![
        ("r", all.iter().map(|x| x.0).collect()),
        ("s", all.iter().map(|x| x.1).collect()),
        ("r - s", all.iter().map(|x| x.0 - x.1).collect()),
        ("r + s", all.iter().map(|x| x.0 + x.1).collect()),
        ("r s", all.iter().map(|x| x.0 * x.1).collect()),
        ("s / r", all.iter().map(|x| x.1 * inv(x.0)).collect()),
        ("s - r^2", all.iter().map(|x| x.1 - x.0.square()).collect()),
        ("r - s^2", all.iter().map(|x| x.0 - x.1.square()).collect()),
        ("r - previous s", all.windows(2).map(|x| x[1].0 - x[0].1).collect()),
        ("r - previous r", all.windows(2).map(|x| x[1].0 - x[0].0).collect()),
        ("s - previous s", all.windows(2).map(|x| x[1].1 - x[0].1).collect()),
    ];
    for (n, v) in &rels {
        let set: HashSet<Vec<u8>> = v.iter().map(|x| x.to_repr().as_ref().to_vec()).collect();
        if min_bits > 0 {
            ensure!(set.len() == v.len(), "{} takes only {} values in {} proofs; {}", n, set.len(), v.len(), z.describe());
            let bits = |x: &F| digits(x, F::NUM_BITS as usize).iter().rposition(|b| *b).map(|i| i as u32 + 1).unwrap_or(0);
            let m = v.iter().map(|x| bits(x)).max().unwrap_or(0);
            ensure!(m >= min_bits, "{} has at most {} bits in {} proofs over a field of {} bits", n, m, v.len(), F::NUM_BITS);
        }
        c.count("relations_examined", 1);
    }
    c.count("random_proofs", proofs as u64);
    c.seen(z.hash());
    Ok(())
}
/// What the prover asks of a custom parameter source.
#[cfg(feature = "p25")]
fn requests(c: &mut Case) -> R {
    use super::source::*;
    type E = Dlog<F5_55>;
    let s = Spec::random(c, 5);
    let z = Circ::<F5_55>::random(c, &s);
    let k = Trap::random(c);
    let sys = z.sys();
    let q = Qap::new(&sys, k.tau);
    if !regular(&sys, &q, &k) {
        return Ok(());
    }
    let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
    let (r, s) = (rs(c), rs(c));
    let src = Src::<E>::new(&p);
    let log = src.log.clone();
    let pr = create_proof::<E, _, _>(z.clone(), src, r, s).map_err(|e| format!("proving from a custom source failed with {:?}; {}", e, z.describe()))?;
    c.ev(2);
    ensure!(proof_dlogs(&pr) == proof_oracle(&sys, &q, &k, &z.ws[0], r, s), "a proof from a custom source differs from its definition; {}", z.describe());
    let nz = |x: &[F5_55]| x.iter().filter(|x| !x.is_zero_vartime()).count();
    let mut want = vec![
        (0, sys.n_in, 0),
        (1, q.n - 1, 0),
        (2, sys.n_aux, 0),
        (3, sys.n_in, nz(&q.u[sys.n_in..])),
        (4, nz(&q.v[..sys.n_in]), nz(&q.v[sys.n_in..])),
        (5, nz(&q.v[..sys.n_in]), nz(&q.v[sys.n_in..])),
    ];
    let mut got = log.calls.lock().unwrap().clone();
    got.sort();
    got.dedup();
    want.sort();
    // a request that is not made (say, for a list that would be empty) is no matter: the proof is right
    ensure!(got.iter().all(|g| want.contains(g)), "requests (vk 0, h 1, l 2, a 3, b_g1 4, b_g2 5) to the parameter source are {:?}, expected {:?}; {}", got, want, z.describe());
    c.count("requests_compared", 6);
    c.seen(z.hash());
    Ok(())
}
pub fn c25(r: &Runner) -> &'static str {
    pools(r, "definition", 400, 4000);
    r.par("definition", 16000, 400000, |c| on_field!(c, c25_oracle, [F5_55, F5_55, BabyBear, F193, F257, F65537]));
    r.par("shapes", 1500, 20000, |c| {
        let i = c.idx as usize;
        let s = Spec { n_pub: i % 4, n_aux: i / 4 % 5, n_cons: i / 20 % 30, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c25_one::<F5_55>(c, &z, &k)
    });
    r.par("wide", 400, 8000, |c| {
        let s = wide(c);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c25_one::<F5_55>(c, &z, &k)
    });
    #[cfg(feature = "p25")]
    r.par("requests", 6000, 100000, requests);
    r.seq("vast", 4, 40, |c| {
        let s = vast(c);
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c25_one::<F5_55>(c, &z, &k)
    });
    r.seq("large", 6, 60, |c| {
        let n = (1i64 << (9 + c.below(4))) + *c.pick(&[-1i64, 0, 1]);
        let s = Spec { n_pub: 3, n_aux: c.below(n as u64) as usize, n_cons: (n - 4) as usize, witnesses: 1, plain: false };
        let z = Circ::<F5_55>::random(c, &s);
        let k = Trap::random(c);
        c25_one::<F5_55>(c, &z, &k)
    });
    r.par("bls12_381", 64, 800, |c| {
        let s = Spec { n_pub: c.below(3) as usize, n_aux: c.below(5) as usize, n_cons: c.below(8) as usize, witnesses: 1, plain: false };
        let z = Circ::<Scalar>::random(c, &s);
        let k = Trap::random(c);
        let sys = z.sys();
        let q = Qap::new(&sys, k.tau);
        let p = gen::<Bls12, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let (r, s) = (rs(c), rs(c));
        let pr = create_proof::<Bls12, _, _>(z.clone(), &p, r, s).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let want = proof_of::<Bls12>(&proof_oracle(&sys, &q, &k, &z.ws[0], r, s));
        c.ev(1);
        ensure!(pr == want, "proof differs from its definition on BLS12-381; r={:?} s={:?} {}", r, s, z.describe());
        c.count("bls_proofs", 1);
        c.seen(z.hash());
        Ok(())
    });
    // perfect zero knowledge: every proof from one witness is a proof from the other
    r.par("two_witnesses", 4000, 60000, |c| {
        type F = F5_55;
        let s = Spec { n_pub: c.below(4) as usize, n_aux: 1 + c.below(8) as usize, n_cons: 1 + c.below(12) as usize, witnesses: 2, plain: false };
        let z = Circ::<F>::random(c, &s);
        if z.ws[0] == z.ws[1] {
            return Ok(());
        }
        let k = Trap::random(c);
        let sys = z.sys();
        let q = Qap::new(&sys, k.tau);
        if !regular(&sys, &q, &k) {
            return Ok(());
        }
        ensure!(sys.violated(&z.ws[1]).is_none(), "harness: second witness wrong");
        let p = gen::<Dlog<F>, _>(z.with(None), &k).map_err(|e| format!("{:?}; {}", e, z.describe()))?;
        let (r, s) = (rs(c), rs(c));
        let p0 = create_proof::<Dlog<F>, _, _>(z.with(Some(0)), &p, r, s).map_err(|e| format!("{:?}", e))?;
        let (r2, s2) = recover_rs(&sys, &q, &k, &z.ws[1], &proof_dlogs(&p0));
        let p1 = create_proof::<Dlog<F>, _, _>(z.with(Some(1)), &p, r2, s2).map_err(|e| format!("{:?}", e))?;
        c.ev(1);
        c.count("witness_pairs", 1);
        ensure!(p0 == p1, "a proof from one witness is not a proof from the other for the matching r, s; {} {:?}", z.describe(), z.ws);
        c.seen(z.hash());
        Ok(())
    });
    r.seq("fresh_randomness", 12, 100, |c| c25_random_proofs::<F5_55>(c, 60, 50));
    r.seq("fresh_randomness_255_bits", 6, 60, |c| c25_random_proofs::<Scalar>(c, 40, 245));
    // uniformity over a small field
    r.seq("uniformity", 1, 6, |c| {
        type F = F193;
        let s = Spec { n_pub: 1, n_aux: 1, n_cons: 1, witnesses: 1, plain: true };
        let (z, k, sys, q) = loop {
            let z = Circ::<F>::random(c, &s);
            let k = Trap::random(c);
            let sys = z.sys();
            let q = Qap::new(&sys, k.tau);
            if regular(&sys, &q, &k) {
                break (z, k, sys, q);
            }
        };
        let p = gen::<Dlog<F>, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
        let n = 193 * 100;
        let mut hist = vec![vec![0u32; 193]; 4];
        for _ in 0..n {
            let pr = create_random_proof::<Dlog<F>, _, _, _>(z.clone(), &p, &mut c.rng).map_err(|e| format!("{:?}", e))?;
            let (r, s) = recover_rs(&sys, &q, &k, &z.ws[0], &proof_dlogs(&pr));
            for (h, x) in hist.iter_mut().zip([r, s, r - s, r + s + s]) {
                h[x.0 as usize] += 1;
            }
        }
        for (h, name) in hist.iter().zip(["r", "s", "r - s", "r + 2s"]) {
            let x: f64 = h.iter().map(|o| (*o as f64 - 100.0).powi(2) / 100.0).sum();
            // 192 degrees of freedom: mean 192, deviation 19.6; ten deviations
            c.ev(1);
            ensure!(x < 390.0, "{} is not uniform over the field: chi-square {:.0} with 192 degrees of freedom", name, x);
            c.max("chi_square", x as u64);
        }
        c.count("random_proofs", n);
        c.seen(z.hash());
        Ok(())
    });
    "proofs with chosen r, s compared element by element with their definition over discrete logarithms (and on BLS12-381), proofs from two witnesses of one statement mapped onto each other, r and s of random proofs recovered and examined for freshness, range, relations and uniformity; distinct = distinct (system, witness)"
}
