//! C27: workloads over every parallel entry point, to be run under ThreadSanitizer,
//! AddressSanitizer, MemorySanitizer and Miri. The sanitizer is the oracle; results are only
//! consumed (so that nothing is optimized away), other properties judge them.
#![allow(dead_code, unused_imports)]
use bellman::domain::{EvaluationDomain, Group as DomGroup, Point, Scalar as Sc};
use bellman::gadgets::test::TestConstraintSystem;
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, FullDensity, Source, SourceBuilder};
use bellman::{Circuit, ConstraintSystem, Index, SynthesisError, Variable};
use bls12_381::{Bls12, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::{Field, PrimeField, PrimeFieldBits};
use group::{Curve, Group, UncompressedEncoding};
use groth16::*;
use rand_core::{RngCore, SeedableRng};
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vh::circ::*;
use vh::engine::{Dlog, A1, A2, G1, G2};
use vh::sn::*;
use vh::*;

/// interpreted: everything small
const TINY: bool = cfg!(miri);

/// the usual field; a cheap one when interpreted
#[cfg(miri)]
type Few = F257;
#[cfg(not(miri))]
type Few = F5_55;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let r = Runner::from_args(&args);
    if !TINY {
        field::self_test();
    }
    // many callers at once share the global pool
    r.par("domains", if TINY { 3 } else { 1000 }, if TINY { 9 } else { 20000 }, |c| match c.below(4) {
        0 => domains::<F257, Sc<F257>>(c, Sc),
        1 => domains::<F5_55, Point<G1<F5_55>>>(c, |x| Point(G1(x))),
        2 if !TINY => domains::<Scalar, Sc<Scalar>>(c, Sc),
        _ => domains::<F5_55, Sc<F5_55>>(c, Sc),
    });
    r.par("multiexps", if TINY { 3 } else { 400 }, if TINY { 9 } else { 8000 }, |c| match c.below(3) {
        0 if !TINY => multiexps::<G1Projective>(c),
        1 => multiexps::<G1<F257>>(c),
        _ => multiexps::<G1<F5_55>>(c),
    });
    r.par("workers", if TINY { 4 } else { 800 }, if TINY { 12 } else { 16000 }, workers);
    r.par("proofs", if TINY { 2 } else { 150 }, if TINY { 6 } else { 3000 }, |c| match c.below(5) {
        0 if !TINY => proofs::<Bls12>(c),
        2 if !TINY => proofs::<Dlog<BabyBear>>(c),
        3 | 4 if !TINY => proofs::<Dlog<F5_55>>(c),
        _ => proofs::<Dlog<F257>>(c),
    });
    r.par("failures", if TINY { 1 } else { 500 }, if TINY { 6 } else { 10000 }, failures);
    r.par("misuse", if TINY { 3 } else { 2000 }, if TINY { 20 } else { 40000 }, misuse);
    r.par("batches", if TINY { 1 } else { 60 }, if TINY { 3 } else { 1200 }, |c| match c.below(4) {
        0 if !TINY => batches::<Bls12>(c),
        1 => batches::<Dlog<F257>>(c),
        _ => batches::<Dlog<Few>>(c),
    });
    r.par("streams", if TINY { 1 } else { 40 }, if TINY { 3 } else { 800 }, |c| match c.below(3) {
        0 if !TINY => streams::<Bls12>(c),
        _ => streams::<Dlog<F257>>(c),
    });
    r.par("systems", if TINY { 1 } else { 100 }, if TINY { 3 } else { 2000 }, systems);
    std::process::exit(r.finish(
        "transforms, multi-exponentiations, worker traffic (waited for, dropped, scopes), key generation, proving (failing half-way too), single and batch verification, byte streams (mutilated too) and the testing system, by several callers at once on a shared pool; a case is distinct when its shape and inputs differ",
    ));
}

/// elements of the pool the library works on
fn here<T: Send>(c: &mut Case, f: impl FnOnce(&mut Case) -> T + Send) -> T {
    #[cfg(feature = "multicore")]
    if !TINY && c.coin() {
        let n = *c.pick(&[1usize, 2, 3, 5, 8]);
        let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        c.count("own_pools", 1);
        return p.install(|| f(c));
    }
    f(c)
}

fn domains<F: FieldExt, G: DomGroup<F> + Send + Sync>(c: &mut Case, of: fn(F) -> G) -> R {
    here(c, |c| {
        let max = if TINY { 4 } else { 10 };
        let n = match c.below(3) {
            0 => c.below(9) as usize,
            1 => (1usize << c.below(max)) + c.below(3) as usize,
            _ => 1 + c.below(1 << max) as usize,
        };
        let v: Vec<G> = (0..n).map(|_| of(F::random(&mut c.rng))).collect();
        let w = Worker::new();
        let Ok(mut d) = EvaluationDomain::<F, G>::from_coeffs(v) else { return Ok(()) };
        let m = d.as_ref().len();
        let o: Vec<Sc<F>> = (0..m).map(|_| Sc(F::random(&mut c.rng))).collect();
        let o = EvaluationDomain::<F, Sc<F>>::from_coeffs(o).map_err(|e| format!("{:?}", e))?;
        let t: F = special(c);
        black_box(d.z(&t));
        for _ in 0..if TINY { 5 } else { 12 } {
            match c.below(8) {
                0 => d.fft(&w),
                1 => d.ifft(&w),
                2 => d.coset_fft(&w),
                3 => d.icoset_fft(&w),
                4 => d.distribute_powers(&w, t),
                5 => d.divide_by_z_on_coset(&w),
                6 => d.mul_assign(&w, &o),
                _ => {
                    let e = (0..m).map(|_| of(F::ONE)).collect::<Vec<_>>();
                    if let Ok(e) = EvaluationDomain::from_coeffs(e) {
                        d.sub_assign(&w, &e)
                    }
                }
            }
            c.ev(1);
        }
        c.count("domain_elements", m as u64);
        black_box(d.into_coeffs().len());
        c.seen(c.idx ^ (m as u64) << 32);
        c.sample(|| format!("domain of {} over {}", m, F::NAME));
        Ok(())
    })
}

fn multiexps<G>(c: &mut Case) -> R
where
    G: group::prime::PrimeCurve + Send + Sync + 'static,
    G::Affine: Send + Sync,
    G::Scalar: PrimeFieldBits,
    <G::Scalar as PrimeField>::Repr: Send + Sync,
{
    let n = match c.below(4) {
        0 => c.below(5),
        1 if !TINY => c.below(2000),
        _ => c.below(if TINY { 24 } else { 200 }),
    } as usize;
    let w = Worker::new();
    let full = c.coin();
    let mut d = DensityTracker::new();
    let mut dense = 0;
    for i in 0..n {
        d.add_element();
        if full || c.coin() {
            d.inc(i);
            dense += 1;
        }
    }
    let d = Arc::new(d);
    let g = G::generator();
    let mut acc = g;
    let mut bases: Vec<<G as Curve>::AffineRepr> = Vec::new();
    // too few bases now and then, an identity now and then
    let missing = if c.below(5) == 0 { 1 + c.below(3) as usize } else { 0 };
    for _ in 0..(if full { n } else { dense } + 5usize).saturating_sub(missing + 5) {
        bases.push(if c.below(300) == 0 { G::identity().to_affine() } else { acc.to_affine() });
        acc += g;
    }
    let skip = if missing == 0 { c.below(6) as usize } else { 0 };
    let mut all: Vec<_> = (0..skip).map(|_| g.to_affine()).collect();
    all.append(&mut bases);
    let e: Arc<Vec<_>> = Arc::new(
        (0..n)
            .map(|_| {
                let x: G::Scalar = match c.below(4) {
                    0 => G::Scalar::ZERO,
                    1 => G::Scalar::ONE,
                    _ => G::Scalar::random(&mut c.rng),
                };
                (&x).into()
            })
            .collect(),
    );
    let src = (Arc::new(all), skip);
    let k = 1 + c.below(3);
    let waiters: Vec<_> = (0..k)
        .map(|_| {
            if full {
                multiexp::<FullDensity, _, G, _>(&w, src.clone(), FullDensity, e.clone())
            } else {
                multiexp::<DensityTracker, _, G, _>(&w, src.clone(), d.clone(), e.clone())
            }
        })
        .collect();
    for x in waiters {
        c.ev(1);
        if c.below(8) == 0 {
            drop(x);
            c.count("dropped_waiters", 1);
        } else {
            match x.wait() {
                Ok(s) => {
                    black_box(s.to_affine());
                    c.count("sums", 1)
                }
                Err(_) => c.count("failing_sums", 1),
            }
        }
    }
    c.seen(c.idx ^ (n as u64) << 32);
    Ok(())
}

fn workers(c: &mut Case) -> R {
    let w = Worker::new();
    let n = c.below(if TINY { 6 } else { 40 });
    let hits = Arc::new(AtomicU64::new(0));
    let ws: Vec<_> = (0..n)
        .map(|i| {
            let h = hits.clone();
            w.compute(move || {
                h.fetch_add(1, Ordering::Relaxed);
                vec![i; 1 + (i as usize % 50)]
            })
        })
        .collect();
    for (i, x) in ws.into_iter().enumerate() {
        c.ev(1);
        if c.below(3) > 0 {
            let v = x.wait();
            ensure!(v.iter().all(|y| *y == i as u64), "mixed up");
        } else {
            drop(x)
        }
    }
    here(c, |c| {
        let n = c.below(if TINY { 30 } else { 3000 }) as usize;
        let mut v = vec![0u64; n];
        let k = c.rng.next_u64();
        Worker::new().scope(n, |s, chunk| {
            for (i, x) in v.chunks_mut(chunk).enumerate() {
                s.spawn(move |_| {
                    for (j, x) in x.iter_mut().enumerate() {
                        *x = k ^ (i * chunk + j) as u64;
                    }
                });
            }
        });
        c.ev(1);
        for (i, x) in v.iter().enumerate() {
            ensure!(*x == k ^ i as u64, "not written");
        }
        c.count("scoped_elements", n as u64);
        Ok(())
    })?;
    c.seen(c.idx ^ n << 40);
    Ok(())
}

fn spec(c: &mut Case) -> Spec {
    let mut s = Spec::random(c, if TINY { 3 } else { 6 });
    if TINY {
        s.n_pub = s.n_pub.min(2);
        s.n_aux = s.n_aux.min(4);
        s.n_cons = s.n_cons.min(4);
    }
    s
}
fn proofs<E: Eng>(c: &mut Case) -> R {
    let s = spec(c);
    let z = Circ::<E::F>::random(c, &s);
    let k = Trap::random(c);
    let Ok(p) = gen::<E, _>(z.with(None), &k) else { return Ok(()) };
    c.ev(1);
    let Ok(pr) = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng) else { return Ok(()) };
    c.ev(1);
    c.count("proofs", 1);
    let pvk = prepare_verifying_key(&p.vk);
    black_box(verify_proof(&pvk, &pr, &z.pubs()).is_ok());
    let bad: Vec<E::F> = z.pubs().iter().map(|x| *x + E::F::ONE).collect();
    black_box(verify_proof(&pvk, &pr, &bad).is_ok());
    c.ev(2);
    c.seen(z.hash());
    c.sample(|| z.describe());
    Ok(())
}

/// Stops synthesis after some constraints, or hands out missing parameters.
struct Stop<C>(C, u64);
impl<F: PrimeField, C: Circuit<F>> Circuit<F> for Stop<C> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        for i in 0..self.1 {
            cs.alloc(|| "x", || if i + 1 == self.1 { Err(SynthesisError::Unsatisfiable) } else { Ok(F::ONE) })?;
        }
        self.0.synthesize(cs)
    }
}
fn failures(c: &mut Case) -> R {
    type E = Dlog<Few>;
    let s = spec(c);
    let z = Circ::<Few>::random(c, &s);
    let k = Trap::random(c);
    let Ok(p) = gen::<E, _>(z.with(None), &k) else { return Ok(()) };
    let mut q = p.clone();
    let cut = |v: &mut Arc<Vec<A1<Few>>>, c: &mut Case| {
        let n = v.len();
        Arc::make_mut(v).truncate(c.below(n as u64 + 1) as usize)
    };
    match c.below(6) {
        0 => cut(&mut q.h, c),
        1 => cut(&mut q.l, c),
        2 => cut(&mut q.a, c),
        3 => cut(&mut q.b_g1, c),
        4 => {
            let n = q.b_g2.len();
            Arc::make_mut(&mut q.b_g2).truncate(c.below(n as u64 + 1) as usize)
        }
        _ => {
            for x in Arc::make_mut(&mut q.a).iter_mut().chain(Arc::make_mut(&mut q.l)) {
                if c.rng.next_u32() % 7 == 0 {
                    *x = A1(Few::ZERO)
                }
            }
        }
    }
    for _ in 0..if TINY { 2 } else { 4 } {
        c.ev(1);
        match create_random_proof::<E, _, _, _>(z.clone(), &q, &mut c.rng) {
            Ok(_) => c.count("damage_not_used", 1),
            Err(_) => c.count("failed_proofs", 1),
        }
    }
    let n = 1 + c.below(5);
    ensure!(create_random_proof::<E, _, _, _>(Stop(z.clone(), n), &p, &mut c.rng).is_err(), "no error");
    black_box(create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng).is_ok());
    c.ev(2);
    c.seen(z.hash());
    Ok(())
}

/// A circuit that mentions a variable that was never allocated.
#[derive(Clone)]
struct Stray<C>(C, usize, usize, bool, bool);
impl<F: PrimeField, C: Circuit<F>> Circuit<F> for Stray<C> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let Stray(inner, at, side, aux, zero) = self;
        inner.synthesize(cs)?;
        let v = Variable::new_unchecked(if aux { Index::Aux(at) } else { Index::Input(at) });
        let k = if zero { F::ZERO } else { F::from(3) };
        cs.enforce(
            || "stray",
            |lc| if side == 0 { lc + (k, v) } else { lc + CS::one() },
            |lc| if side == 1 { lc + (k, v) } else { lc + CS::one() },
            |lc| if side == 2 { lc + (k, v) } else { lc },
        );
        Ok(())
    }
}
/// What safe code can ask for although it makes no sense: the answer may be a panic or an
/// error, but never an access outside of an allocation.
fn misuse(c: &mut Case) -> R {
    type F = Few;
    type E = Dlog<F>;
    let far = |c: &mut Case, n: usize| -> usize {
        match c.below(8) {
            0 | 1 => n,
            2 => n + 1,
            3 => n + 2 + c.below(30) as usize,
            4 => n + 1000 + c.below(100000) as usize,
            5 => 1 << 40,
            6 => (isize::MAX as usize) / 8,
            _ => usize::MAX - c.below(2) as usize,
        }
    };
    let mut answer = |c: &mut Case, what: &str, a: Result<bool, String>| {
        c.ev(1);
        c.count(if a.is_err() { "misuse_panics" } else { "misuse_answers" }, 1);
        c.seen(hash_bytes(what.as_bytes()) ^ c.idx << 20);
        c.sample(|| format!("{}: {:?}", what, a.as_ref().map_err(|e| e.chars().take(90).collect::<String>())));
    };
    match c.below(7) {
        0 | 1 => {
            let s = spec(c);
            let z = Circ::<F>::random(c, &s);
            let k = Trap::random(c);
            let Ok(p) = gen::<E, _>(z.with(None), &k) else { return Ok(()) };
            let aux = c.coin();
            let n = if aux { z.n_aux } else { z.n_in };
            let st = Stray(z.clone(), far(c, n), c.below(3) as usize, aux, c.below(3) == 0);
            let what = format!("{} variable {} of {} on side {}", if aux { "aux" } else { "input" }, st.1, n, st.2);
            let mut rng = rand_chacha::ChaCha8Rng::from_seed([c.below(256) as u8; 32]);
            let a = guarded(|| create_random_proof::<E, _, _, _>(st.clone(), &p, &mut rng).is_ok());
            answer(c, &format!("proving with {}", what), a);
            let w = Stray(z.with(None), st.1, st.2, st.3, st.4);
            // a key generator may well allocate room for what it is told about
            if st.1 < 1 << 20 {
                let a = guarded(|| gen::<E, _>(w.clone(), &k).is_ok());
                answer(c, &format!("key for {}", what), a);
            }
            let a = guarded(|| {
                let mut cs = TestConstraintSystem::<F>::new();
                st.clone().synthesize(&mut cs).is_ok() && cs.is_satisfied()
            });
            answer(c, &format!("testing {}", what), a);
        }
        2 => {
            let mut t = DensityTracker::new();
            let n = c.below(140) as usize;
            for _ in 0..n {
                t.add_element();
            }
            let at = far(c, n);
            let a = guarded(|| {
                t.inc(at);
                t.get_total_density() == n
            });
            answer(c, &format!("density {} of {}", at, n), a);
        }
        3 => {
            let (n, m) = (1usize << c.below(6), 1usize << c.below(6));
            let of = |c: &mut Case, n: usize| EvaluationDomain::<F, Sc<F>>::from_coeffs((0..n).map(|_| Sc(F::random(&mut c.rng))).collect());
            let (Ok(mut a), Ok(b)) = (of(c, n), of(c, m)) else { return Ok(()) };
            let w = Worker::new();
            let sub = c.coin();
            let r = guarded(|| {
                if sub { a.sub_assign(&w, &b) } else { a.mul_assign(&w, &b) }
                a.as_ref().len() == n
            });
            answer(c, &format!("{} values with {}", n, m), r);
        }
        4 => {
            let n = c.below(20) as usize;
            let m = far(c, n).min(1 << 12);
            let mut t = DensityTracker::new();
            for i in 0..m {
                t.add_element();
                if c.coin() {
                    t.inc(i);
                }
            }
            let exps = Arc::new((0..n).map(|_| F::random(&mut c.rng).into()).collect::<Vec<_>>());
            let bases = Arc::new((0..c.below(30)).map(|_| A1(F::random(&mut c.rng))).collect::<Vec<_>>());
            let off = if c.coin() { far(c, bases.len()) } else { 0 };
            let w = Worker::new();
            let full = c.coin();
            let r = guarded(|| {
                if full {
                    multiexp::<_, _, G1<F>, _>(&w, (bases, off), FullDensity, exps).wait().is_ok()
                } else {
                    multiexp::<_, _, G1<F>, _>(&w, (bases, off), Arc::new(t), exps).wait().is_ok()
                }
            });
            answer(c, &format!("{} exponents, {} densities, offset {}", n, m, off), r);
        }
        5 => {
            let bases = Arc::new((0..c.below(30)).map(|_| A1(F::random(&mut c.rng))).collect::<Vec<_>>());
            let n = bases.len();
            let off = far(c, n);
            let mut s = (bases, off).build();
            let amts: Vec<usize> = (0..4).map(|_| far(c, n)).collect();
            let r = guarded(|| amts.iter().all(|a| { black_box(s.next().is_ok()); s.skip(*a).is_ok() }));
            answer(c, &format!("{} bases from {} skipping {:?}", n, off, amts), r);
        }
        _ => {
            let s = spec(c);
            let z = Circ::<F>::random(c, &s);
            let k = Trap::random(c);
            let Ok(mut p) = gen::<E, _>(z.with(None), &k) else { return Ok(()) };
            let Ok(pr) = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng) else { return Ok(()) };
            let n = p.vk.ic.len();
            let keep = c.below(n as u64 + 1) as usize;
            p.vk.ic.truncate(keep);
            let m = *c.pick(&[0usize, keep, n, keep.wrapping_sub(1), n + 40]) % 4096;
            let x: Vec<F> = (0..m).map(|_| F::random(&mut c.rng)).collect();
            let pvk = prepare_verifying_key(&p.vk);
            let r = guarded(|| verify_proof(&pvk, &pr, &x).is_ok());
            answer(c, &format!("{} inputs for a key of {}", m, keep), r);
            let mut rng = rand_chacha::ChaCha20Rng::from_seed([c.below(256) as u8; 32]);
            let items = c.below(4);
            let r = guarded(|| {
                let mut v = batch::Verifier::<E>::new();
                for _ in 0..items {
                    v.queue((pr.clone(), x.clone()));
                }
                v.verify(&mut rng, &p.vk).is_ok()
            });
            answer(c, &format!("batch of {} with {} inputs for a key of {}", items, m, keep), r);
        }
    }
    Ok(())
}

fn batches<E: Eng>(c: &mut Case) -> R {
    let s = spec(c);
    let z = Circ::<E::F>::random(c, &s);
    let k = Trap::random(c);
    let Ok(p) = gen::<E, _>(z.with(None), &k) else { return Ok(()) };
    let Ok(pr) = create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng) else { return Ok(()) };
    let m = c.below(if TINY { 4 } else { 20 });
    let batch = |c: &mut Case| {
        let mut v = batch::Verifier::<E>::new();
        for _ in 0..m {
            let mut i = z.pubs();
            if c.below(20) == 0 {
                i.push(E::F::ONE);
            }
            v.queue((pr.clone(), i));
        }
        v
    };
    black_box(batch(c).verify(&mut c.rng, &p.vk).is_ok());
    #[cfg(feature = "g16multicore")]
    for _ in 0..2 {
        let b = batch(c);
        black_box(b.verify_multicore(&p.vk).is_ok());
        c.count("multicore_batches", 1);
        c.ev(1);
    }
    c.ev(1);
    c.count("batched_proofs", 2 * m);
    c.seen(z.hash() ^ m);
    Ok(())
}

fn streams<E: Eng>(c: &mut Case) -> R {
    let n = c.below(if TINY { 3 } else { 6 }) as usize;
    let (g1, g2) = (E::g1(nonzero(&mut c.rng)), E::g2(nonzero(&mut c.rng)));
    let pr = Proof::<E> { a: g1, b: g2, c: g1 };
    let p = Parameters::<E> {
        vk: VerifyingKey { alpha_g1: g1, beta_g1: g1, beta_g2: g2, gamma_g2: g2, delta_g1: g1, delta_g2: g2, ic: vec![g1; n + 1] },
        h: Arc::new(vec![g1; n]),
        l: Arc::new(vec![g1; n]),
        a: Arc::new(vec![g1; n]),
        b_g1: Arc::new(vec![g1; n]),
        b_g2: Arc::new(vec![g2; n]),
    };
    let mut small = vec![];
    pr.write(&mut small).map_err(|e| e.to_string())?;
    let mut b = vec![];
    p.write(&mut b).map_err(|e| e.to_string())?;
    black_box(Proof::<E>::read(&small[..]).is_ok());
    black_box(Parameters::<E>::read(&b[..], c.coin()).is_ok());
    black_box(PreparedCheck::<E>::of(&p.vk));
    c.ev(3);
    let (e1, e2) = (g1.to_uncompressed().as_ref().len(), g2.to_uncompressed().as_ref().len());
    for _ in 0..if TINY { 4 } else { 20 } {
        let mut d = b.clone();
        match c.below(4) {
            0 => d.truncate(c.below(b.len() as u64) as usize),
            1 => {
                let i = c.below(b.len() as u64) as usize;
                d[i] ^= 1 << c.below(8)
            }
            2 => {
                let mut d = small.clone();
                let i = c.below(d.len() as u64) as usize;
                d[i] ^= 1 << c.below(8);
                d.truncate(c.below(d.len() as u64 * 2) as usize);
                black_box(Proof::<E>::read(&d[..]).is_ok());
            }
            _ => {
                // the number of elements of ic or of the vectors
                let at = [3 * e1 + 3 * e2, 3 * e1 + 3 * e2 + 4 + (n + 1) * e1][c.below(2) as usize];
                let claim = c.rng.next_u32() >> c.below(32);
                d[at..at + 4].copy_from_slice(&claim.to_be_bytes())
            }
        }
        let checked = c.coin();
        black_box(Parameters::<E>::read(&d[..], checked).is_ok());
        c.ev(1);
    }
    c.count("streams", 1);
    c.seen(c.idx ^ (n as u64) << 32);
    Ok(())
}
struct PreparedCheck<E>(std::marker::PhantomData<E>);
impl<E: Eng> PreparedCheck<E> {
    fn of(vk: &VerifyingKey<E>) -> bool {
        let p = prepare_verifying_key(vk);
        let x = vec![E::F::ONE; vk.ic.len() - 1];
        verify_proof(&p, &Proof { a: vk.alpha_g1, b: vk.beta_g2, c: vk.delta_g1 }, &x).is_ok()
    }
}

fn systems(c: &mut Case) -> R {
    let s = spec(c);
    let z = Circ::<F5_55>::random(c, &s);
    let mut cs = TestConstraintSystem::<F5_55>::new();
    z.clone().synthesize(&mut cs).map_err(|e| format!("{:?}", e))?;
    black_box((cs.is_satisfied(), cs.pretty_print().len(), cs.num_constraints()));
    c.ev(1);
    c.seen(z.hash());
    Ok(())
}
