//! Checks C14..C17: evaluation domains, multi-exponentiation, the worker, determinism.
#![allow(dead_code, unused_imports, unused_macros)]
use bellman::domain::{EvaluationDomain, Group as DomGroup, Point, Scalar as Sc};
use bellman::multicore::{Waiter, Worker};
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity, Source, SourceBuilder};
use bellman::SynthesisError;
use bls12_381::{Bls12, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::{Field, PrimeField, PrimeFieldBits};
use group::prime::{PrimeCurve, PrimeCurveAffine};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use rand_core::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashMap};
use std::io;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::Duration;
use vh::circ::*;
use vh::engine::{Dlog, A1, A2, G1, G2};
use vh::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s == "--child").unwrap_or(false) {
        match args[1].as_str() {
            #[cfg(feature = "p16")]
            "storm" => c16::storm_child(&args[2..]),
            #[cfg(feature = "p17")]
            "digest" => c17::digest_child(&args[2..]),
            x => panic!("unknown child {}", x),
        }
        return;
    }
    let r = Runner::from_args(&args);
    field::self_test();
    let rule = match r.prop.as_str() {
        #[cfg(feature = "p14")]
        "C14" => c14::run(&r),
        #[cfg(feature = "p15")]
        "C15" => c15::run(&r),
        #[cfg(feature = "p16")]
        "C16" => c16::run(&r),
        #[cfg(feature = "p17")]
        "C17" => c17::run(&r),
        x => panic!("unknown property {}", x),
    };
    std::process::exit(r.finish(rule));
}

macro_rules! on_field {
    ($c:expr, $body:ident, [$($t:ty),*]) => {{
        let fs: Vec<fn(&mut Case) -> R> = vec![$($body::<$t>),*];
        let k = $c.below(fs.len() as u64) as usize;
        fs[k]($c)
    }};
}

/// Runs `f` on a pool with the given number of threads (what the library sees as its thread count).
#[cfg(feature = "multicore")]
fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::sync::OnceLock;
    static POOLS: OnceLock<Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let p = {
        let mut m = POOLS.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
        m.entry(n)
            .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(4 << 20).build().unwrap()))
            .clone()
    };
    p.install(f)
}
#[cfg(not(feature = "multicore"))]
fn with_threads<T: Send>(_n: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}
const THREADS: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 16, 32];

// ================================================================ C14
#[cfg(feature = "p14")]
mod c14 {
    use super::*;

    /// An element type of a domain together with its discrete logarithm.
    pub trait El<F: FieldExt>: DomGroup<F> + PartialEq + Send + Sync + 'static {
        const NAME: &'static str;
        fn of(x: F) -> Self;
        /// equals the element with discrete logarithm x
        fn is(&self, x: F) -> bool;
    }
    impl<F: FieldExt> El<F> for Sc<F> {
        const NAME: &'static str = "scalar";
        fn of(x: F) -> Self {
            Sc(x)
        }
        fn is(&self, x: F) -> bool {
            self.0 == x
        }
    }
    impl<F: FieldExt> El<F> for Point<G1<F>> {
        const NAME: &'static str = "transparent point";
        fn of(x: F) -> Self {
            Point(G1(x))
        }
        fn is(&self, x: F) -> bool {
            self.0 .0 == x
        }
    }
    /// A real curve point as a domain element (the library's `Point` wants cofactor curves).
    pub struct Cp<G>(G);
    impl<G: Copy> Clone for Cp<G> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<G: Copy> Copy for Cp<G> {}
    impl<G: PartialEq> PartialEq for Cp<G> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<G: PrimeCurve + Group<Scalar = Scalar>> DomGroup<Scalar> for Cp<G> {
        fn group_zero() -> Self {
            Cp(G::identity())
        }
        fn group_mul_assign(&mut self, by: &Scalar) {
            self.0 *= by
        }
        fn group_add_assign(&mut self, o: &Self) {
            self.0 += o.0
        }
        fn group_sub_assign(&mut self, o: &Self) {
            self.0 -= o.0
        }
    }
    impl<G: PrimeCurve + Group<Scalar = Scalar>> El<Scalar> for Cp<G> {
        const NAME: &'static str = "BLS12-381 point";
        fn of(x: Scalar) -> Self {
            Cp(G::generator() * x)
        }
        fn is(&self, x: Scalar) -> bool {
            self.0 == G::generator() * x
        }
    }

    fn horner<F: FieldExt>(a: &[F], x: F) -> F {
        a.iter().rev().fold(F::ZERO, |s, v| s * x + v)
    }
    /// all evaluations of a at the powers of w, straight from the definition
    fn eval_all<F: FieldExt>(a: &[F], w: F) -> Vec<F> {
        let mut x = F::ONE;
        let mut o = Vec::with_capacity(a.len());
        for _ in 0..a.len() {
            o.push(horner(a, x));
            x *= w;
        }
        o
    }
    /// the polynomial with evaluations e at the powers of w: c_i = 1/n sum e_k w^{-ik}
    fn interpolate<F: FieldExt>(e: &[F], w: F) -> Vec<F> {
        let wi = w.invert().unwrap();
        let ni = F::from(e.len() as u64).invert().unwrap();
        eval_all(e, wi).into_iter().map(|x| x * ni).collect()
    }
    fn scale<F: FieldExt>(a: &mut [F], g: F) {
        let mut p = F::ONE;
        for v in a.iter_mut() {
            *v *= p;
            p *= g;
        }
    }
    /// The primitive root the library works with: what the transform of X evaluates to at 1.
    fn root<F: FieldExt>(n: usize) -> R<F> {
        if n == 1 {
            return Ok(F::ONE);
        }
        let mut v = vec![Sc(F::ZERO); n];
        v[1] = Sc(F::ONE);
        let mut d = EvaluationDomain::<F, Sc<F>>::from_coeffs(v).map_err(|e| format!("{:?}", e))?;
        d.fft(&Worker::new());
        let w = d.as_ref()[1].0;
        let half = w.pow_vartime([n as u64 / 2]);
        ensure!(half == -F::ONE, "the transform of X at size {} does not step by a primitive root: {:?}", n, w);
        Ok(w)
    }
    fn max_ok<F: FieldExt>() -> usize {
        // beyond this the library may refuse; beyond twice this it must
        1usize << (F::S - 1).min(40)
    }
    fn vals<F: FieldExt>(c: &mut Case, n: usize) -> Vec<F> {
        let p = c.below(6);
        (0..n)
            .map(|i| match p {
                0 => special(c),
                1 => F::from((i == 0) as u64),
                2 => F::from((i + 1 == n) as u64),
                _ => F::random(&mut c.rng),
            })
            .collect()
    }

    /// A history of operations on the real domain against the polynomial model.
    fn history<F: FieldExt, T: El<F>>(c: &mut Case, len: usize, steps: usize) -> R {
        let vs: Vec<F> = vals(c, len);
        let threads = *c.pick(THREADS);
        let made = EvaluationDomain::<F, T>::from_coeffs(vs.iter().map(|x| T::of(*x)).collect());
        let n = 1usize << domain_log(len);
        c.ev(1);
        let mut d = match made {
            Ok(d) => d,
            Err(SynthesisError::PolynomialDegreeTooLarge) if n > max_ok::<F>() => {
                c.count("refused_domains", 1);
                c.seen(mix(len as u64, 0xdead) ^ hash_bytes(F::NAME.as_bytes()));
                return Ok(());
            }
            Err(e) => fail!("{} {}: length {} refused with {:?}", F::NAME, T::NAME, len, e),
        };
        ensure!((n as u128) <= 1u128 << F::S, "{}: length {} accepted, but the field has no root of unity of order {}", F::NAME, len, n);
        let mut m = vs;
        m.resize(n, F::ZERO);
        let w = root::<F>(n)?;
        let g = F::MULTIPLICATIVE_GENERATOR;
        let mut log = format!("{} {} len {} threads {}:", F::NAME, T::NAME, len, threads);
        let wk = Worker::new();
        let mut shape = vec![hash_bytes(F::NAME.as_bytes()), hash_bytes(T::NAME.as_bytes()), len as u64, threads as u64];
        for _ in 0..steps {
            let op = c.below(12);
            shape.push(op);
            match op {
                0 => {
                    log += " fft";
                    with_threads(threads, || d.fft(&wk));
                    m = eval_all(&m, w);
                }
                1 => {
                    log += " ifft";
                    with_threads(threads, || d.ifft(&wk));
                    m = interpolate(&m, w);
                }
                2 => {
                    log += " coset_fft";
                    with_threads(threads, || d.coset_fft(&wk));
                    scale(&mut m, g);
                    m = eval_all(&m, w);
                }
                3 => {
                    log += " icoset_fft";
                    with_threads(threads, || d.icoset_fft(&wk));
                    m = interpolate(&m, w);
                    scale(&mut m, g.invert().unwrap());
                }
                4 => {
                    let x = special::<F>(c);
                    log += &format!(" distribute({:?})", x);
                    with_threads(threads, || d.distribute_powers(&wk, x));
                    scale(&mut m, x);
                }
                5 | 6 => {
                    log += " mul";
                    let o: Vec<F> = vals(c, len);
                    let od = EvaluationDomain::<F, Sc<F>>::from_coeffs(o.iter().map(|x| Sc(*x)).collect()).map_err(|e| format!("{:?}", e))?;
                    with_threads(threads, || d.mul_assign(&wk, &od));
                    for (i, v) in m.iter_mut().enumerate() {
                        *v *= o.get(i).copied().unwrap_or(F::ZERO);
                    }
                    for (i, v) in od.as_ref().iter().enumerate() {
                        ensure!(v.0 == o.get(i).copied().unwrap_or(F::ZERO), "mul_assign changed its other operand; {}", log);
                    }
                }
                7 | 8 => {
                    log += " sub";
                    let o: Vec<F> = vals(c, len);
                    let od = EvaluationDomain::<F, T>::from_coeffs(o.iter().map(|x| T::of(*x)).collect()).map_err(|e| format!("{:?}", e))?;
                    with_threads(threads, || d.sub_assign(&wk, &od));
                    for (i, v) in m.iter_mut().enumerate() {
                        *v -= o.get(i).copied().unwrap_or(F::ZERO);
                    }
                }
                9 => {
                    log += " divide_by_z";
                    let z = g.pow_vartime([n as u64]) - F::ONE;
                    with_threads(threads, || d.divide_by_z_on_coset(&wk));
                    let zi = z.invert().unwrap();
                    for v in m.iter_mut() {
                        *v *= zi;
                    }
                }
                10 => {
                    let tau: F = special(c);
                    log += &format!(" z({:?})", tau);
                    // the product over the domain, straight from the definition
                    let mut p = F::ONE;
                    let mut x = F::ONE;
                    for _ in 0..n {
                        p *= tau - x;
                        x *= w;
                    }
                    ensure!(d.z(&tau) == p, "vanishing polynomial wrong: {:?}, expected {:?}; {}", d.z(&tau), p, log);
                }
                _ => {
                    // write through the mutable view
                    let i = c.below(n as u64) as usize;
                    let x: F = special(c);
                    log += &format!(" [{}]={:?}", i, x);
                    d.as_mut()[i] = T::of(x);
                    m[i] = x;
                }
            }
            c.ev(n as u64);
            ensure!(d.as_ref().len() == n, "size became {} instead of {}; {}", d.as_ref().len(), n, log);
            for (i, v) in d.as_ref().iter().enumerate() {
                ensure!(v.is(m[i]), "element {} is not {:?} after: {}", i, m[i], log);
            }
        }
        let co = d.into_coeffs();
        ensure!(co.len() == n && co.iter().zip(&m).all(|(a, b)| a.is(*b)), "into_coeffs differs; {}", log);
        c.max("largest_domain", n as u64);
        c.count("operations", steps as u64);
        c.seen(shape.iter().fold(7, |a, b| mix(a, *b)));
        c.sample(|| log.clone());
        Ok(())
    }

    /// Large domains: linear-time definition checks at sampled points, undo checks on all.
    fn large<F: FieldExt>(c: &mut Case, log_min: u64, log_max: u64) -> R {
        let l = log_min + c.below(log_max - log_min + 1);
        let n0 = 1u64 << l;
        let len = (n0 as i64 + *c.pick(&[-5i64, -1, 0, 0]) - if c.below(3) == 0 { c.below(n0 / 2 - 6) as i64 } else { 0 }) as usize;
        if n0 as usize > max_ok::<F>() {
            return Ok(());
        }
        let threads = *c.pick(THREADS);
        let n = 1usize << domain_log(len);
        let vs: Vec<F> = (0..len).map(|_| F::random(&mut c.rng)).collect();
        let wk = Worker::new();
        let w = root::<F>(n)?;
        let coset = c.coin();
        let what = format!("{} len {} threads {} coset {}", F::NAME, len, threads, coset);
        let mut d = EvaluationDomain::<F, Sc<F>>::from_coeffs(vs.iter().map(|x| Sc(*x)).collect()).map_err(|e| format!("refused: {:?}; {}", e, what))?;
        with_threads(threads, || if coset { d.coset_fft(&wk) } else { d.fft(&wk) });
        let g = if coset { F::MULTIPLICATIVE_GENERATOR } else { F::ONE };
        let mut points: Vec<usize> = vec![0, 1, 2, n / 2, n - 1, n / 3, 5 % n];
        for _ in 0..8 {
            points.push(c.below(n as u64) as usize);
        }
        for k in points {
            let e = horner(&vs, g * w.pow_vartime([k as u64]));
            c.ev(1);
            ensure!(d.as_ref()[k].0 == e, "value {} of the transform is {:?}, expected {:?}; {}", k, d.as_ref()[k].0, e, what);
        }
        // every output, through a random linear functional: sum_k y^k A(g w^k)
        //   = sum_i a_i g^i (y^n - 1) / (y w^i - 1)  (since w^n = 1)
        let y: F = nonzero(&mut c.rng);
        let lhs = horner(&d.as_ref().iter().map(|x| x.0).collect::<Vec<_>>(), y);
        let yn = y.pow_vartime([n as u64]) - F::ONE;
        let (mut rhs, mut gp, mut p) = (F::ZERO, F::ONE, y);
        let mut usable = !yn.is_zero_vartime();
        for a in &vs {
            let den = p - F::ONE;
            if den.is_zero_vartime() {
                usable = false;
                break;
            }
            rhs += *a * gp * yn * den.invert().unwrap();
            gp *= g;
            p *= w;
        }
        if usable {
            c.ev(1);
            c.count("whole_output_checks", 1);
            ensure!(lhs == rhs, "a linear combination of all outputs of the transform is wrong; {}", what);
        }
        with_threads(threads, || if coset { d.icoset_fft(&wk) } else { d.ifft(&wk) });
        for (i, v) in d.as_ref().iter().enumerate() {
            ensure!(v.0 == vs.get(i).copied().unwrap_or(F::ZERO), "inverse does not undo at {}; {}", i, what);
        }
        c.ev(n as u64);
        c.max("largest_domain", n as u64);
        c.seen(mix(mix(len as u64, threads as u64), hash_bytes(what.as_bytes())));
        c.sample(|| what.clone());
        Ok(())
    }

    /// Lengths at and beyond the two-adicity of the field.
    fn limits<F: FieldExt>(c: &mut Case) -> R {
        let top = 1u128 << F::S;
        if top > 1 << 18 {
            return Ok(());
        }
        let top = top as usize;
        for len in [0, 1, top / 4 + 1, top / 2, top / 2 + 1, top - 1, top, top + 1, top * 2, top * 2 + 1, top * 4] {
            let r = EvaluationDomain::<F, Sc<F>>::from_coeffs(vec![Sc(F::ONE); len]);
            c.ev(1);
            c.seen(mix(len as u64, hash_bytes(F::NAME.as_bytes())));
            match r {
                Ok(d) => {
                    ensure!(len <= top, "{}: {} coefficients accepted, but the largest domain is {}", F::NAME, len, top);
                    ensure!(d.as_ref().len() == 1 << domain_log(len), "{}: {} coefficients padded to {}", F::NAME, len, d.as_ref().len());
                }
                Err(SynthesisError::PolynomialDegreeTooLarge) => {
                    c.count("refused_domains", 1);
                    ensure!((1usize << domain_log(len)) > max_ok::<F>(), "{}: {} coefficients refused", F::NAME, len);
                }
                Err(e) => fail!("{}: {} coefficients gave {:?}", F::NAME, len, e),
            }
        }
        Ok(())
    }
    fn any_history<F: FieldExt>(c: &mut Case) -> R {
        let cap = max_ok::<F>().min(if c.below(12) == 0 { 512 } else { 128 });
        let len = match c.below(4) {
            0 => c.below(cap as u64 + 1) as usize,
            1 => (1usize << c.below(domain_log(cap) as u64 + 1)) + c.below(3) as usize,
            2 => (1usize << c.below(domain_log(cap) as u64 + 1)).saturating_sub(c.below(2) as usize),
            _ => c.below(20) as usize,
        };
        let len = len.min(2 * cap);
        let steps = 1 + c.below(10) as usize;
        if c.below(3) == 0 {
            history::<F, Point<G1<F>>>(c, len, steps)
        } else {
            history::<F, Sc<F>>(c, len, steps)
        }
    }

    pub fn run(r: &Runner) -> &'static str {
        r.par("histories", 30000, 900000, |c| on_field!(c, any_history, [F5, F7, F13, F17, F97, F193, F257, F65537, BabyBear, Gold, F5_55, M31, Scalar]));
        r.par("every_length", 1300, 1300, |c| {
            // every length in order, on one field, every thread count drawn
            let len = c.idx as usize;
            let steps = 4 + c.below(4) as usize;
            history::<BabyBear, Sc<BabyBear>>(c, len, steps)
        });
        r.par("curve_points", 60, 1500, |c| {
            let len = c.below(if c.thorough { 40 } else { 20 }) as usize;
            let steps = 1 + c.below(4) as usize;
            if c.coin() {
                history::<Scalar, Cp<G1Projective>>(c, len, steps)
            } else {
                history::<Scalar, Cp<G2Projective>>(c, len / 2, steps)
            }
        });
        r.seq("large", 60, 500, |c| {
            let m = if c.thorough { 19 } else { 15 };
            match c.below(4) {
                0 => large::<Scalar>(c, 9, m.min(16)),
                1 => large::<BabyBear>(c, 9, m),
                2 => large::<Gold>(c, 9, m),
                _ => large::<F65537>(c, 9, 15),
            }
        });
        r.seq("vast", 5, 40, |c| {
            let m = if c.thorough { 20 } else { 18 };
            match c.idx % 3 {
                0 => large::<BabyBear>(c, 17, m),
                1 => large::<Gold>(c, 17, m),
                _ => large::<Scalar>(c, 17, 17),
            }
        });
        r.seq("limits", 8, 8, |c| {
            match c.idx {
                0 => limits::<F5>(c),
                1 => limits::<F7>(c),
                2 => limits::<F13>(c),
                3 => limits::<F17>(c),
                4 => limits::<F97>(c),
                5 => limits::<F193>(c),
                6 => limits::<F257>(c),
                _ => {
                    limits::<M31>(c)?;
                    limits::<M61>(c)?;
                    limits::<F65537>(c)
                }
            }
        });
        "histories of operations on evaluation domains (scalars, transparent points, BLS12-381 points) compared element by element after every operation with direct polynomial evaluation and interpolation, on pools of 1..32 threads; large domains by sampled evaluation and a random linear functional of all outputs; lengths around each field's two-adicity; distinct = distinct (field, element type, length, thread count, operation sequence)"
    }
}

// ================================================================ C15
#[cfg(feature = "p15")]
mod c15 {
    use super::*;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fault {
        Eof,
        Identity,
        Custom(usize),
    }
    /// A base source that is not a vector: bases are computed on the fly, faults are injected,
    /// every built reader's walk is recorded.
    #[derive(Clone)]
    pub struct Made<G: PrimeCurveAffine> {
        bases: Arc<Vec<G>>,
        at: usize,
        bad: Option<usize>,
        walks: Arc<Mutex<Vec<(u64, u64, u64)>>>,
    }
    pub struct Walk<G: PrimeCurveAffine> {
        m: Made<G>,
        cur: G,
        nexts: u64,
        skips: u64,
        failed: u64,
    }
    impl<G: PrimeCurveAffine> Drop for Walk<G> {
        fn drop(&mut self) {
            self.m.walks.lock().unwrap().push((self.nexts, self.skips, self.failed));
        }
    }
    impl<G: PrimeCurveAffine> SourceBuilder<G> for Made<G> {
        type Source = Walk<G>;
        fn build(self) -> Walk<G> {
            Walk { m: self, cur: G::identity(), nexts: 0, skips: 0, failed: 0 }
        }
    }
    impl<G: PrimeCurveAffine> Source<G> for Walk<G> {
        fn next(&mut self) -> Result<&G, SynthesisError> {
            if self.m.bad == Some(self.m.at) {
                self.failed += 1;
                return Err(SynthesisError::IoError(io::Error::new(io::ErrorKind::Other, format!("bad base {}", self.m.at))));
            }
            if self.m.at >= self.m.bases.len() {
                self.failed += 1;
                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "out of bases").into());
            }
            self.cur = self.m.bases[self.m.at];
            self.m.at += 1;
            self.nexts += 1;
            Ok(&self.cur)
        }
        fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
            if self.m.at + amt > self.m.bases.len() {
                self.failed += 1;
                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "out of bases").into());
            }
            self.m.at += amt;
            self.skips += amt as u64;
            Ok(())
        }
    }

    fn classify(e: &SynthesisError) -> Option<Fault> {
        match e {
            SynthesisError::UnexpectedIdentity => Some(Fault::Identity),
            SynthesisError::IoError(e) if e.kind() == io::ErrorKind::UnexpectedEof => Some(Fault::Eof),
            SynthesisError::IoError(e) if e.kind() == io::ErrorKind::Other => {
                e.to_string().strip_prefix("bad base ").and_then(|x| x.parse().ok()).map(Fault::Custom)
            }
            _ => None,
        }
    }

    /// Runs one multiexp on a pool of the given size.
    fn run_one<G, S>(threads: usize, src: S, dens: &Option<Vec<bool>>, exps: &[G::Scalar]) -> Result<G, SynthesisError>
    where
        G: PrimeCurve,
        G::Scalar: PrimeFieldBits,
        S: SourceBuilder<G::Affine>,
    {
        let e: Arc<Vec<Exponent<G::Scalar>>> = Arc::new(exps.iter().map(|x| x.into()).collect());
        let wk = Worker::new();
        let w = match dens {
            None => with_threads(threads, || multiexp::<FullDensity, _, G, _>(&wk, src, FullDensity, e)),
            Some(d) => {
                let mut t = DensityTracker::new();
                for (i, b) in d.iter().enumerate() {
                    t.add_element();
                    if *b {
                        t.inc(i);
                        if i % 3 == 0 {
                            t.inc(i);
                        }
                    }
                }
                let t = Arc::new(t);
                with_threads(threads, || multiexp::<DensityTracker, _, G, _>(&wk, src, t, e))
            }
        };
        w.wait()
    }

    pub struct Inst<F> {
        pub exps: Vec<F>,
        pub dens: Option<Vec<bool>>,
        pub bases: Vec<F>,
        pub off: usize,
        pub bad: Option<usize>,
    }
    /// The set of legitimate outcomes.
    pub fn oracle<F: FieldExt>(i: &Inst<F>) -> (Option<F>, Vec<Fault>) {
        let mut pos = i.off;
        let mut sum = F::ZERO;
        let mut faults = vec![];
        let mut must_fail = false;
        for (k, e) in i.exps.iter().enumerate() {
            if let Some(d) = &i.dens {
                if !d[k] {
                    continue;
                }
            }
            let need = !e.is_zero_vartime();
            if pos >= i.bases.len() {
                faults.push(Fault::Eof);
                must_fail |= need;
            } else if need {
                if i.bad == Some(pos) {
                    faults.push(Fault::Custom(pos));
                    must_fail = true;
                } else if i.bad.is_none() && i.bases[pos].is_zero_vartime() {
                    faults.push(Fault::Identity);
                    must_fail = true;
                } else {
                    sum += *e * i.bases[pos];
                }
            }
            pos += 1;
        }
        faults.dedup();
        (if must_fail { None } else { Some(sum) }, faults)
    }

    fn judge<F: FieldExt>(c: &mut Case, i: &Inst<F>, got: Result<F, SynthesisError>, what: &dyn Fn() -> String) -> R {
        let (sum, faults) = oracle(i);
        c.ev(1);
        match (got, sum) {
            (Ok(g), Some(s)) => {
                ensure!(g == s, "sum is {:?}, expected {:?}; {}", g, s, what());
                c.count("sums_compared", 1);
            }
            (Ok(g), None) => fail!("returned {:?} although bases failed ({:?}); {}", g, faults, what()),
            (Err(e), _) => {
                let k = classify(&e);
                ensure!(k.map(|k| faults.contains(&k)).unwrap_or(false), "returned {:?}, legitimate faults {:?}; {}", e, faults, what());
                c.count(
                    match k.unwrap() {
                        Fault::Eof => "eof_errors",
                        Fault::Identity => "identity_errors",
                        Fault::Custom(_) => "source_errors",
                    },
                    1,
                );
            }
        }
        Ok(())
    }
    fn describe<F: FieldExt>(i: &Inst<F>, threads: usize) -> String {
        let cut = |s: String| if s.len() > 600 { format!("{}...", &s[..600]) } else { s };
        format!(
            "{} n={} offset={} bases={} threads={} exps={} dens={} bases={}",
            F::NAME,
            i.exps.len(),
            i.off,
            i.bases.len(),
            threads,
            cut(format!("{:?}", i.exps)),
            cut(match &i.dens {
                None => "full".into(),
                Some(d) => d.iter().map(|b| if *b { '1' } else { '0' }).collect(),
            }),
            cut(format!("{:?}", i.bases))
        )
    }

    fn exps<F: FieldExt>(c: &mut Case, n: usize) -> Vec<F> {
        let p = c.below(8);
        let two = F::from(2);
        (0..n)
            .map(|_| match p {
                0 => special(c),
                1 => F::from(c.below(4)),
                2 => -F::ONE - F::from(c.below(4)),
                3 => two.pow_vartime([c.below(F::NUM_BITS as u64)]),
                4 => two.pow_vartime([c.below(F::NUM_BITS as u64)]) - F::ONE,
                5 if c.below(4) > 0 => F::from(c.below(2)),
                _ => F::random(&mut c.rng),
            })
            .collect()
    }
    fn instance<F: FieldExt>(c: &mut Case, n: usize) -> Inst<F> {
        let exps = exps::<F>(c, n);
        let dens = match c.below(5) {
            0 | 1 => None,
            2 => Some((0..n).map(|_| c.coin()).collect()),
            3 => Some((0..n).map(|_| c.below(10) == 0).collect()),
            _ => {
                let b = c.coin();
                let mut v = vec![b; n];
                if n > 0 {
                    let k = c.below(n as u64) as usize;
                    v[k] = !b;
                }
                Some(v)
            }
        };
        let used = dens.as_ref().map(|d: &Vec<bool>| d.iter().filter(|b| **b).count()).unwrap_or(n);
        let off = *c.pick(&[0usize, 0, 1, 2, 7]);
        let total = (used + off) as i64 + *c.pick(&[0i64, 0, 0, 0, 0, 1, 3, 17, -1, -2, -9]);
        let mut bases: Vec<F> = (0..total.max(0)).map(|_| nonzero(&mut c.rng)).collect();
        if c.below(5) == 0 && !bases.is_empty() {
            for _ in 0..1 + c.below(3) {
                let k = c.below(bases.len() as u64) as usize;
                bases[k] = F::ZERO;
            }
        }
        // identities where nothing needs them must not matter
        for b in bases.iter_mut().take(off) {
            if c.below(3) == 0 {
                *b = F::ZERO;
            }
        }
        if c.below(3) == 0 {
            for b in bases.iter_mut().skip(off + used) {
                *b = F::ZERO;
            }
        }
        Inst { exps, dens, bases, off, bad: None }
    }
    fn inst_hash<F: FieldExt>(i: &Inst<F>, t: usize) -> u64 {
        hash_bytes(describe(i, t).as_bytes())
    }

    const EDGES: &[usize] = &[0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 54, 55, 56, 63, 64, 65, 148, 149, 150, 403, 404];

    fn random<F: FieldExt>(c: &mut Case) -> R {
        let n = if c.coin() { *c.pick(EDGES) } else { c.below(70) as usize };
        one::<F>(c, n)
    }
    fn one<F: FieldExt>(c: &mut Case, n: usize) -> R {
        let mut i = instance::<F>(c, n);
        let threads = *c.pick(THREADS);
        let src = c.below(4);
        let got = if src == 0 {
            // a source that is not a vector, possibly failing
            if c.coin() && !i.bases.is_empty() {
                i.bad = Some(c.below(i.bases.len() as u64) as usize);
            } else {
                i.bad = Some(usize::MAX);
            }
            let walks = Arc::new(Mutex::new(vec![]));
            let m = Made { bases: Arc::new(i.bases.iter().map(|b| A1(*b)).collect()), at: i.off, bad: i.bad, walks: walks.clone() };
            let g = run_one::<G1<F>, _>(threads, m, &i.dens, &i.exps);
            let wl = walks.lock().unwrap();
            c.count("custom_source_walks", wl.len() as u64);
            // a failing reader must not be swallowed
            let needed = oracle(&i).0.is_none();
            if g.is_ok() && wl.iter().any(|w| w.2 > 0) && needed {
                fail!("a base source failed but a sum was returned; {}", describe(&i, threads));
            }
            g.map(|g| g.0)
        } else if src == 1 {
            run_one::<G2<F>, _>(threads, (Arc::new(i.bases.iter().map(|b| A2(*b)).collect::<Vec<_>>()), i.off), &i.dens, &i.exps).map(|g| g.0)
        } else {
            run_one::<G1<F>, _>(threads, (Arc::new(i.bases.iter().map(|b| A1(*b)).collect::<Vec<_>>()), i.off), &i.dens, &i.exps).map(|g| g.0)
        };
        c.max("longest", n as u64);
        c.seen(inst_hash(&i, threads));
        c.sample(|| describe(&i, threads));
        judge(c, &i, got, &|| describe(&i, threads))
    }
    /// All exponent vectors, densities and offsets of a small shape.
    fn exhaustive<F: FieldExt>(c: &mut Case, p: u64, n: usize) -> R {
        let total = p.pow(n as u32);
        let step = 1 + total / 700;
        let mut v = c.below(step);
        while v < total {
            let mut x = v;
            let e: Vec<F> = (0..n)
                .map(|_| {
                    let d = x % p;
                    x /= p;
                    F::from(d)
                })
                .collect();
            for mask in 0..=(1u64 << n) {
                let dens = if mask == 1 << n { None } else { Some((0..n).map(|k| mask >> k & 1 == 1).collect::<Vec<_>>()) };
                let used = dens.as_ref().map(|d| d.iter().filter(|b| **b).count()).unwrap_or(n);
                let off = (v + mask) as usize % 3;
                let count = (used + off + 1).saturating_sub((v as usize / 3 + mask as usize) % 3);
                let bases: Vec<F> = (0..count).map(|k| F::from(1 + (v + k as u64 * 3) % (p - 1))).collect();
                let i = Inst { exps: e.clone(), dens, bases, off, bad: None };
                let got = run_one::<G1<F>, _>(1 + (v % 3) as usize, (Arc::new(i.bases.iter().map(|b| A1(*b)).collect::<Vec<_>>()), off), &i.dens, &i.exps).map(|g| g.0);
                judge(c, &i, got, &|| describe(&i, 1))?;
            }
            v += step;
        }
        c.seen(mix(p, n as u64));
        c.count("shapes_enumerated", 1);
        Ok(())
    }
    fn curve<G>(c: &mut Case, n: usize) -> R
    where
        G: PrimeCurve + Group<Scalar = Scalar>,
    {
        let i = instance::<Scalar>(c, n);
        let threads = *c.pick(THREADS);
        let bases: Vec<G::Affine> = i.bases.iter().map(|b| (G::generator() * *b).to_affine()).collect();
        let got = run_one::<G, _>(threads, (Arc::new(bases), i.off), &i.dens, &i.exps);
        // compare in the group
        let (sum, faults) = oracle(&i);
        c.ev(1);
        c.count("curve_instances", 1);
        c.seen(inst_hash(&i, threads));
        match (got, sum) {
            (Ok(g), Some(s)) => ensure!(g == G::generator() * s, "wrong sum; {}", describe(&i, threads)),
            (Ok(_), None) => fail!("returned a sum although bases failed ({:?}); {}", faults, describe(&i, threads)),
            (Err(e), _) => ensure!(classify(&e).map(|k| faults.contains(&k)).unwrap_or(false), "returned {:?}, legitimate faults {:?}; {}", e, faults, describe(&i, threads)),
        }
        Ok(())
    }
    /// The vector source, driven directly: reads and skips in any order, also past the end.
    fn vector_source(c: &mut Case) -> R {
        let n = c.below(40) as usize;
        let bases: Vec<F97> = (0..n).map(|_| if c.below(8) == 0 { F97::ZERO } else { nonzero(&mut c.rng) }).collect();
        let off = if c.below(4) == 0 { c.below(50) as usize } else { 0 };
        let b = (Arc::new(bases.iter().map(|b| A1(*b)).collect::<Vec<_>>()), off);
        let mut again = b.clone().build();
        let mut s = b.build();
        let mut at = off;
        let mut log = format!("{} bases from {}", n, off);
        for _ in 0..1 + c.below(30) {
            if c.below(3) > 0 {
                let want = bases.get(at).copied();
                let got = s.next().map(|x| x.0).map_err(|e| (classify(&e), format!("{:?}", e)));
                c.ev(1);
                log += &format!(" next@{}", at);
                match (want, got) {
                    (Some(w), Ok(g)) if w == g && !w.is_zero_vartime() => at += 1,
                    (Some(w), Err((Some(Fault::Identity), _))) if w.is_zero_vartime() => break,
                    (None, Err((Some(Fault::Eof), _))) => c.count("reads_past_the_end", 1),
                    (w, g) => fail!("read of base {} gives {:?}, expected {:?}; {}", at, g, w, log),
                }
            } else {
                let amt = match c.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => c.below(6) as usize,
                    _ => c.below(60) as usize,
                };
                c.ev(1);
                log += &format!(" skip {}@{}", amt, at);
                match s.skip(amt) {
                    Ok(()) => at += amt,
                    Err(e) if at + amt > n || at >= n => {
                        ensure!(classify(&e) == Some(Fault::Eof), "skip fails with {:?}; {}", e, log);
                        break;
                    }
                    Err(e) => fail!("skip of {} at {} fails with {:?} although there are {} bases; {}", amt, at, e, n, log),
                }
            }
        }
        // another reader of the same builder starts over
        let want = bases.get(off).copied();
        let got = again.next().map(|x| x.0).ok();
        ensure!(got == want.filter(|w| !w.is_zero_vartime()), "a second reader begins with {:?}, expected {:?}; {}", got, want, log);
        c.seen(hash_bytes(log.as_bytes()));
        c.sample(|| log.clone());
        Ok(())
    }
    fn tracker(c: &mut Case) -> R {
        let mut t = DensityTracker::new();
        let mut m: Vec<bool> = vec![];
        if c.below(100) == 0 {
            for _ in 0..*c.pick(&[4096usize, 32768, 65530, 70000, 131100]) {
                t.add_element();
                m.push(false);
            }
        }
        for _ in 0..c.below(300) {
            if m.is_empty() || c.below(3) > 0 {
                t.add_element();
                m.push(false);
            } else {
                let k = c.below(m.len() as u64) as usize;
                t.inc(k);
                m[k] = true;
            }
            if c.below(8) == 0 {
                c.ev(1);
                let e = m.iter().filter(|b| **b).count();
                ensure!(t.get_total_density() == e, "total density {} expected {}; {:?}", t.get_total_density(), e, m);
            }
        }
        use bellman::multiexp::QueryDensity;
        c.ev(2);
        let seen: Vec<bool> = QueryDensity::iter(&t).collect();
        ensure!(seen == m, "density iterates as {:?}, expected {:?}", seen, m);
        ensure!(QueryDensity::get_query_size(&t) == Some(m.len()), "query size {:?}, expected {}", QueryDensity::get_query_size(&t), m.len());
        ensure!(QueryDensity::get_query_size(&FullDensity).is_none(), "full density has a size");
        ensure!(QueryDensity::iter(&FullDensity).take(100).all(|b| b), "full density is not full");
        c.seen(hash_bytes(format!("{:?}", m).as_bytes()));
        Ok(())
    }

    pub fn run(r: &Runner) -> &'static str {
        r.par("random", 60000, 1800000, |c| on_field!(c, random, [F5, F13, F97, F257, F65537, BabyBear, M31, Gold, M61, F5_55, Scalar, Scalar]));
        r.par("long", 600, 15000, |c| {
            let n = *c.pick(&[403usize, 404, 405, 1096, 1097, 1098, 2980, 2981, 2982, 4096, 8103, 8104]);
            match c.below(4) {
                0 => one::<Scalar>(c, n),
                1 => one::<Gold>(c, n),
                2 => one::<M61>(c, n),
                _ => one::<BabyBear>(c, n),
            }
        });
        r.seq("huge", 8, 100, |c| {
            let n = *c.pick(&[22026usize, 22027, 59874, 59875, 1 << 16]);
            if c.coin() { one::<BabyBear>(c, n) } else { one::<F5_55>(c, n) }
        });
        r.par("exhaustive", 9, 9, |c| match c.idx {
            0 => exhaustive::<F5>(c, 5, 1),
            1 => exhaustive::<F5>(c, 5, 2),
            2 => exhaustive::<F5>(c, 5, 3),
            3 => exhaustive::<F5>(c, 5, 4),
            4 => exhaustive::<F7>(c, 7, 2),
            5 => exhaustive::<F13>(c, 13, 2),
            6 => exhaustive::<F17>(c, 17, 1),
            7 => exhaustive::<F17>(c, 17, 2),
            _ => exhaustive::<F97>(c, 97, 1),
        });
        r.par("curves", 300, 9000, |c| {
            let n = if c.below(6) == 0 { *c.pick(&[148usize, 149, 200]) } else { c.below(60) as usize };
            if c.coin() { curve::<G1Projective>(c, n) } else { curve::<G2Projective>(c, n / 2) }
        });
        r.par("density", 4000, 40000, tracker);
        r.par("sources", 20000, 200000, vector_source);
        "instances of exponents, densities, offsets and bases (truncated, with identities, from failing custom sources) on transparent groups over 11 fields and on BLS12-381, thread pools of 1..32; result compared with the sum of products of discrete logarithms or the set of legitimate errors; small shapes enumerated; distinct = distinct instances"
    }
}

// ================================================================ C16
#[cfg(feature = "p16")]
mod c16 {
    use super::*;

    /// One recorded event. `seq` is taken from one global counter, so the log is totally ordered.
    #[derive(Clone, Copy, Debug)]
    struct Ev {
        kind: u8,
        id: u64,
        val: u64,
    }
    #[derive(Default)]
    struct Log {
        v: Mutex<Vec<Ev>>,
        done: Mutex<u64>,
        cv: Condvar,
    }
    impl Log {
        fn put(&self, kind: u8, id: u64, val: u64) {
            self.v.lock().unwrap().push(Ev { kind, id, val });
        }
        fn job_done(&self) {
            let mut d = self.done.lock().unwrap();
            *d += 1;
            self.cv.notify_all();
        }
    }
    // kinds: S submitted, B job begins, E job ends, D closure dropped, R result obtained by wait,
    //        X result value destroyed, W wait inside pool refused, Y wait inside pool returned,
    //        I job ran on the submitting thread's call (inline), C waiter dropped
    struct Captured(Arc<Log>, u64);
    impl Drop for Captured {
        fn drop(&mut self) {
            self.0.put(b'D', self.1, 0);
        }
    }
    struct Res {
        log: Arc<Log>,
        id: u64,
        val: u64,
    }
    impl Drop for Res {
        fn drop(&mut self) {
            self.log.put(b'X', self.id, 0);
        }
    }
    fn value(seed: u64, id: u64) -> u64 {
        mix(mix(seed, 0x5157), id)
    }

    struct World {
        log: Arc<Log>,
        seed: u64,
        next: AtomicU64,
        max_jobs: u64,
        out: Mutex<mpsc::Sender<(u64, Waiter<Res>)>>,
        wk: Worker,
    }
    impl World {
        /// Submits one job; `depth` more levels of nested submission are possible.
        fn submit(self: &Arc<Self>, rng: &mut rand_chacha::ChaCha8Rng, depth: u32, style: u64) -> Option<(u64, Waiter<Res>)> {
            let id = self.next.fetch_add(1, Ordering::SeqCst);
            if id >= self.max_jobs {
                return None;
            }
            let mut jr = rand_chacha::ChaCha8Rng::seed_from_u64(mix(self.seed, id));
            self.log.put(b'S', id, 0);
            let me = self.clone();
            let cap = Captured(self.log.clone(), id);
            let w = self.wk.compute(move || {
                let cap = cap;
                me.log.put(b'B', id, 0);
                let delay = if style == 2 { below(&mut jr, 40) } else { below(&mut jr, 12) };
                match delay {
                    0 | 1 => std::thread::sleep(Duration::from_micros(below(&mut jr, 800))),
                    2..=4 => std::thread::yield_now(),
                    5 => {
                        let mut x = id;
                        for _ in 0..below(&mut jr, 20000) {
                            x = mix(x, 1);
                        }
                        std::hint::black_box(x);
                    }
                    _ => {}
                }
                if depth > 0 && below(&mut jr, 3) == 0 {
                    for _ in 0..1 + below(&mut jr, 4) {
                        if let Some((nid, w)) = me.submit(&mut jr, depth - 1, style) {
                            match below(&mut jr, 6) {
                                0 => {
                                    me.log.put(b'C', nid, 0);
                                    drop(w);
                                }
                                #[cfg(feature = "multicore")]
                                1 => {
                                    // waiting here would deadlock; it has to be refused
                                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.wait())) {
                                        Ok(r) => {
                                            me.log.put(b'Y', nid, r.val);
                                        }
                                        Err(_) => me.log.put(b'W', nid, 0),
                                    }
                                    me.log.put(b'C', nid, 0);
                                }
                                _ => {
                                    let _ = me.out.lock().unwrap().send((nid, w));
                                }
                            }
                        }
                    }
                }
                if below(&mut jr, 10) == 0 {
                    scope_once(&me.wk, &mut jr, &me.log, id);
                }
                let r = Res { log: me.log.clone(), id, val: value(me.seed, id) };
                me.log.put(b'E', id, 0);
                me.log.job_done();
                drop(cap);
                r
            });
            let _ = rng;
            Some((id, w))
        }
    }
    /// One use of the worker's scope, as the library's callers use it; logs the verdict.
    fn scope_once(wk: &Worker, rng: &mut rand_chacha::ChaCha8Rng, log: &Arc<Log>, id: u64) {
        let n = match below(rng, 4) {
            0 => below(rng, 5) as usize,
            1 => below(rng, 40) as usize,
            2 => below(rng, 400) as usize,
            _ => 1000 + below(rng, 3000) as usize,
        };
        let slow = below(rng, 6) == 0;
        let mut v = vec![0u64; n];
        let mut extra = vec![0u64; n];
        let running = AtomicUsize::new(0);
        let tasks = AtomicUsize::new(0);
        let chunk_seen = AtomicUsize::new(0);
        let ret = wk.scope(n, |scope, chunk| {
            chunk_seen.store(chunk, Ordering::SeqCst);
            if chunk == 0 {
                return 0;
            }
            let running = &running;
            let tasks = &tasks;
            for (k, (part, ex)) in v.chunks_mut(chunk).zip(extra.chunks_mut(chunk)).enumerate() {
                tasks.fetch_add(1, Ordering::SeqCst);
                running.fetch_add(1, Ordering::SeqCst);
                scope.spawn(move |s| {
                    for (i, x) in part.iter_mut().enumerate() {
                        *x += (k * chunk + i) as u64 + 1;
                    }
                    if slow {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    // a task spawned from a task
                    running.fetch_add(1, Ordering::SeqCst);
                    s.spawn(move |_| {
                        for x in ex.iter_mut() {
                            *x += 1;
                        }
                        running.fetch_sub(1, Ordering::SeqCst);
                    });
                    running.fetch_sub(1, Ordering::SeqCst);
                });
            }
            n as u64 + 7
        });
        let good = chunk_seen.load(Ordering::SeqCst) > 0
            && ret == n as u64 + 7
            && running.load(Ordering::SeqCst) == 0
            && v.iter().enumerate().all(|(i, x)| *x == i as u64 + 1)
            && extra.iter().all(|x| *x == 1);
        log.put(b'P', id, ((n as u64) << 32) | ((tasks.load(Ordering::SeqCst) as u64) << 1) | good as u64);
    }

    /// Child: runs one storm and prints its event log.
    pub fn storm_child(args: &[String]) {
        std::panic::set_hook(Box::new(|_| {}));
        let seed: u64 = args[0].parse().unwrap();
        let max_jobs: u64 = args[1].parse().unwrap();
        let submitters: usize = args[2].parse().unwrap();
        let style: u64 = args[3].parse().unwrap();
        let log = Arc::new(Log::default());
        let (tx, rx) = mpsc::channel();
        let w = Arc::new(World { log: log.clone(), seed, next: AtomicU64::new(0), max_jobs, out: Mutex::new(tx), wk: Worker::new() });
        let held: Mutex<Vec<(u64, Waiter<Res>)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..submitters {
                let w = w.clone();
                let held = &held;
                let log = log.clone();
                s.spawn(move || {
                    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(mix(seed, 1000 + t as u64));
                    let mut mine: Vec<(u64, Waiter<Res>)> = vec![];
                    loop {
                        let depth = if style == 1 { 0 } else { 3 };
                        let Some((id, wt)) = w.submit(&mut rng, depth, style) else { break };
                        let take = |log: &Arc<Log>, id: u64, wt: Waiter<Res>| {
                            let r = wt.wait();
                            log.put(b'R', id, r.val);
                        };
                        match (style, below(&mut rng, 10)) {
                            (1, _) => mine.push((id, wt)), // pure backlog
                            (_, 0 | 1) => {
                                log.put(b'C', id, 0);
                                drop(wt)
                            }
                            (_, 2 | 3) => take(&log, id, wt),
                            (_, 4) => held.lock().unwrap().push((id, wt)),
                            _ => mine.push((id, wt)),
                        }
                        if below(&mut rng, 4) == 0 && !mine.is_empty() && style != 1 {
                            let k = below(&mut rng, mine.len() as u64) as usize;
                            let (id, wt) = mine.swap_remove(k);
                            take(&log, id, wt);
                        }
                        if below(&mut rng, 12) == 0 {
                            scope_once(&w.wk, &mut rng, &log, 1 << 40);
                        }
                        if below(&mut rng, 5) == 0 {
                            // one-off sending
                            let d = Waiter::done(below(&mut rng, 1000));
                            if below(&mut rng, 2) == 0 {
                                drop(d);
                            } else {
                                let v: u64 = d.wait();
                                log.put(b'O', v, (v < 1000) as u64);
                            }
                        }
                    }
                    // whatever remains, in random order
                    while !mine.is_empty() {
                        let k = below(&mut rng, mine.len() as u64) as usize;
                        let (id, wt) = mine.swap_remove(k);
                        if below(&mut rng, 12) == 0 {
                            log.put(b'C', id, 0);
                            drop(wt);
                        } else {
                            let r = wt.wait();
                            log.put(b'R', id, r.val);
                        }
                    }
                });
            }
        });
        // waiters handed to this thread by jobs and by other submitters
        for (id, wt) in held.into_inner().unwrap() {
            let r = wt.wait();
            log.put(b'R', id, r.val);
        }
        // all jobs must come to an end, whether or not anybody waits for them; a lost job leaves
        // this thread asleep for good, which the supervising process reports as a deadlock
        loop {
            while let Ok((id, wt)) = rx.try_recv() {
                let r = wt.wait();
                log.put(b'R', id, r.val);
            }
            let submitted = w.next.load(Ordering::SeqCst).min(max_jobs);
            let mut d = log.done.lock().unwrap();
            if *d >= submitted {
                break;
            }
            while *d < submitted {
                d = log.cv.wait(d).unwrap();
            }
        }
        while let Ok((id, wt)) = rx.try_recv() {
            let r = wt.wait();
            log.put(b'R', id, r.val);
        }
        // results of dropped waiters are destroyed soon after the job's end: give the pool's
        // threads the chance to finish their last instructions
        let submitted = w.next.load(Ordering::SeqCst).min(max_jobs);
        for _ in 0..4000 {
            let x = log.v.lock().unwrap().iter().filter(|e| e.kind == b'X').count() as u64;
            if x >= submitted {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let mut o = String::new();
        for e in log.v.lock().unwrap().iter() {
            o.push_str(&format!("{} {} {}\n", e.kind as char, e.id, e.val));
        }
        print!("{}end {}\n", o, submitted);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }

    /// Offline checker of a recorded log.
    fn check_log(c: &mut Case, seed: u64, text: &str) -> R {
        let mut by: HashMap<u64, Vec<(usize, u8, u64)>> = HashMap::new();
        let mut submitted = None;
        let mut sig = 0u64;
        for (n, line) in text.lines().enumerate() {
            let f: Vec<&str> = line.split(' ').collect();
            if f[0] == "end" {
                submitted = Some(f[1].parse::<u64>().map_err(|e| e.to_string())?);
                continue;
            }
            ensure!(f.len() == 3, "unreadable log line {:?}", line);
            let k = f[0].as_bytes()[0];
            let id: u64 = f[1].parse().map_err(|_| format!("bad line {:?}", line))?;
            let val: u64 = f[2].parse().map_err(|_| format!("bad line {:?}", line))?;
            sig = mix(sig, mix(k as u64, id));
            c.count("events", 1);
            match k {
                b'P' => {
                    c.ev(1);
                    c.count("scopes", 1);
                    ensure!(val & 1 == 1, "a scope over {} elements ({} tasks) did not cover every element exactly once before returning", val >> 32, (val >> 1) & 0x7fff_ffff);
                }
                b'O' => ensure!(val == 1, "a one-off waiter delivered {}", id),
                _ => by.entry(id).or_default().push((n, k, val)),
            }
        }
        let Some(submitted) = submitted else { fail!("the storm printed no complete log") };
        ensure!(by.len() as u64 == submitted, "{} jobs in the log, {} submitted", by.len(), submitted);
        let mut inflight = 0i64;
        let mut most = 0i64;
        let mut order: Vec<(usize, i64)> = vec![];
        for (id, evs) in &by {
            let n = |k: u8| evs.iter().filter(|e| e.1 == k).count();
            let at = |k: u8| evs.iter().find(|e| e.1 == k).map(|e| e.0);
            c.ev(1);
            ensure!(n(b'S') == 1, "job {} submitted {} times in the log", id, n(b'S'));
            ensure!(n(b'B') == 1 && n(b'E') == 1, "job {} began {} times and ended {} times", id, n(b'B'), n(b'E'));
            ensure!(n(b'D') == 1, "the closure of job {} was destroyed {} times", id, n(b'D'));
            ensure!(n(b'X') == 1, "the result of job {} was destroyed {} times", id, n(b'X'));
            ensure!(n(b'R') + n(b'C') == 1, "waiter of job {}: {} deliveries and {} drops", id, n(b'R'), n(b'C'));
            ensure!(n(b'Y') == 0, "waiting inside a pool thread returned for job {}", id);
            c.count("refused_waits", n(b'W') as u64);
            c.count("dropped_waiters", n(b'C') as u64);
            let (s, b, e) = (at(b'S').unwrap(), at(b'B').unwrap(), at(b'E').unwrap());
            ensure!(s < b && b < e, "job {}: submitted at {}, began at {}, ended at {}", id, s, b, e);
            if let Some(rn) = at(b'R') {
                ensure!(rn > e, "job {} delivered before it ended", id);
                let v = evs.iter().find(|e| e.1 == b'R').unwrap().2;
                ensure!(v == value(seed, *id), "the waiter of job {} yielded {:x}, its job returned {:x}", id, v, value(seed, *id));
                c.count("delivered", 1);
            }
            order.push((s, 1));
            order.push((e, -1));
        }
        order.sort();
        for (_, d) in order {
            inflight += d;
            most = most.max(inflight);
        }
        c.max("most_outstanding_jobs", most as u64);
        c.seen(sig);
        Ok(())
    }

    fn storm(c: &mut Case, exe: &std::path::Path, threads: usize, max_jobs: u64, submitters: usize, style: u64) -> R {
        let seed = c.rng.next_u64() >> 1;
        let what = format!("storm of {} jobs, style {}, {} submitters, {} threads", max_jobs, style, submitters, threads);
        c.sample(|| what.clone());
        let args = ["storm".to_string(), seed.to_string(), max_jobs.to_string(), submitters.to_string(), style.to_string()];
        c.count("storms", 1);
        match child_cpu(exe, &args, &[("RAYON_NUM_THREADS", threads.to_string())], Duration::from_secs(120), 40) {
            Ended::Exit(0, o) => check_log(c, seed, &o).map_err(|e| format!("{}; {}", e, what)),
            Ended::Deadlock(_) => fail!("deadlock: a job or its result was lost, or a wait blocked for ever; {}", what),
            Ended::Signal(n, o) => fail!("the process died with signal {}: {}; {}", n, o.chars().rev().take(400).collect::<String>().chars().rev().collect::<String>(), what),
            Ended::Exit(k, o) => fail!("the process ended with {}: {}; {}", k, o.chars().rev().take(400).collect::<String>().chars().rev().collect::<String>(), what),
            Ended::Endless(n) => fail!("the jobs do not come to an end: {} CPU seconds used; {}", n, what),
            Ended::Timeout => {
                c.count("inconclusive_timeouts", 1);
                Ok(())
            }
        }
    }

    /// Scope coverage for every element count, in this process, over pools of many sizes.
    fn scopes(c: &mut Case) -> R {
        let threads = 1 + (c.idx as usize % 40);
        let wk = Worker::new();
        for n in (0..200usize).chain([255, 256, 257, 1000, 1023, 1024, 1025, 4097]) {
            let mut v = vec![0u32; n];
            let ran = AtomicUsize::new(0);
            let chunk = with_threads(threads, || {
                wk.scope(n, |scope, chunk| {
                    if chunk > 0 {
                        for part in v.chunks_mut(chunk) {
                            let ran = &ran;
                            scope.spawn(move |_| {
                                for x in part.iter_mut() {
                                    *x += 1;
                                }
                                ran.fetch_add(part.len(), Ordering::SeqCst);
                            });
                        }
                    }
                    chunk
                })
            });
            c.ev(1);
            ensure!(chunk > 0, "scope({}) on {} threads passed a zero chunk size", n, threads);
            ensure!(ran.load(Ordering::SeqCst) == n && v.iter().all(|x| *x == 1), "scope({}) on {} threads: {} of the elements done when it returned", n, threads, ran.load(Ordering::SeqCst));
            c.count("scopes", 1);
        }
        c.seen(threads as u64);
        let l = with_threads(threads, || wk.log_num_threads());
        if cfg!(feature = "multicore") {
            ensure!((1usize << l) <= threads && threads < (2usize << l), "log_num_threads is {} on {} threads", l, threads);
        }
        Ok(())
    }

    pub fn run(r: &Runner) -> &'static str {
        let me = std::env::current_exe().expect("exe");
        let alt = std::env::var_os("VH_NMC").map(std::path::PathBuf::from);
        r.seq("storms", 240, 3000, |c| {
            let threads = [1usize, 2, 3, 4, 8, 16][c.idx as usize % 6];
            let style = c.idx / 6 % 3;
            let jobs = if style == 1 { 40 + c.below(600) } else { 100 + c.below(500) };
            let sub = *c.pick(&[1usize, 2, 4, 9, 16]);
            storm(c, &me, threads, jobs, sub, style)
        });
        r.seq("storms_without_multicore", 12, 120, |c| match &alt {
            Some(alt) => {
                let jobs = 60 + c.below(300);
                let sub = *c.pick(&[1usize, 3]);
                let style = c.below(3);
                c.count("storms_without_multicore", 1);
                storm(c, alt, 1, jobs, sub, style)
            }
            None => Ok(()),
        });
        r.seq("scopes", 40, 40, scopes);
        "storms of jobs on the worker in child processes (1..16 pool threads, 1..16 submitting threads, nested submission, dropped / stored / forwarded waiters, waits in random order and from pool threads, backlogs far beyond the inline limit, injected delays), each leaving a totally ordered event log that an offline checker decides for exactly-once running, exact delivery, no loss and no leak; scope coverage for every element count on pools of 1..40 threads; distinct = distinct event interleavings"
    }
}

// ================================================================ C17
#[cfg(feature = "p17")]
mod c17 {
    use super::*;

    struct Dig(Vec<(String, String)>);
    fn hex(b: &[u8]) -> String {
        let h = blake2s_simd::Params::new().hash_length(16).hash(b);
        h.to_hex().to_string()
    }
    impl Dig {
        fn put(&mut self, k: String, b: &[u8]) {
            self.0.push((k, hex(b)));
        }
    }
    fn bytes<F: FieldExt>(v: &[F], o: &mut Vec<u8>) {
        for x in v {
            o.extend_from_slice(x.to_repr().as_ref());
        }
    }

    fn ffts<F: FieldExt>(c: &mut Case, d: &mut Dig, lens: &[usize]) {
        let wk = Worker::new();
        for len in lens {
            let v: Vec<F> = (0..*len).map(|_| F::random(&mut c.rng)).collect();
            let g: F = special(c);
            for op in 0..9 {
                let mut x = EvaluationDomain::<F, Sc<F>>::from_coeffs(v.iter().map(|x| Sc(*x)).collect()).expect("domain");
                let mut y = EvaluationDomain::<F, Sc<F>>::from_coeffs(v.iter().rev().map(|x| Sc(*x + F::ONE)).collect()).expect("domain");
                match op {
                    0 => x.fft(&wk),
                    1 => x.ifft(&wk),
                    2 => x.coset_fft(&wk),
                    3 => x.icoset_fft(&wk),
                    4 => x.distribute_powers(&wk, g),
                    5 => x.divide_by_z_on_coset(&wk),
                    6 => x.mul_assign(&wk, &y),
                    7 => x.sub_assign(&wk, &y),
                    _ => {
                        x.coset_fft(&wk);
                        y.coset_fft(&wk);
                        x.mul_assign(&wk, &y);
                        x.divide_by_z_on_coset(&wk);
                        x.icoset_fft(&wk);
                    }
                }
                let mut o = vec![];
                bytes(&x.as_ref().iter().map(|x| x.0).collect::<Vec<_>>(), &mut o);
                d.put(format!("{} domain len {} op {}", F::NAME, len, op), &o);
            }
        }
    }
    fn multiexps<F: FieldExt>(c: &mut Case, d: &mut Dig, lens: &[usize]) {
        let wk = Worker::new();
        for n in lens {
            let e: Vec<F> = (0..*n).map(|_| special(c)).collect();
            let b: Vec<A1<F>> = (0..*n).map(|_| A1(nonzero(&mut c.rng))).collect();
            let mut t = DensityTracker::new();
            let mut used = 0;
            for i in 0..*n {
                t.add_element();
                if c.coin() {
                    t.inc(i);
                    used += 1;
                }
            }
            let ex: Arc<Vec<Exponent<F>>> = Arc::new(e.iter().map(|x| x.into()).collect());
            let b = Arc::new(b);
            let full = multiexp::<FullDensity, _, G1<F>, _>(&wk, (b.clone(), 0), FullDensity, ex.clone());
            let part = multiexp::<DensityTracker, _, G1<F>, _>(&wk, (b.clone(), 0), Arc::new(t), ex.clone());
            let short = multiexp::<FullDensity, _, G1<F>, _>(&wk, (b.clone(), n / 2 + 1), FullDensity, ex);
            d.put(format!("{} multiexp {} full", F::NAME, n), format!("{:?}", full.wait()).as_bytes());
            d.put(format!("{} multiexp {} dense {}", F::NAME, n, used), format!("{:?}", part.wait()).as_bytes());
            // which of several legitimate errors is reported must not depend on the schedule either
            d.put(format!("{} multiexp {} short", F::NAME, n), format!("{:?}", short.wait()).as_bytes());
        }
    }
    fn snark<E>(c: &mut Case, d: &mut Dig, name: &str, circ: Circ<E::Fr>)
    where
        E: pairing::MultiMillerLoop,
        E::Fr: FieldExt,
        E::G1: group::WnafGroup,
        E::G2: group::WnafGroup,
    {
        let mut rs = || nonzero::<E::Fr>(&mut c.rng);
        let g1 = E::G1::generator() * rs();
        let g2 = E::G2::generator() * rs();
        let (al, be, ga, de, tau, r, s) = (rs(), rs(), rs(), rs(), rs(), rs(), rs());
        let p = groth16::generate_parameters::<E, _>(circ.with(None), g1, g2, al, be, ga, de, tau);
        let p = match p {
            Ok(p) => p,
            Err(e) => {
                d.put(format!("{} parameters", name), format!("{:?}", e).as_bytes());
                return;
            }
        };
        let mut o = vec![];
        p.write(&mut o).expect("write");
        d.put(format!("{} parameters", name), &o);
        let pr = groth16::create_proof::<E, _, _>(circ.clone(), &p, r, s);
        match pr {
            Ok(pr) => {
                let mut o = vec![];
                pr.write(&mut o).expect("write");
                d.put(format!("{} proof", name), &o);
                let pvk = groth16::prepare_verifying_key(&p.vk);
                d.put(format!("{} verify", name), format!("{:?}", groth16::verify_proof(&pvk, &pr, &circ.pubs())).as_bytes());
            }
            Err(e) => d.put(format!("{} proof", name), format!("{:?}", e).as_bytes()),
        }
    }

    /// Child: `digest SEED LOAD`; prints one `label<TAB>digest` line per operation.
    pub fn digest_child(args: &[String]) {
        let seed: u64 = args[0].parse().unwrap();
        let load: usize = args[1].parse().unwrap();
        let stop = Arc::new(AtomicUsize::new(0));
        let mut hs = vec![];
        for t in 0..load {
            let stop = stop.clone();
            hs.push(std::thread::spawn(move || {
                // other users of the same pool
                let mut c = Case::bare(mix(seed, 77 + t as u64));
                let mut n = 0u64;
                while stop.load(Ordering::SeqCst) == 0 {
                    let mut d = Dig(vec![]);
                    match c.below(3) {
                        0 => ffts::<BabyBear>(&mut c, &mut d, &[33]),
                        1 => multiexps::<F5_55>(&mut c, &mut d, &[40]),
                        _ => {
                            let w = Worker::new();
                            let jobs: Vec<_> = (0..20u64).map(|k| w.compute(move || k)).collect();
                            for (k, j) in jobs.into_iter().enumerate() {
                                if k % 3 > 0 {
                                    assert_eq!(j.wait(), k as u64);
                                }
                            }
                        }
                    }
                    n += 1;
                }
                n
            }));
        }
        let mut c = Case::bare(seed);
        let mut d = Dig(vec![]);
        let mut lens: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129];
        for _ in 0..4 {
            lens.push(c.below(1500) as usize);
        }
        ffts::<BabyBear>(&mut c, &mut d, &lens);
        ffts::<Scalar>(&mut c, &mut d, &lens[..17]);
        ffts::<F257>(&mut c, &mut d, &lens[..18]);
        multiexps::<Scalar>(&mut c, &mut d, &lens[..20]);
        multiexps::<F5_55>(&mut c, &mut d, &lens);
        for k in 0..40 {
            let mut s = Spec::random(&mut c, 6);
            match k {
                0 => s = Spec { n_pub: 0, n_aux: 0, n_cons: 0, witnesses: 1, plain: false },
                1 => s = Spec { n_pub: 0, n_aux: 0, n_cons: 3, witnesses: 1, plain: false },
                2 => s = Spec { n_pub: 3, n_aux: 0, n_cons: 0, witnesses: 1, plain: false },
                3 => s = Spec { n_pub: 0, n_aux: 1, n_cons: 1, witnesses: 1, plain: false },
                4 => s = Spec { n_pub: 40, n_aux: 70, n_cons: 90, witnesses: 1, plain: false },
                _ => {}
            }
            if k % 3 == 0 {
                let ci = Circ::<BabyBear>::random(&mut c, &s);
                snark::<Dlog<BabyBear>>(&mut c, &mut d, &format!("babybear circuit {} ({:?})", k, s), ci);
            } else {
                let ci = Circ::<F5_55>::random(&mut c, &s);
                snark::<Dlog<F5_55>>(&mut c, &mut d, &format!("f5_55 circuit {} ({:?})", k, s), ci);
            }
        }
        for k in 0..3 {
            let s = match k {
                0 => Spec { n_pub: 0, n_aux: 0, n_cons: 0, witnesses: 1, plain: false },
                1 => Spec { n_pub: 2, n_aux: 5, n_cons: 9, witnesses: 1, plain: false },
                _ => Spec::random(&mut c, 4),
            };
            let ci = Circ::<Scalar>::random(&mut c, &s);
            snark::<Bls12>(&mut c, &mut d, &format!("bls12-381 circuit {} ({:?})", k, s), ci);
        }
        stop.store(1, Ordering::SeqCst);
        let mut n = 0;
        for h in hs {
            n += h.join().expect("load thread");
        }
        for (k, v) in &d.0 {
            println!("{}\t{}", k, v);
        }
        println!("end\t{}", n);
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }

    fn get(exe: &std::path::Path, seed: u64, threads: usize, load: usize) -> R<Option<(Vec<(String, String)>, u64)>> {
        let what = format!("{} threads, {} load threads", threads, load);
        let args = ["digest".to_string(), seed.to_string(), load.to_string()];
        let tail = |o: String| o.chars().rev().take(400).collect::<String>().chars().rev().collect::<String>().replace('\n', " ");
        let o = match child_of(exe, &args, &[("RAYON_NUM_THREADS", threads.to_string())], Duration::from_secs(200)) {
            Ended::Exit(0, o) => o,
            Ended::Exit(k, o) => fail!("the operations failed (exit {}) with {}: {}", k, what, tail(o)),
            Ended::Signal(n, o) => fail!("the operations died (signal {}) with {}: {}", n, what, tail(o)),
            Ended::Deadlock(_) => fail!("the operations deadlocked with {}", what),
            Ended::Timeout | Ended::Endless(_) => return Ok(None),
        };
        let mut v = vec![];
        let mut n = None;
        for l in o.lines() {
            let (a, b) = l.split_once('\t').ok_or_else(|| format!("bad line {:?}", l))?;
            if a == "end" {
                n = Some(b.parse().unwrap_or(0));
            } else {
                v.push((a.to_string(), b.to_string()));
            }
        }
        match n {
            Some(n) => Ok(Some((v, n))),
            None => fail!("output of the child with {} is incomplete", what),
        }
    }

    pub fn run(r: &Runner) -> &'static str {
        let me = std::env::current_exe().expect("exe");
        let alt = std::env::var_os("VH_NMC").map(std::path::PathBuf::from);
        r.seq("configurations", 3, 40, |c| {
            let seed = c.rng.next_u64() >> 1;
            let Some((base, _)) = get(&me, seed, 1, 0)? else {
                c.count("inconclusive_timeouts", 1);
                return Ok(());
            };
            let mut confs: Vec<(&std::path::Path, &str, usize, usize)> = vec![];
            for t in [2usize, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 32, 33, 64] {
                confs.push((&me, "multicore", t, 0));
            }
            confs.push((&me, "multicore", 1, 3));
            confs.push((&me, "multicore", 4, 5));
            confs.push((&me, "multicore", 8, 12));
            confs.push((&me, "multicore", 1, 0));
            if let Some(a) = &alt {
                confs.push((a, "without multicore", 1, 0));
                confs.push((a, "without multicore", 1, 2));
            }
            for (exe, kind, t, load) in confs {
                let got = get(exe, seed, t, load).map_err(|e| format!("{} ({})", e, kind))?;
                let Some((d, n)) = got else {
                    c.count("inconclusive_timeouts", 1);
                    continue;
                };
                ensure!(d.len() == base.len(), "{} results with {} {} threads, {} with one thread", d.len(), kind, t, base.len());
                for ((k, a), (k2, b)) in base.iter().zip(&d) {
                    c.ev(1);
                    ensure!(k == k2 && a == b, "{}: differs between one thread and {} {} threads (load {}); seed {}", k, kind, t, load, seed);
                    c.seen(hash_bytes(k.as_bytes()));
                }
                c.count("results_compared", d.len() as u64);
                c.count(if kind == "multicore" { "multicore_configurations" } else { "single_threaded_configurations" }, 1);
                c.count("load_rounds", n);
            }
            c.sample(|| format!("seed {}: {} results per configuration, e.g. {} = {}", seed, base.len(), base[0].0, base[0].1));
            Ok(())
        });
        "digests of transforms, multi-exponentiations, generated parameters, proofs and verdicts (transparent engines and BLS12-381, sizes around every chunking boundary, empty parts) from child processes with 1..64 threads, with other load on the pool, repeated, and from a build without the multicore feature, compared result by result with the one-thread run; distinct = distinct operations"
    }
}
