//! C21 batch verification.
use bellman::VerificationError;
use bls12_381::{Bls12, Scalar};
use ff::{Field, PrimeField};
use groth16::batch::{Item, Verifier};
use groth16::*;
use rand_core::{CryptoRng, RngCore, SeedableRng};
use std::collections::HashSet;
use vh::circ::*;
use vh::engine::{tapped, Dlog};
use vh::prog::digits;
use vh::sn::*;
use vh::*;

/// A generator that first yields `zeros` bytes that are all zero.
struct Feed {
    zeros: usize,
    rng: rand_chacha::ChaCha8Rng,
}
impl RngCore for Feed {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.rng.fill_bytes(d);
        let z = self.zeros.min(d.len());
        d[..z].fill(0);
        self.zeros -= z;
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Feed {}

type Itm<F> = ([F; 3], Vec<F>);

/// The batch through the entry point of this build.
fn run_batch<E: Eng>(c: &mut Case, e: &Expect<E::F>, items: &[Itm<E::F>]) -> u8 {
    let vk = vk_of::<E>(e);
    let mut v = if c.coin() { Verifier::<E>::new() } else { Verifier::default() };
    for (p, x) in items {
        let pr = proof_of::<E>(p);
        if c.coin() {
            v.queue((&pr, &x[..]));
        } else if c.coin() {
            v.queue((pr, x.clone()));
        } else {
            v.queue(Item::from((&pr, &x[..])).clone());
        }
    }
    #[cfg(feature = "g16multicore")]
    {
        c.count("multicore_batches", 1);
        verdict(&v.verify_multicore(&vk))
    }
    #[cfg(not(feature = "g16multicore"))]
    {
        let zeros = match c.below(5) {
            0 => *c.pick(&[1usize, 8, 16, 32, 64, 65, 128, 200, 320]),
            _ => 0,
        };
        if zeros > 0 {
            c.count("zero_randomness_streams", 1);
        }
        let mut f = Feed { zeros, rng: rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64()) };
        if c.coin() {
            verdict(&v.verify(&mut f, &vk))
        } else {
            verdict(&v.verify(f, &vk))
        }
    }
}
fn valid_items<F: FieldExt>(c: &mut Case, e: &Expect<F>, m: usize) -> Vec<Itm<F>> {
    let mut v: Vec<Itm<F>> = vec![];
    for i in 0..m {
        if i > 0 && c.below(6) == 0 {
            let k = c.below(i as u64) as usize;
            let d = v[k].clone();
            v.push(d); // the same item again
        } else {
            v.push(forge_valid(&mut c.rng, e).expect("delta is not zero"));
        }
    }
    v
}
/// Makes one valid item invalid.
fn spoil<F: FieldExt>(c: &mut Case, e: &Expect<F>, it: &mut Itm<F>) {
    let was = it.clone();
    loop {
        let d: F = nonzero(&mut c.rng);
        match c.below(5) {
            0 => it.0[0] += d,
            1 => it.0[1] += d,
            2 => it.0[2] += d,
            3 if !it.1.is_empty() => {
                let k = c.below(it.1.len() as u64) as usize;
                it.1[k] += d;
            }
            4 => it.0[c.below(3) as usize] = F::ZERO,
            _ => {}
        }
        if !equation(e, &it.0, &it.1) {
            return;
        }
        *it = was.clone();
    }
}
fn singles<E: Eng>(c: &mut Case, e: &Expect<E::F>, items: &[Itm<E::F>]) -> R<usize> {
    let pvk = prepare_verifying_key(&vk_of::<E>(e));
    let mut bad = 0;
    for (p, x) in items {
        let pr = proof_of::<E>(p);
        let it: Item<E> = if c.coin() { (&pr, &x[..]).into() } else { (pr.clone(), x.clone()).into() };
        let a = verdict(&it.clone().verify_single(&pvk));
        let b = verdict(&verify_proof(&pvk, &pr, x));
        let want = if x.len() + 1 != e.ic.len() { 2 } else { !equation(e, p, x) as u8 };
        c.ev(1);
        ensure!(a == b && a == want, "single verification of an item gives {}, verify_proof {}, the equation {}; key {:?} item {:?} {:?}", a, b, want, e, p, x);
        bad += (want != 0) as usize;
    }
    Ok(bad)
}
/// large: the field is so large that false acceptance of correlated errors is negligible
fn batch_case<E: Eng>(c: &mut Case, max: u64, large: bool) -> R {
    let n = if c.below(40) == 0 { 5 + c.below(300) } else { c.below(5) } as usize;
    let e = random_key::<E::F>(&mut c.rng, n, false);
    let m = match c.below(4) {
        0 => c.below(4),
        1 => *c.pick(&[7, 8, 9, 15, 16, 17]),
        _ => c.below(max + 1),
    }
    .min(max) as usize;
    let mut items = valid_items(c, &e, m);
    let dinv = e.delta_g2.invert().unwrap();
    let d: E::F = nonzero(&mut c.rng);
    let mut note = String::from("all valid");
    let mode = c.below(if large { 12 } else { 4 });
    let at = |c: &mut Case| c.below(m as u64) as usize;
    // two different positions
    let two = |c: &mut Case| {
        let i = c.below(m as u64) as usize;
        let j = (i + 1 + c.below(m as u64 - 1) as usize) % m;
        (i, j)
    };
    match mode {
        0 => {}
        1 | 2 if m > 0 => {
            let k = at(c);
            spoil(c, &e, &mut items[k]);
            note = format!("exactly item {} invalid", k);
        }
        3 if m > 0 => {
            let k = at(c);
            if c.coin() && m > 1 {
                let j = at(c);
                spoil(c, &e, &mut items[j]);
            }
            if n > 0 && c.coin() {
                items[k].1.pop();
            } else {
                items[k].1.push(E::F::ZERO);
            }
            note = format!("item {} has {} inputs for {}", k, items[k].1.len(), n);
        }
        4 if m > 1 => {
            let (i, j) = two(c);
            let x = *c.pick(&[E::F::ONE, E::F::from(2), -E::F::ONE, E::F::from(2).invert().unwrap()]);
            items[i].0[2] += d * dinv;
            items[j].0[2] -= d * x * dinv;
            note = format!("errors e and -({:?})e at {} and {}", x, i, j);
        }
        5 if m > 1 => {
            // the errors of the C elements of the same statement
            let (i, j) = two(c);
            items[j] = items[i].clone();
            items[i].0[2] += d;
            items[j].0[2] -= d;
            note = format!("the same item with C+d and C-d at {} and {}", i, j);
        }
        6 if m > 1 => {
            let (i, j) = two(c);
            let t = items[i].0[2];
            items[i].0[2] = items[j].0[2];
            items[j].0[2] = t;
            note = format!("C elements of {} and {} swapped", i, j);
        }
        7 if m > 1 => {
            let (i, j) = two(c);
            let (a, b) = (items[i].1.clone(), items[j].1.clone());
            items[i].1 = b;
            items[j].1 = a;
            note = format!("inputs of {} and {} swapped", i, j);
        }
        8 if m > 1 && n > 0 => {
            let (i, j) = two(c);
            let k = c.below(n as u64) as usize;
            items[i].1[k] += d;
            items[j].1[k] -= d;
            note = format!("input {} of {} and {} shifted oppositely", k, i, j);
        }
        9 if m > 2 => {
            let k = c.below(m as u64 - 2) as usize;
            for (o, f) in [(0, 1i64), (1, -2), (2, 1)] {
                let f = if f < 0 { -E::F::from(2) } else { E::F::from(f as u64) };
                items[k + o].0[2] += d * f;
            }
            note = format!("errors e, -2e, e from {}", k);
        }
        10 if m > 1 => {
            // all errors sum to zero
            let mut s = E::F::ZERO;
            for it in items.iter_mut().skip(1) {
                let x = E::F::random(&mut c.rng);
                it.0[2] += x;
                s += x;
            }
            items[0].0[2] -= s;
            note = "errors in every item, summing to zero".into();
        }
        11 if m > 1 => {
            // weighted by position: 1, 2, 3, ... or powers of two
            let (i, j) = two(c);
            let p = c.coin();
            let w = |i: usize| if p { E::F::from(2).pow_vartime([i as u64]) } else { E::F::from(i as u64 + 1) };
            items[i].0[2] += d * w(j);
            items[j].0[2] -= d * w(i);
            note = format!("errors weighted by position at {} and {}", i, j);
        }
        _ => {}
    }
    let bad = singles::<E>(c, &e, &items)?;
    let wrong = items.iter().any(|x| x.1.len() != n);
    let want = if wrong {
        2
    } else if bad == 0 {
        0
    } else {
        1
    };
    if want == 1 && bad > 1 && !large {
        return Ok(());
    }
    let got = run_batch::<E>(c, &e, &items);
    c.ev(1);
    c.count(["batches_accepted", "batches_rejected", "batches_with_wrong_counts"][want as usize], 1);
    if bad > 1 {
        c.count("correlated_batches", 1);
    }
    c.max("largest_batch", m as u64);
    ensure!(got == want, "{}: batch of {} gives {}, expected {} (0 accept, 1 invalid proof, 2 invalid key): {}; key {:?} items {:?}", E::F::NAME, m, got, want, note, e, items);
    c.seen(hash_bytes(format!("{:?}{:?}", e, items).as_bytes()));
    c.sample(|| format!("{} batch of {}: {}", E::F::NAME, m, note));
    Ok(())
}
fn tiny<F: FieldExt>(c: &mut Case) -> R {
    batch_case::<Dlog<F>>(c, 20, false)
}
fn big<F: FieldExt>(c: &mut Case) -> R {
    batch_case::<Dlog<F>>(c, 40, true)
}
/// Cancelling errors at every pair of positions.
fn pairs(c: &mut Case) -> R {
    type E = Dlog<M61>;
    let m = [2usize, 8, 9, 16, 17, 24][c.idx as usize % 6];
    let e = random_key::<M61>(&mut c.rng, 1, false);
    let items = valid_items(c, &e, m);
    for i in 0..m {
        for j in 0..i {
            for style in 0..2 {
                let mut v = items.clone();
                let d: M61 = nonzero(&mut c.rng);
                if style == 0 {
                    v[i].0[2] += d;
                    v[j].0[2] -= d;
                } else {
                    v[i].1[0] += d;
                    v[j].1[0] -= d;
                }
                let got = run_batch::<E>(c, &e, &v);
                c.ev(1);
                c.count("position_pairs", 1);
                ensure!(got == 1, "batch of {} with cancelling errors at {} and {} gives {}", m, j, i, got);
            }
        }
    }
    c.seen(c.idx);
    Ok(())
}
/// One invalid item at every position of every size.
fn positions(c: &mut Case) -> R {
    type E = Dlog<F13>;
    let m = c.idx as usize % 33 + 1;
    let e = random_key::<F13>(&mut c.rng, 2, false);
    let items = valid_items(c, &e, m);
    let got = run_batch::<E>(c, &e, &items);
    ensure!(got == 0, "batch of {} valid items gives {}", m, got);
    for i in 0..m {
        let mut v = items.clone();
        spoil(c, &e, &mut v[i]);
        let got = run_batch::<E>(c, &e, &v);
        c.ev(2);
        c.count("positions", 1);
        ensure!(got == 1, "batch of {} with exactly item {} invalid gives {}; key {:?} items {:?}", m, i, got, e, v);
        let mut v = items.clone();
        v[i].1.pop();
        let got = run_batch::<E>(c, &e, &v);
        ensure!(got == 2, "batch of {} in which item {} has one input too few gives {}", m, i, got);
    }
    c.seen(c.idx);
    Ok(())
}
/// How often two cancelling errors slip through over a small field: once in 256.
fn rate(c: &mut Case) -> R {
    type F = F257;
    let e = random_key::<F>(&mut c.rng, 1, false);
    let items = valid_items(c, &e, 3);
    let (i, j) = [(0, 1), (1, 2), (0, 2), (2, 0)][c.idx as usize % 4];
    let x = F::from([1u64, 3][c.idx as usize / 4 % 2]);
    let n = 12000;
    let mut hits = 0;
    for _ in 0..n {
        let mut v = items.clone();
        let d: F = nonzero(&mut c.rng);
        v[i].0[2] += d;
        v[j].0[2] -= d * x;
        hits += (run_batch::<Dlog<F>>(c, &e, &v) == 0) as u64;
    }
    c.ev(n);
    c.count("small_field_batches", n);
    c.max("small_field_acceptances", hits);
    c.seen(c.idx);
    // expected 47 (94 when two powers of one z coincide), deviation 7 (10)
    ensure!(hits < 200, "errors e and -{:?}e at {} and {} over a field of 257 elements slipped through {} times of {} (1 in 256 expected)", x, i, j, hits, n);
    Ok(())
}
/// The multipliers of the items, observed at the pairing.
fn multipliers(c: &mut Case) -> R {
    type F = Scalar;
    let e = random_key::<F>(&mut c.rng, 1, false);
    let m = 3 + c.below(16) as usize;
    let items: Vec<Itm<F>> = (0..m).map(|_| forge_valid(&mut c.rng, &e).unwrap()).collect();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let of = |v: &[u8]| {
        let mut r = [0u8; 32];
        r.copy_from_slice(v);
        F::from_repr(r).unwrap()
    };
    for round in 0..6 {
        let (got, log) = tapped(|| run_batch::<Dlog<F>>(c, &e, &items));
        c.ev(1);
        ensure!(got == 0, "valid batch gives {}", got);
        let mut found = 0;
        let mut bits = 0;
        for (k, (p, _)) in items.iter().enumerate() {
            // the term of this item: z a paired with b, up to sign and to which side carries z
            let ab = (p[0] * p[1]).invert().unwrap();
            let z = log.iter().find_map(|(x, y)| {
                let (x, y) = (of(x), of(y));
                (y == p[1] || y == -p[1] || x == p[0] || x == -p[0]).then(|| x * y * ab)
            });
            let Some(z) = z else { continue };
            let small = |z: &F| digits(z, 255).iter().rposition(|b| *b).map(|i| i + 1).unwrap_or(0);
            let b = small(&z).min(small(&-z));
            if b <= 1 {
                // one multiplier may be fixed
                ensure!(b == 1, "the multiplier of item {} is zero", k);
                continue;
            }
            found += 1;
            bits = bits.max(b);
            let norm = if small(&z) <= small(&-z) { z } else { -z };
            ensure!(seen.insert(norm.to_repr().as_ref().to_vec()), "the multiplier {:?} of item {} in round {} was used before", z, k, round);
        }
        if found > 0 {
            ensure!(bits >= 100, "the multipliers have at most {} bits", bits);
        }
        c.count("multipliers_observed", found);
        if found == 0 {
            c.count("batches_without_visible_multipliers", 1);
        }
    }
    c.seen(c.idx);
    Ok(())
}

pub fn c21(r: &Runner) -> &'static str {
    let multi = cfg!(feature = "g16multicore");
    if r.limit == u64::MAX {
        if let Some(a) = std::env::var_os("VH_MC").map(std::path::PathBuf::from) {
            // the same families through Verifier::verify_multicore on pools of several sizes
            const T: &[usize] = &[1, 2, 4, 8, 16];
            const F: &[(&str, u64)] = &[("large_fields", 4000), ("positions", 66), ("pairs", 12), ("tiny_fields", 3000), ("bls12_381", 8), ("multipliers", 10), ("rate", 8)];
            let n = T.len() as u64 * F.len() as u64;
            r.seq("multicore", n, 4 * n, |c| {
                let k = c.idx as usize % (T.len() * F.len());
                let (f, n) = F[k % F.len()];
                let n = if c.thorough { 10 * n } else { n };
                with_pool(c, r, &a, f, n, T[k / F.len()])?;
                c.count("multicore_entry_point_runs", 1);
                Ok(())
            });
        }
    }
    r.par("tiny_fields", 200000, 6000000, |c| on_field!(c, tiny, [F5, F7, F13, F17, F97, F193]));
    r.par("large_fields", 100000, 3000000, |c| on_field!(c, big, [M61, F5_55, Gold, Scalar]));
    r.par("positions", 1320, 13200, positions);
    r.par("pairs", 480, 4800, pairs);
    r.par("rate", 80, 800, rate);
    r.seq("multipliers", 300, 3000, multipliers);
    r.par("bls12_381", 96, 1500, |c| batch_case::<Bls12>(c, 10, true));
    let _ = multi;
    "batches of 0..40 items (duplicates included) with one invalid item at any position, errors of several items that cancel in plain, weighted, second-difference or swapped form, wrong input counts, generators that begin with zeros, each verdict compared with the items' individual verdicts; multipliers observed at the pairing; acceptance rate over a small field; also through verify_multicore on several pools; distinct = distinct (key, items)"
}
