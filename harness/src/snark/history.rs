//! C28 every call is a function of its arguments, whatever the process did before or does beside.
use bellman::domain::{EvaluationDomain, Scalar as Sc};
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::test::TestConstraintSystem;
use bellman::gadgets::{blake2s::blake2s, multipack, sha256::sha256};
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
use bellman::{Circuit, ConstraintSystem, LinearCombination, SynthesisError};
use bls12_381::{Bls12, Scalar};
use ff::{Field, PrimeField};
use groth16::*;
use group::prime::PrimeCurveAffine;

use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::circ::*;
use vh::engine::{Dlog, A1, G1};
use vh::gad::*;
use vh::prog::*;
use vh::sn::*;
use vh::*;

/// An operation's number: one hexadecimal digit for each component of the call.
struct Sel(u64);
impl Sel {
    fn of(&mut self, n: u64) -> u64 {
        let k = self.0 & 15;
        self.0 >>= 4;
        k % n
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.of(v.len() as u64) as usize]
    }
}
fn digest(b: &[u8]) -> String {
    blake2s_simd::Params::new()
        .hash_length(12)
        .hash(b)
        .to_hex()
        .to_string()
}
fn reprs<F: PrimeField>(v: &[F]) -> String {
    let mut o = vec![];
    for x in v {
        o.extend_from_slice(x.to_repr().as_ref());
    }
    format!("{} elements {}", v.len(), digest(&o))
}
fn err<T>(r: Result<T, SynthesisError>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("error {:?}", e),
    }
}

fn transform<F: FieldExt>(s: &mut Sel) -> String {
    let what = s.of(6);
    let len = s.pick(&[8usize, 16, 5, 33, 1, 2, 130]);
    let mut c = Case::bare(mix(101, s.of(3)));
    let mut v: Vec<Sc<F>> = (0..len).map(|_| Sc(F::random(&mut c.rng))).collect();
    // the same but for one element
    match s.of(4) {
        1 => v[len / 2].0 += F::ONE,
        2 => v[len - 1].0 += F::ONE,
        3 => v[0].0 += F::ONE,
        _ => {}
    }
    err(EvaluationDomain::<F, Sc<F>>::from_coeffs(v), |mut d| {
        let wk = Worker::new();
        match what {
            0 => d.fft(&wk),
            1 => d.ifft(&wk),
            2 => d.coset_fft(&wk),
            3 => d.icoset_fft(&wk),
            4 => d.distribute_powers(&wk, F::from(7)),
            _ => d.divide_by_z_on_coset(&wk),
        }
        reprs(&d.as_ref().iter().map(|x| x.0).collect::<Vec<_>>())
    })
}
fn sum<F: FieldExt>(s: &mut Sel) -> String {
    let end = s.of(3);
    let dense = s.of(2) == 0;
    let n = s.pick(&[3usize, 40, 1, 405]);
    let mut c = Case::bare(mix(102, s.of(3)));
    let mut e: Vec<F> = (0..n).map(|_| vh::circ::special::<F>(&mut c)).collect();
    let mut b: Vec<A1<F>> = (0..n).map(|_| A1(nonzero(&mut c.rng))).collect();
    match s.of(4) {
        1 => e[n - 1] += F::ONE,
        2 => e[n / 3] += F::ONE,
        3 => b[n - 1].0 = b[n - 1].0.double(),
        _ => {}
    }
    let e: Vec<Exponent<F>> = e.iter().map(|x| x.into()).collect();
    match end {
        1 => b.truncate(n / 2),
        2 => b[n / 2] = A1::identity(),
        _ => {}
    }
    let wk = Worker::new();
    let r = if dense {
        multiexp::<FullDensity, _, G1<F>, _>(&wk, (Arc::new(b), 0), FullDensity, Arc::new(e)).wait()
    } else {
        let mut t = DensityTracker::new();
        for i in 0..n {
            t.add_element();
            if c.below(3) > 0 {
                t.inc(i);
            }
        }
        multiexp::<DensityTracker, _, G1<F>, _>(&wk, (Arc::new(b), 0), Arc::new(t), Arc::new(e))
            .wait()
    };
    err(r, |x| format!("{:?}", x))
}
/// Trapdoors; most variants differ from the first in a single component.
fn trap<F: FieldExt>(s: &mut Sel) -> Trap<F> {
    let k = s.of(9);
    let mut t = Trap::<F>::random(&mut Case::bare(mix(103, (k == 1) as u64)));
    let x = F::from(1234567);
    match k {
        2 => t.g1 = x,
        3 => t.g2 = x,
        4 => t.alpha = x,
        5 => t.beta = x,
        6 => t.gamma = x,
        7 => t.delta = x,
        8 => t.tau = x,
        _ => {}
    }
    t
}
/// Circuits of the same dimensions.
fn circuit<F: FieldExt>(s: &mut Sel) -> Circ<F> {
    let k = s.of(3);
    let big = s.of(2);
    let spec = Spec {
        n_pub: 2,
        n_aux: if big == 1 { 40 } else { 5 },
        n_cons: if big == 1 { 61 } else { 5 },
        witnesses: 1,
        plain: true,
    };
    Circ::random(&mut Case::bare(mix(104, k)), &spec)
}
fn key<E: Eng>(s: &mut Sel) -> Result<Parameters<E>, SynthesisError> {
    let t = trap::<E::F>(s);
    gen::<E, _>(circuit::<E::F>(s).with(None), &t)
}
fn bytes(f: impl FnOnce(&mut Vec<u8>) -> io::Result<()>) -> String {
    let mut o = vec![];
    match f(&mut o) {
        Ok(()) => format!("{} bytes {}", o.len(), digest(&o)),
        Err(e) => format!("io {:?} {}", e.kind(), e),
    }
}
fn proof<E: Eng>(s: &mut Sel) -> String {
    let with = s.of(3);
    let mut k = Sel(s.0);
    let p = match key::<E>(&mut k) {
        Ok(p) => p,
        Err(e) => return format!("key generation: {:?}", e),
    };
    trap::<E::F>(s);
    let z = circuit::<E::F>(s);
    let mut c = Case::bare(mix(105, with));
    let pr = if with == 2 {
        create_random_proof::<E, _, _, _>(z.clone(), &p, &mut c.rng)
    } else {
        create_proof::<E, _, _>(z.clone(), &p, nonzero(&mut c.rng), nonzero(&mut c.rng))
    };
    err(pr, |pr| {
        let pvk = prepare_verifying_key(&p.vk);
        let mut x = z.pubs();
        let a = verify_proof(&pvk, &pr, &x).is_ok();
        x[0] += E::F::ONE;
        let b = verify_proof(&pvk, &pr, &x).is_ok();
        x.pop();
        format!(
            "proof {} verdicts {} {} {:?}",
            bytes(|o| pr.write(o)),
            a,
            b,
            verify_proof(&pvk, &pr, &x).is_ok()
        )
    })
}
/// Verdicts for keys that share all but one element.
fn verdicts<F: FieldExt>(s: &mut Sel) -> String {
    type D<F> = Dlog<F>;
    let batch = s.of(3);
    let change = s.of(10);
    let mut c = Case::bare(mix(106, s.of(2)));
    let mut e = random_key::<F>(&mut c.rng, 3, false);
    let Some((pr, x)) = forge_valid(&mut c.rng, &e) else {
        return "no proof".into();
    };
    let mut x = x;
    let mut pr = pr;
    match change {
        1 => e.alpha_g1 += F::ONE,
        2 => e.beta_g2 += F::ONE,
        3 => e.gamma_g2 += F::ONE,
        4 => e.delta_g2 += F::ONE,
        5 => e.ic[2] += F::ONE,
        6 => x[1] += F::ONE,
        7 => pr[2] += F::ONE,
        8 => {
            x.pop();
        }
        9 => x.push(F::ONE),
        _ => {}
    }
    let vk = vk_of::<D<F>>(&e);
    let p = proof_of::<D<F>>(&pr);
    if batch == 0 {
        return format!(
            "{:?}",
            verify_proof(&prepare_verifying_key(&vk), &p, &x).is_ok()
        );
    }
    let mut v = batch::Verifier::<D<F>>::new();
    for _ in 0..batch {
        v.queue((p.clone(), x.clone()));
    }
    format!("{:?}", v.verify(&mut c.rng, &vk).is_ok())
}
#[derive(Clone)]
struct Failing<F: PrimeField>(Circ<F>, u64);
impl<F: FieldExt> Circuit<F> for Failing<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut ns = cs.namespace(|| "outer");
        let mut ns = ns.namespace(|| "inner");
        match self.1 {
            0 => panic!("the circuit panics"),
            1 => return Err(SynthesisError::Unsatisfiable),
            2 => self.0.synthesize(&mut ns)?,
            _ => {}
        }
        ns.alloc(|| "missing", || Err(SynthesisError::AssignmentMissing))?;
        panic!("the circuit panics later")
    }
}
fn failing<E: Eng>(s: &mut Sel) -> String {
    let how = s.of(4);
    let keygen = s.of(2) == 1;
    let t = trap::<E::F>(&mut Sel(s.0));
    let p = key::<E>(&mut Sel(s.0));
    trap::<E::F>(s);
    let z = Failing(circuit::<E::F>(s), how);
    let r = guarded(|| {
        if keygen {
            gen::<E, _>(z, &t).map(|_| ())
        } else {
            create_proof::<E, _, _>(z, &p.expect("key"), E::F::ONE, E::F::ONE).map(|_| ())
        }
    });
    format!("{:?}", r)
}
struct Short<'a>(&'a [u8], usize, usize);
impl<'a> Read for Short<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 >= self.2 {
            return Err(io::Error::new(io::ErrorKind::TimedOut, "reader fails"));
        }
        let n = b.len().min(self.2 - self.1).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
impl<'a> Write for Short<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 >= self.2 {
            return Err(io::Error::new(io::ErrorKind::TimedOut, "writer fails"));
        }
        let n = b.len().min(self.2 - self.1);
        self.1 += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn coding<E: Eng>(s: &mut Sel) -> String {
    let what = s.of(6);
    let cut = s.of(5);
    let p = match key::<E>(s) {
        Ok(p) => p,
        Err(e) => return format!("{:?}", e),
    };
    let mut o = vec![];
    p.write(&mut o).expect("write");
    let at = (o.len() as u64 * cut / 5) as usize;
    let show = |r: io::Result<Parameters<E>>| match r {
        Ok(q) => format!("{} {}", q == p, bytes(|o| q.write(o))),
        Err(e) => format!("io {:?} {}", e.kind(), e),
    };
    match what {
        0 => bytes(|o| p.write(o)),
        1 => show(Parameters::read(&o[..], cut % 2 == 0)),
        2 => show(Parameters::read(&o[..at], true)),
        3 => show(Parameters::read(Short(&o, 0, at), true)),
        4 => format!(
            "{:?}",
            p.write(Short(&[], 0, at)).map_err(|e| e.to_string())
        ),
        _ => {
            o[at] ^= 1 << cut;
            show(Parameters::read(&o[..], true))
        }
    }
}
fn gadget<F: FieldExt>(s: &mut Sel) -> String {
    let set = s.pick(&[BOOL_OPS, NUM_OPS, BITS_OPS, LOOKUP_OPS, PACK_OPS]);
    run_gadget::<F>(s, set)
}
fn run_gadget<F: FieldExt>(s: &mut Sel, set: &[K]) -> String {
    let w = s.of(2);
    let mut c = Case::bare(mix(107, s.of(4)));
    let mut p = Prog::random(&mut c, set, 6, 1);
    if w == 1 {
        p = p.other_witness(&mut c);
    }
    let mut t = TestConstraintSystem::<F>::new();
    let mut io = Io::new(true);
    let r = guarded(|| p.synth(&mut t, &mut io));
    let e = format!("{:?}", r.map(|x| x.map_err(|e| format!("{:?}", e))));
    let x = t.verify(&io.public);
    format!(
        "{} {} constraints {} satisfied {:?} {} inputs {} outputs {}",
        e,
        t.num_constraints(),
        t.hash(),
        t.which_is_unsatisfied(),
        t.num_inputs(),
        x,
        digest(
            format!(
                "{:?}",
                io.outs.iter().map(|o| o.reported).collect::<Vec<_>>()
            )
            .as_bytes()
        )
    )
}
/// Tables and words that share all but one entry.
fn tables<F: FieldExt>(s: &mut Sel) -> String {
    use bellman::gadgets::lookup::*;
    let xy = s.of(2) == 0;
    let at = s.of(8) as usize;
    let coord = s.of(3);
    let bits = s.of(8);
    let set = s.of(2);
    let mut c = Case::bare(mix(111, set));
    let size = if xy { 8 } else { 4 };
    let mut v: Vec<(F, F)> = (0..size)
        .map(|_| (F::random(&mut c.rng), F::random(&mut c.rng)))
        .collect();
    match coord {
        1 => v[at % size].0 += F::ONE,
        2 => v[at % size].1 += F::ONE,
        _ => {}
    }
    let mut t = TestConstraintSystem::<F>::new();
    let b: Vec<Boolean> = (0..if xy { 3 } else { 2 })
        .map(|i| {
            Boolean::from(
                AllocatedBit::alloc(
                    t.namespace(|| format!("bit {}", i)),
                    Some(bits >> i & 1 == 1),
                )
                .unwrap(),
            )
        })
        .collect();
    if xy {
        err(lookup3_xy(&mut t, &b, &v), |(x, y)| {
            format!(
                "{:?} {:?} {} {}",
                x.get_value(),
                y.get_value(),
                t.is_satisfied(),
                t.hash()
            )
        })
    } else {
        err(
            lookup3_xy_with_conditional_negation(
                &mut t,
                &[b[0].clone(), b[1].clone(), Boolean::constant(bits & 4 != 0)],
                &v,
            ),
            |(x, y)| {
                format!(
                    "{:?} {:?} {} {}",
                    x.get_value(),
                    y.get_value(),
                    t.is_satisfied(),
                    t.hash()
                )
            },
        )
    }
}
fn hash_circuit(s: &mut Sel) -> String {
    let which = s.of(3);
    let len = s.pick(&[8usize, 64, 0, 55, 65]);
    let mut c = Case::bare(mix(108, s.of(3)));
    let mut t = TestConstraintSystem::<Scalar>::new();
    // the same message but for one bit
    let flip = match s.of(4) {
        1 => 0,
        2 => (len * 8).saturating_sub(1),
        3 => len * 4,
        _ => usize::MAX,
    };
    let bits: Vec<Boolean> = (0..len * 8)
        .map(|i| {
            let b = c.coin() ^ (i == flip);
            match (len * 8 - i) % 61 {
                0 => Boolean::from(
                    AllocatedBit::alloc(t.namespace(|| format!("bit {}", i)), Some(b)).unwrap(),
                ),
                _ => Boolean::constant(b),
            }
        })
        .collect();
    let r = match which {
        0 => sha256(t.namespace(|| "hash"), &bits),
        1 => blake2s(t.namespace(|| "hash"), &bits, b"history0"),
        _ => blake2s(t.namespace(|| "hash"), &bits, b"history1"),
    };
    err(r, |o| {
        format!(
            "{} {} {} {}",
            t.num_constraints(),
            t.hash(),
            t.is_satisfied(),
            digest(format!("{:?}", o.iter().map(|b| b.get_value()).collect::<Vec<_>>()).as_bytes())
        )
    })
}
fn native(s: &mut Sel) -> String {
    let what = s.of(4);
    let mut c = Case::bare(mix(109, s.of(4)));
    match what {
        0 => {
            let mut b: Vec<bool> = (0..1 + c.below(600)).map(|_| c.coin()).collect();
            let n = b.len();
            match s.of(4) {
                1 => b[n - 1] ^= true,
                2 => b[n / 2] ^= true,
                3 => b[0] ^= true,
                _ => {}
            }
            reprs(&multipack::compute_multipacking::<Scalar>(&b))
        }
        1 => {
            let b: Vec<u8> = (0..c.below(60)).map(|_| c.below(256) as u8).collect();
            format!(
                "{}",
                digest(
                    format!(
                        "{:?}{:?}",
                        multipack::bytes_to_bits(&b),
                        multipack::bytes_to_bits_le(&b)
                    )
                    .as_bytes()
                )
            )
        }
        2 => {
            let mut t = TestConstraintSystem::<Scalar>::new();
            let r = guarded(|| {
                for i in 0..3 {
                    let v = t
                        .alloc(|| format!("x{}", i % 2), || Ok(Scalar::from(i)))
                        .unwrap();
                    t.enforce(|| format!("y{}", i), |l| l + v, |l| l + v, |l| l + v);
                }
            });
            format!("{:?} {:?} {}", r, t.which_is_unsatisfied(), t.hash())
        }
        _ => {
            let n = 3 + c.below(60);
            let w = Worker::new();
            let jobs: Vec<_> = (0..n).map(|k| w.compute(move || k * k)).collect();
            format!(
                "{:?}",
                jobs.into_iter()
                    .enumerate()
                    .filter_map(|(i, j)| if i % 3 == 0 { None } else { Some(j.wait()) })
                    .sum::<u64>()
            )
        }
    }
}
fn random_key_of<E: Eng>(s: &mut Sel) -> String
where
    E::G1: group::Group,
{
    let mut c = Case::bare(mix(110, s.of(3)));
    let z = circuit::<E::F>(s);
    err(
        generate_random_parameters::<E, _, _>(z.with(None), &mut c.rng),
        |p| bytes(|o| p.write(o)),
    )
}
const KINDS: u64 = 25;
/// One call (or a short fixed sequence of calls) with fixed arguments; what it returned, as text.
fn op(id: u64) -> String {
    let mut s = Sel(id & 0xffff_ffff);
    let s = &mut s;
    let kind = id >> 32;
    type A = Dlog<F5_55>;
    type B = Dlog<F75_51>;
    // kinds that follow one another confuse types of the same size
    let r = guarded(|| match kind {
        0 => transform::<F5_55>(s),
        1 => transform::<F75_51>(s),
        2 => transform::<BabyBear>(s),
        3 => transform::<Koala>(s),
        4 => transform::<Scalar>(s),
        5 => transform::<F257>(s),
        6 => sum::<F5_55>(s),
        7 => sum::<F75_51>(s),
        8 => err(key::<A>(s), |p| bytes(|o| p.write(o))),
        9 => err(key::<B>(s), |p| bytes(|o| p.write(o))),
        10 => proof::<A>(s),
        11 => proof::<B>(s),
        12 => verdicts::<F5_55>(s),
        13 => verdicts::<F75_51>(s),
        14 => failing::<A>(s),
        15 => failing::<B>(s),
        16 => coding::<A>(s),
        17 => coding::<B>(s),
        18 => gadget::<Scalar>(s),
        19 => gadget::<Gold>(s),
        20 => tables::<Gold>(s),
        21 => tables::<Scalar>(s),
        22 => hash_circuit(s),
        23 => native(s),
        _ => random_key_of::<A>(s),
    });
    let t = match r {
        Ok(t) => t,
        Err(p) => format!("panic: {}", p),
    };
    let t = t.replace(['\n', '\t'], " ");
    if t.len() > 220 {
        format!(
            "{} .. {}",
            t.chars().take(120).collect::<String>(),
            digest(t.as_bytes())
        )
    } else {
        t
    }
}
/// BLS12-381 calls are slow and come last.
fn op_any(id: u64) -> String {
    if id >> 62 == 0 {
        return op(id);
    }
    let mut s = Sel(id & ((1 << 62) - 1));
    let s = &mut s;
    match s.of(3) {
        0 => proof::<Bls12>(s),
        1 => coding::<Bls12>(s),
        _ => failing::<Bls12>(s),
    }
}

/// Child: `history THREADS ID..`: the numbered calls in this order, spread over the threads.
pub fn child(args: &[String]) {
    let threads: usize = args[0].parse().unwrap();
    let ids: Vec<u64> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
    let out = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (ids, out) = (&ids, &out);
            sc.spawn(move || {
                for (i, id) in ids.iter().enumerate() {
                    if i % threads == t {
                        let r = op_any(*id);
                        out.lock().unwrap().push((i, *id, r));
                    }
                }
            });
        }
    });
    let mut o = String::new();
    for (i, id, r) in out.into_inner().unwrap() {
        o += &format!("{}\t{}\t{}\n", i, id, r);
    }
    o += "end\n";
    print!("{}", o);
    let _ = io::stdout().flush();
}
fn run(
    exe: &std::path::Path,
    pool: usize,
    threads: usize,
    ids: &[u64],
) -> R<Option<Vec<(usize, u64, String)>>> {
    let mut args = vec!["history".to_string(), threads.to_string()];
    args.extend(ids.iter().map(|x| x.to_string()));
    let tail = |o: String| {
        o.chars()
            .rev()
            .take(300)
            .collect::<String>()
            .chars()
            .rev()
            .collect::<String>()
            .replace('\n', " ")
    };
    let what = || {
        format!(
            "{} calls from {} threads on a pool of {}: {:?}",
            ids.len(),
            threads,
            pool,
            &ids[..ids.len().min(12)]
        )
    };
    let o = match child_cpu(
        exe,
        &args,
        &[("RAYON_NUM_THREADS", pool.to_string())],
        Duration::from_secs(150),
        120,
    ) {
        Ended::Exit(0, o) => o,
        Ended::Exit(k, o) => fail!("the process ended with {}: {} in {}", k, tail(o), what()),
        Ended::Signal(k, o) => fail!(
            "the process died with signal {}: {} in {}",
            k,
            tail(o),
            what()
        ),
        Ended::Deadlock(_) => fail!("deadlock in {}", what()),
        Ended::Endless(n) => fail!("no end after {} CPU seconds in {}", n, what()),
        Ended::Timeout => return Ok(None),
    };
    let v: Vec<_> = o
        .lines()
        .filter_map(|l| {
            let mut p = l.splitn(3, '\t');
            Some((
                p.next()?.parse().ok()?,
                p.next()?.parse().ok()?,
                p.next()?.to_string(),
            ))
        })
        .collect();
    ensure!(
        o.ends_with("end\n") && v.len() == ids.len(),
        "{} of {} results in {}",
        v.len(),
        ids.len(),
        what()
    );
    Ok(Some(v))
}
static ALONE: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
/// What a call returns in a process that does nothing else.
fn alone(c: &mut Case, exe: &std::path::Path, id: u64) -> R<Option<String>> {
    if let Some(x) = ALONE.lock().unwrap().get(&id) {
        return Ok(Some(x.clone()));
    }
    let Some(v) = run(exe, 2, 1, &[id])? else {
        return Ok(None);
    };
    c.count("calls_alone", 1);
    ALONE.lock().unwrap().insert(id, v[0].2.clone());
    Ok(Some(v[0].2.clone()))
}
fn history(c: &mut Case, exe: &std::path::Path, bls: bool) -> R {
    // calls of few kinds whose arguments have most components in common
    let mut kinds: Vec<u64> = (0..1 + c.below(3)).map(|_| c.below(KINDS)).collect();
    if c.coin() {
        kinds = vec![kinds[0], kinds[0] ^ 1]
            .into_iter()
            .filter(|k| *k < KINDS)
            .collect();
    }
    let base = (0..8).fold(0, |h, _| {
        h << 4 | if c.below(4) == 0 { 0 } else { c.below(16) }
    });
    let mut ids: Vec<u64> = vec![];
    for _ in 0..3 + c.below(10) {
        // one component differs, or none, or two
        let mut v = base;
        for _ in 0..*c.pick(&[0, 1, 1, 1, 2]) {
            let at = 4 * c.below(6);
            v = v & !(15 << at) | c.below(16) << at;
        }
        ids.push(if bls {
            1 << 62 | v
        } else {
            c.pick(&kinds) << 32 | v
        });
    }
    // a single call in a process that knows nothing of the others is the reference
    let set: BTreeSet<u64> = ids.iter().copied().collect();
    let mut want = BTreeMap::new();
    for id in set {
        let Some(x) = alone(c, exe, id)? else {
            c.count("inconclusive_timeouts", 1);
            return Ok(());
        };
        if x.contains("panic") {
            c.count("panicking_calls", 1);
        } else if x.contains("error") || x.contains("io ") || x.contains("Err(") {
            c.count("failing_calls", 1);
        } else {
            c.count("succeeding_calls", 1);
        }
        want.insert(id, x);
    }
    let n = if bls { 8 } else { 20 + c.below(80) as usize };
    let seq: Vec<u64> = (0..n).map(|_| *c.pick(&ids)).collect();
    let threads = *c.pick(&[1usize, 1, 1, 2, 4, 8]);
    let pool = *c.pick(&[1usize, 2, 3, 4, 8]);
    let Some(v) = run(exe, pool, threads, &seq)? else {
        c.count("inconclusive_timeouts", 1);
        return Ok(());
    };
    for (i, id, x) in &v {
        c.ev(1);
        let w = &want[id];
        ensure!(
            x == w,
            "call {} (kind {}) gives {:?} as number {} of a history on {} threads and a pool of {}, and {:?} alone; before it: {:?}",
            id, id >> 32, x, i, threads, pool, w,
            &seq[i.saturating_sub(6)..*i]
        );
    }
    c.count("histories", 1);
    c.count(
        if threads > 1 {
            "calls_beside_others"
        } else {
            "calls_after_others"
        },
        v.len() as u64,
    );
    c.seen(seq.iter().fold(threads as u64, |h, x| mix(h, *x)));
    c.sample(|| {
        format!(
            "{} calls over {} different ones on {} threads, pool {}; first: {} -> {}",
            n,
            want.len(),
            threads,
            pool,
            seq[0],
            want[&seq[0]]
        )
    });
    Ok(())
}
pub fn c28(r: &Runner) -> &'static str {
    let me = std::env::current_exe().expect("exe");
    r.par("histories", 240, 4000, |c| history(c, &me, false));
    r.par("histories_bls12_381", 4, 60, |c| history(c, &me, true));
    "histories of 20..100 calls (transforms, multi-exponentiations, key generation, proving, single and batch verification, coding, gadgets, hashes, worker jobs, and calls that fail or panic; arguments share all but a few components) in one process, one after another or from up to 8 threads, on pools of 1..8; every result compared with that of the same call alone in a fresh process; distinct = distinct histories"
}
