//! Checks C01..C13: linear combinations, namespaces, testing constraint system, gadgets.
#![allow(dead_code, unused_imports, unused_macros)]
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::{bytes_to_bits, bytes_to_bits_le, compute_multipacking, pack_into_inputs};
use bellman::gadgets::num::AllocatedNum;
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::gadgets::test::TestConstraintSystem;
use bellman::gadgets::uint32::UInt32;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use bls12_381::Scalar;
use ff::{Field, PrimeField};
use rand_core::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashMap};
use vh::engine::Dlog;
use vh::forge::{solve, Solved};
use vh::gad::*;
use vh::prog::*;
use vh::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let r = Runner::from_args(&args);
    let rule = match r.prop.as_str() {
        #[cfg(feature = "p01")]
        "C01" => c01(&r),
        #[cfg(feature = "p02")]
        "C02" => c02(&r),
        #[cfg(feature = "p03")]
        "C03" => c03(&r),
        #[cfg(feature = "p04")]
        "C04" => c04(&r),
        #[cfg(feature = "p05")]
        "C05" => c05(&r),
        #[cfg(feature = "p06")]
        "C06" => c06(&r),
        #[cfg(feature = "p07")]
        "C07" => c07(&r),
        #[cfg(feature = "p08")]
        "C08" => c08(&r),
        #[cfg(feature = "p09")]
        "C09" => c09(&r),
        #[cfg(feature = "p10")]
        "C10" => c10(&r),
        #[cfg(feature = "p11")]
        "C11" => c11(&r),
        #[cfg(feature = "p12")]
        "C12" => c12(&r),
        #[cfg(feature = "p13")]
        "C13" => c13(&r),
        x => panic!("unknown property {}", x),
    };
    std::process::exit(r.finish(rule));
}

/// Runs a generic case body on a field chosen by the case.
macro_rules! on_field {
    ($c:expr, $body:ident, [$($t:ty),*]) => {{
        let fs: Vec<fn(&mut Case) -> R> = vec![$($body::<$t>),*];
        let k = $c.below(fs.len() as u64) as usize;
        fs[k]($c)
    }};
}

// ---------------------------------------------------------------- C01
fn c01(r: &Runner) -> &'static str {
    fn body<F: FieldExt>(c: &mut Case) -> R {
        let n_in = 1 + c.below(4) as usize;
        let n_aux = 1 + c.below(5) as usize;
        // indices are shared between kinds on purpose, and one is huge
        let mut vars: Vec<(bool, usize)> = vec![];
        for i in 0..n_in {
            vars.push((true, i));
        }
        for i in 0..n_aux {
            vars.push((false, i));
        }
        let var = |v: (bool, usize)| Variable::new_unchecked(if v.0 { Index::Input(v.1) } else { Index::Aux(v.1) });
        for v in &vars {
            let x = var(*v).get_unchecked();
            ensure!(
                x == (if v.0 { Index::Input(v.1) } else { Index::Aux(v.1) }),
                "variable {:?} came back as {:?}", v, x
            );
        }
        type D<F> = BTreeMap<(bool, usize), F>;
        let dense = |lc: &LinearCombination<F>| -> D<F> {
            let mut m = D::new();
            for (v, k) in lc.as_ref() {
                let key = match v.get_unchecked() {
                    Index::Input(i) => (true, i),
                    Index::Aux(i) => (false, i),
                };
                *m.entry(key).or_insert(F::ZERO) += k;
            }
            m.retain(|_, x| !x.is_zero_vartime());
            m
        };
        let mut pool: Vec<(LinearCombination<F>, D<F>)> = vec![(LinearCombination::zero(), D::new())];
        let steps = 3 + c.below(22);
        let mut ops = String::new();
        for _ in 0..steps {
            let i = c.below(pool.len() as u64) as usize;
            let j = c.below(pool.len() as u64) as usize;
            let (base, mut d) = pool[i].clone();
            let (other, od) = pool[j].clone();
            if other.as_ref().len() + base.as_ref().len() > 4000 {
                continue;
            }
            let rnd = F::random(&mut c.rng);
            let k: F = special(c.rng.next_u32(), rnd);
            let v = *c.pick(&vars);
            let op = c.below(8);
            ops.push_str(&format!("{}({},{},{:?},{:?}) ", op, i, j, v, k));
            let mut acc = |key, x: F| *d.entry(key).or_insert(F::ZERO) += x;
            let out = match op {
                0 => { acc(v, F::ONE); base + var(v) }
                1 => { acc(v, -F::ONE); base - var(v) }
                2 => { acc(v, k); base + (k, var(v)) }
                3 => { acc(v, -k); base - (k, var(v)) }
                4 => { for (a, x) in &od { acc(*a, *x) } base + &other }
                5 => { for (a, x) in &od { acc(*a, -*x) } base - &other }
                6 => { for (a, x) in &od { acc(*a, *x * k) } base + (k, &other) }
                _ => { for (a, x) in &od { acc(*a, -(*x * k)) } base - (k, &other) }
            };
            d.retain(|_, x| !x.is_zero_vartime());
            c.ev(1);
            c.count(&format!("operator_{}", op), 1);
            ensure!(dense(&out) == d, "{}: after {} the combination is {:?}, expected {:?}", F::NAME, ops, dense(&out), d);
            ensure!(dense(&other) == od, "{}: operand changed by {}", F::NAME, ops);
            ensure!(dense(&pool[i].0) == pool[i].1, "{}: left operand changed by {}", F::NAME, ops);
            pool.push((out, d));
        }
        // evaluation under assignments through the testing constraint system: <lc> * 1 = expected
        for _ in 0..3 {
            let mut t = TestConstraintSystem::<F>::new();
            let mut val: HashMap<(bool, usize), F> = HashMap::new();
            val.insert((true, 0), F::ONE);
            for i in 1..n_in {
                let x = F::random(&mut c.rng);
                t.alloc_input(|| format!("i{}", i), || Ok(x)).unwrap();
                val.insert((true, i), x);
            }
            for i in 0..n_aux {
                let x = F::random(&mut c.rng);
                t.alloc(|| format!("a{}", i), || Ok(x)).unwrap();
                val.insert((false, i), x);
            }
            let (lc, d) = pool[pool.len() - 1].clone();
            let e = d.iter().fold(F::ZERO, |a, (k, x)| a + *x * val[k]);
            let one = TestConstraintSystem::<F>::one();
            let delta = if c.coin() { F::ZERO } else { F::from(1 + c.below(3)) };
            t.enforce(|| "value", |_| lc, |l| l + one, |l| l + (e + delta, one));
            c.ev(1);
            ensure!(
                t.is_satisfied() == delta.is_zero_vartime(),
                "{}: combination {:?} does not evaluate to {:?} (offset {:?})", F::NAME, d, e, delta
            );
        }
        c.seen(hash_bytes(ops.as_bytes()));
        c.sample(|| format!("{}: {}", F::NAME, ops));
        Ok(())
    }
    // long combinations over far-apart variables, built in one go
    fn wide<F: FieldExt>(c: &mut Case) -> R {
        let n = *c.pick(&[20u64, 100, 300, 1000, 5000, 70000]);
        let n = c.below(n) + 1;
        let span = *c.pick(&[3u64, 300, 70000, 1 << 33, 1 << 48]);
        type D<F> = BTreeMap<(bool, usize), F>;
        let part = |c: &mut Case, n: u64| {
            let mut lc = LinearCombination::<F>::zero();
            let mut d = D::new();
            for _ in 0..n {
                let key = (c.coin(), c.below(span) as usize);
                let v = Variable::new_unchecked(if key.0 { Index::Input(key.1) } else { Index::Aux(key.1) });
                let rnd = F::random(&mut c.rng);
                let k: F = special(c.rng.next_u32(), rnd);
                let x = match c.below(4) {
                    0 => { lc = lc + v; F::ONE }
                    1 => { lc = lc - v; -F::ONE }
                    2 => { lc = lc + (k, v); k }
                    _ => { lc = lc - (k, v); -k }
                };
                *d.entry(key).or_insert(F::ZERO) += x;
            }
            (lc, d)
        };
        let (mut lc, mut d) = part(c, n);
        for _ in 0..c.below(4) {
            let m = c.below(n + 1);
            let (o, od) = part(c, m);
            let rnd = F::random(&mut c.rng);
            let k: F = special(c.rng.next_u32(), rnd);
            let x = match c.below(4) {
                0 => { lc = lc + &o; F::ONE }
                1 => { lc = lc - &o; -F::ONE }
                2 => { lc = lc + (k, &o); k }
                _ => { lc = lc - (k, &o); -k }
            };
            for (v, y) in od {
                *d.entry(v).or_insert(F::ZERO) += x * y;
            }
        }
        d.retain(|_, x| !x.is_zero_vartime());
        let mut got = D::new();
        for (v, k) in lc.as_ref() {
            let key = match v.get_unchecked() {
                Index::Input(i) => (true, i),
                Index::Aux(i) => (false, i),
            };
            *got.entry(key).or_insert(F::ZERO) += k;
        }
        got.retain(|_, x| !x.is_zero_vartime());
        c.ev(1);
        c.count("long_combinations", 1);
        if got != d {
            let bad = got.iter().find(|(k, x)| d.get(k) != Some(x)).or_else(|| d.iter().find(|(k, x)| got.get(k) != Some(x)));
            fail!("{}: a combination of {} terms over indices below {} is wrong at {:?}", F::NAME, n, span, bad);
        }
        c.seen(mix(n, c.idx));
        Ok(())
    }
    r.par("wide", 600, 20000, |c| on_field!(c, wide, [F5, F97, Gold, Scalar]));
    r.par("expressions", 200000, 6000000, |c| on_field!(c, body, [F5, F13, F97, F65537, BabyBear, Gold, M61, Scalar]));
    "random sequences of the eight LinearCombination operators over shared input/aux indices and boundary coefficients; after each operator the term list is collapsed and compared with a dense reference, operands re-compared, final value checked under random assignments; distinct = distinct operator sequences"
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug)]
enum Act {
    Alloc(u64),
    Input(u64),
    Enforce(u64),
    Ns(Vec<Act>),
    Fail,
    Panic,
    Root,
}
fn gen_acts(c: &mut Case, depth: u32, n: u64) -> Vec<Act> {
    let mut v = vec![];
    for _ in 0..n {
        let k = c.below(if depth == 0 { 7 } else { 10 });
        let r = c.rng.next_u64();
        v.push(match k {
            0 | 1 => Act::Alloc(r),
            2 => Act::Input(r),
            3 | 4 | 5 => Act::Enforce(r),
            6 => Act::Root,
            _ => {
                let m = c.below(4);
                Act::Ns(gen_acts(c, depth - 1, m))
            }
        });
    }
    v
}
fn plant(c: &mut Case, v: &mut Vec<Act>, a: Act) {
    let n = v.len();
    let i = c.below(n as u64 + 1) as usize;
    let nested: Vec<usize> = (0..n).filter(|i| matches!(v[*i], Act::Ns(_))).collect();
    if !nested.is_empty() && c.below(4) != 0 {
        let k = *c.pick(&nested);
        if let Act::Ns(w) = &mut v[k] {
            plant(c, w, a);
            return;
        }
    }
    v.insert(i, a);
}
struct Ctx {
    vars: Vec<Variable>,
    n: usize,
}
fn play<F: FieldExt, CS: ConstraintSystem<F>>(cs: &mut CS, acts: &[Act], x: &mut Ctx) -> Result<(), SynthesisError> {
    for a in acts {
        x.n += 1;
        let n = x.n;
        match a {
            Act::Alloc(r) => {
                let v = F::from(*r);
                x.vars.push(cs.alloc(|| format!("v{}", n), || Ok(v))?)
            }
            Act::Input(r) => {
                let v = F::from(*r);
                x.vars.push(cs.alloc_input(|| format!("i{}", n), || Ok(v))?)
            }
            Act::Enforce(r) => {
                let pick = |k: u64| if x.vars.is_empty() { CS::one() } else { x.vars[(k % x.vars.len() as u64) as usize] };
                let (p, q, s) = (pick(*r), pick(*r >> 16), pick(*r >> 32));
                let co = F::from(*r);
                cs.enforce(|| format!("c{}", n), |l| l + (co, p), |l| l + q - CS::one(), |l| l + s + (co, q))
            }
            Act::Ns(v) => {
                let mut ns = cs.namespace(|| format!("n{}", n));
                play(&mut ns, v, x)?;
            }
            Act::Root => {
                let v = cs.get_root().alloc(|| format!("r{}", n), || Ok(F::ONE))?;
                x.vars.push(v)
            }
            Act::Fail => return Err(SynthesisError::Unsatisfiable),
            Act::Panic => panic!("injected"),
        }
    }
    Ok(())
}
/// The expected trace at the root, independent of any wrapper.
fn expected(acts: &[Act], n: &mut usize, st: &mut (usize, usize, usize), out: &mut Vec<Ev>) -> bool {
    for a in acts {
        *n += 1;
        match a {
            Act::Alloc(_) | Act::Root => {
                out.push(Ev::Alloc(st.0));
                st.0 += 1
            }
            Act::Input(_) => {
                out.push(Ev::Input(st.1));
                st.1 += 1
            }
            Act::Enforce(_) => {
                out.push(Ev::Enforce(st.2));
                st.2 += 1
            }
            Act::Ns(v) => {
                out.push(Ev::Push(format!("n{}", *n)));
                let ok = expected(v, n, st, out);
                out.push(Ev::Pop);
                if !ok {
                    return false;
                }
            }
            Act::Fail | Act::Panic => return false,
        }
    }
    true
}
fn c02(r: &Runner) -> &'static str {
    fn body<F: FieldExt>(c: &mut Case) -> R {
        let m = 1 + c.below(8);
        let mut acts = gen_acts(c, 4, m);
        if c.below(40) == 0 {
            // deep nesting, or very many siblings
            if c.coin() {
                for _ in 0..10 + c.below(90) {
                    let mut outer = gen_acts(c, 0, 1);
                    outer.push(Act::Ns(acts));
                    let m = c.below(2);
                    outer.extend(gen_acts(c, 0, m));
                    acts = outer;
                }
            } else {
                let m = 100 + c.below(300);
                acts = gen_acts(c, 1, m);
            }
        }
        let kind = c.below(4);
        match kind {
            0 => plant(c, &mut acts, Act::Fail),
            1 => plant(c, &mut acts, Act::Panic),
            _ => {}
        }
        let mut want = vec![];
        let ok = expected(&acts, &mut 0, &mut (0, 1, 0), &mut want);
        // direct reference: constraints as seen by the root
        let mut direct = Rec::<F>::new(Mode::Prove);
        let _ = guarded(|| play(&mut direct, &acts, &mut Ctx { vars: vec![], n: 0 }));
        let wrappers = ["direct", "&mut", "&mut &mut", "namespace", "multieq", "multieq(&mut)", "multieq(namespace)", "namespace of multieq", "&mut multieq", "multieq(multieq)"];
        for (k, name) in wrappers.iter().enumerate() {
            let mut rec = Rec::<F>::new(Mode::Prove);
            let mut cx = Ctx { vars: vec![], n: 0 };
            let res = guarded(|| match k {
                0 => play(&mut rec, &acts, &mut cx),
                1 => play(&mut &mut rec, &acts, &mut cx),
                2 => play(&mut &mut &mut rec, &acts, &mut cx),
                3 => play(&mut rec.namespace(|| "outer"), &acts, &mut cx),
                4 | 5 => play(&mut MultiEq::new(&mut rec), &acts, &mut cx),
                6 => play(&mut MultiEq::new(rec.namespace(|| "outer")), &acts, &mut cx),
                7 => {
                    let mut m = MultiEq::new(&mut rec);
                    let mut ns = m.namespace(|| "outer");
                    play(&mut ns, &acts, &mut cx)
                }
                8 => {
                    let mut m = MultiEq::new(&mut rec);
                    play(&mut &mut m, &acts, &mut cx)
                }
                _ => {
                    let mut m = MultiEq::new(&mut rec);
                    let r = play(&mut MultiEq::new(&mut m), &acts, &mut cx);
                    r
                }
            });
            c.ev(1);
            c.count("wrapped_runs", 1);
            match (&res, kind, ok) {
                (Ok(Ok(())), _, true) => {}
                (Ok(Err(SynthesisError::Unsatisfiable)), 0, false) => c.count("error_exits", 1),
                (Err(m), 1, false) if m.contains("injected") => c.count("panic_exits", 1),
                _ => fail!("{} through {}: result {:?}; acts {:?}", F::NAME, name, res, acts),
            }
            let mut w = want.clone();
            if matches!(k, 3 | 6 | 7) {
                w.insert(0, Ev::Push("outer".into()));
                w.push(Ev::Pop);
            }
            if rec.trace != w {
                let i = rec.trace.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(rec.trace.len().min(w.len()));
                fail!(
                    "{} through {}: event {} at the root is {:?}, expected {:?}; acts {:?}",
                    F::NAME, name, i, rec.trace.get(i), w.get(i), acts
                );
            }
            c.count("root_events", rec.trace.len() as u64);
            if let Some(d) = direct.shape().diff(&rec.shape()) {
                fail!("{} through {}: {}; acts {:?}", F::NAME, name, d, acts);
            }
            let strip = |s: &str| s.strip_prefix("outer/").unwrap_or(s).to_string();
            let names = |r: &Rec<F>| -> Vec<String> {
                r.inputs.iter().chain(r.aux.iter()).map(|x| strip(&x.1)).chain(r.cons.iter().map(|x| strip(&x.3))).collect()
            };
            ensure!(names(&direct) == names(&rec), "{} through {}: names differ: {:?} vs {:?}", F::NAME, name, names(&direct), names(&rec));
            let vals = |r: &Rec<F>| r.assignment();
            ensure!(vals(&direct) == vals(&rec), "{} through {}: assignments differ", F::NAME, name);
            for (i, v) in cx.vars.iter().enumerate() {
                // handed-out variables are the ones the root created, in order
                let mut want_v = vec![];
                for e in &want {
                    match e {
                        Ev::Alloc(i) => want_v.push(Index::Aux(*i)),
                        Ev::Input(i) => want_v.push(Index::Input(*i)),
                        _ => {}
                    }
                }
                ensure!(v.get_unchecked() == want_v[i], "{} through {}: variable {} is {:?}, expected {:?}", F::NAME, name, i, v, want_v[i]);
            }
            // the system is usable under the same top-level names afterwards
            let v = rec.alloc(|| "after", || Ok(F::ONE)).unwrap();
            ensure!(rec.aux.last().unwrap().1 == "after" && v.get_unchecked() == Index::Aux(rec.aux.len() - 1), "through {}: later name is {}", name, rec.aux.last().unwrap().1);
        }
        // the testing constraint system stores the same names
        if kind != 1 {
            let mut t = TestConstraintSystem::<F>::new();
            let _ = play(&mut t, &acts, &mut Ctx { vars: vec![], n: 0 });
            for (x, n) in direct.inputs.iter().chain(direct.aux.iter()) {
                c.ev(1);
                let g = guarded(|| t.get(n));
                ensure!(g == Ok(x.unwrap()), "TestConstraintSystem get({}) = {:?}, expected {:?}; acts {:?}", n, g, x, acts);
            }
            ensure!(t.num_constraints() == direct.cons.len() && t.num_inputs() == direct.inputs.len(), "counts differ");
            t.alloc(|| "after", || Ok(F::ONE)).unwrap();
            ensure!(guarded(|| t.get("after")) == Ok(F::ONE), "name after the circuit is not at top level; acts {:?}", acts);
        }
        c.seen(hash_bytes(format!("{:?}", acts).as_bytes()));
        c.sample(|| format!("{} {:?}", F::NAME, acts));
        Ok(())
    }
    r.par("wrappers", 60000, 2400000, |c| on_field!(c, body, [F97, Gold, Scalar]));
    // nested real gadgets leave namespaces balanced on AssignmentMissing exits at every allocation
    r.par("gadget_error_exits", 3000, 90000, |c| {
        let n = 1 + c.below(6) as usize;
        let p = Prog::random(c, WORD_OPS, n, 2);
        let total = {
            let mut rec = Rec::<Gold>::new(Mode::Prove);
            p.synth(&mut rec, &mut Io::new(true)).map_err(|e| format!("honest synthesis failed {:?}", e))?;
            rec.allocs
        };
        for _ in 0..12 {
            let k = c.below(total as u64 + 1) as usize;
            let mut rec = Rec::<Gold>::new(Mode::Prove);
            let panic = c.coin();
            if panic {
                rec.panic_at = Some(k)
            } else {
                rec.fail_at = Some(k)
            }
            let e = guarded(|| p.synth(&mut rec, &mut Io::new(true)));
            c.ev(1);
            c.count(if panic { "injected_panics" } else { "injected_errors" }, 1);
            if k < total {
                ensure!(
                    match &e { Ok(Err(SynthesisError::AssignmentMissing)) => !panic, Err(m) => panic && m.contains("injected"), _ => false },
                    "failure at allocation {} gave {:?}", k, e
                );
            }
            ensure!(rec.ns.is_empty() && rec.pops_underflow == 0, "failure at allocation {} left namespaces {:?} (underflows {})", k, rec.ns, rec.pops_underflow);
        }
        c.seen(hash_bytes(format!("{:?}", p.ops).as_bytes()));
        Ok(())
    });
    "random scripts of alloc/alloc_input/enforce/nested namespaces/root access with injected errors and panics, replayed through ten wrapper stacks; the event trace, names, variables, constraints and assignment at a recording root are compared with the direct trace; distinct = distinct scripts"
}

// ---------------------------------------------------------------- C03
fn c03(r: &Runner) -> &'static str {
    fn body<F: FieldExt>(c: &mut Case) -> R {
        let mut t = TestConstraintSystem::<F>::new();
        ensure!(t.is_satisfied() && t.num_inputs() == 1 && t.num_constraints() == 0, "fresh system not empty");
        let mut inputs: Vec<(String, F)> = vec![("ONE".into(), F::ONE)];
        let mut aux: Vec<(String, F)> = vec![];
        let mut cons: Vec<(Terms<F>, Terms<F>, Terms<F>, String)> = vec![];
        let mut used: Vec<String> = vec!["ONE".into()];
        let n = 2 + c.below(14);
        for s in 0..n {
            let depth = c.below(3);
            let path: Vec<String> = (0..depth).map(|d| format!("ns{}_{}", s, d)).collect();
            let leaf = format!("o{}", s);
            let full = path.iter().cloned().chain(Some(leaf.clone())).collect::<Vec<_>>().join("/");
            for d in 0..depth as usize {
                used.push(path[..=d].join("/"));
            }
            used.push(full.clone());
            for p in &path {
                t.push_namespace(|| p.clone());
            }
            match c.below(4) {
                0 => {
                    let x = F::random(&mut c.rng);
                    let v = t.alloc_input(|| leaf, || Ok(x)).unwrap();
                    ensure!(v.get_unchecked() == Index::Input(inputs.len()), "input index");
                    inputs.push((full, x));
                }
                1 => {
                    let x = F::random(&mut c.rng);
                    let v = t.alloc(|| leaf, || Ok(x)).unwrap();
                    ensure!(v.get_unchecked() == Index::Aux(aux.len()), "aux index");
                    aux.push((full, x));
                }
                _ => {
                    let lc = |c: &mut Case| -> Terms<F> {
                        let l = if c.below(12) == 0 { c.below(60) } else { c.below(5) };
                        (0..l)
                            .map(|_| {
                                let i = c.below((inputs.len() + aux.len()) as u64) as usize;
                                let rnd = F::random(&mut c.rng);
                                let k = special(c.rng.next_u32(), rnd);
                                (if i < inputs.len() { Index::Input(i) } else { Index::Aux(i - inputs.len()) }, k)
                            })
                            .collect()
                    };
                    let (a, b, mut cc) = (lc(c), lc(c), lc(c));
                    let ev = |t: &Terms<F>| {
                        t.iter().fold(F::ZERO, |s, (i, k)| {
                            s + *k * match i { Index::Input(i) => inputs[*i].1, Index::Aux(i) => aux[*i].1 }
                        })
                    };
                    if c.below(3) != 0 {
                        // make it hold
                        let d = ev(&a) * ev(&b) - ev(&cc);
                        cc.push((Index::Input(0), d));
                    }
                    let mk = |t: &Terms<F>| {
                        t.iter().fold(LinearCombination::zero(), |l, (i, k)| l + (*k, Variable::new_unchecked(*i)))
                    };
                    let (la, lb, lcc) = (mk(&a), mk(&b), mk(&cc));
                    t.enforce(|| leaf, |_| la, |_| lb, |_| lcc);
                    cons.push((a, b, cc, full));
                }
            }
            for _ in &path {
                t.pop_namespace();
            }
        }
        let verdict = |inputs: &Vec<(String, F)>, aux: &Vec<(String, F)>| -> Option<String> {
            let ev = |t: &Terms<F>| {
                t.iter().fold(F::ZERO, |s, (i, k)| {
                    s + *k * match i { Index::Input(i) => inputs[*i].1, Index::Aux(i) => aux[*i].1 }
                })
            };
            cons.iter().find(|(a, b, cc, _)| ev(a) * ev(b) != ev(cc)).map(|x| x.3.clone())
        };
        let h0 = t.hash_if::<F>();
        for round in 0..6 {
            let want = verdict(&inputs, &aux);
            c.ev(1);
            ensure!(
                t.which_is_unsatisfied().map(|s| s.to_string()) == want && t.is_satisfied() == want.is_none(),
                "{}: verdict {:?}/{}, expected first violated {:?}; constraints {:?}",
                F::NAME, t.which_is_unsatisfied(), t.is_satisfied(), want, cons
            );
            c.count(if want.is_none() { "satisfied_verdicts" } else { "unsatisfied_verdicts" }, 1);
            for (i, (n, x)) in inputs.iter().enumerate() {
                ensure!(guarded(|| t.get_input(i, n)) == Ok(*x), "get_input({},{})", i, n);
                ensure!(guarded(|| t.get(n)) == Ok(*x), "get({})", n);
            }
            for (n, x) in aux.iter() {
                ensure!(guarded(|| t.get(n)) == Ok(*x), "get({})", n);
            }
            let exp: Vec<F> = inputs[1..].iter().map(|x| x.1).collect();
            ensure!(t.verify(&exp), "verify() rejects the true inputs");
            for k in 0..exp.len() {
                let mut e = exp.clone();
                e[k] += F::from(1 + c.below(3));
                ensure!(!t.verify(&e), "verify() accepts a wrong input at {}", k);
            }
            ensure!(t.num_inputs() == inputs.len() && t.num_constraints() == cons.len(), "counts");
            ensure!(t.hash_if::<F>() == h0, "digest changed by set()");
            // change something: sometimes to a value that is equal or differs only slightly
            let i = c.below((inputs.len() + aux.len()) as u64) as usize;
            let rnd = F::random(&mut c.rng);
            let x = special(c.rng.next_u32(), rnd);
            let slot = if i < inputs.len() { &mut inputs[i] } else { &mut aux[i - inputs.len()] };
            if i == 0 && round < 5 {
                continue;
            }
            slot.1 = x;
            let name = slot.0.clone();
            ensure!(guarded(|| t.set(&name, x)).is_ok(), "set({}) refused", name);
        }
        // refused names
        let dup = c.pick(&used).clone();
        let mut comps: Vec<&str> = dup.split('/').collect();
        let leaf = comps.pop().unwrap().to_string();
        // reaching the parent needs its namespaces, which already exist: write them directly
        if comps.is_empty() {
            for kind in 0..4 {
                let l = leaf.clone();
                let mut t2 = clone_like(&inputs, &aux, &used);
                let res = guarded(|| match kind {
                    0 => { t2.alloc(|| l, || Ok(F::ONE)).map(|_| ()).unwrap() }
                    1 => { t2.alloc_input(|| l, || Ok(F::ONE)).map(|_| ()).unwrap() }
                    2 => t2.enforce(|| l, |x| x, |x| x, |x| x),
                    _ => t2.push_namespace(|| l),
                });
                c.ev(1);
                c.count("duplicate_names_refused", 1);
                ensure!(res.is_err(), "duplicate name {} accepted as kind {}", leaf, kind);
            }
        }
        for bad in ["a/b", "/", "x/", "/y"] {
            for kind in 0..4 {
                let mut t2 = TestConstraintSystem::<F>::new();
                let res = guarded(|| match kind {
                    0 => { t2.alloc(|| bad, || Ok(F::ONE)).map(|_| ()).unwrap() }
                    1 => { t2.alloc_input(|| bad, || Ok(F::ONE)).map(|_| ()).unwrap() }
                    2 => t2.enforce(|| bad, |x| x, |x| x, |x| x),
                    _ => t2.push_namespace(|| bad),
                });
                ensure!(res.is_err(), "name {:?} with a separator accepted as kind {}", bad, kind);
            }
        }
        ensure!(guarded(|| t.set("no such path", F::ONE)).is_err(), "set of unknown path accepted");
        ensure!(guarded(|| t.get("no such path")).is_err(), "get of unknown path accepted");
        if let Some((_, _, _, n)) = cons.first() {
            ensure!(guarded(|| t.get(n)).is_err(), "get of a constraint's path returned a value");
        }
        // the printed listing shows every constraint in order with its combined terms
        let mut want = String::new();
        for (a, b, d, name) in &cons {
            let show = |terms: &Terms<F>| -> String {
                let mut m: std::collections::BTreeMap<(bool, usize), F> = Default::default();
                for (v, k) in terms {
                    let key = match v { Index::Input(i) => (false, *i), Index::Aux(i) => (true, *i) };
                    *m.entry(key).or_insert(F::ZERO) += *k;
                }
                let mut out = String::new();
                for ((is_aux, i), k) in m.iter().filter(|x| *x.1 != F::ZERO) {
                    let minus = *k == -F::ONE;
                    if minus { out.push('-') } else if !out.is_empty() { out.push('+') }
                    if *k != F::ONE && !minus {
                        let mut pow = F::ONE;
                        for e in 0..F::NUM_BITS {
                            if pow == *k {
                                out += &format!("2^{}.", e);
                                break;
                            }
                            pow = pow.double();
                        }
                        out += &format!("{:?}.", k);
                    }
                    out += &format!("`{}`", if *is_aux { &aux[*i].0 } else { &inputs[*i].0 });
                }
                if out.is_empty() { "0".into() } else { out }
            };
            want += &format!("{}:({})*({})=({})", name, show(a), show(b), show(d));
        }
        let squeeze = |s: &str| s.chars().filter(|x| !x.is_whitespace()).collect::<String>();
        c.ev(1);
        c.count("listings_compared", 1);
        let got = t.pretty_print();
        ensure!(squeeze(&got) == squeeze(&want), "{}: the listing reads {:?}, expected (apart from spacing) {:?}", F::NAME, got, want);
        c.seen(hash_bytes(format!("{:?}", cons).as_bytes()));
        c.sample(|| format!("{} {} constraints {:?}", F::NAME, cons.len(), cons.first()));
        Ok(())
    }
    /// a system with the same top-level names (namespaces, variables, constraints)
    fn clone_like<F: FieldExt>(inputs: &[(String, F)], aux: &[(String, F)], used: &[String]) -> TestConstraintSystem<F> {
        let mut t = TestConstraintSystem::<F>::new();
        for u in used.iter().skip(1).filter(|u| !u.contains('/')) {
            if inputs.iter().any(|x| x.0 == *u) {
                t.alloc_input(|| u.clone(), || Ok(F::ONE)).unwrap();
            } else if aux.iter().any(|x| x.0 == *u) {
                t.alloc(|| u.clone(), || Ok(F::ONE)).unwrap();
            } else if u.starts_with("ns") {
                t.push_namespace(|| u.clone());
                t.pop_namespace();
            } else {
                t.enforce(|| u.clone(), |x| x, |x| x, |x| x);
            }
        }
        t
    }
    trait HashIf {
        fn hash_if<F: FieldExt>(&self) -> String;
    }
    impl<G: FieldExt> HashIf for TestConstraintSystem<G> {
        fn hash_if<F: FieldExt>(&self) -> String {
            // the digest is defined for 32-byte encodings
            if std::mem::size_of::<F::Repr>() == 32 { self.hash() } else { String::new() }
        }
    }
    r.par("verdicts", 15000, 600000, |c| on_field!(c, body, [F5, F13, F97, BabyBear, Gold, Scalar, Scalar]));
    // systems too large for narrow indices: verdict, values and digest
    r.par("big", 24, 600, |c| {
        type F = Scalar;
        let n_in = *c.pick(&[3usize, 250, 256, 257, 300, 1000, 66000]);
        let n_aux = *c.pick(&[3usize, 255, 256, 300, 1000, 66000]);
        let n_cons = *c.pick(&[3usize, 255, 256, 257, 1000, 3000]);
        let nv = 1 + n_in + n_aux;
        let index = |v: usize| if v <= n_in { Index::Input(v) } else { Index::Aux(v - 1 - n_in) };
        let small = |c: &mut Case| F::from(c.below(1 << 20));
        let mut vals: Vec<F> = (0..nv).map(|_| small(c)).collect();
        vals[0] = F::ONE;
        let mut cons: Vec<[Vec<(usize, F)>; 3]> = vec![];
        let eval = |t: &[(usize, F)], vals: &[F]| t.iter().fold(F::ZERO, |a, (v, k)| a + *k * vals[*v]);
        for _ in 0..n_cons {
            let mut lc = |c: &mut Case| -> Vec<(usize, F)> {
                let l = c.below(4);
                (0..l).map(|_| (c.below(nv as u64) as usize, small(c))).collect()
            };
            let (a, b, mut d) = (lc(c), lc(c), lc(c));
            d.push((0, eval(&a, &vals) * eval(&b, &vals) - eval(&d, &vals)));
            cons.push([a, b, d]);
        }
        let build = |cons: &[[Vec<(usize, F)>; 3]], vals: &[F]| {
            let mut t = TestConstraintSystem::<F>::new();
            for i in 1..=n_in {
                t.alloc_input(|| format!("i{}", i), || Ok(vals[i])).unwrap();
            }
            for i in 0..n_aux {
                t.alloc(|| format!("a{}", i), || Ok(vals[1 + n_in + i])).unwrap();
            }
            for (k, con) in cons.iter().enumerate() {
                let mk = |t: &[(usize, F)]| t.iter().fold(LinearCombination::zero(), |l, (v, k)| l + (*k, Variable::new_unchecked(index(*v))));
                t.enforce(|| format!("c{}", k), |_| mk(&con[0]), |_| mk(&con[1]), |_| mk(&con[2]));
            }
            t
        };
        let mut t = build(&cons, &vals);
        let h = t.hash();
        c.ev(3);
        ensure!(t.is_satisfied() && t.which_is_unsatisfied().is_none(), "large satisfied system reported as {:?}", t.which_is_unsatisfied());
        ensure!(t.num_inputs() == n_in + 1 && t.num_constraints() == n_cons, "counts {} {}, expected {} {}", t.num_inputs(), t.num_constraints(), n_in + 1, n_cons);
        ensure!(t.verify(&vals[1..=n_in]), "verify() rejects the true inputs of a large system");
        for _ in 0..20 {
            let v = c.below(nv as u64) as usize;
            let name = match index(v) { Index::Input(0) => "ONE".to_string(), Index::Input(i) => format!("i{}", i), Index::Aux(i) => format!("a{}", i) };
            ensure!(t.get(&name) == vals[v], "get({}) of a large system", name);
            if v > 0 && v <= n_in {
                let mut x = vals[1..=n_in].to_vec();
                x[v - 1] += F::ONE;
                ensure!(!t.verify(&x), "verify() accepts a wrong input at {} of {}", v - 1, n_in);
            }
            if v > 0 {
                let old = vals[v];
                vals[v] = small(c);
                t.set(&name, vals[v]);
                let want = cons.iter().position(|x| eval(&x[0], &vals) * eval(&x[1], &vals) != eval(&x[2], &vals)).map(|k| format!("c{}", k));
                c.ev(1);
                ensure!(t.which_is_unsatisfied().map(|s| s.to_string()) == want, "after set({}) the first violated constraint is {:?}, expected {:?}", name, t.which_is_unsatisfied(), want);
                ensure!(t.is_satisfied() == want.is_none(), "is_satisfied() of a large system");
                vals[v] = old;
                t.set(&name, old);
            }
        }
        // violate two constraints far apart: the first is named
        let (i, j) = (c.below(n_cons as u64) as usize, c.below(n_cons as u64) as usize);
        let mut bad = cons.clone();
        for k in [i, j] {
            bad[k][2].push((0, F::ONE));
        }
        let t = build(&bad, &vals);
        ensure!(i == j || t.which_is_unsatisfied() == Some(&format!("c{}", i.min(j))[..]), "first violated constraint {:?}, expected c{}", t.which_is_unsatisfied(), i.min(j));
        // variables whose indices agree in their low bits
        for (n, input) in [(n_in, true), (n_aux, false)] {
            for d in [1usize << 16, 1 << 8] {
                if n > d + 1 {
                    let lo = 1 + c.below((n - d - 1) as u64) as usize;
                    let at = |i: usize| if input { i } else { n_in + 1 + i };
                    let (k, s) = (c.below(n_cons as u64) as usize, c.below(3) as usize);
                    // on their own, and after terms that come earlier in any order
                    let (mut x, mut y) = (cons.clone(), cons.clone());
                    let mut few = x[k][s].clone();
                    few.retain(|t| c.coin() && t.0 < at(lo));
                    x[k][s] = few.clone();
                    y[k][s] = few;
                    x[k][s].push((at(lo), F::ONE));
                    y[k][s].push((at(lo + d), F::ONE));
                    c.ev(1);
                    c.count("digest_pairs", 1);
                    ensure!(build(&x, &vals).hash() != build(&y, &vals).hash(), "systems with {} {} and {} in constraint {} have the same digest", if input { "input" } else { "aux" }, lo, lo + d, k);
                }
            }
        }
        // one index moved by a power of two, or two constraints exchanged
        for _ in 0..6 {
            let mut m = cons.clone();
            let k = c.below(n_cons as u64) as usize;
            if c.below(4) == 0 {
                let o = c.below(n_cons as u64) as usize;
                m.swap(k, o);
            } else {
                let s = c.below(3) as usize;
                let Some(i) = (0..m[k][s].len()).next() else { continue };
                let d = 1usize << c.below(17);
                let v = m[k][s][i].0;
                m[k][s][i].0 = if v + d < nv { v + d } else if v >= d { v - d } else { continue };
            }
            let net = |x: &[[Vec<(usize, F)>; 3]]| -> Vec<Vec<BTreeMap<usize, F>>> {
                x.iter().map(|c| c.iter().map(|t| {
                    let mut b = BTreeMap::new();
                    for (v, k) in t { *b.entry(*v).or_insert(F::ZERO) += *k }
                    b.retain(|_, x| !x.is_zero_vartime());
                    b
                }).collect()).collect()
            };
            let same = net(&m[..]) == net(&cons[..]);
            c.ev(1);
            ensure!((build(&m, &vals).hash() == h) == same, "digests of large systems: equal {}, systems equal {}", !same, same);
            c.count("digest_pairs", 1);
        }
        c.seen(mix(n_in as u64, mix(n_aux as u64, mix(n_cons as u64, c.idx))));
        Ok(())
    });
    // digest: equal exactly for equal shapes after combining like terms
    r.par("digest", 30000, 1200000, |c| {
        type F = Scalar;
        #[derive(Clone, PartialEq, Debug)]
        struct S {
            n_in: usize,
            n_aux: usize,
            cons: Vec<[Vec<(Index, Scalar)>; 3]>,
        }
        let build = |s: &S, c: &mut Case, scramble: bool| -> String {
            let mut t = TestConstraintSystem::<F>::new();
            // names and values are not part of the shape
            let tag = c.rng.next_u32();
            for i in 0..s.n_in {
                let x = F::random(&mut c.rng);
                t.alloc_input(|| format!("{}i{}", tag, i), || Ok(x)).unwrap();
            }
            for i in 0..s.n_aux {
                let x = F::random(&mut c.rng);
                t.alloc(|| format!("{}a{}", tag, i), || Ok(x)).unwrap();
            }
            for (k, con) in s.cons.iter().enumerate() {
                let mut l = vec![];
                for t in con.iter() {
                    let mut terms = t.clone();
                    if scramble {
                        let mut extra = vec![];
                        for (i, k) in terms.iter_mut() {
                            if c.coin() {
                                let x = F::random(&mut c.rng);
                                *k -= x;
                                extra.push((*i, x));
                            }
                            if c.below(4) == 0 {
                                extra.push((*i, F::ZERO));
                            }
                        }
                        terms.extend(extra);
                        // cancelling terms on any variables
                        let nv = 1 + s.n_in + s.n_aux;
                        for _ in 0..c.below(4) {
                            let v = c.below(nv as u64) as usize;
                            let i = if v <= s.n_in { Index::Input(v) } else { Index::Aux(v - 1 - s.n_in) };
                            let (x, y) = (F::random(&mut c.rng), F::random(&mut c.rng));
                            terms.push((i, x));
                            if c.coin() {
                                terms.insert(0, (i, -x));
                            } else {
                                terms.insert(0, (i, y));
                                terms.push((i, -x - y));
                            }
                        }
                        for j in (1..terms.len()).rev() {
                            let o = c.below(j as u64 + 1) as usize;
                            terms.swap(j, o);
                        }
                    }
                    l.push(terms.iter().fold(LinearCombination::zero(), |l, (i, k)| l + (*k, Variable::new_unchecked(*i))));
                }
                let z = l.pop().unwrap();
                let y = l.pop().unwrap();
                let x = l.pop().unwrap();
                t.enforce(|| format!("c{}", k), |_| x, |_| y, |_| z);
            }
            t.hash()
        };
        let mut s = S { n_in: c.below(4) as usize, n_aux: c.below(5) as usize, cons: vec![] };
        let nv = 1 + s.n_in + s.n_aux;
        for _ in 0..c.below(5) {
            let mut con: [Vec<(Index, Scalar)>; 3] = Default::default();
            for t in con.iter_mut() {
                for v in 0..nv {
                    if c.below(3) == 0 {
                        let rnd = F::random(&mut c.rng);
                        let k: F = special(c.rng.next_u32(), rnd);
                        if !k.is_zero_vartime() {
                            t.push((if v <= s.n_in { Index::Input(v) } else { Index::Aux(v - 1 - s.n_in) }, k));
                        }
                    }
                }
            }
            s.cons.push(con);
        }
        let h = build(&s, c, false);
        ensure!(h.len() == 64 && h.chars().all(|c| c.is_ascii_hexdigit()), "digest {:?} is not 32 bytes of hex", h);
        c.ev(3);
        for _ in 0..2 {
            let h2 = build(&s, c, true);
            ensure!(h == h2, "digest differs for the same system after combining like terms: {:?}", s);
        }
        // a single change
        let mut m = s.clone();
        let kind = c.below(10);
        match kind {
            0 => m.n_in += 1,
            1 => m.n_aux += 1,
            2 => m.cons.push(Default::default()),
            3 => {
                // an input becomes an aux with the same total number of variables
                if m.n_in == 0 || !m.cons.iter().flatten().flatten().all(|(i, _)| *i != Index::Input(m.n_in)) {
                    return Ok(());
                }
                m.n_in -= 1;
                m.n_aux += 1;
            }
            _ => {
                if m.cons.is_empty() {
                    return Ok(());
                }
                let k = c.below(m.cons.len() as u64) as usize;
                let j = c.below(3) as usize;
                match kind {
                    4 => m.cons[k].swap(j, (j + 1) % 3),
                    5 => {
                        let o = c.below(m.cons.len() as u64) as usize;
                        m.cons.swap(k, o)
                    }
                    6 => {
                        // kind confusion: Input(i) <-> Aux(i)
                        let mx = m.n_aux;
                        if let Some(x) = m.cons[k][j].iter_mut().find(|x| matches!(x.0, Index::Input(i) if i < mx)) {
                            if let Index::Input(i) = x.0 {
                                x.0 = Index::Aux(i)
                            }
                        }
                        m.cons[k][j].sort_by_key(|x| match x.0 { Index::Input(i) => (0, i), Index::Aux(i) => (1, i) });
                        m.cons[k][j].dedup_by(|a, b| if a.0 == b.0 { b.1 += a.1; true } else { false });
                        m.cons[k][j].retain(|x| !x.1.is_zero_vartime());
                    }
                    7 => {
                        m.cons[k][j].pop();
                    }
                    8 => {
                        // move one term to the neighbouring combination
                        if let Some(x) = m.cons[k][j].pop() {
                            let t = &mut m.cons[k][(j + 1) % 3];
                            if t.iter().any(|y| y.0 == x.0) {
                                return Ok(());
                            }
                            t.push(x);
                            t.sort_by_key(|x| match x.0 { Index::Input(i) => (0, i), Index::Aux(i) => (1, i) });
                        }
                    }
                    _ => {
                        let d = special(c.rng.next_u32(), F::ONE);
                        if let Some(x) = m.cons[k][j].first_mut() {
                            x.1 += d;
                        }
                        m.cons[k][j].retain(|x| !x.1.is_zero_vartime());
                    }
                }
            }
        }
        let norm = |s: &S| {
            let mut s = s.clone();
            for t in s.cons.iter_mut().flatten() {
                t.sort_by_key(|x| match x.0 { Index::Input(i) => (0, i), Index::Aux(i) => (1, i) });
            }
            s
        };
        let h3 = build(&m, c, true);
        ensure!((norm(&m) == norm(&s)) == (h3 == h), "digests {} for {:?} and {:?} (change kind {})", if h3 == h { "equal" } else { "differ" }, s, m, kind);
        c.count("digest_pairs", 1);
        c.seen(hash_bytes(format!("{:?}", s).as_bytes()));
        Ok(())
    });
    "random constraint systems built in nested namespaces next to an exact reference; verdicts, first violated name, accessors and expected inputs compared through rounds of set(); refused names; digests compared for rewritten-equal and minimally-different systems; distinct = distinct constraint lists"
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug)]
struct BoolCase {
    op: u8,
    kinds: [u8; 3],
    vals: u8,
}
/// kinds: 0 const false, 1 const true, 2 is, 3 not, 4 same bit as operand 0, 5 its negation, 6 same as operand 1, 7 its negation
impl BoolCase {
    fn arity(&self) -> usize {
        match self.op { 0 | 1 => 2, 2 | 3 => 3, 4..=7 => 2, _ => 2 }
    }
    fn valid(&self) -> bool {
        let n = self.arity();
        for i in 0..3 {
            if i >= n && self.kinds[i] != 0 {
                return false;
            }
        }
        if self.kinds[0] > 3 || self.kinds[1] > 5 {
            return false;
        }
        for i in 1..n {
            if matches!(self.kinds[i], 4 | 5) && self.kinds[0] < 2 {
                return false;
            }
            if matches!(self.kinds[i], 6 | 7) && (self.kinds[1] < 2 || self.kinds[1] > 3) {
                return false;
            }
        }
        if self.op >= 4 && self.op <= 7 && (self.kinds[0] != 2 || !matches!(self.kinds[1], 2 | 4)) {
            return false;
        }
        // witness bits only for fresh variables
        for i in 0..3 {
            let fresh = i < n && matches!(self.kinds[i], 2 | 3);
            if !fresh && self.vals >> i & 1 == 1 {
                return false;
            }
        }
        true
    }
}
impl<F: FieldExt> Gadget<F> for BoolCase {
    fn describe(&self) -> String {
        format!("{:?} (op 0 xor 1 and 2 ch 3 maj 4-7 allocated xor/and/and_not/nor)", self)
    }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
        let n = self.arity();
        let mut bits: Vec<Option<(AllocatedBit, bool)>> = vec![];
        let mut ops: Vec<(Boolean, bool)> = vec![];
        for i in 0..n {
            let k = self.kinds[i];
            let (src, neg) = match k {
                0 | 1 => {
                    bits.push(None);
                    ops.push((Boolean::constant(k == 1), k == 1));
                    continue;
                }
                2 | 3 => {
                    let v = self.vals >> i & 1 == 1;
                    let b = AllocatedBit::alloc(cs.namespace(|| format!("operand {}", i)), io.w(v))?;
                    io.input(b.get_variable());
                    (Some((b, v)), k == 3)
                }
                4 | 5 => (bits[0].clone(), k == 5),
                _ => (bits[1].clone(), k == 7),
            };
            let (b, v) = src.clone().unwrap();
            bits.push(src);
            let bo = if neg { Boolean::from(b).not() } else { Boolean::from(b) };
            ops.push((bo, v ^ neg));
        }
        let one = CS::one();
        let cs = cs.namespace(|| "op");
        let (a, x) = &ops[0];
        let (b, y) = &ops[1];
        match self.op {
            0 => { let o = Boolean::xor(cs, a, b)?; io.out_bool("xor", &o, x ^ y, one) }
            1 => { let o = Boolean::and(cs, a, b)?; io.out_bool("and", &o, x & y, one) }
            2 => { let o = Boolean::sha256_ch(cs, a, b, &ops[2].0)?; io.out_bool("ch", &o, if *x { *y } else { ops[2].1 }, one) }
            3 => { let o = Boolean::sha256_maj(cs, a, b, &ops[2].0)?; io.out_bool("maj", &o, (*x as u8 + *y as u8 + ops[2].1 as u8) >= 2, one) }
            _ => {
                let (p, q) = (&bits[0].as_ref().unwrap().0, &bits[1].as_ref().unwrap().0);
                match self.op {
                    4 => { let o = AllocatedBit::xor(cs, p, q)?; io.out_bit("xor", &o, x ^ y) }
                    5 => { let o = AllocatedBit::and(cs, p, q)?; io.out_bit("and", &o, x & y) }
                    6 => { let o = AllocatedBit::and_not(cs, p, q)?; io.out_bit("and_not", &o, x & !y) }
                    _ => { let o = AllocatedBit::nor(cs, p, q)?; io.out_bit("nor", &o, !(x | y)) }
                }
            }
        }
        Ok(())
    }
}
/// Solution set of a captured system over a tiny field, projected to some variables.
fn solutions<F: FieldExt>(sys: &Sys<F>, p: u64, proj: &[usize]) -> std::collections::BTreeSet<Vec<u64>> {
    let n = sys.n();
    let total = p.pow(n as u32 - 1);
    assert!(total <= 30_000_000);
    let mut out = std::collections::BTreeSet::new();
    let mut w = vec![F::ONE; n];
    let mut u = vec![1u64; n];
    for k in 0..total {
        let mut x = k;
        for v in 1..n {
            u[v] = x % p;
            w[v] = F::from(u[v]);
            x /= p;
        }
        if sys.violated(&w).is_none() {
            out.insert(proj.iter().map(|v| u[*v]).collect());
        }
    }
    out
}
fn c04(r: &Runner) -> &'static str {
    // every operation, every mix of operand kinds and aliases, every value
    let mut all = vec![];
    for op in 0..8u8 {
        for k0 in 0..8u8 {
            for k1 in 0..8u8 {
                for k2 in 0..8u8 {
                    for vals in 0..8u8 {
                        let b = BoolCase { op, kinds: [k0, k1, k2], vals };
                        if b.valid() {
                            all.push(b)
                        }
                    }
                }
            }
        }
    }
    let n = all.len() as u64;
    r.par("single_operations", n, n, |c| {
        let b = &all[c.idx as usize];
        check_gadget::<F5, _>(c, b, &Opts { brute: Some(5), ..Default::default() })?;
        check_gadget::<F13, _>(c, b, &Opts { brute: Some(13), ..Default::default() })?;
        check_gadget::<Gold, _>(c, b, &Opts::default())?;
        check_gadget::<Scalar, _>(c, b, &Opts::default())
    });
    fn sets<F: FieldExt>(c: &mut Case, p: u64) -> R {
        // allocated bits are exactly 0/1
        let mut rec = Rec::<F>::new(Mode::Prove);
        AllocatedBit::alloc(&mut rec, Some(true)).unwrap();
        let s = solutions(&rec.sys(), p, &[1]);
        ensure!(s == [vec![0], vec![1]].into_iter().collect(), "{}: AllocatedBit::alloc accepts {:?}", F::NAME, s);
        // conditional bit
        for (cond, v) in [(false, false), (false, true), (true, false)] {
            let mut rec = Rec::<F>::new(Mode::Prove);
            let m = AllocatedBit::alloc(rec.namespace(|| "cond"), Some(cond)).unwrap();
            let b = AllocatedBit::alloc_conditionally(rec.namespace(|| "bit"), Some(v), &m).unwrap();
            ensure!(b.get_value() == Some(v), "value");
            let s = solutions(&rec.sys(), p, &[1, 2]);
            ensure!(s == [vec![0, 0], vec![0, 1], vec![1, 0]].into_iter().collect(), "{}: alloc_conditionally accepts {:?}", F::NAME, s);
            c.ev(1);
        }
        // enforce_equal, all kinds: satisfiable exactly when equal
        for k0 in 0..4u8 {
            for k1 in 0..6u8 {
                if k0 < 2 && k1 >= 4 {
                    continue;
                }
                for v in 0..4u8 {
                    let mut rec = Rec::<F>::new(Mode::Prove);
                    let mut n = 1;
                    let mut idx = vec![];
                    let mut mk = |k: u8, v: bool, rec: &mut Rec<F>, nm: &str| -> Boolean {
                        match k {
                            0 | 1 => Boolean::constant(k == 1),
                            _ => {
                                let b = Boolean::from(AllocatedBit::alloc(rec.namespace(|| nm), Some(v)).unwrap());
                                idx.push(n);
                                n += 1;
                                if k == 3 { b.not() } else { b }
                            }
                        }
                    };
                    let a = mk(k0, v & 1 == 1, &mut rec, "a");
                    let b = if k1 >= 4 { if k1 == 4 { a.clone() } else { a.not() } } else { mk(k1, v & 2 == 2, &mut rec, "b") };
                    let res = Boolean::enforce_equal(rec.namespace(|| "eq"), &a, &b);
                    c.ev(1);
                    c.count("enforce_equal_solution_sets", 1);
                    if k0 < 2 && k1 < 2 {
                        ensure!(
                            match res { Ok(()) => k0 == k1, Err(SynthesisError::Unsatisfiable) => k0 != k1, _ => false },
                            "enforce_equal of constants {} {}", k0, k1
                        );
                        continue;
                    }
                    ensure!(res.is_ok(), "enforce_equal failed");
                    let sys = rec.sys();
                    let s = solutions(&sys, p, &idx);
                    let mut want = std::collections::BTreeSet::new();
                    for m in 0..1u64 << idx.len() {
                        let bits: Vec<u64> = (0..idx.len()).map(|i| m >> i & 1).collect();
                        let mut it = bits.iter();
                        let mut val = |k: u8| match k { 0 => 0, 1 => 1, 2 => *it.next().unwrap(), _ => 1 - *it.next().unwrap() };
                        let x = val(k0);
                        let y = match k1 { 4 => x, 5 => 1 - x, k => val(k) };
                        if x == y {
                            want.insert(bits);
                        }
                    }
                    ensure!(s == want, "{}: enforce_equal kinds {} {} accepts {:?}, expected {:?}", F::NAME, k0, k1, s, want);
                }
            }
        }
        c.seen(p);
        Ok(())
    }
    r.par("solution_sets", 4, 4, |c| match c.idx {
        0 => sets::<F5>(c, 5),
        1 => sets::<F7>(c, 7),
        2 => sets::<F97>(c, 97),
        _ => sets::<F257>(c, 257),
    });
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 3 + c.below(25) as usize;
        let b = c.below(5) as usize;
        let p = Prog::random(c, BOOL_OPS, n, b);
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts::default())
    }
    r.par("programs", 60000, 2400000, |c| on_field!(c, prog, [F5, F7, F97, F257, M31, Gold, M61, Scalar]));
    "every boolean gadget x every mix of constant/allocated/negated/aliased operands x every value (with all assignments enumerated in F5 and F13), exact solution sets of alloc, alloc_conditionally, enforce_equal, and random programs of boolean gadgets; each run compares reported value, linear combination and truth table and lets the forger search for another output; distinct = distinct (field, constraint system, witness)"
}

// ---------------------------------------------------------------- C05
fn c05(r: &Runner) -> &'static str {
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 3 + c.below(20) as usize;
        let b = c.below(4) as usize;
        let p = Prog::random(c, NUM_OPS, n, b);
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts::default())
    }
    r.par("programs", 60000, 2400000, |c| on_field!(c, prog, [F5, F13, F97, F65537, M31, Gold, M61, Scalar, Scalar]));
    // exact solution sets in tiny fields
    fn sets<F: FieldExt>(c: &mut Case, p: u64) -> R {
        for x in 0..p {
            for y in 0..p {
                let num = |rec: &mut Rec<F>, n: &str, v: u64| AllocatedNum::alloc(rec.namespace(|| n), || Ok(F::from(v))).unwrap();
                // mul
                let mut rec = Rec::<F>::new(Mode::Prove);
                let a = num(&mut rec, "a", x);
                let b = num(&mut rec, "b", y);
                let m = a.mul(rec.namespace(|| "mul"), &b).unwrap();
                ensure!(m.get_value() == Some(F::from(x * y)), "mul value");
                if x == 0 {
                    let s = solutions(&rec.sys(), p, &[1, 2, 3]);
                    ensure!(s.len() as u64 == p * p && s.iter().all(|t| t[0] * t[1] % p == t[2]), "{}: mul solution set {:?}", F::NAME, s);
                    c.ev(1);
                }
                // conditional reversal with an allocated, negated or constant condition
                for k in 0..6u8 {
                    let mut rec = Rec::<F>::new(Mode::Prove);
                    let a = num(&mut rec, "a", x);
                    let b = num(&mut rec, "b", y);
                    let (cond, cv, neg) = match k {
                        0 | 1 => (Boolean::constant(k == 1), k == 1, false),
                        _ => {
                            let v = k & 1 == 1;
                            let b = Boolean::from(AllocatedBit::alloc(rec.namespace(|| "c"), Some(v)).unwrap());
                            if k < 4 { (b, v, false) } else { (b.not(), !v, true) }
                        }
                    };
                    let (s, t) = AllocatedNum::conditionally_reverse(rec.namespace(|| "rev"), &a, &b, &cond).unwrap();
                    let want = if cv { (y, x) } else { (x, y) };
                    ensure!(s.get_value() == Some(F::from(want.0)) && t.get_value() == Some(F::from(want.1)), "{}: conditionally_reverse({},{},{}) value", F::NAME, x, y, cv);
                    c.ev(1);
                    if x == 1 && y == 2 && p <= 5 {
                        let sys = rec.sys();
                        let proj: Vec<usize> = (1..sys.n()).collect();
                        for t in solutions(&sys, p, &proj) {
                            let (cond, o) = if k < 2 { (k as u64, 2) } else { (if neg { 1 - t[2] } else { t[2] }, 3) };
                            let w = if cond == 1 { (t[1], t[0]) } else { (t[0], t[1]) };
                            ensure!((t[o], t[o + 1]) == w, "{}: conditionally_reverse accepts {:?} (condition kind {})", F::NAME, t, k);
                        }
                    }
                }
            }
            // square
            let mut rec = Rec::<F>::new(Mode::Prove);
            let a = AllocatedNum::alloc(rec.namespace(|| "a"), || Ok(F::from(x))).unwrap();
            let s = a.square(rec.namespace(|| "sq")).unwrap();
            ensure!(s.get_value() == Some(F::from(x * x)), "square value");
            let set = solutions(&rec.sys(), p, &[1, 2]);
            ensure!(set.len() as u64 == p && set.iter().all(|t| t[0] * t[0] % p == t[1]), "{}: square accepts {:?}", F::NAME, set);
            // assert_nonzero: shape from key generation, satisfiable exactly for non-zero values
            let mut rec = Rec::<F>::new(Mode::Prove);
            let a = AllocatedNum::alloc(rec.namespace(|| "a"), || Ok(F::from(x))).unwrap();
            let res = a.assert_nonzero(rec.namespace(|| "nz"));
            ensure!(
                match res { Ok(()) => x != 0, Err(SynthesisError::DivisionByZero) => x == 0, _ => false },
                "{}: assert_nonzero({}) gave {:?}", F::NAME, x, res
            );
            let mut rec = Rec::<F>::new(Mode::Lenient);
            let a = AllocatedNum::alloc(rec.namespace(|| "a"), || Ok(F::from(x))).unwrap();
            a.assert_nonzero(rec.namespace(|| "nz")).unwrap();
            let set = solutions(&rec.sys(), p, &[1]);
            ensure!(set == (1..p).map(|v| vec![v]).collect(), "{}: assert_nonzero satisfiable for {:?}", F::NAME, set);
            // inputize
            let mut rec = Rec::<F>::new(Mode::Prove);
            let a = AllocatedNum::alloc(rec.namespace(|| "a"), || Ok(F::from(x))).unwrap();
            a.inputize(rec.namespace(|| "in")).unwrap();
            ensure!(rec.inputs.len() == 2 && rec.inputs[1].0 == Some(F::from(x)), "{}: inputize({}) published {:?}", F::NAME, x, rec.inputs);
            let set = solutions(&rec.sys(), p, &[1, 2]);
            ensure!(set.len() as u64 == p && set.iter().all(|t| t[0] == t[1]), "{}: inputize accepts {:?}", F::NAME, set);
            c.ev(4);
        }
        c.seen(p);
        Ok(())
    }
    r.par("solution_sets", 4, 4, |c| match c.idx {
        0 => sets::<F5>(c, 5),
        1 => sets::<F7>(c, 7),
        2 => sets::<F13>(c, 13),
        _ => sets::<F17>(c, 17),
    });
    fn zero<F: FieldExt>(c: &mut Case) -> R {
        // zero reached by arithmetic, not only allocated
        let mut rec = Rec::<F>::new(Mode::Prove);
        let rnd = F::random(&mut c.rng);
        let x: F = special(c.rng.next_u32(), rnd);
        let a = AllocatedNum::alloc(rec.namespace(|| "a"), || Ok(x)).unwrap();
        let z = AllocatedNum::alloc(rec.namespace(|| "z"), || Ok(F::ZERO)).unwrap();
        let m = a.mul(rec.namespace(|| "m"), &z).unwrap();
        let before = rec.cons.len();
        c.ev(2);
        for n in [&z, &m] {
            let e = n.assert_nonzero(rec.namespace(|| "nz"));
            ensure!(matches!(e, Err(SynthesisError::DivisionByZero)), "assert_nonzero of zero gave {:?}", e);
        }
        ensure!(rec.cons.len() == before, "constraints were added on the error path");
        if !x.is_zero_vartime() {
            a.assert_nonzero(rec.namespace(|| "ok")).map_err(|e| format!("assert_nonzero({:?}) gave {:?}", x, e))?;
        }
        // unsatisfiable for zero: no inverse works, whatever the prover picks
        let sys = rec.sys();
        let (i, a) = rec.assignment().unwrap();
        let w: Vec<F> = i.into_iter().chain(a).collect();
        ensure!(sys.violated(&w).is_none(), "honest part violated");
        c.seen(hash_bytes(x.to_repr().as_ref()));
        Ok(())
    }
    r.par("zero_values", 20000, 200000, |c| on_field!(c, zero, [F5, F97, Gold, Scalar]));
    "random programs over allocated numbers (mul, square, conditional reversal, publication, non-zero, weighted sums of constant/allocated/negated bits) with boundary values, plus exact solution sets of every gadget in F5..F17; reported values, linear combinations, public inputs compared with field arithmetic and the forger looks for another result; distinct = distinct (field, constraint system, witness)"
}

// ---------------------------------------------------------------- C06
struct StrictOne<F>(F, bool);
impl<F: FieldExt> Gadget<F> for StrictOne<F> {
    fn describe(&self) -> String {
        format!("{} of {:?}", if self.1 { "to_bits_le_strict" } else { "to_bits_le" }, self.0)
    }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
        let n = AllocatedNum::alloc(cs.namespace(|| "n"), || io.w(self.0).ok_or(SynthesisError::AssignmentMissing))?;
        io.input(n.get_variable());
        let bits = if self.1 { n.to_bits_le_strict(cs.namespace(|| "bits"))? } else { n.to_bits_le(cs.namespace(|| "bits"))? };
        io.check(bits.len() == F::NUM_BITS as usize, || format!("{} bits", bits.len()));
        let d = digits(&self.0, bits.len());
        for (i, (b, d)) in bits.iter().zip(d).enumerate() {
            io.out_bool(format!("bit {}", i), b, d, CS::one());
        }
        Ok(())
    }
}
/// Every value and every bit vector of a small field.
fn bits_exhaustive<F: FieldExt>(c: &mut Case, p: u64, strict: bool) -> R {
    let n = F::NUM_BITS as usize;
    for x in 0..p {
        let mut rec = Rec::<F>::new(Mode::Prove);
        let g = StrictOne(F::from(x), strict);
        let mut io = Io::new(true);
        g.synth(&mut rec, &mut io).map_err(|e| format!("{:?}", e))?;
        let (i, a) = rec.assignment().unwrap();
        let honest: Vec<F> = i.into_iter().chain(a).collect();
        let sys = rec.sys();
        ensure!(sys.violated(&honest).is_none(), "{}: {} not satisfied", F::NAME, g.describe());
        ensure!(io.errs.is_empty(), "{}: {:?}", F::NAME, io.errs);
        // outputs come in pairs (x3, x1): the plain ones are single variables
        let mut vars = vec![];
        for o in io.outs.iter().filter(|o| o.reported.is_some()) {
            let l = merge(&o.lc, sys.n_in);
            ensure!(l.len() == 1 && l[0].1 == F::ONE, "bit is not a plain variable");
            ensure!(Sys::eval(&l, &honest) == o.expected && o.reported == Some(Some(o.expected)), "{}: {} {} wrong", F::NAME, g.describe(), o.label);
            vars.push(l[0].0);
        }
        for m in 0..(1u64 << n) {
            let mut fixed: Vec<(usize, F)> = vec![(1, F::from(x))];
            for (i, v) in vars.iter().enumerate() {
                fixed.push((*v, F::from(m >> i & 1)));
            }
            let ok = match solve(&sys, &fixed) {
                Solved::No => false,
                Solved::Yes(_) => true,
                Solved::Undecided => fail!("{}: {} bits {:b}: auxiliary variables not determined", F::NAME, g.describe(), m),
            };
            let want = if strict { m == x } else { m % p == x };
            c.ev(1);
            ensure!(ok == want, "{}: {} with bits {:b} is {}", F::NAME, g.describe(), m, if ok { "accepted" } else { "rejected" });
        }
        // non-boolean digits that sum to the number
        if n > 1 {
            for (i, j) in [(0usize, 1usize), (n - 2, n - 1)] {
                // take 2^j = 2 * 2^i and put the value 2 on digit i
                for m in 0..(1u64 << n) {
                    let mut d: Vec<u64> = (0..n).map(|k| m >> k & 1).collect();
                    if d[j] == 1 && d[i] == 0 {
                        d[j] = 0;
                        d[i] = 2;
                        let mut fixed: Vec<(usize, F)> = vec![(1, F::from(m % p))];
                        for (k, v) in vars.iter().enumerate() {
                            fixed.push((*v, F::from(d[k])));
                        }
                        c.ev(1);
                        ensure!(!matches!(solve(&sys, &fixed), Solved::Yes(_)), "{}: non-boolean digits {:?} accepted", F::NAME, d);
                    }
                }
            }
        }
        c.seen(mix(p, x));
    }
    c.count("fields_exhausted", 1);
    Ok(())
}
fn c06(r: &Runner) -> &'static str {
    r.par("exhaustive", 14, 14, |c| {
        let s = c.idx % 2 == 0;
        match c.idx / 2 {
            0 => bits_exhaustive::<F5>(c, 5, s),
            1 => bits_exhaustive::<F7>(c, 7, s),
            2 => bits_exhaustive::<F13>(c, 13, s),
            3 => bits_exhaustive::<F17>(c, 17, s),
            4 => bits_exhaustive::<F97>(c, 97, s),
            5 => bits_exhaustive::<F193>(c, 193, s),
            _ => bits_exhaustive::<F257>(c, 257, s),
        }
    });
    // boundary and random values in large fields: the forger tries every representative
    fn one<F: FieldExt>(c: &mut Case) -> R {
        let rnd = F::random(&mut c.rng);
        let x = match c.below(3) {
            // values that have a second representative below 2^NUM_BITS
            0 => F::from(c.rng.next_u64() >> c.below(64)),
            1 => special(c.rng.next_u32(), rnd),
            _ => rnd,
        };
        let before = c.rng.clone();
        let _ = before;
        check_gadget::<F, _>(c, &StrictOne(x, true), &Opts { forge: 3000, ..Default::default() })
    }
    r.par("strict_values", 400, 8000, |c| on_field!(c, one, [F97, F193, F257, F65537, BabyBear, M31, M61, F5_55, Gold, Scalar, Scalar, Scalar]));
    // the second representative, explicitly: bits of x + p
    fn second<F: FieldExt>(c: &mut Case) -> R {
        let n = F::NUM_BITS as usize;
        let p = vh::forge::modulus::<F>();
        let x: F = F::from(c.rng.next_u64() >> c.below(64));
        let big = vh::forge::Big::from_field(&x).add(p);
        for strict in [true, false] {
            let g = StrictOne(x, strict);
            let mut rec = Rec::<F>::new(Mode::Prove);
            let mut io = Io::new(true);
            g.synth(&mut rec, &mut io).map_err(|e| format!("{:?}", e))?;
            let sys = rec.sys();
            let vars: Vec<usize> = io.outs.iter().filter(|o| o.reported.is_some()).map(|o| merge(&o.lc, sys.n_in)[0].0).collect();
            if big.bits() as usize > n {
                return Ok(());
            }
            let mut fixed = vec![(1, x)];
            for (i, v) in vars.iter().enumerate() {
                fixed.push((*v, bf(big.bit(i as u32))));
            }
            let ok = matches!(solve(&sys, &fixed), Solved::Yes(_));
            c.ev(1);
            c.count(if strict { "second_representative_strict" } else { "second_representative_plain" }, 1);
            ensure!(!(strict && ok), "{}: strict decomposition of {:?} accepts the bits of x + p", F::NAME, x);
            // all bits zero / flipping one bit must fail unless the sum still matches
            for _ in 0..8 {
                let k = c.below(n as u64) as usize;
                let mut f = vec![(1, x)];
                let d = digits(&x, n);
                for (i, v) in vars.iter().enumerate() {
                    f.push((*v, bf(d[i] ^ (i == k))));
                }
                ensure!(!matches!(solve(&sys, &f), Solved::Yes(_)), "{}: {} accepts bit {} flipped", F::NAME, g.describe(), k);
                c.ev(1);
            }
        }
        c.seen(hash_bytes(x.to_repr().as_ref()));
        Ok(())
    }
    r.par("representatives", 1000, 30000, |c| on_field!(c, second, [F97, F65537, BabyBear, M31, F5_55, Gold, Scalar, Scalar]));
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 1 + c.below(5) as usize;
        let p = Prog::random(c, BITS_OPS, n, 1);
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts { forge: 300, ..Default::default() })
    }
    r.par("programs", 600, 15000, |c| on_field!(c, prog, [F5, F7, F97, F65537, M31, BabyBear, F5_55, Gold, M61, Scalar]));
    // decomposing an element of one field inside a circuit over another
    fn cross<F: FieldExt, V: FieldExt>(c: &mut Case) -> R {
        let rnd = V::random(&mut c.rng);
        let v: V = special(c.rng.next_u32(), rnd);
        let mut rec = Rec::<F>::new(Mode::Prove);
        let b = bellman::gadgets::boolean::field_into_allocated_bits_le::<F, _, V>(&mut rec, Some(v)).map_err(|e| format!("{:?}", e))?;
        ensure!(b.len() == V::NUM_BITS as usize, "{} bits for {}", b.len(), V::NAME);
        let d = digits(&v, b.len());
        c.ev(1);
        for (i, (b, d)) in b.iter().zip(d).enumerate() {
            ensure!(b.get_value() == Some(d), "{} in {}: bit {} of {:?}", V::NAME, F::NAME, i, v);
            ensure!(b.get_variable().get_unchecked() == Index::Aux(i), "bit {} is not variable {}", i, i);
            ensure!(rec.aux[i].0 == Some(bf(d)), "assigned value of bit {}", i);
        }
        c.seen(mix(hash_bytes(V::NAME.as_bytes()), hash_bytes(v.to_repr().as_ref())));
        Ok(())
    }
    r.par("cross_field", 4000, 100000, |c| match c.below(5) {
        0 => cross::<Scalar, Gold>(c),
        1 => cross::<Gold, Scalar>(c),
        2 => cross::<F5, M61>(c),
        3 => cross::<Scalar, F7>(c),
        _ => cross::<F97, Scalar>(c),
    });
    "all values x all bit vectors of seven small fields for both decompositions (acceptance decided by propagation over the captured constraints), the explicit x+p representative and single flipped bits in large fields, boundary/random values attacked by the forger (range-aware linear decomposition), programs mixing decompositions, and cross-field decompositions; distinct = distinct (field, system, witness) or (field, value)"
}

// ---------------------------------------------------------------- C07
fn c07(r: &Runner) -> &'static str {
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 2 + c.below(10) as usize;
        let b = c.below(4) as usize;
        let p = Prog::random(c, WORD_OPS, n, b);
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts { forge: 60, ..Default::default() })
    }
    r.par("programs", 4000, 160000, |c| on_field!(c, prog, [Gold, Gold, Gold, Scalar]));
    // every word operation on extreme words and every mix of forms
    struct WordCase {
        seed: u64,
        wseed: u64,
        /// 0 addition, 1 xor, 2 ch, 3 maj, 4 rotation then shift
        op: u8,
        n: usize,
    }
    impl<F: FieldExt> Gadget<F> for WordCase {
        fn describe(&self) -> String {
            format!("{} of {} words, seed {:#x}, witness {:#x}", ["addmany", "xor", "ch", "maj", "rotr, shr"][self.op as usize], self.n, self.seed, self.wseed)
        }
        fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
            let mut g = rand_chacha::ChaCha8Rng::seed_from_u64(self.seed);
            let mut wg = rand_chacha::ChaCha8Rng::seed_from_u64(self.wseed);
            let word = |g: &mut rand_chacha::ChaCha8Rng, mode: u32| match mode {
                0 => u32::MAX,
                1 => 1 << (g.next_u32() % 32),
                2 => 0,
                3 => u32::MAX - (g.next_u32() % 2),
                _ => g.next_u32(),
            };
            let (mode, wmode) = (g.next_u32() % 6, wg.next_u32() % 6);
            let mut ops: Vec<(UInt32, u32)> = vec![];
            let mut all_const = true;
            // often every operand has the same few places that are not constant, or are
            let shared = 1u32 << (g.next_u32() % 32) | if g.next_u32() % 3 == 0 { 1 << (g.next_u32() % 32) } else { 0 };
            let sharing = g.next_u32() % 3 == 0;
            for i in 0..self.n {
                let (consts, wit) = (word(&mut g, mode), word(&mut wg, wmode));
                let mut v = 0u32;
                let form = if sharing { 6 + g.next_u32() % 3 } else { g.next_u32() % 11 };
                if form >= 9 && i > 0 {
                    // an earlier operand again, or its complement
                    let (x, v) = ops[(g.next_u32() as usize) % i].clone();
                    ops.push(if form == 9 {
                        (x, v)
                    } else {
                        (UInt32::from_bits(&x.into_bits().iter().map(|b| b.not()).collect::<Vec<_>>()), !v)
                    });
                    continue;
                }
                let places = match form {
                    6 => shared,
                    7 => !shared,
                    8 => 0,
                    _ => 1u32 << (g.next_u32() % 32),
                };
                let mut bits = vec![];
                let mut prev: Option<(AllocatedBit, bool)> = None;
                for k in 0..32 {
                    let f = match form {
                        0..=3 => form,
                        4 | 5 => g.next_u32() % 6,
                        _ => if places >> k & 1 == 1 { g.next_u32() % 2 } else { 2 },
                    };
                    let b = if f < 2 || f > 3 && prev.is_none() { wit >> k & 1 == 1 } else { consts >> k & 1 == 1 };
                    let (bit, b) = match (f, &prev) {
                        // the previous variable again, in one form or the other
                        (4, Some((p, pv))) => (Boolean::from(p.clone()), *pv),
                        (5, Some((p, pv))) => (Boolean::from(p.clone()).not(), !*pv),
                        (2, _) | (3, _) => (Boolean::constant(b), b),
                        _ => {
                            let neg = f == 1 || f == 5;
                            let a = AllocatedBit::alloc(cs.namespace(|| format!("{} {}", i, k)), io.w(b ^ neg))?;
                            io.input(a.get_variable());
                            all_const = false;
                            prev = Some((a.clone(), b ^ neg));
                            (if neg { Boolean::from(a).not() } else { Boolean::from(a) }, b)
                        }
                    };
                    bits.push(bit);
                    v |= (b as u32) << k;
                }
                ops.push((UInt32::from_bits(&bits), v));
            }
            let one = CS::one();
            if self.op == 4 {
                let (a, x) = &ops[0];
                let (r, t) = (g.next_u32() % 70, g.next_u32() % 32);
                let y = a.rotr(r as usize);
                out_word(io, "rotr", &y, x.rotate_right(r % 32), one);
                out_word(io, "shr", &y.shr(t as usize), x.rotate_right(r % 32) >> t, one);
                return Ok(());
            }
            let (out, want) = match self.op {
                0 => {
                    let words: Vec<UInt32> = ops.iter().map(|o| o.0.clone()).collect();
                    let mut m = MultiEq::new(cs.namespace(|| "sum"));
                    (UInt32::addmany(m.namespace(|| "add"), &words)?, ops.iter().fold(0u32, |s, o| s.wrapping_add(o.1)))
                }
                1 => (ops[0].0.xor(cs.namespace(|| "xor"), &ops[1].0)?, ops[0].1 ^ ops[1].1),
                _ => {
                    let (a, b, c) = (&ops[0].0, &ops[1].0, &ops[2].0);
                    let (x, y, z) = (ops[0].1, ops[1].1, ops[2].1);
                    if self.op == 2 {
                        (UInt32::sha256_ch(cs.namespace(|| "ch"), a, b, c)?, (x & y) ^ (!x & z))
                    } else {
                        (UInt32::sha256_maj(cs.namespace(|| "maj"), a, b, c)?, (x & y) ^ (x & z) ^ (y & z))
                    }
                }
            };
            out_word(io, "result", &out, want, one);
            if all_const {
                let c = out.into_bits().iter().all(|b| b.is_constant());
                io.check(c, || "result from constants is not constant".into());
            }
            Ok(())
        }
    }
    fn add<F: FieldExt>(c: &mut Case) -> R {
        let n = 2 + (c.idx % 9) as usize;
        let g = WordCase { seed: c.rng.next_u64(), wseed: c.rng.next_u64(), op: 0, n };
        let o = WordCase { wseed: c.rng.next_u64(), ..g };
        check_transfer::<F, _>(c, &g, &o)?;
        check_gadget::<F, _>(c, &g, &Opts { forge: 60, ..Default::default() })
    }
    fn word<F: FieldExt>(c: &mut Case) -> R {
        let op = 1 + (c.idx % 4) as u8;
        let g = WordCase { seed: c.rng.next_u64(), wseed: c.rng.next_u64(), op, n: [0, 2, 3, 3, 1][op as usize] };
        let o = WordCase { wseed: c.rng.next_u64(), ..g };
        check_transfer::<F, _>(c, &g, &o)?;
        c.count("operand_mixes", 1);
        check_gadget::<F, _>(c, &g, &Opts { forge: 60, ..Default::default() })
    }
    r.par("addmany", 9000, 300000, |c| on_field!(c, add, [Gold, Gold, Scalar]));
    r.par("words", 30000, 1200000, |c| on_field!(c, word, [F97, M31, Gold, Gold, Scalar]));
    // constants are free
    r.par("constants", 200, 2000, |c| {
        let mut rec = Rec::<Gold>::new(Mode::Prove);
        let vals: Vec<u32> = (0..2 + c.below(9)).map(|_| if c.coin() { c.rng.next_u32() } else { u32::MAX }).collect();
        let ops: Vec<UInt32> = vals.iter().map(|v| UInt32::constant(*v)).collect();
        let s = {
            let mut m = MultiEq::new(&mut rec);
            UInt32::addmany(m.namespace(|| "a"), &ops).map_err(|e| format!("{:?}", e))?
        };
        let want = vals.iter().fold(0u32, |a, b| a.wrapping_add(*b));
        let got = s.into_bits().iter().enumerate().fold(0u32, |a, (i, b)| a | (b.get_value().unwrap() as u32) << i);
        c.ev(1);
        ensure!(got == want, "constant sum of {:?} is {}", vals, got);
        ensure!(rec.cons.is_empty() && rec.aux.is_empty(), "constant addition cost {} constraints, {} variables", rec.cons.len(), rec.aux.len());
        c.seen(hash_bytes(format!("{:?}", vals).as_bytes()));
        Ok(())
    });
    // rotations and shifts: every amount, including far out of range rotations
    r.par("rotations", 160, 320, |c| {
        let v = c.rng.next_u32();
        let by = if c.idx < 128 { c.idx as usize } else { c.rng.next_u64() as usize };
        for form in 0..3 {
            let mut rec = Rec::<Gold>::new(Mode::Prove);
            let x = match form {
                0 => UInt32::constant(v),
                1 => UInt32::alloc(&mut rec, Some(v)).unwrap(),
                _ => {
                    let y = UInt32::alloc(&mut rec, Some(!v)).unwrap();
                    UInt32::from_bits(&y.into_bits().iter().map(|b| b.not()).collect::<Vec<_>>())
                }
            };
            let mut io = Io::<Gold>::new(true);
            out_word(&mut io, "rotr", &x.rotr(by), v.rotate_right((by % 32) as u32), Rec::<Gold>::one());
            if by < 32 {
                out_word(&mut io, "shr", &x.shr(by), v >> by, Rec::<Gold>::one());
            }
            let before = rec.cons.len();
            ensure!(io.errs.is_empty(), "rotation by {}: {:?}", by, io.errs);
            let (i, a) = rec.assignment().unwrap();
            let w: Vec<Gold> = i.into_iter().chain(a).collect();
            for o in &io.outs {
                c.ev(1);
                ensure!(Sys::eval(&merge(&o.lc, 1), &w) == o.expected, "{} by {} of {:#x} form {}", o.label, by, v, form);
                if let Some(rep) = &o.reported {
                    ensure!(*rep == Some(o.expected), "{} by {} of {:#x} form {} reported {:?}", o.label, by, v, form, rep);
                }
            }
            ensure!(rec.cons.len() == before, "rotation added constraints");
        }
        c.seen(mix(by as u64, v as u64));
        Ok(())
    });
    "random word programs (alloc/constant/from_bits/into_bits/xor/rotr/shr/ch/maj/addmany with shared batching) and addmany of 2..10 words with extreme values and every bit form, over Goldilocks and BLS12-381; each result is compared with u32 arithmetic as value, bits and linear combinations, and the forger (2-adic carry propagation) must derive the bits from the inputs; distinct = distinct (field, system, witness)"
}

// ---------------------------------------------------------------- C08
fn c08(r: &Runner) -> &'static str {
    /// Emits the equalities and returns the emitted constraints as coefficient rows over the
    /// differences d_k = lhs_k - rhs_k.
    fn rows<F: FieldExt>(widths: &[usize], style: u64, w: &[(u64, u64)]) -> Result<(Sys<F>, Vec<F>, Vec<(usize, usize)>, usize), String> {
        let mut rec = Rec::<F>::new(Mode::Prove);
        let mut vars = vec![];
        for (k, (a, b)) in w.iter().enumerate() {
            let x = rec.alloc(|| format!("l{}", k), || Ok(F::from(*a))).unwrap();
            let y = rec.alloc(|| format!("r{}", k), || Ok(F::from(*b))).unwrap();
            vars.push((x, y));
        }
        let mut idx = vec![];
        for (k, _) in w.iter().enumerate() {
            idx.push((1 + 2 * k, 2 + 2 * k));
        }
        {
            let mut m = MultiEq::new(&mut rec);
            for (k, wd) in widths.iter().enumerate() {
                let l = LinearCombination::zero() + vars[k].0;
                let r = LinearCombination::zero() + vars[k].1;
                if style & 1 == 0 {
                    m.enforce_equal(*wd, &l, &r);
                } else {
                    // unrelated activity between equalities
                    let mut ns = m.namespace(|| format!("n{}", k));
                    let extra = ns.alloc(|| "x", || Ok(F::ONE)).unwrap();
                    ns.enforce(|| "e", |l| l + extra, |l| l + extra, |l| l + extra);
                    ns.get_root().enforce_equal(*wd, &l, &r);
                }
            }
        }
        let (i, a) = rec.assignment().unwrap();
        let ws: Vec<F> = i.into_iter().chain(a).collect();
        Ok((rec.sys(), ws, idx, rec.cons.len()))
    }
    // exhaustive over differences in tiny fields
    fn tiny<F: FieldExt>(c: &mut Case, p: u64) -> R {
        let cap = F::CAPACITY as usize;
        let n = 1 + c.below(4) as usize;
        let mut widths = vec![];
        let mut bits = 0;
        for _ in 0..n {
            let w = 1 + c.below((cap - 1).min(5) as u64) as usize;
            if bits + w > 14 {
                break;
            }
            bits += w;
            widths.push(w);
        }
        let n = widths.len();
        let zero = vec![(0u64, 0u64); n];
        let style = c.below(2);
        let (sys, w0, idx, _) = rows::<F>(&widths, style, &zero)?;
        // every pair (l_k, r_k) of bounded values is exponential: use all l with r from a small set,
        // and all differences by putting the whole difference on one side
        let space: u64 = widths.iter().map(|w| (2u64 << w) - 1).product();
        ensure!(space <= 1 << 22, "space {}", space);
        let mut w = w0.clone();
        let (mut sat, mut all) = (0u64, 0u64);
        for t in 0..space {
            let mut x = t;
            let mut equal = true;
            for k in 0..n {
                let m = (2u64 << widths[k]) - 1;
                let d = (x % m) as i64 - ((1i64 << widths[k]) - 1);
                x /= m;
                equal &= d == 0;
                // l - r = d with both in [0, 2^w)
                let (l, r) = if d >= 0 { (d, 0) } else { (0, -d) };
                w[idx[k].0] = F::from(l as u64);
                w[idx[k].1] = F::from(r as u64);
            }
            let ok = sys.violated(&w).is_none();
            all += 1;
            sat += ok as u64;
            ensure!(
                ok == equal,
                "{}: widths {:?}: values {:?} are {} although the equalities {}",
                F::NAME, widths, &w[1..], if ok { "accepted" } else { "rejected" }, if equal { "all hold" } else { "do not all hold" }
            );
        }
        c.ev(all);
        c.count("difference_vectors", all);
        c.count("accepted", sat);
        c.seen(mix(p, hash_bytes(format!("{:?}", widths).as_bytes())));
        c.sample(|| format!("{} widths {:?}: {} difference vectors", F::NAME, widths, all));
        Ok(())
    }
    r.par("tiny_fields", 10000, 400000, |c| match c.below(5) {
        0 => tiny::<F17>(c, 17),
        1 => tiny::<F97>(c, 97),
        2 => tiny::<F193>(c, 193),
        3 => tiny::<F257>(c, 257),
        _ => tiny::<F65537>(c, 65537),
    });
    // sides of every form: nothing, a constant, a sum of bits, a scaled sum, a variable used twice
    fn forms<F: FieldExt>(c: &mut Case) -> R {
        let cap = F::CAPACITY as usize;
        let n = 1 + c.below(if c.idx % 8 == 7 { 40 } else { 6 }) as usize;
        let only = if c.coin() { Some((c.below(8), c.below(8))) } else { None };
        let mut rec = Rec::<F>::new(Mode::Prove);
        // a side: constant part and (variable, coefficient) terms; variables and their bounds
        type Side = (u64, Vec<(usize, u64)>);
        let mut vals: Vec<(u64, u64)> = vec![];
        let mut vars = vec![];
        let mut eqs: Vec<(usize, Side, Side)> = vec![];
        for _ in 0..n {
            // all values stay below 2^small
            let small = 1 + c.below(16) as usize;
            let total = c.below(1 << small);
            let fresh = |v: u64, max: u64, rec: &mut Rec<F>, vals: &mut Vec<(u64, u64)>, vars: &mut Vec<Variable>| -> usize {
                vars.push(rec.alloc(|| format!("v{}", vals.len()), || Ok(F::from(v))).unwrap());
                vals.push((v, max));
                vals.len() - 1
            };
            let (k1, k2) = only.unwrap_or((c.below(8), c.below(8)));
            // a side that is nothing is worth zero
            let total = if k1 == 0 || k2 == 0 { 0 } else { total };
            let mut sides: Vec<Side> = vec![];
            for kind in [k1, k2] {
                let max = (1u64 << small) - 1;
                sides.push(match kind {
                    0 => (0, vec![]),
                    1 => (total, vec![]),
                    2 => {
                        let mut t = vec![];
                        for i in 0..small {
                            t.push((fresh(total >> i & 1, 1, &mut rec, &mut vals, &mut vars), 1 << i));
                        }
                        if c.coin() {
                            t.reverse();
                        }
                        (0, t)
                    }
                    3 => {
                        let half = fresh(total / 2, max / 2, &mut rec, &mut vals, &mut vars);
                        let bit = fresh(total & 1, 1, &mut rec, &mut vals, &mut vars);
                        (0, vec![(half, 2), (bit, 1)])
                    }
                    4 => {
                        let half = fresh(total / 2, max / 2, &mut rec, &mut vals, &mut vars);
                        (total & 1, vec![(half, 1), (half, 1)])
                    }
                    _ => (0, vec![(fresh(total, max, &mut rec, &mut vals, &mut vars), 1)]),
                });
            }
            // the declared width may be larger than needed
            let w = match c.below(4) {
                0 => (small + 1 + c.below(cap as u64) as usize).min(cap - 1),
                _ => small + 1,
            };
            eqs.push((w, sides[0].clone(), sides[1].clone()));
        }
        {
            let mut m = MultiEq::new(&mut rec);
            for (w, a, b) in &eqs {
                let lc = |s: &Side| {
                    let mut l = LinearCombination::zero();
                    if s.0 != 0 {
                        l = l + (F::from(s.0), Rec::<F>::one());
                    }
                    s.1.iter().fold(l, |l, (v, k)| l + (F::from(*k), vars[*v]))
                };
                m.enforce_equal(*w, &lc(a), &lc(b));
            }
        }
        let (i, a) = rec.assignment().unwrap();
        let w0: Vec<F> = i.into_iter().chain(a).collect();
        let sys = rec.sys();
        let worth = |s: &Side, v: &[(u64, u64)]| s.0 + s.1.iter().map(|(i, k)| v[*i].0 * k).sum::<u64>();
        ensure!(sys.violated(&w0).is_none(), "{}: honest equalities {:?} rejected", F::NAME, eqs);
        c.ev(1);
        // every variable changed on its own, then random changes
        let nv = vals.len();
        for t in 0..nv.min(200) + 20 {
            let mut v = vals.clone();
            let changes = if t < nv { 1 } else { 1 + c.below(4) as usize };
            for _ in 0..changes {
                if nv == 0 {
                    break;
                }
                let i = if t < nv { t } else { c.below(nv as u64) as usize };
                v[i].0 = if c.coin() { (v[i].0 ^ 1).min(v[i].1) } else { c.below(v[i].1 + 1) };
            }
            let equal = eqs.iter().all(|(_, a, b)| worth(a, &v) == worth(b, &v));
            let mut w = w0.clone();
            for (i, x) in v.iter().enumerate() {
                w[1 + i] = F::from(x.0);
            }
            let ok = sys.violated(&w).is_none();
            c.ev(1);
            c.count(if equal { "forms_equal" } else { "forms_unequal" }, 1);
            ensure!(ok == equal, "{}: equalities {:?} with values {:?} are {}", F::NAME, eqs, v, if ok { "accepted" } else { "rejected" });
        }
        // two constants that differ can never be equal
        let k = c.below(1 << 10);
        let mut rec = Rec::<F>::new(Mode::Prove);
        {
            let mut m = MultiEq::new(&mut rec);
            let lc = |k: u64| if k == 0 { LinearCombination::zero() } else { LinearCombination::zero() + (F::from(k), Rec::<F>::one()) };
            let o = if c.coin() { 0 } else { c.below(1 << 10) };
            let (x, y) = if c.coin() { (k, o) } else { (o, k) };
            m.enforce_equal(10, &lc(x), &lc(y));
            drop(m);
            let bad = rec.sys().violated(&[F::ONE]).is_some();
            ensure!(bad == (x != y), "{}: the constants {} and {} compare as {}", F::NAME, x, y, if bad { "unequal" } else { "equal" });
        }
        c.seen(hash_bytes(format!("{:?}", eqs).as_bytes()));
        Ok(())
    }
    r.par("forms", 40000, 2000000, |c| match c.below(4) {
        0 => forms::<BabyBear>(c),
        1 => forms::<Gold>(c),
        2 => forms::<M61>(c),
        _ => forms::<Scalar>(c),
    });
    // large fields: the adversary solves for small non-zero differences
    fn large<F: FieldExt>(c: &mut Case) -> R {
        use vh::forge::{modulus, signed, Big};
        let cap = F::CAPACITY as usize;
        let mut widths: Vec<usize> = vec![];
        let mode = c.below(6);
        let long = c.idx % 250 == 249;
        let n = if long { 25 + c.below(1500) as usize } else { 1 + c.below(24) as usize };
        for _ in 0..n {
            widths.push(match mode {
                0 => 1,
                1 => cap - 1,
                2 => 1 + c.below(cap as u64 - 1) as usize,
                3 => 32 + c.below(4) as usize,
                4 => cap / 2 + c.below(3) as usize - 1,
                _ => {
                    // land exactly on the capacity, one less, one more
                    let used: usize = widths.iter().sum::<usize>() % cap;
                    let t = (cap - used) as i64 + c.below(3) as i64 - 1;
                    if t >= 1 && t < cap as i64 && c.coin() { t as usize } else { 1 + c.below(cap as u64 / 3) as usize }
                }
            });
        }
        let n = widths.len();
        for w in widths.iter_mut() {
            *w = (*w).min(cap - 1).max(1);
        }
        let style = c.below(2);
        let vals: Vec<(u64, u64)> = (0..n).map(|k| { let v = c.rng.next_u64() & ((1u64 << widths[k].min(60)) - 1); (v, v) }).collect();
        let (sys, w0, idx, ncons) = rows::<F>(&widths, style, &vals)?;
        ensure!(sys.violated(&w0).is_none(), "{}: widths {:?}: honest equalities rejected", F::NAME, widths);
        c.ev(1);
        c.max("equalities_per_constraint", n as u64 / (ncons.max(1) as u64));
        let p = modulus::<F>();
        // rows over d_k
        let mut cover = vec![0; n];
        for con in &sys.cons {
            let get = |t: &Vec<(usize, F)>, v: usize| t.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(F::ZERO);
            // (A)*(B) = C with B = 1: A - C in terms of l_k, r_k
            if con[1] != vec![(0, F::ONE)] {
                continue;
            }
            let mut row: Vec<(usize, Big)> = vec![];
            for k in 0..n {
                let cl = get(&con[0], idx[k].0) - get(&con[2], idx[k].0);
                let cr = get(&con[0], idx[k].1) - get(&con[2], idx[k].1);
                if cl.is_zero_vartime() && cr.is_zero_vartime() {
                    continue;
                }
                ensure!(cl == -cr, "{}: widths {:?}: equality {} is not a difference in its constraint", F::NAME, widths, k);
                cover[k] += 1;
                row.push((k, signed(&cl, p)));
            }
            if row.is_empty() {
                continue;
            }
            c.count("packed_rows", 1);
            // look for |d_k| < 2^{w_k}, not all zero, with sum c_k d_k = j p: greedy over seeds
            row.sort_by(|a, b| if a.1 == b.1 { std::cmp::Ordering::Equal } else if b.1.abs().lt(a.1.abs()) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
            let mut seeds: Vec<(Option<usize>, i64)> = vec![(None, 0)];
            for i in 0..if long { 0 } else { row.len() } {
                for s in [1i64, -1, 2] {
                    seeds.push((Some(i), s));
                }
            }
            for j in -2i64..=2 {
                let mut base = Big::ZERO;
                for _ in 0..j.unsigned_abs() {
                    base = if j > 0 { base.add(p) } else { base.sub(p) };
                }
                for (si, sv) in &seeds {
                    let mut t = base;
                    let mut d: Vec<Big> = vec![Big::ZERO; row.len()];
                    if let Some(i) = si {
                        d[*i] = if *sv > 0 { Big::small(*sv as u64) } else { Big::small(sv.unsigned_abs()).neg() };
                        for _ in 0..sv.unsigned_abs() {
                            t = if *sv > 0 { t.sub(row[*i].1) } else { t.add(row[*i].1) };
                        }
                    }
                    for (i, (k, co)) in row.iter().enumerate() {
                        if Some(i) == *si {
                            continue;
                        }
                        // d_i = round(t / co), clamped: long division by doubling
                        let (mut q, neg) = (Big::ZERO, t.is_neg() != co.is_neg());
                        let (mut ta, ca) = (t.abs(), co.abs());
                        if ca.is_zero() {
                            continue;
                        }
                        let mut shifts = vec![(ca, Big::small(1))];
                        while shifts.len() < widths[*k] {
                            let (a, b) = *shifts.last().unwrap();
                            if ta.lt(a) {
                                break;
                            }
                            shifts.push((a.add(a), b.add(b)));
                        }
                        for (a, b) in shifts.into_iter().rev() {
                            if !ta.lt(a) {
                                ta = ta.sub(a);
                                q = q.add(b);
                            }
                        }
                        d[i] = if neg { q.neg() } else { q };
                        t = if t.is_neg() { ta.neg() } else { ta };
                    }
                    c.count("attack_attempts", 1);
                    if !t.is_zero() || d.iter().all(|x| x.is_zero()) {
                        continue;
                    }
                    // widths respected?
                    if row.iter().enumerate().any(|(i, (k, _))| d[i].abs().bits() as usize > widths[*k]) {
                        continue;
                    }
                    // concrete forged assignment
                    let mut w = w0.clone();
                    for (i, (k, _)) in row.iter().enumerate() {
                        let f = |b: Big| -> F {
                            let mut acc = F::ZERO;
                            for z in (0..b.bits()).rev() {
                                acc = acc.double() + bf::<F>(b.bit(z));
                            }
                            acc
                        };
                        let (l, rr) = if d[i].is_neg() { (F::ZERO, f(d[i].abs())) } else { (f(d[i]), F::ZERO) };
                        w[idx[*k].0] = l;
                        w[idx[*k].1] = rr;
                    }
                    if sys.violated(&w).is_none() {
                        fail!("{}: widths {:?}: unequal values accepted: {:?}", F::NAME, widths, &w[1..1 + 2 * n]);
                    }
                }
            }
        }
        ensure!(cover.iter().all(|x| *x >= 1), "{}: widths {:?}: equalities {:?} never enforced", F::NAME, widths, cover);
        // single differences of every size must be rejected
        for k in 0..n {
            if long && k + 4 < n && c.below(n as u64 / 8) > 0 {
                continue;
            }
            for e in [0u32, widths[k] as u32 - 1] {
                let mut w = w0.clone();
                w[idx[k].0] += F::from(2).pow_vartime([e as u64]);
                c.ev(1);
                ensure!(sys.violated(&w).is_some(), "{}: widths {:?}: difference 2^{} in equality {} accepted", F::NAME, widths, e, k);
            }
        }
        c.seen(hash_bytes(format!("{}{:?}", F::NAME, widths).as_bytes()));
        c.sample(|| format!("{} widths {:?}: {} constraints", F::NAME, widths, ncons));
        Ok(())
    }
    r.par("large_fields", 20000, 800000, |c| on_field!(c, large, [M31, BabyBear, M61, F5_55, Gold, Gold, Scalar, Scalar]));
    "sequences of bounded equalities with random, extreme and capacity-straddling widths through the batching wrapper (with and without other activity and namespaces), observed as emitted constraints; in tiny fields every vector of differences within the widths is evaluated, in large fields an adversary searches small non-zero differences per emitted row (seeded greedy decomposition of j*p); distinct = distinct (field, widths)"
}

// ---------------------------------------------------------------- C09 / C10
#[derive(Clone)]
struct HashCase {
    kind: u8, // 0 sha256, 1 sha256 block, 2 blake2s
    msg: Vec<u8>,
    pers: [u8; 8],
    /// 0 all allocated, 1 all negated, 2 all constant, 3 mixed
    form: u8,
    seed: u64,
    /// where the values of allocated bits come from, instead of the message
    wseed: Option<u64>,
}
impl<F: FieldExt> Gadget<F> for HashCase {
    fn describe(&self) -> String {
        format!("hash kind {} of {} bytes {:02x?}.. pers {:02x?} form {} seed {:#x} witness {:x?}", self.kind, self.msg.len(), &self.msg[..self.msg.len().min(8)], self.pers, self.form, self.seed, self.wseed)
    }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
        let mut g = rand_chacha::ChaCha8Rng::seed_from_u64(self.seed);
        let bits = if self.kind == 2 { bits_le(&self.msg) } else { bits_be(&self.msg) };
        let mut input = vec![];
        let mut pool: Vec<(Boolean, bool)> = vec![];
        let mut wg = self.wseed.map(rand_chacha::ChaCha8Rng::seed_from_u64);
        let mut real = vec![];
        for (i, v) in bits.iter().enumerate() {
            let f = if self.form == 3 { (g.next_u32() % 4) as u8 } else { self.form };
            let (b, v) = match f {
                2 => (Boolean::constant(*v), *v),
                3 if !pool.is_empty() => {
                    let (b, x) = pool[(g.next_u32() as usize) % pool.len()].clone();
                    if g.next_u32() & 1 == 0 { (b, x) } else { (b.not(), !x) }
                }
                _ => {
                    let v = wg.as_mut().map(|w| w.next_u32() & 1 == 1).unwrap_or(*v);
                    let neg = f == 1;
                    let b = AllocatedBit::alloc(cs.namespace(|| format!("input {}", i)), io.w(v ^ neg))?;
                    io.input(b.get_variable());
                    let b = Boolean::from(b);
                    let b = if neg { b.not() } else { b };
                    pool.push((b.clone(), v));
                    (b, v)
                }
            };
            input.push(b);
            real.push(v);
        }
        let be = self.kind != 2;
        let msg: Vec<u8> = real.chunks(8).map(|c| c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u8) << if be { 7 - i } else { i })).collect();
        let out = match self.kind {
            0 => sha256(cs.namespace(|| "hash"), &input)?,
            1 => sha256_block_no_padding(cs.namespace(|| "hash"), &input)?,
            _ => blake2s(cs.namespace(|| "hash"), &input, &self.pers)?,
        };
        let want = match self.kind {
            0 => bits_be(&vh::refhash::sha256(&msg)),
            1 => bits_be(&vh::refhash::sha256_block(<&[u8; 64]>::try_from(&msg[..]).unwrap())),
            _ => bits_le(&vh::refhash::blake2s(&msg, &self.pers)),
        };
        io.check(out.len() == 256, || format!("{} output bits", out.len()));
        let one = CS::one();
        for (i, (b, v)) in out.iter().zip(want).enumerate() {
            io.out_bool(format!("digest bit {}", i), b, v, one);
        }
        Ok(())
    }
}
fn bits_be(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| x & (0x80 >> i) != 0)).collect()
}
fn bits_le(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| x & (1 << i) != 0)).collect()
}
fn hash_case(c: &mut Case, kind: u8, len: usize, form: u8) -> HashCase {
    let mut msg = vec![0u8; len];
    match c.below(5) {
        0 => {}
        1 => msg.iter_mut().for_each(|x| *x = 0xff),
        _ => c.rng.fill_bytes(&mut msg),
    }
    let mut pers = [0u8; 8];
    match c.below(5) {
        0 => {}
        1 => pers = [0xff; 8],
        2 => pers[c.below(8) as usize] = 1,
        _ => c.rng.fill_bytes(&mut pers),
    }
    HashCase { kind, msg, pers, form, seed: c.rng.next_u64(), wseed: None }
}
fn hashes(r: &Runner, kinds: &'static [u8]) {
    vh::refhash::self_test();
    // lengths around block and padding boundaries first
    const LENS: &[usize] = &[0, 1, 3, 4, 8, 31, 32, 54, 55, 56, 57, 59, 60, 63, 64, 65, 67, 68, 100, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193, 256];
    r.par("values", 240, 9000, |c| {
        let kind = *c.pick(kinds);
        let len = if kind == 1 { 64 } else if c.below(4) == 0 { c.below(200) as usize } else { LENS[(c.idx as usize * 7 + c.below(2) as usize) % LENS.len()] };
        let form = if c.idx % 3 == 0 { 2 } else { c.below(4) as u8 };
        let h = hash_case(c, kind, len, form);
        c.count(&format!("form_{}", form), 1);
        c.max("message_bytes", len as u64);
        let o = Opts { forge: 0, testcs: false, ..Default::default() };
        if form != 2 && c.below(3) == 0 {
            let mut h2 = h.clone();
            h2.wseed = Some(c.rng.next_u64());
            check_transfer::<Gold, _>(c, &h, &h2)?;
        }
        if c.below(3) == 0 { check_gadget::<Scalar, _>(c, &h, &o) } else { check_gadget::<Gold, _>(c, &h, &o) }
    });
    // the longest padding and counter carries
    r.par("constant_messages", 200, 6000, |c| {
        let kind = *c.pick(kinds);
        let len = if kind == 1 { 64 } else if c.idx < 6 { 300 + c.below(700) as usize } else { c.idx as usize * 5 % 260 };
        let h = hash_case(c, kind, len, 2);
        c.max("message_bytes", len as u64);
        check_gadget::<Gold, _>(c, &h, &Opts { forge: 0, testcs: false, ..Default::default() })
    });
    // lengths that need more than two bytes
    r.par("long_messages", 6, 60, |c| {
        let kind = kinds[0];
        let len = match c.idx {
            0 => 8191,
            1 => 8192 + c.below(70) as usize,
            2 => if c.thorough { 1 << 20 | 77 } else { 1 << 16 | 55 },
            _ => 1000 + c.below(30000) as usize,
        };
        let h = hash_case(c, kind, len, 2);
        c.max("message_bytes", len as u64);
        check_gadget::<Gold, _>(c, &h, &Opts { forge: 0, testcs: false, ..Default::default() })
    });
    // soundness: every output bit must be derivable from the input bits
    r.par("forging", 16, 600, |c| {
        let kind = kinds[c.idx as usize % kinds.len()];
        let len = if kind == 1 { 64 } else { [0usize, 1, 20, 55, 56, 64, 65, 70, 100, 127][c.below(10) as usize] };
        let form = [0u8, 3, 1, 3][c.below(4) as usize];
        let h = hash_case(c, kind, len, form);
        let o = Opts { forge: 40, testcs: true, ..Default::default() };
        if c.idx % 2 == 0 { check_gadget::<Scalar, _>(c, &h, &o) } else { check_gadget::<Gold, _>(c, &h, &o) }
    });
}
fn c09(r: &Runner) -> &'static str {
    hashes(r, &[0, 1, 0]);
    "messages of every padding-relevant length with constant, allocated, negated, mixed and aliased bits hashed by the circuit and by an independent SHA-256 (self-tested on standard vectors), output bits compared as value and linear combination; on a subset the forger must derive all output bits from the input bits over the captured constraints; distinct = distinct (field, system, witness)"
}
fn c10(r: &Runner) -> &'static str {
    hashes(r, &[2]);
    "messages of every block-relevant length and personalizations with constant, allocated, negated, mixed and aliased bits hashed by the circuit and by an independent BLAKE2s (self-tested), output bits compared as value and linear combination; on a subset the forger must derive all output bits from the input bits; distinct = distinct (field, system, witness)"
}

// ---------------------------------------------------------------- C11
struct LookupCase<F> {
    neg: bool,
    kinds: [u8; 3],
    vals: u8,
    table: Vec<(F, F)>,
}
impl<F: FieldExt> Gadget<F> for LookupCase<F> {
    fn describe(&self) -> String {
        format!("lookup neg={} kinds {:?} vals {:b} table {:?}", self.neg, self.kinds, self.vals, self.table)
    }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
        let mut bits = vec![];
        let mut vs = vec![];
        let mut first: Option<(Boolean, bool)> = None;
        for i in 0..3 {
            let v = self.vals >> i & 1 == 1;
            let (b, v) = match self.kinds[i] {
                0 => (Boolean::constant(v), v),
                1 | 2 => {
                    let neg = self.kinds[i] == 2;
                    let b = AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), io.w(v ^ neg))?;
                    io.input(b.get_variable());
                    let b = Boolean::from(b);
                    (if neg { b.not() } else { b }, v)
                }
                k => match &first {
                    Some((b, x)) => if k == 3 { (b.clone(), *x) } else { (b.not(), !*x) },
                    None => (Boolean::constant(v), v),
                },
            };
            if first.is_none() && !b.is_constant() {
                first = Some((b.clone(), v));
            }
            bits.push(b);
            vs.push(v);
        }
        if self.neg {
            let i = vs[0] as usize + 2 * vs[1] as usize;
            let (x, y) = bellman::gadgets::lookup::lookup3_xy_with_conditional_negation(cs.namespace(|| "lookup"), &bits, &self.table)?;
            io.out_numlc("x", &x, self.table[i].0);
            io.out_numlc("y", &y, if vs[2] { -self.table[i].1 } else { self.table[i].1 });
        } else {
            let i = vs[0] as usize + 2 * vs[1] as usize + 4 * vs[2] as usize;
            let (x, y) = bellman::gadgets::lookup::lookup3_xy(cs.namespace(|| "lookup"), &bits, &self.table)?;
            io.out_num("x", &x, self.table[i].0);
            io.out_num("y", &y, self.table[i].1);
        }
        Ok(())
    }
}
fn c11(r: &Runner) -> &'static str {
    fn one<F: FieldExt>(c: &mut Case, p: Option<u64>) -> R {
        let neg = c.idx % 2 == 1;
        let k = c.idx / 2;
        // all kinds x all selections, cycling; table random per case
        let kinds = [(k % 5) as u8, (k / 5 % 5) as u8, (k / 25 % 5) as u8];
        for vals in 0..8 {
            let mut g = rand_chacha::ChaCha8Rng::seed_from_u64(c.rng.next_u64());
            let t = table::<F>(&mut g, if neg { 4 } else { 8 });
            let mask = (0..3).fold(0, |m, i| m | ((kinds[i] == 1 || kinds[i] == 2) as u8) << i);
            let o = LookupCase { neg, kinds, vals: vals ^ (mask & c.below(8) as u8), table: t.clone() };
            let l = LookupCase { neg, kinds, vals, table: t };
            check_transfer::<F, _>(c, &l, &o)?;
            // two results and the AND: p^3 assignments at most
            check_gadget::<F, _>(c, &l, &Opts { brute: p, ..Default::default() })?;
        }
        Ok(())
    }
    r.par("tables", 20000, 600000, |c| match c.below(8) {
        0 => one::<F5>(c, Some(5)),
        1 => one::<F7>(c, Some(7)),
        2 => one::<F13>(c, Some(13)),
        3 => one::<F97>(c, None),
        4 => one::<BabyBear>(c, None),
        5 => one::<Gold>(c, None),
        _ => one::<Scalar>(c, None),
    });
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 2 + c.below(8) as usize;
        let p = Prog::random(c, LOOKUP_OPS, n, 3);
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts::default())
    }
    r.par("programs", 20000, 600000, |c| on_field!(c, prog, [F5, F97, Gold, Scalar]));
    "both lookups over every mix of constant/allocated/negated/aliased selector bits, every selection and tables with random, repeated, zero, negative and boundary entries; entry, linear combination and scaled combination compared, all assignments enumerated in tiny fields, forger elsewhere; distinct = distinct (field, system, witness)"
}

// ---------------------------------------------------------------- C12
fn c12(r: &Runner) -> &'static str {
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let n = 2 + c.below(8) as usize;
        let b = 2 + c.below(8) as usize;
        let mut p = Prog::random(c, PACK_OPS, n, b);
        p.ops.push((K::Pack, c.rng.next_u64()));
        let o = p.other_witness(c);
        check_transfer::<F, _>(c, &p, &o)?;
        check_gadget::<F, _>(c, &p, &Opts::default())
    }
    r.par("programs", 20000, 600000, |c| on_field!(c, prog, [F5, F7, F97, F257, M31, M61, Gold, Scalar, Scalar]));
    struct PackCase {
        bits: Vec<bool>,
        seed: u64,
    }
    impl<F: FieldExt> Gadget<F> for PackCase {
        fn describe(&self) -> String {
            format!("pack {} bits {:?} seed {:#x}", self.bits.len(), &self.bits[..self.bits.len().min(20)], self.seed)
        }
        fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
            let mut g = rand_chacha::ChaCha8Rng::seed_from_u64(self.seed);
            let mode = g.next_u32() % 4;
            let mut v = vec![];
            for (i, b) in self.bits.iter().enumerate() {
                let f = if mode == 3 { g.next_u32() % 3 } else { mode };
                v.push(match f {
                    0 => Boolean::constant(*b),
                    f => {
                        let neg = f == 2;
                        let x = AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), io.w(*b ^ neg))?;
                        io.input(x.get_variable());
                        if neg { Boolean::from(x).not() } else { Boolean::from(x) }
                    }
                });
            }
            pack_into_inputs(cs.namespace(|| "pack"), &v)?;
            let e = pack_ref::<F>(&self.bits);
            let n = compute_multipacking::<F>(&self.bits);
            io.check(e == n, || format!("compute_multipacking gives {:?}, expected {:?}", n, e));
            io.public.extend(e);
            Ok(())
        }
    }
    fn lens<F: FieldExt>(c: &mut Case) -> R {
        let cap = F::CAPACITY as usize;
        let len = match c.below(8) {
            0 => 0,
            1 => 1,
            2 => cap - 1,
            3 => cap,
            4 => cap + 1,
            5 => 2 * cap,
            6 if c.below(20) == 0 => (4 + c.below(40) as usize) * cap + c.below(3) as usize - 1,
            6 if c.below(8) == 0 && cap < 64 => (60 + c.below(300) as usize) * cap + c.below(3) as usize - 1,
            6 => 3 * cap - 1,
            _ => c.below(3 * cap as u64) as usize,
        };
        let m = c.below(4);
        let bits: Vec<bool> = (0..len).map(|_| match m { 0 => true, 1 => false, _ => c.coin() }).collect();
        c.max("bits", len as u64);
        let g = PackCase { bits, seed: c.rng.next_u64() };
        check_gadget::<F, _>(c, &g, &Opts::default())
    }
    r.par("lengths", 20000, 600000, |c| on_field!(c, lens, [F5, F7, F13, F17, F97, F257, F65537, M31, M61, Gold, Scalar, Scalar]));
    // injectivity
    fn inj<F: FieldExt>(c: &mut Case, max: usize) -> R {
        for len in 0..=max {
            let mut seen = HashMap::new();
            for m in 0..1u64 << len {
                let bits: Vec<bool> = (0..len).map(|i| m >> i & 1 == 1).collect();
                let p: Vec<Vec<u8>> = compute_multipacking::<F>(&bits).iter().map(|x| x.to_repr().as_ref().to_vec()).collect();
                c.ev(1);
                ensure!(p.len() == (len + F::CAPACITY as usize - 1) / F::CAPACITY as usize, "{}: {} bits gave {} elements", F::NAME, len, p.len());
                if let Some(o) = seen.insert(p, m) {
                    fail!("{}: bit strings {:b} and {:b} of length {} pack equally", F::NAME, m, o, len);
                }
            }
            c.seen(len as u64);
        }
        Ok(())
    }
    r.par("injectivity", 5, 5, |c| match c.idx {
        0 => inj::<F5>(c, 12),
        1 => inj::<F13>(c, 12),
        2 => inj::<F17>(c, 13),
        3 => inj::<F257>(c, 13),
        _ => inj::<Scalar>(c, 8),
    });
    r.par("bytes", 4000, 40000, |c| {
        let m = if c.below(50) == 0 { 70000 } else { 70 };
        let mut b = vec![0u8; c.below(m) as usize];
        c.rng.fill_bytes(&mut b);
        let be = bytes_to_bits(&b);
        let le = bytes_to_bits_le(&b);
        c.ev(2);
        ensure!(be == bits_be(&b), "bytes_to_bits({:02x?}...) of {} bytes", &b[..b.len().min(100)], b.len());
        ensure!(le == bits_le(&b), "bytes_to_bits_le({:02x?}...) of {} bytes", &b[..b.len().min(100)], b.len());
        c.seen(hash_bytes(&b));
        Ok(())
    });
    "bit strings of every capacity-relevant length and every mix of bit forms packed in circuit and natively, both compared with a Horner reference; the forger looks for other public inputs; all strings up to length 13 packed in small fields for injectivity; byte conversions against a mask-based reference; distinct = distinct (field, system, witness), lengths or byte strings"
}

// ---------------------------------------------------------------- C13
fn c13(r: &Runner) -> &'static str {
    const SETS: &[&[K]] = &[BOOL_OPS, NUM_OPS, BITS_OPS, LOOKUP_OPS, PACK_OPS];
    fn prog<F: FieldExt>(c: &mut Case) -> R {
        let set = *c.pick(SETS);
        let n = 2 + c.below(10) as usize;
        let b = c.below(3) as usize;
        let p = Prog::random(c, set, n, b);
        let q = p.other_witness(c);
        check_shape::<F, _>(c, &p, &q)
    }
    r.par("programs", 8000, 300000, |c| on_field!(c, prog, [F5, F97, F257, M31, Gold, M61, Scalar, Scalar]));
    fn word<F: FieldExt>(c: &mut Case) -> R {
        let n = 2 + c.below(8) as usize;
        let p = Prog::random(c, WORD_OPS, n, 1);
        let q = p.other_witness(c);
        check_shape::<F, _>(c, &p, &q)
    }
    r.par("word_programs", 2000, 60000, |c| on_field!(c, word, [Gold, Scalar]));
    r.par("hashes", 48, 2000, |c| {
        let kind = (c.idx % 3) as u8;
        let len = if kind == 1 { 64 } else { [0usize, 8, 55, 64, 80][c.below(5) as usize] };
        let form = [0u8, 1, 3, 3][c.below(4) as usize];
        let a = hash_case(c, kind, len, form);
        let mut b = a.clone();
        b.wseed = Some(c.rng.next_u64());
        if c.coin() { check_shape::<Gold, _>(c, &a, &b) } else { check_shape::<Scalar, _>(c, &a, &b) }
    });
    // key generation and proving through the real library on the transparent engine
    r.seq("keygen_and_prove", 400, 12000, |c| {
        type E = Dlog<F5_55>;
        let set = *c.pick(SETS);
        let n = 1 + c.below(6) as usize;
        let a = Prog::random(c, set, n, 1);
        let b = a.other_witness(c);
        let g = |k: u64| F5_55::from(k * 0x1234567 + 77);
        let gen = |p: &Prog, known: bool| {
            groth16::generate_parameters::<E, _>(
                AsCircuit { g: p, known },
                vh::engine::G1(F5_55::ONE), vh::engine::G2(F5_55::ONE), g(1), g(2), g(3), g(4), g(5),
            )
        };
        let base = gen(&a, false).map_err(|e| format!("key generation without witness failed: {:?}; {:?}", e, a))?;
        for (p, known) in [(&a, true), (&b, true), (&b, false)] {
            let x = gen(p, known).map_err(|e| format!("key generation failed: {:?}; {:?}", e, a))?;
            c.ev(1);
            ensure!(x == base, "key generation depends on the witness; {:?}", a);
        }
        for (p, known) in [(&a, false), (&b, false)] {
            let e = groth16::create_random_proof::<E, _, _, _>(AsCircuit { g: p, known }, &base, &mut c.rng);
            c.ev(1);
            c.count("proofs_without_witness", 1);
            match e {
                Err(SynthesisError::AssignmentMissing) => {}
                Ok(_) if base.vk.ic.len() == 1 && base.l.is_empty() => {}
                Ok(_) => fail!("a proof was produced without witness values; {:?}", a),
                Err(e) => fail!("proving without witness values gave {:?}; {:?}", e, a),
            }
        }
        for p in [&a, &b] {
            let pr = groth16::create_random_proof::<E, _, _, _>(AsCircuit { g: p, known: true }, &base, &mut c.rng)
                .map_err(|e| format!("honest proving failed: {:?}; {:?}", e, p))?;
            let mut rec = Rec::<F5_55>::new(Mode::Prove);
            AsCircuit { g: p, known: true }.synthesize(&mut rec).map_err(|e| format!("{:?}", e))?;
            let pubs: Vec<F5_55> = rec.inputs[1..].iter().map(|x| x.0.unwrap()).collect();
            let pvk = groth16::prepare_verifying_key(&base.vk);
            c.ev(1);
            ensure!(groth16::verify_proof(&pvk, &pr, &pubs).is_ok(), "honest proof for another witness rejected; {:?}", p);
        }
        c.seen(hash_bytes(format!("{:?}", a.ops).as_bytes()));
        Ok(())
    });
    "gadget programs and hash circuits synthesized with two different witnesses, with witnesses withheld, and in key-generation mode; recorded shapes (variables, constraints, merged coefficients) and testing-system digests compared; proving with withheld values must give the missing-assignment error; the same through real key generation and proving on a transparent engine; distinct = distinct (field, shape)"
}
