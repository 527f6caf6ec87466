//! An adversarial prover: given a recorded constraint system, the values of the variables it must
//! keep (the gadget's inputs) and the honest witness, look for another satisfying assignment in
//! which a given output takes a different value.
//!
//! Propagation is sound (a value is only derived when every solution has it), so "all outputs
//! derived" means that no forgery exists.  A forgery is only ever reported as a concrete full
//! assignment that satisfies every recorded constraint.
use crate::r1cs::Sys;
use ff::PrimeField;
use std::collections::VecDeque;

/// 384-bit two's complement integer.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big([u64; 6]);
impl Big {
    pub const ZERO: Big = Big([0; 6]);
    pub fn from_field<F: PrimeField>(f: &F) -> Big {
        let r = f.to_repr();
        let mut o = [0u64; 6];
        for (i, b) in r.as_ref().iter().enumerate() {
            o[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        Big(o)
    }
    pub fn small(v: u64) -> Big {
        Big([v, 0, 0, 0, 0, 0])
    }
    pub fn add(self, o: Big) -> Big {
        let mut r = [0u64; 6];
        let mut c = false;
        for i in 0..6 {
            let (x, c1) = self.0[i].overflowing_add(o.0[i]);
            let (y, c2) = x.overflowing_add(c as u64);
            r[i] = y;
            c = c1 | c2;
        }
        Big(r)
    }
    pub fn neg(self) -> Big {
        let mut r = self.0;
        for x in r.iter_mut() {
            *x = !*x;
        }
        Big(r).add(Big::small(1))
    }
    pub fn sub(self, o: Big) -> Big {
        self.add(o.neg())
    }
    pub fn is_neg(self) -> bool {
        self.0[5] >> 63 == 1
    }
    pub fn is_zero(self) -> bool {
        self.0 == [0; 6]
    }
    pub fn lt(self, o: Big) -> bool {
        self.sub(o).is_neg()
    }
    pub fn abs(self) -> Big {
        if self.is_neg() {
            self.neg()
        } else {
            self
        }
    }
    pub fn tz(self) -> u32 {
        for i in 0..6 {
            if self.0[i] != 0 {
                return i as u32 * 64 + self.0[i].trailing_zeros();
            }
        }
        384
    }
    pub fn bit(self, i: u32) -> bool {
        i < 384 && self.0[(i / 64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn bits(self) -> u32 {
        for i in (0..6).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
}
/// the modulus of F as an integer
pub fn modulus<F: PrimeField>() -> Big {
    Big::from_field(&(-F::ONE)).add(Big::small(1))
}
/// representative in (-p/2, p/2)
pub fn signed<F: PrimeField>(f: &F, p: Big) -> Big {
    let x = Big::from_field(f);
    let y = p.sub(x);
    if y.lt(x) {
        y.neg()
    } else {
        x
    }
}

pub enum Verdict<F> {
    /// no other output value is possible: derived by propagation or by exhausted search
    Unique { searched: bool },
    Forged { witness: Vec<F>, output: usize },
    /// the search gave up
    Inconclusive,
}

type Lc<F> = Vec<(usize, F)>;

struct Solver<'a, F: PrimeField> {
    sys: &'a Sys<F>,
    occ: Vec<Vec<u32>>,
    len: Vec<u32>,
    val: Vec<Option<F>>,
    dom: Vec<Option<[F; 2]>>,
    trail: Vec<(usize, Option<F>, Option<[F; 2]>)>,
    short: VecDeque<u32>,
    long: VecDeque<u32>,
    queued: Vec<bool>,
    deviant: Vec<usize>,
    honest: &'a [F],
    p: Big,
    budget: u64,
    complete: bool,
}
struct Conflict;
const LONG: u32 = 24;

impl<'a, F: PrimeField> Solver<'a, F> {
    fn new(sys: &'a Sys<F>, honest: &'a [F]) -> Self {
        let n = sys.n();
        let mut occ = vec![vec![]; n];
        let mut len = vec![];
        for (i, c) in sys.cons.iter().enumerate() {
            let mut l = 0;
            for t in c.iter() {
                for (v, _) in t {
                    l += 1;
                    if occ[*v].last() != Some(&(i as u32)) {
                        occ[*v].push(i as u32);
                    }
                }
            }
            len.push(l);
        }
        Solver {
            sys,
            occ,
            len,
            val: vec![None; n],
            dom: vec![None; n],
            trail: vec![],
            short: VecDeque::new(),
            long: VecDeque::new(),
            queued: vec![false; sys.cons.len()],
            deviant: vec![],
            honest,
            p: modulus::<F>(),
            budget: 0,
            complete: true,
        }
    }
    fn enqueue(&mut self, i: u32) {
        if !self.queued[i as usize] {
            self.queued[i as usize] = true;
            if self.len[i as usize] > LONG {
                self.long.push_back(i)
            } else {
                self.short.push_back(i)
            }
        }
    }
    fn touch(&mut self, v: usize) {
        for k in 0..self.occ[v].len() {
            let i = self.occ[v][k];
            self.enqueue(i);
        }
    }
    fn set(&mut self, v: usize, x: F) -> Result<(), Conflict> {
        match self.val[v] {
            Some(y) => {
                if x == y {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            None => {
                if let Some(d) = self.dom[v] {
                    if x != d[0] && x != d[1] {
                        return Err(Conflict);
                    }
                }
                self.trail.push((v, None, self.dom[v]));
                self.val[v] = Some(x);
                if x != self.honest[v] {
                    self.deviant.push(v);
                }
                self.touch(v);
                Ok(())
            }
        }
    }
    fn restrict(&mut self, v: usize, a: F, b: F) -> Result<(), Conflict> {
        match self.dom[v] {
            None => {
                self.trail.push((v, self.val[v], None));
                self.dom[v] = Some([a, b]);
                self.touch(v);
                Ok(())
            }
            Some(d) => {
                let ka = d.contains(&a);
                let kb = d.contains(&b);
                match (ka, kb) {
                    (true, true) => Ok(()),
                    (true, false) => self.set(v, a),
                    (false, true) => self.set(v, b),
                    (false, false) => Err(Conflict),
                }
            }
        }
    }
    fn undo(&mut self, mark: usize, dmark: usize) {
        while self.trail.len() > mark {
            let (v, a, b) = self.trail.pop().unwrap();
            self.val[v] = a;
            self.dom[v] = b;
        }
        self.deviant.truncate(dmark);
        while let Some(i) = self.short.pop_front() {
            self.queued[i as usize] = false;
        }
        while let Some(i) = self.long.pop_front() {
            self.queued[i as usize] = false;
        }
    }
    fn affine(&self, t: &Lc<F>) -> (F, Lc<F>) {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (v, c) in t {
            match self.val[*v] {
                Some(x) => k += x * c,
                None => u.push((*v, *c)),
            }
        }
        (k, u)
    }
    fn is_bool(&self, v: usize) -> bool {
        match self.dom[v] {
            Some(d) => {
                (d[0] == F::ZERO && d[1] == F::ONE) || (d[1] == F::ZERO && d[0] == F::ONE)
            }
            None => false,
        }
    }
    fn linear(&mut self, k: F, mut u: Lc<F>) -> Result<(), Conflict> {
        u.sort_by_key(|x| x.0);
        let mut m: Lc<F> = vec![];
        for (v, c) in u {
            match m.last_mut() {
                Some(l) if l.0 == v => l.1 += c,
                _ => m.push((v, c)),
            }
        }
        m.retain(|x| !x.1.is_zero_vartime());
        if m.is_empty() {
            return if k.is_zero_vartime() { Ok(()) } else { Err(Conflict) };
        }
        if m.len() == 1 {
            let x = -k * m[0].1.invert().unwrap();
            return self.set(m[0].0, x);
        }
        if m.iter().all(|(v, _)| self.is_bool(*v)) {
            return self.int_rule(k, m);
        }
        Ok(())
    }
    /// sum c_i x_i + k = 0 (mod p) with all x_i in {0,1}
    fn int_rule(&mut self, k: F, m: Lc<F>) -> Result<(), Conflict> {
        let p = self.p;
        let mut t = signed(&k, p);
        let mut u: Vec<(usize, Big)> = m.iter().map(|(v, c)| (*v, signed(c, p))).collect();
        let range = |t: Big, u: &[(usize, Big)]| {
            let (mut lo, mut hi) = (t, t);
            for (_, c) in u {
                if c.is_neg() {
                    lo = lo.add(*c)
                } else {
                    hi = hi.add(*c)
                }
            }
            (lo, hi)
        };
        let (lo, hi) = range(t, &u);
        // multiples of p in [lo, hi]
        let mut js = vec![];
        let mut j = Big::ZERO;
        while !hi.lt(j) && js.len() < 70 {
            if !j.lt(lo) {
                js.push(j);
            }
            j = j.add(p);
        }
        let mut j = p.neg();
        while !j.lt(lo) && js.len() < 70 {
            if !hi.lt(j) {
                js.push(j);
            }
            j = j.sub(p);
        }
        if js.is_empty() {
            return Err(Conflict);
        }
        if js.len() > 1 {
            return Ok(());
        }
        t = t.sub(js[0]);
        loop {
            if u.is_empty() {
                return if t.is_zero() { Ok(()) } else { Err(Conflict) };
            }
            let tz = u.iter().map(|x| x.1.tz()).min().unwrap();
            if t.tz() < tz {
                return Err(Conflict);
            }
            let mut it = u.iter().enumerate().filter(|(_, x)| x.1.tz() == tz);
            let (i, _) = it.next().unwrap();
            if it.next().is_none() {
                let (v, c) = u.swap_remove(i);
                if t.bit(tz) {
                    t = t.add(c);
                    self.set(v, F::ONE)?;
                } else {
                    self.set(v, F::ZERO)?;
                }
                continue;
            }
            // bounds
            let (lo, hi) = range(t, &u);
            if lo.is_neg() && !hi.is_neg() || lo.is_zero() || hi.is_zero() {
                let mut progress = false;
                let mut i = 0;
                let (mut lo, mut hi) = (lo, hi);
                while i < u.len() {
                    let (v, c) = u[i];
                    // x=1 possible? x=0 possible?
                    let (lo1, hi1, lo0, hi0) = if c.is_neg() {
                        (lo, hi.add(c), lo.sub(c), hi)
                    } else {
                        (lo.add(c), hi, lo, hi.sub(c))
                    };
                    let can1 = !(Big::ZERO.lt(lo1)) && !hi1.is_neg();
                    let can0 = !(Big::ZERO.lt(lo0)) && !hi0.is_neg();
                    match (can0, can1) {
                        (false, false) => return Err(Conflict),
                        (true, false) => {
                            self.set(v, F::ZERO)?;
                            u.swap_remove(i);
                            lo = lo0;
                            hi = hi0;
                            progress = true;
                        }
                        (false, true) => {
                            self.set(v, F::ONE)?;
                            t = t.add(c);
                            u.swap_remove(i);
                            lo = lo1;
                            hi = hi1;
                            progress = true;
                        }
                        (true, true) => i += 1,
                    }
                }
                if progress {
                    continue;
                }
                return Ok(());
            }
            return Err(Conflict);
        }
    }
    fn con(&mut self, i: usize) -> Result<(), Conflict> {
        let sys = self.sys;
        let [a, b, c] = &sys.cons[i];
        let (ka, ua) = self.affine(a);
        let (kb, ub) = self.affine(b);
        let (kc, uc) = self.affine(c);
        if ua.is_empty() && ub.is_empty() && uc.is_empty() {
            return if ka * kb == kc { Ok(()) } else { Err(Conflict) };
        }
        if ua.is_empty() || ub.is_empty() {
            let (k, kv, uv) = if ua.is_empty() { (ka, kb, ub) } else { (kb, ka, ua) };
            let mut l: Lc<F> = uv.into_iter().map(|(v, c)| (v, c * k)).collect();
            l.extend(uc.into_iter().map(|(v, c)| (v, -c)));
            return self.linear(k * kv - kc, l);
        }
        let mut vars: Vec<usize> = ua.iter().chain(&ub).chain(&uc).map(|x| x.0).collect();
        vars.sort();
        vars.dedup();
        let coef = |u: &Lc<F>, v: usize| u.iter().filter(|x| x.0 == v).fold(F::ZERO, |a, x| a + x.1);
        if vars.len() == 1 {
            let v = vars[0];
            let (xa, xb, xc) = (coef(&ua, v), coef(&ub, v), coef(&uc, v));
            // (ka + xa x)(kb + xb x) - kc - xc x = 0
            let q = xa * xb;
            let l = ka * xb + kb * xa - xc;
            let k = ka * kb - kc;
            if q.is_zero_vartime() {
                return self.linear(k, vec![(v, l)]);
            }
            let qi: F = q.invert().unwrap();
            if k.is_zero_vartime() {
                let r = -l * qi;
                return if r.is_zero_vartime() { self.set(v, r) } else { self.restrict(v, F::ZERO, r) };
            }
            let disc: F = l.square() - (q * k).double().double();
            let s: Option<F> = disc.sqrt().into();
            return match s {
                None => Err(Conflict),
                Some(s) => {
                    let h = F::TWO_INV * qi;
                    let (r1, r2) = ((s - l) * h, (-s - l) * h);
                    if r1 == r2 {
                        self.set(v, r1)
                    } else {
                        self.restrict(v, r1, r2)
                    }
                }
            };
        }
        let open: Vec<usize> = vars.iter().copied().filter(|v| self.dom[*v].is_none()).collect();
        if vars.len() <= 6 && open.len() == 1 && coef(&ua, open[0]).is_zero_vartime() && coef(&ub, open[0]).is_zero_vartime() {
            // one unrestricted variable, defined by the others: its possible values
            let xc = coef(&uc, open[0]);
            if xc.is_zero_vartime() {
                return Ok(());
            }
            let inv = xc.invert().unwrap();
            let known: Vec<(usize, [F; 2])> =
                vars.iter().filter(|v| **v != open[0]).map(|v| (*v, self.dom[*v].unwrap())).collect();
            // constraints among the others narrow the combinations that count
            let mut side: Vec<(F, Lc<F>, F, Lc<F>, F, Lc<F>)> = vec![];
            if known.len() > 2 {
                let mut idx: Vec<u32> = vec![];
                for (v, _) in &known {
                    for j in &self.occ[*v] {
                        let small = sys.cons[*j as usize].iter().map(|l| l.len()).sum::<usize>() <= 8;
                        if *j as usize != i && small && !idx.contains(j) {
                            idx.push(*j);
                        }
                    }
                }
                for j in idx {
                    let t = &sys.cons[j as usize];
                    let inside = t.iter().flatten().all(|(v, _)| self.val[*v].is_some() || known.iter().any(|w| w.0 == *v));
                    if inside {
                        let (a, b, c) = (self.affine(&t[0]), self.affine(&t[1]), self.affine(&t[2]));
                        side.push((a.0, a.1, b.0, b.1, c.0, c.1));
                    }
                }
            }
            let mut seen: Vec<F> = vec![];
            for mask in 0..(1u32 << known.len()) {
                let x = |v: usize| match known.iter().position(|w| w.0 == v) {
                    Some(k) => known[k].1[(mask >> k & 1) as usize],
                    None => F::ZERO,
                };
                let e = |k: F, u: &Lc<F>| u.iter().fold(k, |a, (v, c)| a + x(*v) * c);
                if side.iter().any(|s| e(s.0, &s.1) * e(s.2, &s.3) != e(s.4, &s.5)) {
                    continue;
                }
                let r = (e(ka, &ua) * e(kb, &ub) - e(kc, &uc)) * inv;
                if !seen.contains(&r) {
                    seen.push(r);
                }
                if seen.len() > 2 {
                    return Ok(());
                }
            }
            if seen.is_empty() {
                return Err(Conflict);
            }
            return if seen.len() == 1 { self.set(open[0], seen[0]) } else { self.restrict(open[0], seen[0], seen[1]) };
        }
        if vars.len() <= 4 && open.is_empty() {
            let doms: Vec<[F; 2]> = vars.iter().map(|v| self.dom[*v].unwrap()).collect();
            let mut ok = vec![[false; 2]; vars.len()];
            for mask in 0..(1u32 << vars.len()) {
                let x = |v: usize| {
                    let k = vars.iter().position(|w| *w == v).unwrap();
                    doms[k][(mask >> k & 1) as usize]
                };
                let e = |k: F, u: &Lc<F>| u.iter().fold(k, |a, (v, c)| a + x(*v) * c);
                if e(ka, &ua) * e(kb, &ub) == e(kc, &uc) {
                    for k in 0..vars.len() {
                        ok[k][(mask >> k & 1) as usize] = true;
                    }
                }
            }
            for k in 0..vars.len() {
                match ok[k] {
                    [false, false] => return Err(Conflict),
                    [true, false] => self.set(vars[k], doms[k][0])?,
                    [false, true] => self.set(vars[k], doms[k][1])?,
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn propagate(&mut self) -> Result<(), Conflict> {
        loop {
            let i = match self.short.pop_front() {
                Some(i) => i,
                None => match self.long.pop_front() {
                    Some(i) => i,
                    None => return Ok(()),
                },
            };
            self.queued[i as usize] = false;
            self.con(i as usize)?;
        }
    }
    fn eval_known(&self, l: &Lc<F>) -> Option<F> {
        let (k, u) = self.affine(l);
        if u.is_empty() {
            Some(k)
        } else {
            None
        }
    }
    /// Completes the assignment around the deviating variables.
    fn search(&mut self, goal: &Lc<F>, want_not: F) -> Option<Vec<F>> {
        if self.budget == 0 {
            self.complete = false;
            return None;
        }
        self.budget -= 1;
        let (k, u) = self.affine(goal);
        if u.is_empty() {
            if k == want_not {
                return None;
            }
        } else {
            // decide the goal's own variables first
            let (v, c) = u[u.len() - 1];
            let vals: Vec<F> = match self.dom[v] {
                Some(d) => d.to_vec(),
                None => {
                    self.complete = false;
                    let h = self.honest[v];
                    let mut t = vec![h + F::ONE, h, F::ZERO, F::ONE, -h, h.double(), F::from(2), -F::ONE];
                    if u.len() == 1 {
                        // never the value that makes the goal honest
                        let bad = (want_not - k) * c.invert().unwrap();
                        t.retain(|x| *x != bad);
                    }
                    t.dedup();
                    t
                }
            };
            return self.branch(v, vals, goal, want_not);
        }
        // constraints next to a deviating variable that are not yet decided
        let mut best: Option<(usize, usize)> = None;
        for d in &self.deviant {
            for i in &self.occ[*d] {
                let n = self.sys.cons[*i as usize]
                    .iter()
                    .flatten()
                    .filter(|(v, _)| self.val[*v].is_none())
                    .count();
                if n > 0 && best.map_or(true, |b| n < b.0) {
                    best = Some((n, *i as usize));
                }
            }
        }
        let i = match best {
            None => {
                let w: Vec<F> =
                    self.val.iter().zip(self.honest.iter()).map(|(v, h)| v.unwrap_or(*h)).collect();
                return if self.sys.violated(&w).is_none() && Sys::eval(goal, &w) != want_not {
                    Some(w)
                } else {
                    // the remaining constraints do not extend honestly: incomplete
                    self.complete = false;
                    None
                };
            }
            Some((_, i)) => i,
        };
        let mut vars: Vec<(usize, Big)> = self.sys.cons[i]
            .iter()
            .flatten()
            .filter(|(v, _)| self.val[*v].is_none())
            .map(|(v, c)| (*v, signed(c, self.p).abs()))
            .collect();
        vars.sort_by(|a, b| if a.1 == b.1 { a.0.cmp(&b.0) } else if b.1.lt(a.1) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
        vars.dedup_by_key(|x| x.0);
        if let Some((v, _)) = vars.iter().find(|(v, _)| self.dom[*v].is_some()) {
            let d = self.dom[*v].unwrap();
            let h = self.honest[*v];
            let vals = if d[1] == h { vec![d[1], d[0]] } else { d.to_vec() };
            return self.branch(*v, vals, goal, want_not);
        }
        // unrestricted variables: let each in turn absorb the deviation
        self.complete = false;
        for k in 0..vars.len().min(4) {
            let (m, dm) = (self.trail.len(), self.deviant.len());
            let mut ok = true;
            for (l, (v, _)) in vars.iter().enumerate() {
                if l != k && self.val[*v].is_none() && self.set(*v, self.honest[*v]).is_err() {
                    ok = false;
                    break;
                }
            }
            if ok && vars.len() == 1 {
                // a single undecided variable that propagation could not derive: any value
                ok = self.set(vars[0].0, self.honest[vars[0].0]).is_ok();
            }
            if ok && self.propagate().is_ok() {
                if self.trail.len() == m {
                    return None;
                }
                if let Some(w) = self.search(goal, want_not) {
                    return Some(w);
                }
            }
            self.undo(m, dm);
        }
        None
    }
    fn branch(&mut self, v: usize, vals: Vec<F>, goal: &Lc<F>, want_not: F) -> Option<Vec<F>> {
        for x in vals {
            let (m, dm) = (self.trail.len(), self.deviant.len());
            if self.set(v, x).is_ok() && self.propagate().is_ok() {
                if let Some(w) = self.search(goal, want_not) {
                    return Some(w);
                }
            }
            self.undo(m, dm);
        }
        None
    }
}

/// `fixed`: variables that keep their honest values.  `outputs`: linear combinations that must not
/// be able to take another value.
pub fn forge<F: PrimeField>(
    sys: &Sys<F>,
    fixed: &[usize],
    honest: &[F],
    outputs: &[Lc<F>],
    budget: u64,
) -> Verdict<F> {
    let mut s = Solver::new(sys, honest);
    let mut bad = s.set(0, F::ONE).is_err();
    for v in fixed {
        bad |= s.set(*v, honest[*v]).is_err();
    }
    for i in 0..sys.cons.len() {
        s.enqueue(i as u32);
    }
    if bad || s.propagate().is_err() {
        panic!("forge: the honest witness is not a solution");
    }
    let mut searched = false;
    let mut gave_up = false;
    let mut tried = 0;
    for (k, o) in outputs.iter().enumerate() {
        if s.eval_known(o).is_some() {
            continue;
        }
        if tried >= 6 {
            gave_up = true;
            break;
        }
        tried += 1;
        searched = true;
        let want_not = Sys::eval(o, honest);
        s.budget = budget;
        s.complete = true;
        s.deviant.clear();
        let (m, dm) = (s.trail.len(), s.deviant.len());
        if let Some(w) = s.search(o, want_not) {
            return Verdict::Forged { witness: w, output: k };
        }
        gave_up |= !s.complete;
        s.undo(m, dm);
    }
    if gave_up {
        Verdict::Inconclusive
    } else {
        Verdict::Unique { searched }
    }
}

/// All assignments of the non-fixed variables in a tiny field; returns a forged one if any.
/// Only for systems with few free variables.
pub fn brute<F: PrimeField>(sys: &Sys<F>, fixed: &[usize], honest: &[F], outputs: &[Lc<F>], p: u64) -> (u64, Option<Vec<F>>) {
    let free: Vec<usize> = (1..sys.n()).filter(|v| !fixed.contains(v)).collect();
    let total = p.checked_pow(free.len() as u32).expect("brute space");
    assert!(total <= 20_000_000, "brute space {}", total);
    let want: Vec<F> = outputs.iter().map(|o| Sys::eval(o, honest)).collect();
    let elems: Vec<F> = (0..p).map(F::from).collect();
    let mut w = honest.to_vec();
    for k in 0..total {
        let mut x = k;
        for v in &free {
            w[*v] = elems[(x % p) as usize];
            x /= p;
        }
        if sys.violated(&w).is_none() {
            for (o, h) in outputs.iter().zip(&want) {
                if Sys::eval(o, &w) != *h {
                    return (k + 1, Some(w));
                }
            }
        }
    }
    (total, None)
}

pub enum Solved<F> {
    Yes(Vec<F>),
    No,
    Undecided,
}
/// Fixes the given variables and derives the others.
pub fn solve<F: PrimeField>(sys: &Sys<F>, fixed: &[(usize, F)]) -> Solved<F> {
    let zeros = vec![F::ZERO; sys.n()];
    let mut s = Solver::new(sys, &zeros);
    let mut bad = s.set(0, F::ONE).is_err();
    for (v, x) in fixed {
        bad |= s.set(*v, *x).is_err();
    }
    for i in 0..sys.cons.len() {
        s.enqueue(i as u32);
    }
    if bad || s.propagate().is_err() {
        return Solved::No;
    }
    let w: Option<Vec<F>> = s.val.iter().cloned().collect();
    match w {
        Some(w) => {
            if sys.violated(&w).is_none() {
                Solved::Yes(w)
            } else {
                Solved::No
            }
        }
        None => Solved::Undecided,
    }
}
