//! Random satisfiable constraint systems as circuits, and the exact Groth16 oracle for them.
use crate::field::FieldExt;
use crate::r1cs::*;
use crate::run::*;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use rand_core::RngCore;

#[derive(Clone, Debug)]
pub struct Circ<F: PrimeField> {
    /// public inputs including the leading one
    pub n_in: usize,
    pub n_aux: usize,
    /// allocation order: true = public
    pub order: Vec<bool>,
    pub cons: Vec<[Terms<F>; 3]>,
    /// flat assignments (one, inputs, aux), all of them satisfying
    pub ws: Vec<Vec<F>>,
    /// which assignment to use; None: values are withheld
    pub use_w: Option<usize>,
    /// emit constraints as soon as their variables exist
    pub eager: bool,
    pub namespaces: bool,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub n_pub: usize,
    pub n_aux: usize,
    pub n_cons: usize,
    pub witnesses: usize,
    pub plain: bool,
}
impl Spec {
    /// A random specification with sizes around power-of-two boundaries.
    pub fn random(c: &mut Case, max_log: u32) -> Spec {
        let n_pub = *c.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8]);
        let n_aux = *c.pick(&[0usize, 1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 33]);
        let total = {
            let k = c.below(max_log as u64 + 1) as u32;
            let t = 1i64 << k;
            t + *c.pick(&[-2i64, -1, 0, 0, 1, 2])
        };
        let n_cons = (total - n_pub as i64 - 1).max(0) as usize;
        Spec { n_pub, n_aux, n_cons, witnesses: 1, plain: false }
    }
}

pub fn special<F: PrimeField>(c: &mut Case) -> F {
    match c.below(8) {
        0 => F::ZERO,
        1 | 2 => F::ONE,
        3 => -F::ONE,
        4 => F::from(2),
        _ => F::random(&mut c.rng),
    }
}

fn idx(v: usize, n_in: usize) -> Index {
    if v < n_in {
        Index::Input(v)
    } else {
        Index::Aux(v - n_in)
    }
}

impl<F: FieldExt> Circ<F> {
    pub fn random(c: &mut Case, s: &Spec) -> Circ<F> {
        let n_in = s.n_pub + 1;
        let n = n_in + s.n_aux;
        let pat = c.below(6);
        let mut ws: Vec<Vec<F>> = vec![];
        for k in 0..s.witnesses {
            let w: Vec<F> = (0..n)
                .map(|v| {
                    if v == 0 {
                        F::ONE
                    } else if v < n_in && k > 0 {
                        ws[0][v]
                    } else {
                        match pat {
                            0 => special(c),
                            1 => F::from(c.below(2)),
                            2 if k == 0 => F::ZERO,
                            _ => F::random(&mut c.rng),
                        }
                    }
                })
                .collect();
            ws.push(w);
        }
        let nz: Vec<usize> = (0..n).filter(|v| *v > 0 && ws.iter().all(|w| !w[*v].is_zero_vartime())).collect();
        // a variable that distinguishes the witnesses
        let sep = if s.witnesses == 2 { (0..n).find(|v| ws[0][*v] != ws[1][*v]) } else { None };
        let mut cons = vec![];
        for _ in 0..s.n_cons {
            let mut t: [Terms<F>; 3] = [vec![], vec![], vec![]];
            for (k, l) in t.iter_mut().enumerate() {
                let style = if s.plain { 2 } else { c.below(12) };
                let len = match style {
                    0 => 0,
                    1 => 1,
                    10 => 6 + c.below(8) as usize,
                    11 if c.below(40) == 0 => 40 + c.below(300) as usize,
                    _ => 1 + c.below(3) as usize,
                };
                for _ in 0..len {
                    let v = if k == 1 && c.below(3) == 0 { 0 } else { c.below(n as u64) as usize };
                    let x = if s.plain { F::random(&mut c.rng) } else { special(c) };
                    l.push((idx(v, n_in), x));
                }
                if len > 0 && !s.plain {
                    let (v, x) = l[c.below(l.len() as u64) as usize];
                    match c.below(8) {
                        0 => l.push((v, -x)),                      // cancels
                        1 => l.push((v, x)),                       // repeated
                        2 => l.push((v, F::ZERO)),                 // zero coefficient
                        3 => {
                            // cancels in three terms, around another variable
                            let y = F::random(&mut c.rng);
                            l.insert(0, (v, y));
                            l.push((v, -x - y));
                        }
                        _ => {}
                    }
                }
            }
            // make it hold by adding to C
            let ev = |l: &Terms<F>, w: &[F]| l.iter().fold(F::ZERO, |a, (v, x)| a + w[flat(*v, n_in)] * x);
            let d: Vec<F> = ws.iter().map(|w| ev(&t[0], w) * ev(&t[1], w) - ev(&t[2], w)).collect();
            match sep {
                Some(v) => {
                    let y = (d[0] - d[1]) * (ws[0][v] - ws[1][v]).invert().unwrap();
                    let x = d[0] - y * ws[0][v];
                    t[2].push((idx(v, n_in), y));
                    t[2].push((idx(0, n_in), x));
                }
                None => {
                    if !d[0].is_zero_vartime() {
                        let v = if nz.is_empty() || c.below(4) == 0 { 0 } else { *c.pick(&nz) };
                        t[2].push((idx(v, n_in), d[0] * ws[0][v].invert().unwrap()));
                    }
                }
            }
            cons.push(t);
        }
        let mut z = Circ { n_in, n_aux: s.n_aux, order: vec![], cons, ws, use_w: Some(0), eager: c.coin(), namespaces: c.coin() };
        // every private variable must have an effect somewhere
        let sys = z.sys();
        let mut used = vec![false; n];
        for t in &sys.cons {
            for (v, _) in t.iter().flatten() {
                used[*v] = true;
            }
        }
        for v in n_in..n {
            if used[v] {
                continue;
            }
            let x = idx(v, n_in);
            let one = idx(0, n_in);
            let k = if s.witnesses == 1 { F::random(&mut c.rng) } else { F::ZERO };
            let t = match c.below(if s.witnesses == 1 { 5 } else { 3 }) {
                0 => [vec![(x, F::ONE)], vec![], vec![]],
                1 => [vec![], vec![(x, F::ONE)], vec![]],
                2 => [vec![(x, F::ONE)], vec![(one, F::ONE)], vec![(x, F::ONE)]],
                3 => [vec![], vec![], vec![(x, F::ONE), (one, -z.ws[0][v])]],
                _ => [vec![(x, F::ONE)], vec![(one, k)], vec![(one, k * z.ws[0][v])]],
            };
            let at = c.below(z.cons.len() as u64 + 1) as usize;
            z.cons.insert(at, t);
        }
        let mut order = vec![true; s.n_pub];
        order.extend(vec![false; s.n_aux]);
        if c.below(3) > 0 {
            for i in (1..order.len()).rev() {
                let j = c.below(i as u64 + 1) as usize;
                order.swap(i, j);
            }
        }
        z.order = order;
        debug_assert!((0..z.ws.len()).all(|k| z.sys().violated(&z.ws[k]).is_none()));
        z
    }
    pub fn sys(&self) -> Sys<F> {
        Sys {
            n_in: self.n_in,
            n_aux: self.n_aux,
            cons: self.cons.iter().map(|t| [merge(&t[0], self.n_in), merge(&t[1], self.n_in), merge(&t[2], self.n_in)]).collect(),
        }
    }
    pub fn with(&self, k: Option<usize>) -> Circ<F> {
        let mut z = self.clone();
        z.use_w = k;
        z
    }
    pub fn pubs(&self) -> Vec<F> {
        self.ws[0][1..self.n_in].to_vec()
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "circuit[{}] {} public {} private {} constraints eager={} order={}",
            F::NAME,
            self.n_in - 1,
            self.n_aux,
            self.cons.len(),
            self.eager,
            self.order.iter().map(|b| if *b { 'p' } else { 'a' }).collect::<String>()
        );
        for (i, t) in self.cons.iter().enumerate().take(6) {
            s.push_str(&format!(" | {}: {:?}", i, t));
        }
        s
    }
    pub fn hash(&self) -> u64 {
        crate::gad::shape_hash(&self.sys()) ^ crate::gad::hash_w(&self.ws[self.use_w.unwrap_or(0)])
    }
}

impl<F: FieldExt> Circuit<F> for Circ<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vars: Vec<Option<Variable>> = vec![None; self.n_in + self.n_aux];
        vars[0] = Some(CS::one());
        let (mut ni, mut na) = (1, self.n_in);
        let mut done = 0;
        let emit = |cs: &mut CS, vars: &[Option<Variable>], k: usize| {
            let t = &self.cons[k];
            let lc = |l: LinearCombination<F>, t: &Terms<F>| {
                t.iter().fold(l, |l, (v, x)| {
                    let v = vars[flat(*v, self.n_in)].unwrap();
                    if *x == F::ONE {
                        l + v
                    } else if *x == -F::ONE {
                        l - v
                    } else {
                        l + (*x, v)
                    }
                })
            };
            if self.namespaces && k % 3 == 0 {
                cs.namespace(|| format!("n{}", k)).enforce(|| "c", |l| lc(l, &t[0]), |l| lc(l, &t[1]), |l| lc(l, &t[2]));
            } else {
                cs.enforce(|| format!("c{}", k), |l| lc(l, &t[0]), |l| lc(l, &t[1]), |l| lc(l, &t[2]));
            }
        };
        for (k, public) in self.order.iter().enumerate() {
            let slot = if *public { &mut ni } else { &mut na };
            let v = *slot;
            *slot += 1;
            let val = self.use_w.map(|u| self.ws[u][v]);
            let f = || val.ok_or(SynthesisError::AssignmentMissing);
            vars[v] = Some(match (*public, self.namespaces && k % 4 == 1) {
                (true, false) => cs.alloc_input(|| format!("i{}", v), f)?,
                (true, true) => cs.namespace(|| format!("ns{}", v)).alloc_input(|| "i", f)?,
                (false, false) => cs.alloc(|| format!("a{}", v), f)?,
                (false, true) => cs.namespace(|| format!("ns{}", v)).alloc(|| "a", f)?,
            });
            if self.eager {
                while done < self.cons.len()
                    && self.cons[done].iter().flatten().all(|(v, _)| vars[flat(*v, self.n_in)].is_some())
                {
                    emit(cs, &vars, done);
                    done += 1;
                }
            }
        }
        while done < self.cons.len() {
            emit(cs, &vars, done);
            done += 1;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- oracle
/// The quadratic arithmetic program of a system at tau, for the library's constraint order:
/// the circuit's constraints, then one `input * 0 = 0` per public input.
pub struct Qap<F: PrimeField> {
    pub n: usize,
    pub u: Vec<F>,
    pub v: Vec<F>,
    pub w: Vec<F>,
    /// vanishing polynomial at tau
    pub t: F,
    /// tau is a point of the domain
    pub tau_in_domain: bool,
    /// some polynomial is not zero but vanishes at tau
    pub accident: bool,
}
pub fn domain_root<F: PrimeField>(log: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in log..F::S {
        w = w.square();
    }
    w
}
pub fn domain_log(len: usize) -> u32 {
    let mut l = 0;
    while (1usize << l) < len {
        l += 1;
    }
    l
}
impl<F: PrimeField> Qap<F> {
    pub fn new(sys: &Sys<F>, tau: F) -> Qap<F> {
        let rows = sys.cons.len() + sys.n_in;
        let log = domain_log(rows);
        let n = 1usize << log;
        let root = domain_root::<F>(log);
        let t = tau.pow_vartime([n as u64]) - F::ONE;
        let ninv = F::from(n as u64).invert().unwrap();
        let mut lag = Vec::with_capacity(rows);
        let mut p = F::ONE;
        let mut inside = false;
        for _ in 0..rows {
            // L_j(tau) = w^j (tau^n - 1) / (n (tau - w^j))
            let d = tau - p;
            lag.push(if d.is_zero_vartime() {
                inside = true;
                F::ONE
            } else {
                p * t * ninv * d.invert().unwrap()
            });
            p *= root;
        }
        let m = sys.n();
        let mut r = [vec![F::ZERO; m], vec![F::ZERO; m], vec![F::ZERO; m]];
        let mut present = [vec![false; m], vec![false; m], vec![false; m]];
        for (j, c) in sys.cons.iter().enumerate() {
            for k in 0..3 {
                for (v, x) in &c[k] {
                    r[k][*v] += lag[j] * x;
                    present[k][*v] = true;
                }
            }
        }
        for i in 0..sys.n_in {
            r[0][i] += lag[sys.cons.len() + i];
            present[0][i] = true;
        }
        let accident = (0..2).any(|k| (0..m).any(|v| present[k][v] && r[k][v].is_zero_vartime()));
        let [u, v, w] = r;
        Qap { n, u, v, w, t, tau_in_domain: inside || t.is_zero_vartime(), accident }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Trap<F> {
    pub g1: F,
    pub g2: F,
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub delta: F,
    pub tau: F,
}
pub fn nonzero<F: PrimeField>(mut rng: impl RngCore) -> F {
    loop {
        let x = F::random(&mut rng);
        if !x.is_zero_vartime() {
            return x;
        }
    }
}
impl<F: PrimeField> Trap<F> {
    pub fn random(c: &mut Case) -> Trap<F> {
        let r = &mut c.rng;
        Trap {
            g1: nonzero(&mut *r),
            g2: nonzero(&mut *r),
            alpha: nonzero(&mut *r),
            beta: nonzero(&mut *r),
            gamma: nonzero(&mut *r),
            delta: nonzero(&mut *r),
            tau: nonzero(&mut *r),
        }
    }
}
/// Discrete logarithms of all elements of the parameters.
#[derive(PartialEq, Debug, Clone)]
pub struct Expect<F> {
    pub alpha_g1: F,
    pub beta_g1: F,
    pub beta_g2: F,
    pub gamma_g2: F,
    pub delta_g1: F,
    pub delta_g2: F,
    pub ic: Vec<F>,
    pub h: Vec<F>,
    pub l: Vec<F>,
    pub a: Vec<F>,
    pub b_g1: Vec<F>,
    pub b_g2: Vec<F>,
}
impl<F: PrimeField> Expect<F> {
    pub fn new(sys: &Sys<F>, q: &Qap<F>, k: &Trap<F>) -> Expect<F> {
        let e = |i: usize| k.beta * q.u[i] + k.alpha * q.v[i] + q.w[i];
        let di = k.delta.invert().unwrap();
        let gi = k.gamma.invert().unwrap();
        let mut h = vec![];
        let mut p = F::ONE;
        for _ in 0..q.n - 1 {
            h.push(k.g1 * p * q.t * di);
            p *= k.tau;
        }
        let nz = |x: &[F], g: F| x.iter().filter(|x| !x.is_zero_vartime()).map(|x| g * x).collect::<Vec<F>>();
        Expect {
            alpha_g1: k.g1 * k.alpha,
            beta_g1: k.g1 * k.beta,
            beta_g2: k.g2 * k.beta,
            gamma_g2: k.g2 * k.gamma,
            delta_g1: k.g1 * k.delta,
            delta_g2: k.g2 * k.delta,
            ic: (0..sys.n_in).map(|i| k.g1 * e(i) * gi).collect(),
            h,
            l: (sys.n_in..sys.n()).map(|i| k.g1 * e(i) * di).collect(),
            a: nz(&q.u, k.g1),
            b_g1: nz(&q.v, k.g1),
            b_g2: nz(&q.v, k.g2),
        }
    }
}
/// Discrete logarithms of the proof elements for a satisfying assignment.
pub fn proof_oracle<F: PrimeField>(sys: &Sys<F>, q: &Qap<F>, k: &Trap<F>, w: &[F], r: F, s: F) -> [F; 3] {
    let dot = |x: &[F]| x.iter().zip(w).fold(F::ZERO, |a, (x, w)| a + *x * w);
    let (au, bv, cw) = (dot(&q.u), dot(&q.v), dot(&q.w));
    let a = k.alpha + au + r * k.delta;
    let b = k.beta + bv + s * k.delta;
    let mut priv_part = F::ZERO;
    for i in sys.n_in..sys.n() {
        priv_part += w[i] * (k.beta * q.u[i] + k.alpha * q.v[i] + q.w[i]);
    }
    let ht = au * bv - cw;
    let c = (priv_part + ht) * k.delta.invert().unwrap() + a * s + b * r - r * s * k.delta;
    [k.g1 * a, k.g2 * b, k.g1 * c]
}
