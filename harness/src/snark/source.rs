//! A monitored, fault-injecting parameter source.
use bellman::multiexp::{Source, SourceBuilder};
use bellman::SynthesisError;
use group::prime::PrimeCurveAffine;
use groth16::*;
use std::io;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vh::sn::*;

/// The fault a source is to raise.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    TooLarge,
    Identity,
    Unconstrained,
    Io(io::ErrorKind, u64),
}
impl Fault {
    pub fn err(&self) -> SynthesisError {
        match self {
            Fault::AssignmentMissing => SynthesisError::AssignmentMissing,
            Fault::DivisionByZero => SynthesisError::DivisionByZero,
            Fault::Unsatisfiable => SynthesisError::Unsatisfiable,
            Fault::TooLarge => SynthesisError::PolynomialDegreeTooLarge,
            Fault::Identity => SynthesisError::UnexpectedIdentity,
            Fault::Unconstrained => SynthesisError::UnconstrainedVariable,
            Fault::Io(k, n) => SynthesisError::IoError(io::Error::new(*k, format!("fault {}", n))),
        }
    }
    pub fn is(&self, e: &SynthesisError) -> bool {
        match (self, e) {
            (Fault::Io(k, n), SynthesisError::IoError(e)) => e.kind() == *k && e.to_string() == format!("fault {}", n),
            (a, b) => std::mem::discriminant(&a.err()) == std::mem::discriminant(b) && !matches!(b, SynthesisError::IoError(_)),
        }
    }
    pub fn random(c: &mut vh::Case) -> Fault {
        let n = c.below(1 << 30);
        match c.below(10) {
            0 => Fault::AssignmentMissing,
            1 => Fault::DivisionByZero,
            2 => Fault::Unsatisfiable,
            3 => Fault::TooLarge,
            4 => Fault::Identity,
            5 => Fault::Unconstrained,
            6 => Fault::Io(io::ErrorKind::UnexpectedEof, n),
            7 => Fault::Io(io::ErrorKind::Interrupted, n),
            8 => Fault::Io(io::ErrorKind::Other, n),
            _ => Fault::Io(
                *c.pick(&[
                    io::ErrorKind::NotFound,
                    io::ErrorKind::PermissionDenied,
                    io::ErrorKind::ConnectionReset,
                    io::ErrorKind::BrokenPipe,
                    io::ErrorKind::WouldBlock,
                    io::ErrorKind::TimedOut,
                    io::ErrorKind::InvalidInput,
                    io::ErrorKind::InvalidData,
                    io::ErrorKind::WriteZero,
                    io::ErrorKind::OutOfMemory,
                    io::ErrorKind::Unsupported,
                    io::ErrorKind::AlreadyExists,
                ]),
                n,
            ),
        }
    }
}
/// Which call: 0 vk, 1 h, 2 l, 3 a, 4 b_g1, 5 b_g2; sources: 6 h, 7 l, 8 a inputs, 9 a aux,
/// 10 b_g1 inputs, 11 b_g1 aux, 12 b_g2 inputs, 13 b_g2 aux.
pub const PLACES: &[&str] = &[
    "get_vk", "get_h", "get_l", "get_a", "get_b_g1", "get_b_g2", "h source", "l source", "a input source", "a aux source", "b_g1 input source", "b_g1 aux source", "b_g2 input source", "b_g2 aux source",
];
#[derive(Default)]
pub struct Log {
    /// arguments of the calls, in order
    pub calls: Mutex<Vec<(usize, usize, usize)>>,
    /// (place, elements handed out, elements skipped) of each pass over a source
    pub walks: Mutex<Vec<(usize, u64, u64)>>,
    pub faults: AtomicU64,
}
#[derive(Clone)]
pub struct Plan {
    pub place: usize,
    /// index of the base for sources
    pub at: usize,
    pub fault: Fault,
    /// also when the base is skipped
    pub on_skip: bool,
}
/// `at` usize::MAX: never fails
pub struct Src<E: Eng> {
    pub p: Parameters<E>,
    pub plans: Vec<Plan>,
    pub log: Arc<Log>,
    pub slow: u64,
}
#[derive(Clone)]
pub struct Made<G: PrimeCurveAffine> {
    bases: Arc<Vec<G>>,
    from: usize,
    at: usize,
    place: usize,
    plans: Vec<Plan>,
    log: Arc<Log>,
    slow: u64,
}
pub struct Walk<G: PrimeCurveAffine> {
    m: Made<G>,
    cur: G,
    nexts: u64,
    skips: u64,
}
impl<G: PrimeCurveAffine> Drop for Walk<G> {
    fn drop(&mut self) {
        self.m.log.walks.lock().unwrap().push((self.m.place, self.nexts, self.skips));
    }
}
impl<G: PrimeCurveAffine> SourceBuilder<G> for Made<G> {
    type Source = Walk<G>;
    fn build(self) -> Walk<G> {
        Walk { m: self, cur: G::identity(), nexts: 0, skips: 0 }
    }
}
impl<G: PrimeCurveAffine> Walk<G> {
    fn drag(&self) {
        if self.m.slow > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.m.slow));
        }
    }
}
impl<G: PrimeCurveAffine> Source<G> for Walk<G> {
    fn next(&mut self) -> Result<&G, SynthesisError> {
        self.drag();
        let rel = self.m.at - self.m.from;
        if let Some(p) = self.m.plans.iter().find(|p| p.at == rel) {
            self.m.log.faults.fetch_add(1, Ordering::SeqCst);
            return Err(p.fault.err());
        }
        if self.m.at >= self.m.bases.len() {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "out of bases").into());
        }
        self.cur = self.m.bases[self.m.at];
        self.m.at += 1;
        self.nexts += 1;
        Ok(&self.cur)
    }
    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
        let rel = self.m.at - self.m.from;
        if let Some(p) = self.m.plans.iter().find(|p| p.on_skip && p.at >= rel && p.at < rel + amt) {
            self.m.log.faults.fetch_add(1, Ordering::SeqCst);
            return Err(p.fault.err());
        }
        if self.m.at + amt > self.m.bases.len() {
            return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "out of bases").into());
        }
        self.m.at += amt;
        self.skips += amt as u64;
        Ok(())
    }
}
impl<E: Eng> Src<E> {
    pub fn new(p: &Parameters<E>) -> Src<E> {
        Src { p: p.clone(), plans: vec![], log: Arc::new(Log::default()), slow: 0 }
    }
    fn call(&self, place: usize, a: usize, b: usize) -> Result<(), SynthesisError> {
        self.log.calls.lock().unwrap().push((place, a, b));
        match self.plans.iter().find(|p| p.place == place) {
            Some(p) => {
                self.log.faults.fetch_add(1, Ordering::SeqCst);
                Err(p.fault.err())
            }
            None => Ok(()),
        }
    }
    fn made<G: PrimeCurveAffine>(&self, v: &Arc<Vec<G>>, at: usize, place: usize) -> Made<G> {
        Made {
            bases: v.clone(),
            from: at,
            at,
            place,
            plans: self.plans.iter().filter(|p| p.place == place).cloned().collect(),
            log: self.log.clone(),
            slow: self.slow,
        }
    }
}
impl<E: Eng> ParameterSource<E> for Src<E> {
    type G1Builder = Made<E::G1Affine>;
    type G2Builder = Made<E::G2Affine>;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<E>, SynthesisError> {
        self.call(0, n, 0)?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.call(1, n, 0)?;
        Ok(self.made(&self.p.h, 0, 6))
    }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.call(2, n, 0)?;
        Ok(self.made(&self.p.l, 0, 7))
    }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.call(3, i, a)?;
        Ok((self.made(&self.p.a, 0, 8), self.made(&self.p.a, i, 9)))
    }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.call(4, i, a)?;
        Ok((self.made(&self.p.b_g1, 0, 10), self.made(&self.p.b_g1, i, 11)))
    }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.call(5, i, a)?;
        Ok((self.made(&self.p.b_g2, 0, 12), self.made(&self.p.b_g2, i, 13)))
    }
}
