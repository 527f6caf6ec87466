//! Helpers around key generation, proving and verification.
use crate::circ::*;
use crate::engine::{Dlog, A1, A2, G1, G2};
use crate::field::FieldExt;
use crate::r1cs::Sys;
use bellman::{Circuit, SynthesisError, VerificationError};
use ff::PrimeField;
use group::{Curve, Group, WnafGroup};
use groth16::{Parameters, Proof, VerifyingKey};
use pairing::MultiMillerLoop;
use std::sync::Arc;

/// What the snark checks need from an engine.
pub trait Eng: MultiMillerLoop<Fr = <Self as Eng>::F, G1 = <Self as Eng>::P1, G2 = <Self as Eng>::P2> + std::fmt::Debug {
    type F: FieldExt;
    type P1: WnafGroup + Group<Scalar = Self::F> + Curve<AffineRepr = <Self as pairing::Engine>::G1Affine>;
    type P2: WnafGroup + Group<Scalar = Self::F> + Curve<AffineRepr = <Self as pairing::Engine>::G2Affine>;
    fn g1(x: Self::F) -> Self::G1Affine;
    fn g2(x: Self::F) -> Self::G2Affine;
}
impl<T: FieldExt> Eng for Dlog<T> {
    type F = T;
    type P1 = G1<T>;
    type P2 = G2<T>;
    fn g1(x: T) -> A1<T> {
        A1(x)
    }
    fn g2(x: T) -> A2<T> {
        A2(x)
    }
}
impl Eng for bls12_381::Bls12 {
    type F = bls12_381::Scalar;
    type P1 = bls12_381::G1Projective;
    type P2 = bls12_381::G2Projective;
    fn g1(x: Self::F) -> bls12_381::G1Affine {
        (bls12_381::G1Projective::generator() * x).into()
    }
    fn g2(x: Self::F) -> bls12_381::G2Affine {
        (bls12_381::G2Projective::generator() * x).into()
    }
}

pub fn gen<E: Eng, C: Circuit<E::F>>(c: C, k: &Trap<E::F>) -> Result<Parameters<E>, SynthesisError> {
    groth16::generate_parameters::<E, C>(
        c,
        E::P1::generator() * k.g1,
        E::P2::generator() * k.g2,
        k.alpha,
        k.beta,
        k.gamma,
        k.delta,
        k.tau,
    )
}
/// Discrete logarithms of transparent parameters.
pub fn dlogs<T: FieldExt>(p: &Parameters<Dlog<T>>) -> Expect<T> {
    let v = |x: &[A1<T>]| x.iter().map(|a| a.0).collect::<Vec<_>>();
    Expect {
        alpha_g1: p.vk.alpha_g1.0,
        beta_g1: p.vk.beta_g1.0,
        beta_g2: p.vk.beta_g2.0,
        gamma_g2: p.vk.gamma_g2.0,
        delta_g1: p.vk.delta_g1.0,
        delta_g2: p.vk.delta_g2.0,
        ic: v(&p.vk.ic),
        h: v(&p.h),
        l: v(&p.l),
        a: v(&p.a),
        b_g1: v(&p.b_g1),
        b_g2: p.b_g2.iter().map(|a| a.0).collect(),
    }
}
/// Parameters of any engine with the given discrete logarithms.
pub fn params_of<E: Eng>(e: &Expect<E::F>) -> Parameters<E> {
    let v = |x: &[E::F]| Arc::new(x.iter().map(|a| E::g1(*a)).collect::<Vec<_>>());
    Parameters {
        vk: vk_of::<E>(e),
        h: v(&e.h),
        l: v(&e.l),
        a: v(&e.a),
        b_g1: v(&e.b_g1),
        b_g2: Arc::new(e.b_g2.iter().map(|a| E::g2(*a)).collect()),
    }
}
pub fn vk_of<E: Eng>(e: &Expect<E::F>) -> VerifyingKey<E> {
    VerifyingKey {
        alpha_g1: E::g1(e.alpha_g1),
        beta_g1: E::g1(e.beta_g1),
        beta_g2: E::g2(e.beta_g2),
        gamma_g2: E::g2(e.gamma_g2),
        delta_g1: E::g1(e.delta_g1),
        delta_g2: E::g2(e.delta_g2),
        ic: e.ic.iter().map(|a| E::g1(*a)).collect(),
    }
}
pub fn proof_of<E: Eng>(d: &[E::F; 3]) -> Proof<E> {
    Proof { a: E::g1(d[0]), b: E::g2(d[1]), c: E::g1(d[2]) }
}
pub fn proof_dlogs<T: FieldExt>(p: &Proof<Dlog<T>>) -> [T; 3] {
    [p.a.0, p.b.0, p.c.0]
}
/// The Groth16 verification equation over discrete logarithms.
pub fn equation<T: PrimeField>(e: &Expect<T>, p: &[T; 3], inputs: &[T]) -> bool {
    let acc = inputs.iter().zip(&e.ic[1..]).fold(e.ic[0], |a, (x, b)| a + *x * b);
    p[0] * p[1] == e.alpha_g1 * e.beta_g2 + acc * e.gamma_g2 + p[2] * e.delta_g2
}
/// Random key material for the verifier.
pub fn random_key<T: FieldExt>(rng: &mut impl rand_core::RngCore, n_pub: usize, any: bool) -> Expect<T> {
    let mut r = || if any { T::random(&mut *rng) } else { nonzero::<T>(&mut *rng) };
    Expect {
        alpha_g1: r(),
        beta_g1: r(),
        beta_g2: r(),
        gamma_g2: r(),
        delta_g1: r(),
        delta_g2: r(),
        ic: (0..n_pub + 1).map(|_| r()).collect(),
        h: vec![],
        l: vec![],
        a: vec![],
        b_g1: vec![],
        b_g2: vec![],
    }
}
pub fn verdict(r: &Result<(), VerificationError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(VerificationError::InvalidProof) => 1,
        Err(VerificationError::InvalidVerifyingKey) => 2,
    }
}
/// A random valid or invalid (proof, inputs) for a key whose delta or gamma side can be solved.
pub fn forge_valid<T: FieldExt>(rng: &mut impl rand_core::RngCore, e: &Expect<T>) -> Option<([T; 3], Vec<T>)> {
    let inputs: Vec<T> = (1..e.ic.len()).map(|_| T::random(&mut *rng)).collect();
    let acc = inputs.iter().zip(&e.ic[1..]).fold(e.ic[0], |a, (x, b)| a + *x * b);
    let (a, b) = (T::random(&mut *rng), T::random(&mut *rng));
    let d: Option<T> = e.delta_g2.invert().into();
    let c = (a * b - e.alpha_g1 * e.beta_g2 - acc * e.gamma_g2) * d?;
    Some(([a, b, c], inputs))
}
/// No part of the system is degenerate at this trapdoor, so the library must behave regularly.
pub fn regular<T: PrimeField>(s: &Sys<T>, q: &Qap<T>, k: &Trap<T>) -> bool {
    if q.tau_in_domain || q.accident {
        return false;
    }
    let z = |x: T| x.is_zero_vartime();
    if z(k.tau) || z(k.gamma) || z(k.delta) || z(k.g1) || z(k.g2) {
        return false;
    }
    (s.n_in..s.n()).all(|i| !z(k.beta * q.u[i] + k.alpha * q.v[i] + q.w[i]))
}
