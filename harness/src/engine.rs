//! A transparent pairing engine: a group element *is* its discrete logarithm, the pairing is
//! multiplication.  The real generator, prover and verifier run on it unchanged, and oracles can
//! compute every expected element exactly.
use crate::field::FieldExt;
use core::fmt;
use core::iter::Sum;
use core::marker::PhantomData;
use core::ops::*;
use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use subtle::{Choice, CtOption};

/// A probe on the pairing: while switched on, the terms of every Miller loop are logged.
pub static TAP_ON: AtomicBool = AtomicBool::new(false);
pub static TAP: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(Vec::new());
pub fn tapped<T>(f: impl FnOnce() -> T) -> (T, Vec<(Vec<u8>, Vec<u8>)>) {
    TAP.lock().unwrap().clear();
    TAP_ON.store(true, Ordering::SeqCst);
    let r = f();
    TAP_ON.store(false, Ordering::SeqCst);
    (r, std::mem::take(&mut *TAP.lock().unwrap()))
}

macro_rules! additive {
    ($P:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct $P<F: FieldExt>(pub F);
        impl<F: FieldExt> fmt::Debug for $P<F> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({:?})", stringify!($P), self.0)
            }
        }
        impl<F: FieldExt> Default for $P<F> {
            fn default() -> Self {
                $P(F::ZERO)
            }
        }
        impl<F: FieldExt> Neg for $P<F> {
            type Output = Self;
            fn neg(self) -> Self {
                $P(-self.0)
            }
        }
    };
}
macro_rules! addsub {
    ($P:ident, $R:ident) => {
        impl<F: FieldExt> Add<$R<F>> for $P<F> {
            type Output = Self;
            fn add(self, o: $R<F>) -> Self {
                $P(self.0 + o.0)
            }
        }
        impl<'a, F: FieldExt> Add<&'a $R<F>> for $P<F> {
            type Output = Self;
            fn add(self, o: &'a $R<F>) -> Self {
                $P(self.0 + o.0)
            }
        }
        impl<F: FieldExt> Sub<$R<F>> for $P<F> {
            type Output = Self;
            fn sub(self, o: $R<F>) -> Self {
                $P(self.0 - o.0)
            }
        }
        impl<'a, F: FieldExt> Sub<&'a $R<F>> for $P<F> {
            type Output = Self;
            fn sub(self, o: &'a $R<F>) -> Self {
                $P(self.0 - o.0)
            }
        }
        impl<F: FieldExt> AddAssign<$R<F>> for $P<F> {
            fn add_assign(&mut self, o: $R<F>) {
                self.0 += o.0
            }
        }
        impl<'a, F: FieldExt> AddAssign<&'a $R<F>> for $P<F> {
            fn add_assign(&mut self, o: &'a $R<F>) {
                self.0 += o.0
            }
        }
        impl<F: FieldExt> SubAssign<$R<F>> for $P<F> {
            fn sub_assign(&mut self, o: $R<F>) {
                self.0 -= o.0
            }
        }
        impl<'a, F: FieldExt> SubAssign<&'a $R<F>> for $P<F> {
            fn sub_assign(&mut self, o: &'a $R<F>) {
                self.0 -= o.0
            }
        }
    };
}
macro_rules! group_impl {
    ($P:ident) => {
        additive!($P);
        addsub!($P, $P);
        impl<F: FieldExt> Mul<F> for $P<F> {
            type Output = Self;
            fn mul(self, o: F) -> Self {
                $P(self.0 * o)
            }
        }
        impl<'a, F: FieldExt> Mul<&'a F> for $P<F> {
            type Output = Self;
            fn mul(self, o: &'a F) -> Self {
                $P(self.0 * o)
            }
        }
        impl<F: FieldExt> MulAssign<F> for $P<F> {
            fn mul_assign(&mut self, o: F) {
                self.0 *= o
            }
        }
        impl<'a, F: FieldExt> MulAssign<&'a F> for $P<F> {
            fn mul_assign(&mut self, o: &'a F) {
                self.0 *= o
            }
        }
        impl<F: FieldExt> Sum for $P<F> {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold($P(F::ZERO), |a, b| $P(a.0 + b.0))
            }
        }
        impl<'a, F: FieldExt> Sum<&'a $P<F>> for $P<F> {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold($P(F::ZERO), |a, b| $P(a.0 + b.0))
            }
        }
        impl<F: FieldExt> Group for $P<F> {
            type Scalar = F;
            fn random(mut rng: impl RngCore) -> Self {
                loop {
                    let x = F::random(&mut rng);
                    if !x.is_zero_vartime() {
                        return $P(x);
                    }
                }
            }
            fn identity() -> Self {
                $P(F::ZERO)
            }
            fn generator() -> Self {
                $P(F::ONE)
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn double(&self) -> Self {
                $P(self.0.double())
            }
        }
    };
}
macro_rules! encoding {
    ($P:ident) => {
        impl<F: FieldExt> GroupEncoding for $P<F> {
            type Repr = F::Repr;
            fn from_bytes(b: &F::Repr) -> CtOption<Self> {
                F::from_repr(*b).map($P)
            }
            fn from_bytes_unchecked(b: &F::Repr) -> CtOption<Self> {
                F::from_repr(*b).map($P)
            }
            fn to_bytes(&self) -> F::Repr {
                self.0.to_repr()
            }
        }
    };
}
macro_rules! curve_impl {
    ($P:ident, $A:ident, $OtherA:ident) => {
        group_impl!($P);
        additive!($A);
        addsub!($P, $A);
        encoding!($P);
        encoding!($A);
        impl<F: FieldExt> From<$A<F>> for $P<F> {
            fn from(a: $A<F>) -> Self {
                $P(a.0)
            }
        }
        impl<F: FieldExt> From<$P<F>> for $A<F> {
            fn from(a: $P<F>) -> Self {
                $A(a.0)
            }
        }
        impl<F: FieldExt> Mul<F> for $A<F> {
            type Output = $P<F>;
            fn mul(self, o: F) -> $P<F> {
                $P(self.0 * o)
            }
        }
        impl<'a, F: FieldExt> Mul<&'a F> for $A<F> {
            type Output = $P<F>;
            fn mul(self, o: &'a F) -> $P<F> {
                $P(self.0 * o)
            }
        }
        impl<F: FieldExt> Curve for $P<F> {
            type AffineRepr = $A<F>;
            fn to_affine(&self) -> $A<F> {
                $A(self.0)
            }
        }
        impl<F: FieldExt> PrimeGroup for $P<F> {}
        impl<F: FieldExt> PrimeCurve for $P<F> {
            type Affine = $A<F>;
        }
        impl<F: FieldExt> CofactorGroup for $P<F> {
            type Subgroup = Self;
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn into_subgroup(self) -> CtOption<Self> {
                CtOption::new(self, Choice::from(1))
            }
            fn is_torsion_free(&self) -> Choice {
                Choice::from(1)
            }
        }
        impl<F: FieldExt> CofactorCurve for $P<F> {
            type Affine = $A<F>;
        }
        impl<F: FieldExt> PrimeCurveAffine for $A<F> {
            type Scalar = F;
            type Curve = $P<F>;
            fn identity() -> Self {
                $A(F::ZERO)
            }
            fn generator() -> Self {
                $A(F::ONE)
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn to_curve(&self) -> $P<F> {
                $P(self.0)
            }
        }
        impl<F: FieldExt> CofactorCurveAffine for $A<F> {
            type Scalar = F;
            type Curve = $P<F>;
            fn identity() -> Self {
                $A(F::ZERO)
            }
            fn generator() -> Self {
                $A(F::ONE)
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn to_curve(&self) -> $P<F> {
                $P(self.0)
            }
        }
        impl<F: FieldExt> UncompressedEncoding for $A<F> {
            type Uncompressed = F::Repr;
            fn from_uncompressed(b: &F::Repr) -> CtOption<Self> {
                F::from_repr(*b).map($A)
            }
            fn from_uncompressed_unchecked(b: &F::Repr) -> CtOption<Self> {
                F::from_repr(*b).map($A)
            }
            fn to_uncompressed(&self) -> F::Repr {
                self.0.to_repr()
            }
        }
        impl<F: FieldExt> WnafGroup for $P<F> {
            fn recommended_wnaf_for_num_scalars(n: usize) -> usize {
                2 + n % 4
            }
        }
        impl<F: FieldExt> PairingCurveAffine for $A<F> {
            type Pair = $OtherA<F>;
            type PairingResult = Gt<F>;
            fn pairing_with(&self, o: &$OtherA<F>) -> Gt<F> {
                Gt(self.0 * o.0)
            }
        }
    };
}
curve_impl!(G1, A1, A2);
curve_impl!(G2, A2, A1);
group_impl!(Gt);

#[derive(Clone, Copy, Debug)]
pub struct Dlog<F: FieldExt>(PhantomData<F>);
#[derive(Clone, Copy, Debug)]
pub struct Prep<F: FieldExt>(pub F);
impl<F: FieldExt> From<A2<F>> for Prep<F> {
    fn from(a: A2<F>) -> Self {
        Prep(a.0)
    }
}
/// Miller loop result: kept distinct from Gt.
#[derive(Clone, Copy, Debug)]
pub struct Ml<F: FieldExt>(pub F);
impl<F: FieldExt> Default for Ml<F> {
    fn default() -> Self {
        Ml(F::ZERO)
    }
}
impl<F: FieldExt> Add for Ml<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Ml(self.0 + o.0)
    }
}
impl<'a, F: FieldExt> Add<&'a Ml<F>> for Ml<F> {
    type Output = Self;
    fn add(self, o: &'a Self) -> Self {
        Ml(self.0 + o.0)
    }
}
impl<F: FieldExt> AddAssign for Ml<F> {
    fn add_assign(&mut self, o: Self) {
        self.0 += o.0
    }
}
impl<'a, F: FieldExt> AddAssign<&'a Ml<F>> for Ml<F> {
    fn add_assign(&mut self, o: &'a Self) {
        self.0 += o.0
    }
}
impl<F: FieldExt> MillerLoopResult for Ml<F> {
    type Gt = Gt<F>;
    fn final_exponentiation(&self) -> Gt<F> {
        Gt(self.0)
    }
}
impl<F: FieldExt> Engine for Dlog<F> {
    type Fr = F;
    type G1 = G1<F>;
    type G1Affine = A1<F>;
    type G2 = G2<F>;
    type G2Affine = A2<F>;
    type Gt = Gt<F>;
    fn pairing(p: &A1<F>, q: &A2<F>) -> Gt<F> {
        Gt(p.0 * q.0)
    }
}
impl<F: FieldExt> MultiMillerLoop for Dlog<F> {
    type G2Prepared = Prep<F>;
    type Result = Ml<F>;
    fn multi_miller_loop(terms: &[(&A1<F>, &Prep<F>)]) -> Ml<F> {
        if TAP_ON.load(Ordering::SeqCst) {
            let mut t = TAP.lock().unwrap();
            for (p, q) in terms {
                t.push((p.0.to_repr().as_ref().to_vec(), q.0.to_repr().as_ref().to_vec()));
            }
        }
        Ml(terms.iter().fold(F::ZERO, |a, (p, q)| a + p.0 * q.0))
    }
}
