//! Small prime fields with transparent arithmetic, used so that oracles can compute exactly and
//! exhaustive enumeration is possible.  `P` is the modulus, `G` a multiplicative generator.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64, const G: u64>(pub u64);

/// 2^64 - 2^32 + 1: NUM_BITS = 64, S = 32.
pub const GOLD_P: u64 = 0xFFFF_FFFF_0000_0001;
pub type Gold = Fp<GOLD_P, 7>;
pub type F5 = Fp<5, 2>;
pub type F7 = Fp<7, 3>;
pub type F13 = Fp<13, 2>;
pub type F17 = Fp<17, 3>;
pub type F97 = Fp<97, 5>;
pub type F193 = Fp<193, 5>;
pub type F257 = Fp<257, 3>;
pub type F65537 = Fp<65537, 3>;
pub type BabyBear = Fp<2013265921, 31>;
/// 2^31 - 1
pub type M31 = Fp<2147483647, 7>;
/// 2^61 - 1
pub type M61 = Fp<2305843009213693951, 37>;
/// 5 * 2^55 + 1 (58 bits, S = 55)
pub type F5_55 = Fp<180143985094819841, 6>;
/// 75 * 2^51 + 1 (58 bits, S = 51)
pub type F75_51 = Fp<168884986026393601, 11>;
/// 127 * 2^24 + 1 (31 bits, S = 24)
pub type Koala = Fp<2130706433, 3>;

pub const fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    let x = (a as u128) * (b as u128);
    if p == GOLD_P {
        // 2^64 = 2^32 - 1, 2^96 = -1 (mod p)
        let lo = x as u64;
        let hi = (x >> 64) as u64;
        let hh = hi >> 32;
        let hl = hi & 0xFFFF_FFFF;
        let (mut t, borrow) = lo.overflowing_sub(hh);
        if borrow {
            t = t.wrapping_sub(0xFFFF_FFFF);
        }
        let u = (hl << 32) - hl;
        let (mut r, carry) = t.overflowing_add(u);
        if carry {
            r = r.wrapping_add(0xFFFF_FFFF);
        }
        if r >= p {
            r -= p;
        }
        r
    } else {
        (x % (p as u128)) as u64
    }
}
pub const fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
pub const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

impl<const P: u64, const G: u64> Fp<P, G> {
    pub const MODP: u64 = P;
    pub fn new(v: u64) -> Self {
        Fp(v % P)
    }
    pub fn from_i128(v: i128) -> Self {
        Fp(v.rem_euclid(P as i128) as u64)
    }
}
impl<const P: u64, const G: u64> fmt::Debug for Fp<P, G> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64, const G: u64> ConstantTimeEq for Fp<P, G> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64, const G: u64> ConditionallySelectable for Fp<P, G> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
#[inline]
fn addm(a: u64, b: u64, p: u64) -> u64 {
    let (s, c) = a.overflowing_add(b);
    if c || s >= p {
        s.wrapping_sub(p)
    } else {
        s
    }
}
#[inline]
fn subm(a: u64, b: u64, p: u64) -> u64 {
    if a >= b {
        a - b
    } else {
        a.wrapping_sub(b).wrapping_add(p)
    }
}
impl<const P: u64, const G: u64> Neg for Fp<P, G> {
    type Output = Self;
    fn neg(self) -> Self {
        if self.0 == 0 {
            self
        } else {
            Fp(P - self.0)
        }
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl<const P: u64, const G: u64> $tr for Fp<P, G> {
            type Output = Self;
            #[inline]
            fn $f(self, o: Self) -> Self {
                let g: fn(u64, u64, u64) -> u64 = $e;
                Fp(g(self.0, o.0, P))
            }
        }
        impl<'a, const P: u64, const G: u64> $tr<&'a Fp<P, G>> for Fp<P, G> {
            type Output = Self;
            #[inline]
            fn $f(self, o: &'a Self) -> Self {
                $tr::$f(self, *o)
            }
        }
        impl<const P: u64, const G: u64> $tra for Fp<P, G> {
            #[inline]
            fn $fa(&mut self, o: Self) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, const P: u64, const G: u64> $tra<&'a Fp<P, G>> for Fp<P, G> {
            #[inline]
            fn $fa(&mut self, o: &'a Self) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, addm);
binop!(Sub, sub, SubAssign, sub_assign, subm);
binop!(Mul, mul, MulAssign, mul_assign, mulmod);
impl<const P: u64, const G: u64> Sum for Fp<P, G> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64, const G: u64> Sum<&'a Fp<P, G>> for Fp<P, G> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64, const G: u64> Product for Fp<P, G> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64, const G: u64> Product<&'a Fp<P, G>> for Fp<P, G> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64, const G: u64> From<u64> for Fp<P, G> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64, const G: u64> Field for Fp<P, G> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    fn random(mut rng: impl RngCore) -> Self {
        // rejection sampling: exactly uniform, and maps a zero draw to zero
        let mask = if bits(P) == 64 {
            u64::MAX
        } else {
            (1u64 << bits(P)) - 1
        };
        loop {
            let v = rng.next_u64() & mask;
            if v < P {
                return Fp(v);
            }
        }
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        let v = powmod(self.0, P - 2, P);
        CtOption::new(Fp(v), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        ff::helpers::sqrt_ratio_generic(num, div)
    }
    fn sqrt(&self) -> CtOption<Self> {
        // Tonelli-Shanks, variable time
        if self.0 == 0 {
            return CtOption::new(Fp(0), Choice::from(1));
        }
        if powmod(self.0, (P - 1) / 2, P) != 1 {
            return CtOption::new(Fp(0), Choice::from(0));
        }
        let s = (P - 1).trailing_zeros();
        let t = (P - 1) >> s;
        let mut m = s;
        let mut c = powmod(G, t, P);
        let mut tt = powmod(self.0, t, P);
        let mut r = powmod(self.0, t / 2 + 1, P);
        while tt != 1 {
            let mut i = 0;
            let mut u = tt;
            while u != 1 {
                u = mulmod(u, u, P);
                i += 1;
            }
            let mut b = c;
            for _ in 0..(m - i - 1) {
                b = mulmod(b, b, P);
            }
            m = i;
            c = mulmod(b, b, P);
            tt = mulmod(tt, c, P);
            r = mulmod(r, b, P);
        }
        CtOption::new(Fp(r), Choice::from(1))
    }
}
impl<const P: u64, const G: u64> PrimeField for Fp<P, G> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Fp(if v < P { v } else { 0 }), Choice::from((v < P) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "see type";
    const NUM_BITS: u32 = bits(P);
    const CAPACITY: u32 = bits(P) - 1;
    const TWO_INV: Self = Fp(P / 2 + 1);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(G);
    const S: u32 = (P - 1).trailing_zeros();
    const ROOT_OF_UNITY: Self = Fp(powmod(G, (P - 1) >> (P - 1).trailing_zeros(), P));
    const ROOT_OF_UNITY_INV: Self = Fp(powmod(
        powmod(G, (P - 1) >> (P - 1).trailing_zeros(), P),
        P - 2,
        P,
    ));
    const DELTA: Self = Fp(powmod(G, 1u64 << (P - 1).trailing_zeros(), P));
}
impl<const P: u64, const G: u64> PrimeFieldBits for Fp<P, G> {
    type ReprBits = [u64; 1];
    fn to_le_bits(&self) -> FieldBits<Self::ReprBits> {
        FieldBits::new([self.0])
    }
    fn char_le_bits() -> FieldBits<Self::ReprBits> {
        FieldBits::new([P])
    }
}

/// Field helpers common to all fields the harness uses.
pub trait FieldExt: PrimeField + PrimeFieldBits {
    const NAME: &'static str;
}
macro_rules! named { ($($t:ty => $n:expr),*) => { $(impl FieldExt for $t { const NAME: &'static str = $n; })* } }
named!(Gold => "goldilocks64", F5 => "f5", F7 => "f7", F13 => "f13", F17 => "f17", F97 => "f97",
       F193 => "f193", F257 => "f257", F65537 => "f65537", BabyBear => "babybear31", M31 => "m31",
       M61 => "m61", F5_55 => "f5x2^55+1", F75_51 => "f75x2^51+1", Koala => "koalabear31");
impl FieldExt for bls12_381::Scalar {
    const NAME: &'static str = "bls12-381-fr";
}

pub fn self_test() {
    fn t<const P: u64, const G: u64>() {
        let a = Fp::<P, G>::new(123456789123456789);
        let b = Fp::<P, G>::new(987654321987654321);
        assert_eq!((a * b).0 as u128, (a.0 as u128 * b.0 as u128) % P as u128);
        assert_eq!((a + b).0 as u128, (a.0 as u128 + b.0 as u128) % P as u128);
        assert_eq!((a - b) + b, a);
        if a.0 != 0 {
            assert_eq!(a * a.invert().unwrap(), Fp(1));
        }
        let s = a.square().sqrt().unwrap();
        assert!(s == a || s == -a);
        let r = Fp::<P, G>::ROOT_OF_UNITY;
        let mut x = r;
        for _ in 0..(Fp::<P, G>::S - 1) {
            x = x.square();
        }
        assert_eq!(x, -Fp::<P, G>(1));
    }
    t::<GOLD_P, 7>();
    t::<168884986026393601, 11>();
    t::<2130706433, 3>();
    t::<5, 2>();
    t::<7, 3>();
    t::<13, 2>();
    t::<17, 3>();
    t::<97, 5>();
    t::<193, 5>();
    t::<257, 3>();
    t::<65537, 3>();
    t::<2013265921, 31>();
    t::<2147483647, 7>();
    t::<2305843009213693951, 37>();
    t::<180143985094819841, 6>();
}
