//! Random gadget programs: a structure (operations and how they are wired) and a separate witness
//! seed.  Interpreting a program computes the expected values natively next to the real gadgets.
use crate::field::FieldExt;
use crate::gad::*;
use crate::run::*;
use bellman::gadgets::boolean::{
    field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean,
};
use bellman::gadgets::lookup::{lookup3_xy, lookup3_xy_with_conditional_negation};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::{compute_multipacking, pack_into_inputs};
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    AllocBit,
    AllocCond,
    Const,
    Not,
    BXor,
    BAnd,
    BCh,
    BMaj,
    ABXor,
    ABAnd,
    ABAndNot,
    ABNor,
    Enf,
    U64Bits,
    FieldBits,
    AllocNum,
    Mul,
    Square,
    NonZero,
    CondRev,
    Inputize,
    NumLc,
    Strict,
    Bits,
    AllocWord,
    ConstWord,
    FromBits,
    FromBitsBe,
    IntoBits,
    WXor,
    Rotr,
    Shr,
    WCh,
    WMaj,
    Add,
    Lookup3,
    LookupNeg,
    Pack,
}
pub const BOOL_OPS: &[K] = &[
    K::AllocBit, K::AllocBit, K::AllocCond, K::Const, K::Not, K::Not, K::BXor, K::BXor, K::BAnd, K::BAnd, K::BCh, K::BCh,
    K::BMaj, K::BMaj, K::ABXor, K::ABAnd, K::ABAndNot, K::ABNor, K::Enf,
];
pub const NUM_OPS: &[K] = &[
    K::AllocBit, K::Not, K::Const, K::BAnd, K::AllocNum, K::AllocNum, K::Mul, K::Mul, K::Square, K::NonZero, K::CondRev,
    K::CondRev, K::Inputize, K::NumLc, K::NumLc,
];
pub const BITS_OPS: &[K] = &[K::AllocNum, K::Mul, K::Square, K::Strict, K::Strict, K::Bits, K::U64Bits, K::FieldBits, K::BXor];
pub const WORD_OPS: &[K] = &[
    K::AllocBit, K::Not, K::Const, K::BXor, K::AllocWord, K::AllocWord, K::ConstWord, K::FromBits, K::FromBitsBe, K::IntoBits,
    K::WXor, K::WXor, K::Rotr, K::Rotr, K::Shr, K::WCh, K::WMaj, K::Add, K::Add, K::Add,
];
pub const LOOKUP_OPS: &[K] = &[K::AllocBit, K::Not, K::Const, K::BXor, K::BAnd, K::Lookup3, K::Lookup3, K::LookupNeg, K::LookupNeg];
pub const PACK_OPS: &[K] = &[K::AllocBit, K::Not, K::Const, K::BXor, K::BAnd, K::Pack];

/// How witness values are drawn.
#[derive(Clone, Copy, Debug)]
pub enum Pat {
    Random,
    Zeros,
    Ones,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub ops: Vec<(K, u64)>,
    pub wseed: u64,
    pub pat: Pat,
    /// bits available at the start
    pub bits: usize,
}
impl Prog {
    pub fn random(c: &mut Case, set: &[K], len: usize, bits: usize) -> Prog {
        let ops = (0..len).map(|_| (*c.pick(set), c.rng.next_u64())).collect();
        let wseed = c.rng.next_u64();
        let pat = *c.pick(&[Pat::Random, Pat::Mixed, Pat::Mixed, Pat::Zeros, Pat::Ones, Pat::Random]);
        Prog { ops, wseed, pat, bits }
    }
    pub fn other_witness(&self, c: &mut Case) -> Prog {
        let mut p = self.clone();
        p.wseed = c.rng.next_u64();
        p.pat = *c.pick(&[Pat::Random, Pat::Mixed, Pat::Zeros, Pat::Ones]);
        p
    }
}
struct Wit {
    rng: ChaCha8Rng,
    pat: Pat,
}
impl Wit {
    fn bit(&mut self) -> bool {
        let b = self.rng.next_u32() & 1 == 1;
        match self.pat {
            Pat::Zeros => false,
            Pat::Ones => true,
            _ => b,
        }
    }
    fn word(&mut self) -> u32 {
        let r = self.rng.next_u32();
        let k = self.rng.next_u32();
        match self.pat {
            Pat::Zeros => 0,
            Pat::Ones => u32::MAX,
            Pat::Random => r,
            Pat::Mixed => match k % 6 {
                0 => 0,
                1 => u32::MAX,
                2 => 1 << (r % 32),
                3 => u32::MAX - (r % 3),
                4 => 0x8000_0000 | (r % 2),
                _ => r,
            },
        }
    }
    fn field<F: PrimeField>(&mut self) -> F {
        let r = F::random(&mut self.rng);
        let k = self.rng.next_u32();
        match self.pat {
            Pat::Zeros => F::ZERO,
            Pat::Ones => -F::ONE,
            Pat::Random => r,
            Pat::Mixed => special(k, r),
        }
    }
}
/// Boundary values of a field.
pub fn special<F: PrimeField>(k: u32, r: F) -> F {
    let two_nm1 = F::from(2).pow_vartime([F::NUM_BITS as u64 - 1]);
    match k % 12 {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => -F::from(2),
        4 => F::TWO_INV,
        5 => two_nm1,
        6 => two_nm1 - F::ONE,
        7 => F::from(2).pow_vartime([(k / 12) as u64 % F::NUM_BITS as u64]),
        8 => F::from((k / 12) as u64 % 7),
        9 => -F::from((k / 12) as u64 % 7),
        _ => r,
    }
}
/// Little-endian binary digits of a field element, from its canonical encoding.
pub fn digits<F: PrimeField>(x: &F, n: usize) -> Vec<bool> {
    let r = x.to_repr();
    let b = r.as_ref();
    (0..n).map(|i| i / 8 < b.len() && b[i / 8] >> (i % 8) & 1 == 1).collect()
}

struct Pool<F: PrimeField> {
    bools: Vec<(Boolean, bool)>,
    abits: Vec<(AllocatedBit, bool)>,
    nums: Vec<(AllocatedNum<F>, F)>,
    words: Vec<(UInt32, u32)>,
}
/// index into a pool, biased to recent entries
fn ix(n: usize, r: u64) -> usize {
    let n = n as u64;
    (if r >> 60 < 8 { n - 1 - (r & 0xFFFF) % n.min(4) } else { (r & 0xFFFF_FFFF) % n }) as usize
}

impl<F: FieldExt> Gadget<F> for Prog {
    fn describe(&self) -> String {
        format!("program {:?} bits={} pattern={:?} wseed={:#x}", self.ops, self.bits, self.pat, self.wseed)
    }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: &mut CS, io: &mut Io<F>) -> Result<(), SynthesisError> {
        let one = CS::one();
        let mut w = Wit { rng: ChaCha8Rng::seed_from_u64(self.wseed), pat: self.pat };
        let mut p = Pool { bools: vec![], abits: vec![], nums: vec![], words: vec![] };
        for i in 0..self.bits {
            let v = w.bit();
            alloc_bit(cs, io, &mut p, format!("start bit {}", i), v)?;
        }
        for (n, (k, r)) in self.ops.iter().enumerate() {
            self.step(cs, io, &mut p, &mut w, one, n, *k, *r)?;
        }
        Ok(())
    }
}
fn alloc_bit<F: FieldExt, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    io: &mut Io<F>,
    p: &mut Pool<F>,
    name: String,
    v: bool,
) -> Result<(), SynthesisError> {
    let b = AllocatedBit::alloc(cs.namespace(|| name.clone()), io.w(v))?;
    io.input(b.get_variable());
    io.out_bit(name, &b, v);
    p.abits.push((b.clone(), v));
    p.bools.push((Boolean::from(b), v));
    Ok(())
}
impl Prog {
    #[allow(clippy::too_many_arguments)]
    fn step<F: FieldExt, CS: ConstraintSystem<F>>(
        &self,
        cs: &mut CS,
        io: &mut Io<F>,
        p: &mut Pool<F>,
        w: &mut Wit,
        one: Variable,
        n: usize,
        k: K,
        r: u64,
    ) -> Result<(), SynthesisError> {
        let name = format!("{} {:?}", n, k);
        let mut st = ChaCha8Rng::seed_from_u64(r);
        // make sure operands exist
        let needs_bits = !matches!(k, K::AllocBit | K::Const | K::U64Bits | K::FieldBits | K::AllocNum | K::AllocWord | K::ConstWord);
        if needs_bits && p.bools.is_empty() {
            let v = w.bit();
            alloc_bit(cs, io, p, format!("{} first bit", n), v)?;
        }
        if matches!(k, K::AllocCond | K::ABXor | K::ABAnd | K::ABAndNot | K::ABNor) && p.abits.is_empty() {
            let v = w.bit();
            alloc_bit(cs, io, p, format!("{} first allocated bit", n), v)?;
        }
        let needs_num = matches!(k, K::Mul | K::Square | K::CondRev | K::Inputize | K::NumLc | K::Strict | K::Bits);
        if needs_num && p.nums.is_empty() || k == K::AllocNum {
            let v: F = w.field();
            let a = AllocatedNum::alloc(cs.namespace(|| format!("{} number", n)), || io.w(v).ok_or(SynthesisError::AssignmentMissing))?;
            io.input(a.get_variable());
            io.out_num(format!("{} number", n), &a, v);
            p.nums.push((a, v));
        }
        let needs_word = matches!(k, K::IntoBits | K::WXor | K::Rotr | K::Shr | K::WCh | K::WMaj | K::Add);
        if needs_word && p.words.is_empty() || k == K::AllocWord {
            let v = w.word();
            let x = UInt32::alloc(cs.namespace(|| format!("{} word", n)), io.w(v))?;
            for b in x.clone().into_bits() {
                if let Boolean::Is(b) = b {
                    io.input(b.get_variable());
                }
            }
            p.words.push((x, v));
        }
        macro_rules! b {
            () => {{
                let i = ix(p.bools.len(), st.next_u64());
                p.bools[i].clone()
            }};
        }
        macro_rules! ab {
            () => {{
                let i = ix(p.abits.len(), st.next_u64());
                p.abits[i].clone()
            }};
        }
        macro_rules! nu {
            () => {{
                let i = ix(p.nums.len(), st.next_u64());
                p.nums[i].clone()
            }};
        }
        macro_rules! wo {
            () => {{
                let i = ix(p.words.len(), st.next_u64());
                p.words[i].clone()
            }};
        }
        macro_rules! push_b {
            ($b:expr, $v:expr) => {{
                let b: Boolean = $b;
                let v: bool = $v;
                io.out_bool(name.clone(), &b, v, one);
                p.bools.push((b, v));
            }};
        }
        macro_rules! push_ab {
            ($b:expr, $v:expr) => {{
                let b: AllocatedBit = $b;
                let v: bool = $v;
                io.out_bit(name.clone(), &b, v);
                p.bools.push((Boolean::from(b.clone()), v));
                p.abits.push((b, v));
            }};
        }
        macro_rules! push_w {
            ($x:expr, $v:expr) => {{
                let x: UInt32 = $x;
                let v: u32 = $v;
                out_word(io, &name, &x, v, one);
                p.words.push((x, v));
            }};
        }
        match k {
            K::AllocBit => {
                let v = w.bit();
                alloc_bit(cs, io, p, name, v)?;
            }
            K::AllocCond => {
                let (c, cv) = ab!();
                let v = w.bit() & !cv;
                let b = AllocatedBit::alloc_conditionally(cs.namespace(|| name.clone()), io.w(v), &c)?;
                io.input(b.get_variable());
                push_ab!(b, v);
            }
            K::Const => {
                let v = st.next_u32() & 1 == 1;
                push_b!(Boolean::constant(v), v);
            }
            K::Not => {
                let (b, v) = b!();
                push_b!(b.not(), !v);
            }
            K::BXor => {
                let ((a, x), (b, y)) = (b!(), b!());
                push_b!(Boolean::xor(cs.namespace(|| name.clone()), &a, &b)?, x ^ y);
            }
            K::BAnd => {
                let ((a, x), (b, y)) = (b!(), b!());
                push_b!(Boolean::and(cs.namespace(|| name.clone()), &a, &b)?, x & y);
            }
            K::BCh => {
                let ((a, x), (b, y), (c, z)) = (b!(), b!(), b!());
                push_b!(Boolean::sha256_ch(cs.namespace(|| name.clone()), &a, &b, &c)?, if x { y } else { z });
            }
            K::BMaj => {
                let ((a, x), (b, y), (c, z)) = (b!(), b!(), b!());
                push_b!(
                    Boolean::sha256_maj(cs.namespace(|| name.clone()), &a, &b, &c)?,
                    x as u8 + y as u8 + z as u8 >= 2
                );
            }
            K::ABXor => {
                let ((a, x), (b, y)) = (ab!(), ab!());
                push_ab!(AllocatedBit::xor(cs.namespace(|| name.clone()), &a, &b)?, x ^ y);
            }
            K::ABAnd => {
                let ((a, x), (b, y)) = (ab!(), ab!());
                push_ab!(AllocatedBit::and(cs.namespace(|| name.clone()), &a, &b)?, x & y);
            }
            K::ABAndNot => {
                let ((a, x), (b, y)) = (ab!(), ab!());
                push_ab!(AllocatedBit::and_not(cs.namespace(|| name.clone()), &a, &b)?, x & !y);
            }
            K::ABNor => {
                let ((a, x), (b, y)) = (ab!(), ab!());
                push_ab!(AllocatedBit::nor(cs.namespace(|| name.clone()), &a, &b)?, !(x | y));
            }
            K::Enf => {
                // equal under every witness: a copy, or x and not(not(x)), or two equal constants
                let (a, v) = b!();
                match st.next_u32() % 4 {
                    0 => Boolean::enforce_equal(cs.namespace(|| name), &a, &a)?,
                    1 => Boolean::enforce_equal(cs.namespace(|| name), &a, &a.not().not())?,
                    2 => {
                        let x = Boolean::xor(cs.namespace(|| format!("{} x", n)), &a, &a)?;
                        Boolean::enforce_equal(cs.namespace(|| name), &x, &Boolean::constant(false))?
                    }
                    _ => {
                        // a fresh bit forced to equal this one: determined by it
                        let b = AllocatedBit::alloc(cs.namespace(|| format!("{} twin", n)), io.w(v))?;
                        let bb = Boolean::from(b.clone());
                        if st.next_u32() & 1 == 0 {
                            Boolean::enforce_equal(cs.namespace(|| name.clone()), &a, &bb)?;
                        } else {
                            Boolean::enforce_equal(cs.namespace(|| name.clone()), &bb.not(), &a.not())?;
                        }
                        push_ab!(b, v);
                    }
                }
            }
            K::U64Bits => {
                let v = (w.word() as u64) << 32 | w.word() as u64;
                let bits = u64_into_boolean_vec_le(cs.namespace(|| name.clone()), io.w(v))?;
                io.check(bits.len() == 64, || format!("u64_into_boolean_vec_le returned {} bits", bits.len()));
                for (i, b) in bits.into_iter().enumerate() {
                    if let Boolean::Is(x) = &b {
                        io.input(x.get_variable());
                    }
                    push_b!(b, v >> i & 1 == 1);
                }
            }
            K::FieldBits => {
                let v: F = w.field();
                let bits: Vec<Boolean> = if st.next_u32() & 1 == 0 {
                    field_into_boolean_vec_le(cs.namespace(|| name.clone()), io.w(v))?
                } else {
                    field_into_allocated_bits_le(cs.namespace(|| name.clone()), io.w(v))?.into_iter().map(Boolean::from).collect()
                };
                io.check(bits.len() == F::NUM_BITS as usize, || format!("field bits: {} of {}", bits.len(), F::NUM_BITS));
                let d = digits(&v, bits.len());
                for (b, d) in bits.into_iter().zip(d) {
                    if let Boolean::Is(x) = &b {
                        io.input(x.get_variable());
                    }
                    push_b!(b, d);
                }
            }
            K::AllocNum | K::AllocWord => {}
            K::Mul => {
                let ((a, x), (b, y)) = (nu!(), nu!());
                let z = a.mul(cs.namespace(|| name.clone()), &b)?;
                io.out_num(name, &z, x * y);
                p.nums.push((z, x * y));
            }
            K::Square => {
                let (a, x) = nu!();
                let z = a.square(cs.namespace(|| name.clone()))?;
                io.out_num(name, &z, x.square());
                p.nums.push((z, x.square()));
            }
            K::NonZero => {
                let mut v: F = w.field();
                if v.is_zero_vartime() {
                    v = F::ONE;
                }
                let a = AllocatedNum::alloc(cs.namespace(|| format!("{} value", n)), || io.w(v).ok_or(SynthesisError::AssignmentMissing))?;
                io.input(a.get_variable());
                a.assert_nonzero(cs.namespace(|| name))?;
                p.nums.push((a, v));
            }
            K::CondRev => {
                let ((a, x), (b, y), (c, z)) = (nu!(), nu!(), b!());
                let (s, t) = AllocatedNum::conditionally_reverse(cs.namespace(|| name.clone()), &a, &b, &c)?;
                let (ex, ey) = if z { (y, x) } else { (x, y) };
                io.out_num(format!("{} first", name), &s, ex);
                io.out_num(format!("{} second", name), &t, ey);
                p.nums.push((s, ex));
                p.nums.push((t, ey));
            }
            K::Inputize => {
                let (a, x) = nu!();
                a.inputize(cs.namespace(|| name))?;
                io.public.push(x);
            }
            K::NumLc => {
                let (a, x) = nu!();
                let (mut num, mut v) = if st.next_u32() & 1 == 0 { (Num::zero(), F::ZERO) } else { (Num::from(a), x) };
                for _ in 0..1 + st.next_u32() % 8 {
                    let (bit, bv) = b!();
                    let c: F = special(st.next_u32(), F::random(&mut st));
                    num = num.add_bool_with_coeff(one, &bit, c);
                    if bv {
                        v += c;
                    }
                    io.out_numlc(name.clone(), &num, v);
                }
            }
            K::Strict => {
                let (a, x) = nu!();
                let bits = a.to_bits_le_strict(cs.namespace(|| name.clone()))?;
                io.check(bits.len() == F::NUM_BITS as usize, || format!("strict bits: {} of {}", bits.len(), F::NUM_BITS));
                let d = digits(&x, bits.len());
                for (b, d) in bits.into_iter().zip(d) {
                    push_b!(b, d);
                }
            }
            K::Bits => {
                let (a, x) = nu!();
                let bits = a.to_bits_le(cs.namespace(|| name.clone()))?;
                io.check(bits.len() == F::NUM_BITS as usize, || format!("bits: {} of {}", bits.len(), F::NUM_BITS));
                let d = digits(&x, bits.len());
                for (b, d) in bits.into_iter().zip(d) {
                    // not strict: another representative is documented as possible
                    if let Boolean::Is(x) = &b {
                        io.input(x.get_variable());
                    }
                    push_b!(b, d);
                }
            }
            K::ConstWord => {
                let mut s = Wit { rng: st, pat: Pat::Mixed };
                let v = s.word();
                push_w!(UInt32::constant(v), v);
            }
            K::FromBits | K::FromBitsBe => {
                let be = k == K::FromBitsBe;
                let mut bits = vec![];
                let mut v = 0u32;
                // often a run of bits, or all but one bit, is constant
                let (mix, at, consts) = (st.next_u32() % 4, st.next_u32() % 33, st.next_u32());
                for i in 0..32 {
                    let (mut b, mut x) = b!();
                    if mix == 0 && i >= at || mix == 1 && i < at || mix == 2 && i != at {
                        x = consts >> i & 1 == 1;
                        b = Boolean::constant(x);
                    }
                    bits.push(b);
                    if x {
                        v |= 1 << if be { 31 - i } else { i };
                    }
                }
                push_w!(if be { UInt32::from_bits_be(&bits) } else { UInt32::from_bits(&bits) }, v);
            }
            K::IntoBits => {
                let (x, v) = wo!();
                let (bits, be) = if st.next_u32() & 1 == 0 { (x.into_bits(), false) } else { (x.into_bits_be(), true) };
                let l = bits.len();
                io.check(l == 32, || format!("word has {} bits", l));
                for (i, b) in bits.into_iter().enumerate() {
                    push_b!(b, v >> (if be { 31 - i } else { i }) & 1 == 1);
                }
            }
            K::WXor => {
                let ((a, x), (b, y)) = (wo!(), wo!());
                push_w!(a.xor(cs.namespace(|| name.clone()), &b)?, x ^ y);
            }
            K::Rotr => {
                let (a, x) = wo!();
                let by = (st.next_u32() % 130) as usize;
                push_w!(a.rotr(by), x.rotate_right((by % 32) as u32));
            }
            K::Shr => {
                let (a, x) = wo!();
                let by = st.next_u32() % 32;
                push_w!(a.shr(by as usize), x >> by);
            }
            K::WCh => {
                let ((a, x), (b, y), (c, z)) = (wo!(), wo!(), wo!());
                push_w!(UInt32::sha256_ch(cs.namespace(|| name.clone()), &a, &b, &c)?, (x & y) ^ (!x & z));
            }
            K::WMaj => {
                let ((a, x), (b, y), (c, z)) = (wo!(), wo!(), wo!());
                push_w!(UInt32::sha256_maj(cs.namespace(|| name.clone()), &a, &b, &c)?, (x & y) ^ (x & z) ^ (y & z));
            }
            K::Add => {
                // several additions share one batching wrapper
                let rounds = 1 + st.next_u32() % 9;
                let mut new = vec![];
                {
                    let mut m = MultiEq::new(cs.namespace(|| name.clone()));
                    for j in 0..rounds {
                        let cnt = 2 + (st.next_u32() % 9) as usize;
                        let mut ops = vec![];
                        let mut sum = 0u32;
                        for _ in 0..cnt {
                            let (x, v): (UInt32, u32) = if !new.is_empty() && st.next_u32() % 3 == 0 {
                                let i: usize = ix(new.len(), st.next_u64());
                                let t: &(UInt32, u32) = &new[i];
                                t.clone()
                            } else {
                                wo!()
                            };
                            ops.push(x);
                            sum = sum.wrapping_add(v);
                        }
                        let s = UInt32::addmany(m.namespace(|| format!("add {}", j)), &ops)?;
                        new.push((s, sum));
                    }
                }
                for (x, v) in new {
                    push_w!(x, v);
                }
            }
            K::Lookup3 => {
                let sel = [b!(), b!(), b!()];
                let bits: Vec<Boolean> = sel.iter().map(|x| x.0.clone()).collect();
                let t: Vec<(F, F)> = table(&mut st, 8);
                let i = sel[0].1 as usize + 2 * sel[1].1 as usize + 4 * sel[2].1 as usize;
                let (x, y) = lookup3_xy(cs.namespace(|| name.clone()), &bits, &t)?;
                io.out_num(format!("{} x", name), &x, t[i].0);
                io.out_num(format!("{} y", name), &y, t[i].1);
                p.nums.push((x, t[i].0));
            }
            K::LookupNeg => {
                let sel = [b!(), b!(), b!()];
                let bits: Vec<Boolean> = sel.iter().map(|x| x.0.clone()).collect();
                let t: Vec<(F, F)> = table(&mut st, 4);
                let i = sel[0].1 as usize + 2 * sel[1].1 as usize;
                let (x, y) = lookup3_xy_with_conditional_negation(cs.namespace(|| name.clone()), &bits, &t)?;
                io.out_numlc(format!("{} x", name), &x, t[i].0);
                io.out_numlc(format!("{} y", name), &y, if sel[2].1 { -t[i].1 } else { t[i].1 });
            }
            K::Pack => {
                let cap = F::CAPACITY as usize;
                let len = match st.next_u32() % 8 {
                    0 => 0,
                    1 => cap,
                    2 => cap + 1,
                    3 => cap - 1,
                    4 => 2 * cap,
                    5 => 2 * cap + 1 + (st.next_u32() as usize % cap),
                    _ => st.next_u32() as usize % (2 * cap + 2),
                };
                let mut bits = vec![];
                let mut vals = vec![];
                for _ in 0..len {
                    let (b, v) = b!();
                    bits.push(b);
                    vals.push(v);
                }
                pack_into_inputs(cs.namespace(|| name.clone()), &bits)?;
                let e = pack_ref::<F>(&vals);
                let native = compute_multipacking::<F>(&vals);
                io.check(native == e, || format!("compute_multipacking({:?}) = {:?}, expected {:?}", vals, native, e));
                io.public.extend(e);
            }
        }
        Ok(())
    }
}
/// Native packing, from the definition: chunks of CAPACITY bits, value = sum of 2^i.
pub fn pack_ref<F: PrimeField>(bits: &[bool]) -> Vec<F> {
    let cap = F::CAPACITY as usize;
    let mut out = vec![];
    let mut i = 0;
    while i < bits.len() {
        let n = cap.min(bits.len() - i);
        // Horner, most significant bit first
        let mut acc = F::ZERO;
        for b in bits[i..i + n].iter().rev() {
            acc = acc.double() + bf::<F>(*b);
        }
        out.push(acc);
        i += n;
    }
    out
}
pub fn table<F: PrimeField>(st: &mut ChaCha8Rng, n: usize) -> Vec<(F, F)> {
    let mode = st.next_u32() % 4;
    (0..n)
        .map(|_| {
            let x = special(st.next_u32(), F::random(&mut *st));
            let y = special(st.next_u32(), F::random(&mut *st));
            match mode {
                0 => (F::random(&mut *st), F::random(&mut *st)),
                1 => (x, y),
                2 => (F::from((st.next_u32() % 3) as u64), -F::from((st.next_u32() % 3) as u64)),
                _ => (x, F::random(&mut *st)),
            }
        })
        .collect()
}
pub fn out_word<F: FieldExt>(io: &mut Io<F>, name: &str, x: &UInt32, v: u32, one: Variable) {
    let le = x.clone().into_bits();
    let be = x.clone().into_bits_be();
    io.check(le.len() == 32 && be.len() == 32, || format!("{}: word of {} bits", name, le.len()));
    for (i, b) in le.iter().enumerate() {
        io.out_bool(format!("{} bit {}", name, i), b, v >> i & 1 == 1, one);
    }
    let le_v: Vec<Option<bool>> = le.iter().map(|b| b.get_value()).collect();
    let mut be_v: Vec<Option<bool>> = be.iter().map(|b| b.get_value()).collect();
    be_v.reverse();
    io.check(le_v == be_v, || format!("{}: into_bits and into_bits_be disagree", name));
    // the word's own cached value is observable through further operations: rebuild and compare
    let _ = LinearCombination::<F>::zero();
}
