//! C22 round trips, C23 malformed encodings.
use bls12_381::{Bls12, G1Affine, G2Affine, Scalar};
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{GroupEncoding, UncompressedEncoding};
use groth16::*;
use rand_core::RngCore;
use std::io::{self, Read, Write};
use std::sync::{Arc, OnceLock};
use vh::circ::*;
use vh::engine::Dlog;
use vh::sn::*;
use vh::*;

// ---------------------------------------------------------------- allocation monitor
#[cfg(feature = "p23")]
mod meter {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static CUR: Cell<i64> = const { Cell::new(0) };
        static PEAK: Cell<i64> = const { Cell::new(0) };
    }
    pub struct Meter;
    fn add(n: i64) {
        let _ = CUR.try_with(|c| {
            let v = c.get() + n;
            c.set(v);
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        });
    }
    unsafe impl GlobalAlloc for Meter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            // a request of this size is beyond any legitimate one here
            if l.size() > 3 << 30 {
                return std::ptr::null_mut();
            }
            add(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static METER: Meter = Meter;
    /// Peak of the bytes held above the starting level while `f` ran on this thread.
    pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
        let start = CUR.with(|c| c.get());
        PEAK.with(|p| p.set(start));
        let r = f();
        let p = PEAK.with(|p| p.get()) - start;
        (r, p.max(0) as u64)
    }
}
#[cfg(not(feature = "p23"))]
mod meter {
    pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
        (f(), 0)
    }
}

// ---------------------------------------------------------------- objects
pub trait Codec: Eng {
    const TAG: &'static str;
    fn p1(c: &mut Case) -> Self::G1Affine;
    fn p2(c: &mut Case) -> Self::G2Affine;
}
impl<T: FieldExt> Codec for Dlog<T> {
    const TAG: &'static str = T::NAME;
    fn p1(c: &mut Case) -> Self::G1Affine {
        Self::g1(nonzero(&mut c.rng))
    }
    fn p2(c: &mut Case) -> Self::G2Affine {
        Self::g2(nonzero(&mut c.rng))
    }
}
impl Codec for Bls12 {
    const TAG: &'static str = "bls12-381";
    fn p1(c: &mut Case) -> G1Affine {
        static P: OnceLock<Vec<G1Affine>> = OnceLock::new();
        let v = P.get_or_init(|| {
            let mut c = Case::bare(11);
            (0..200).map(|i| if i == 0 { Self::g1(Scalar::ONE) } else { Self::g1(nonzero(&mut c.rng)) }).collect()
        });
        *c.pick(v)
    }
    fn p2(c: &mut Case) -> G2Affine {
        static P: OnceLock<Vec<G2Affine>> = OnceLock::new();
        let v = P.get_or_init(|| {
            let mut c = Case::bare(12);
            (0..200).map(|i| if i == 0 { Self::g2(Scalar::ONE) } else { Self::g2(nonzero(&mut c.rng)) }).collect()
        });
        *c.pick(v)
    }
}

#[derive(Clone)]
enum Obj<E: Eng> {
    Proof(Proof<E>),
    Vk(VerifyingKey<E>),
    Params(Parameters<E>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Proof,
    Vk,
    Checked,
    Unchecked,
}
const KINDS: &[Kind] = &[Kind::Proof, Kind::Vk, Kind::Checked, Kind::Unchecked];

fn random_len(c: &mut Case) -> usize {
    match c.below(12) {
        0..=3 => 0,
        4..=9 => 1 + c.below(4) as usize,
        10 => 5 + c.below(20) as usize,
        _ => 250 + c.below(20) as usize,
    }
}
fn random_vk<E: Codec>(c: &mut Case) -> VerifyingKey<E> {
    let n = random_len(c);
    VerifyingKey {
        alpha_g1: E::p1(c),
        beta_g1: E::p1(c),
        beta_g2: E::p2(c),
        gamma_g2: E::p2(c),
        delta_g1: E::p1(c),
        delta_g2: E::p2(c),
        ic: (0..n).map(|_| E::p1(c)).collect(),
    }
}
fn random_obj<E: Codec>(c: &mut Case, k: Kind) -> Obj<E> {
    match k {
        Kind::Proof => Obj::Proof(Proof { a: E::p1(c), b: E::p2(c), c: E::p1(c) }),
        Kind::Vk => Obj::Vk(random_vk(c)),
        _ => {
            let mut l = |c: &mut Case| {
                let n = random_len(c);
                Arc::new((0..n).map(|_| E::p1(c)).collect::<Vec<_>>())
            };
            let (h, ll, a, b) = (l(c), l(c), l(c), l(c));
            let n = random_len(c);
            Obj::Params(Parameters { vk: random_vk(c), h, l: ll, a, b_g1: b, b_g2: Arc::new((0..n).map(|_| E::p2(c)).collect()) })
        }
    }
}
fn vk_eq<E: Eng>(a: &VerifyingKey<E>, b: &VerifyingKey<E>) -> bool {
    (a.alpha_g1, a.beta_g1, a.delta_g1) == (b.alpha_g1, b.beta_g1, b.delta_g1)
        && (a.beta_g2, a.gamma_g2, a.delta_g2) == (b.beta_g2, b.gamma_g2, b.delta_g2)
        && a.ic[..] == b.ic[..]
}
impl<E: Eng> Obj<E> {
    /// element by element, not through the library's PartialEq
    fn same(&self, o: &Obj<E>) -> bool {
        match (self, o) {
            (Obj::Proof(a), Obj::Proof(b)) => (a.a, a.c) == (b.a, b.c) && a.b == b.b,
            (Obj::Vk(a), Obj::Vk(b)) => vk_eq(a, b),
            (Obj::Params(a), Obj::Params(b)) => {
                vk_eq(&a.vk, &b.vk)
                    && a.h[..] == b.h[..]
                    && a.l[..] == b.l[..]
                    && a.a[..] == b.a[..]
                    && a.b_g1[..] == b.b_g1[..]
                    && a.b_g2[..] == b.b_g2[..]
            }
            _ => false,
        }
    }
    /// the library's notion
    fn lib_eq(&self, o: &Obj<E>) -> bool {
        match (self, o) {
            (Obj::Proof(a), Obj::Proof(b)) => a == b,
            (Obj::Vk(a), Obj::Vk(b)) => a == b,
            (Obj::Params(a), Obj::Params(b)) => a == b,
            _ => false,
        }
    }
    fn write(&self, w: &mut dyn Write) -> io::Result<()> {
        match self {
            Obj::Proof(x) => x.write(w),
            Obj::Vk(x) => x.write(w),
            Obj::Params(x) => x.write(w),
        }
    }
    fn read(k: Kind, r: &mut dyn Read) -> io::Result<Obj<E>> {
        Ok(match k {
            Kind::Proof => Obj::Proof(Proof::read(r)?),
            Kind::Vk => Obj::Vk(VerifyingKey::read(r)?),
            Kind::Checked => Obj::Params(Parameters::read(r, true)?),
            Kind::Unchecked => Obj::Params(Parameters::read(r, false)?),
        })
    }
    /// The established encoding, and where each element starts (offset, length, is G2, what).
    fn encode(&self) -> (Vec<u8>, Vec<Place>) {
        let mut e = Enc { o: vec![], at: vec![] };
        match self {
            Obj::Proof(p) => {
                e.put(p.a.to_bytes().as_ref(), What::Proof1);
                e.put(p.b.to_bytes().as_ref(), What::Proof2);
                e.put(p.c.to_bytes().as_ref(), What::Proof1);
            }
            Obj::Vk(v) => e.vk::<E>(v),
            Obj::Params(p) => {
                e.vk::<E>(&p.vk);
                for l in [&p.h, &p.l, &p.a, &p.b_g1] {
                    e.len(l.len());
                    for x in l.iter() {
                        e.put(x.to_uncompressed().as_ref(), What::Query1);
                    }
                }
                e.len(p.b_g2.len());
                for x in p.b_g2.iter() {
                    e.put(x.to_uncompressed().as_ref(), What::Query2);
                }
            }
        }
        (e.o, e.at)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Proof1,
    Proof2,
    Key1,
    Key2,
    Ic,
    Query1,
    Query2,
    Len,
}
#[derive(Clone, Copy, Debug)]
struct Place {
    at: usize,
    len: usize,
    what: What,
}
struct Enc {
    o: Vec<u8>,
    at: Vec<Place>,
}
impl Enc {
    fn put(&mut self, b: &[u8], what: What) {
        self.at.push(Place { at: self.o.len(), len: b.len(), what });
        self.o.extend_from_slice(b);
    }
    fn len(&mut self, n: usize) {
        self.put(&(n as u32).to_be_bytes(), What::Len);
    }
    fn vk<E: Eng>(&mut self, v: &VerifyingKey<E>) {
        self.put(v.alpha_g1.to_uncompressed().as_ref(), What::Key1);
        self.put(v.beta_g1.to_uncompressed().as_ref(), What::Key1);
        self.put(v.beta_g2.to_uncompressed().as_ref(), What::Key2);
        self.put(v.gamma_g2.to_uncompressed().as_ref(), What::Key2);
        self.put(v.delta_g1.to_uncompressed().as_ref(), What::Key1);
        self.put(v.delta_g2.to_uncompressed().as_ref(), What::Key2);
        self.len(v.ic.len());
        for x in &v.ic {
            self.put(x.to_uncompressed().as_ref(), What::Ic);
        }
    }
}

// ---------------------------------------------------------------- readers and writers
const FAULTS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];
/// Transfers `chunk` bytes at a time, is interrupted now and then, and may fail at a byte.
struct Odd<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    interrupt: u64,
    calls: u64,
    fail_at: Option<(usize, io::ErrorKind)>,
    out: Vec<u8>,
    reached: bool,
    /// fails a single time and works again afterwards
    once: bool,
}
impl<'a> Odd<'a> {
    fn new(c: &mut Case, data: &'a [u8]) -> Odd<'a> {
        let chunk = *c.pick(&[1usize, 2, 3, 7, 13, 31, 32, 33, 47, 48, 49, 95, 97, 1 << 20]);
        let interrupt = *c.pick(&[0u64, 0, 2, 3, 5]);
        Odd { data, pos: 0, chunk, interrupt, calls: 0, fail_at: None, out: vec![], reached: false, once: false }
    }
    fn step(&mut self, n: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = n.min(self.chunk);
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at && !(self.once && self.reached) {
                self.reached = true;
                return Err(io::Error::new(k, format!("injected at {}", at)));
            }
            if self.pos < at {
                n = n.min(at - self.pos);
            }
        }
        Ok(n)
    }
}
impl<'a> Read for Odd<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.step(b.len())?.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Write for Odd<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.step(b.len())?;
        self.out.extend_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn injected(e: &io::Error, at: usize, k: io::ErrorKind) -> bool {
    e.kind() == k && e.to_string().contains(&format!("injected at {}", at))
}

// ---------------------------------------------------------------- C22
fn on_engine(c: &mut Case, f: [fn(&mut Case) -> R; 5]) -> R {
    let k = c.below(5) as usize;
    f[k](c)
}
macro_rules! engines {
    ($f:ident) => {
        |c| on_engine(c, [$f::<Bls12>, $f::<Bls12>, $f::<Dlog<Scalar>>, $f::<Dlog<F5_55>>, $f::<Dlog<F257>>])
    };
}
fn roundtrip<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = random_obj::<E>(c, kind);
    roundtrip_of(c, kind, x)
}
/// Gives one list of the object `n` elements: all different, or repeating with some period.
fn lengthen<E: Codec>(c: &mut Case, x: &mut Obj<E>, which: u64, n: usize) {
    let period = match c.below(4) {
        0 => *c.pick(&[1usize, 2, 3, 256, 512]),
        1 => 1 + c.below(64) as usize,
        _ => n,
    };
    let m = period.min(n);
    match x {
        Obj::Vk(v) => {
            let e: Vec<_> = (0..m).map(|_| E::p1(c)).collect();
            v.ic = (0..n).map(|i| e[i % m]).collect();
        }
        Obj::Params(p) => {
            if which == 5 {
                let e: Vec<_> = (0..m).map(|_| E::p2(c)).collect();
                p.b_g2 = Arc::new((0..n).map(|i| e[i % m]).collect());
                return;
            }
            let e: Vec<_> = (0..m).map(|_| E::p1(c)).collect();
            let all: Vec<_> = (0..n).map(|i| e[i % m]).collect();
            match which {
                0 => p.vk.ic = all,
                1 => p.h = Arc::new(all),
                2 => p.l = Arc::new(all),
                3 => p.a = Arc::new(all),
                _ => p.b_g1 = Arc::new(all),
            }
        }
        Obj::Proof(_) => {}
    }
}
/// Lists with more elements than 16 bits can count.
fn long<E: Codec>(c: &mut Case) -> R {
    let kind = if c.idx % 6 == 0 { Kind::Vk } else if c.coin() { Kind::Checked } else { Kind::Unchecked };
    let mut x = random_obj::<E>(c, kind);
    let n = 65536 + c.below(300) as usize;
    let which = c.idx % 6;
    lengthen(c, &mut x, which, n);
    c.count("long_lists", 1);
    roundtrip_of(c, kind, x)
}
fn medium<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(&KINDS[1..]);
    let mut x = random_obj::<E>(c, kind);
    let which = c.below(6);
    let n = if E::TAG == Bls12::TAG { 20 + c.below(400) } else { *c.pick(&[100u64, 255, 256, 257, 600, 1024, 1025, 3000]) } as usize;
    lengthen(c, &mut x, which, n);
    c.count("medium_lists", 1);
    roundtrip_of(c, kind, x)
}
fn roundtrip_of<E: Codec>(c: &mut Case, kind: Kind, x: Obj<E>) -> R {
    let (want, places) = x.encode();
    let mut plain = vec![];
    x.write(&mut plain).map_err(|e| format!("{} {:?}: writing to memory failed: {}", E::TAG, kind, e))?;
    let diff = plain.iter().zip(&want).position(|(a, b)| a != b);
    ensure!(plain == want, "{} {:?}: the encoding has {} bytes, the established one {}; first difference at {:?}", E::TAG, kind, plain.len(), want.len(), diff);
    let mut w = Odd::new(c, &[]);
    x.write(&mut w).map_err(|e| format!("{} {:?}: writing {} bytes at a time (interrupted every {}) failed: {}", E::TAG, kind, w.chunk, w.interrupt, e))?;
    let (wc, wi) = (w.chunk, w.interrupt);
    ensure!(w.out == want, "{} {:?}: writing {} bytes at a time (interrupted every {}) gives other bytes", E::TAG, kind, wc, wi);
    let mut data = want.clone();
    let extra = *c.pick(&[0usize, 1, 4, 200]);
    for _ in 0..extra {
        data.push(c.rng.next_u32() as u8);
    }
    for style in 0..2 {
        let mut r = Odd::new(c, &data);
        if style == 0 {
            r.chunk = 1 << 20;
            r.interrupt = 0;
        }
        let y = Obj::<E>::read(kind, &mut r)
            .map_err(|e| format!("{} {:?}: reading back {} bytes at a time (interrupted every {}) failed: {}; {} bytes of {}", E::TAG, kind, r.chunk, r.interrupt, e, r.pos, want.len()))?;
        c.ev(1);
        ensure!(r.pos == want.len(), "{} {:?}: reading consumed {} bytes of {} written ({} follow)", E::TAG, kind, r.pos, want.len(), extra);
        ensure!(x.same(&y), "{} {:?}: read back a different object", E::TAG, kind);
        ensure!(x.lib_eq(&y), "{} {:?}: the object read back does not compare equal", E::TAG, kind);
        let mut again = vec![];
        y.write(&mut again).map_err(|e| format!("{}", e))?;
        ensure!(again == want, "{} {:?}: writing the object read back gives other bytes", E::TAG, kind);
    }
    // by value as well, through a slice reader
    let mut s = &data[..];
    let y = match kind {
        Kind::Proof => Proof::<E>::read(&mut s).map(Obj::Proof),
        Kind::Vk => VerifyingKey::<E>::read(&mut s).map(Obj::Vk),
        _ => Parameters::<E>::read(&mut s, kind == Kind::Checked).map(Obj::Params),
    }
    .map_err(|e| format!("{} {:?}: reading from a slice failed: {}", E::TAG, kind, e))?;
    ensure!(x.same(&y) && s.len() == extra, "{} {:?}: reading from a slice left {} of {} following bytes", E::TAG, kind, s.len(), extra);
    c.ev(4);
    c.count("round_trips", 3);
    c.max("largest_encoding", want.len() as u64);
    c.count("elements", places.len() as u64);
    c.seen(hash_bytes(&want));
    c.sample(|| format!("{} {:?} of {} bytes, {} elements", E::TAG, kind, want.len(), places.len()));
    Ok(())
}
fn stream<E: Codec>(c: &mut Case) -> R {
    let n = 2 + c.below(4) as usize;
    let mut w = Odd::new(c, &[]);
    let mut objs = vec![];
    for _ in 0..n {
        let k = *c.pick(KINDS);
        let x = random_obj::<E>(c, k);
        x.write(&mut w).map_err(|e| format!("{:?}: {}", k, e))?;
        objs.push((k, x, w.out.len()));
    }
    let data = std::mem::take(&mut w.out);
    let mut r = Odd::new(c, &data);
    for (i, (k, x, end)) in objs.iter().enumerate() {
        let y = Obj::<E>::read(*k, &mut r).map_err(|e| format!("{} object {} ({:?}) of a stream of {}: {}", E::TAG, i, k, n, e))?;
        c.ev(1);
        ensure!(x.same(&y) && r.pos == *end, "{} object {} ({:?}) of a stream of {} differs, or {} bytes were consumed for {}", E::TAG, i, k, n, r.pos, end);
        c.count("stream_objects", 1);
    }
    c.seen(hash_bytes(&data));
    Ok(())
}
fn writer_faults<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = random_obj::<E>(c, kind);
    let (want, places) = x.encode();
    let mut ats: Vec<usize> = vec![0, 1, want.len() - 1];
    ats.extend(places.iter().take(30).flat_map(|p| [p.at, p.at + p.len - 1]));
    for _ in 0..8 {
        ats.push(c.below(want.len() as u64) as usize);
    }
    for at in ats {
        let k = *c.pick(FAULTS);
        let mut w = Odd::new(c, &[]);
        w.fail_at = Some((at, k));
        w.once = c.coin();
        let r = x.write(&mut w);
        c.ev(1);
        c.count("writer_faults", 1);
        match r {
            Err(e) => ensure!(injected(&e, at, k), "{} {:?}: a writer failing at {} with {:?} gives {:?}", E::TAG, kind, at, k, e),
            Ok(()) => fail!("{} {:?}: a writer failing at {} of {} bytes with {:?} gives success", E::TAG, kind, at, want.len(), k),
        }
        ensure!(w.once || w.out == want[..at], "{} {:?}: before the fault at {} other bytes were written", E::TAG, kind, at);
    }
    c.seen(hash_bytes(&want));
    Ok(())
}
/// Equality looks at every element: change, drop or duplicate one, or move it to another list.
fn differing<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = random_obj::<E>(c, kind);
    let (want, _) = x.encode();
    for _ in 0..6 {
        let mut y = x.clone();
        fn list<T: Clone + PartialEq>(c: &mut Case, v: &mut Vec<T>, mut f: impl FnMut(&mut Case) -> T) {
            let n = v.len() as u64;
            match c.below(4) {
                0 if n > 0 => {
                    let k = c.below(n) as usize;
                    v[k] = f(c);
                }
                1 if n > 0 => {
                    let k = c.below(n) as usize;
                    v.remove(k);
                }
                2 if n > 1 => {
                    let k = c.below(n - 1) as usize;
                    v.swap(k, k + 1);
                }
                _ => {
                    let x = f(c);
                    v.push(x);
                }
            }
        }
        fn vk<E: Codec>(c: &mut Case, v: &mut VerifyingKey<E>) {
            match c.below(8) {
                0 => v.alpha_g1 = E::p1(c),
                1 => v.beta_g1 = E::p1(c),
                2 => v.beta_g2 = E::p2(c),
                3 => v.gamma_g2 = E::p2(c),
                4 => v.delta_g1 = E::p1(c),
                5 => v.delta_g2 = E::p2(c),
                _ => list(c, &mut v.ic, E::p1),
            }
        }
        match &mut y {
            Obj::Proof(p) => match c.below(4) {
                0 => p.a = E::p1(c),
                1 => p.b = E::p2(c),
                2 => p.c = E::p1(c),
                _ => std::mem::swap(&mut p.a, &mut p.c),
            },
            Obj::Vk(v) => vk(c, v),
            Obj::Params(p) => match c.below(7) {
                0 => vk(c, &mut p.vk),
                1 => list(c, Arc::make_mut(&mut p.h), E::p1),
                2 => list(c, Arc::make_mut(&mut p.l), E::p1),
                3 => list(c, Arc::make_mut(&mut p.a), E::p1),
                4 => list(c, Arc::make_mut(&mut p.b_g1), E::p1),
                5 => list(c, Arc::make_mut(&mut p.b_g2), E::p2),
                _ => {
                    // the last element of one list becomes the first of the next
                    let k = c.below(3);
                    let (a, b) = match k {
                        0 => (&mut p.h, &mut p.l),
                        1 => (&mut p.l, &mut p.a),
                        _ => (&mut p.a, &mut p.b_g1),
                    };
                    if let Some(x) = Arc::make_mut(a).pop() {
                        Arc::make_mut(b).insert(0, x);
                    }
                }
            },
        }
        let same = x.same(&y);
        let mut o = vec![];
        y.write(&mut o).map_err(|e| format!("{}", e))?;
        c.ev(2);
        ensure!(x.lib_eq(&y) == same && y.lib_eq(&x) == same, "{} {:?}: objects that are {} compare {}", E::TAG, kind, if same { "the same" } else { "different" }, x.lib_eq(&y));
        ensure!((o == want) == same, "{} {:?}: {} objects with {} encodings", E::TAG, kind, if same { "the same" } else { "different" }, if o == want { "one" } else { "two" });
        c.count(if same { "same_pairs" } else { "different_pairs" }, 1);
    }
    c.seen(hash_bytes(&want));
    Ok(())
}
/// What was read back behaves as what was written.
fn behaves<E: Codec>(c: &mut Case) -> R {
    let s = Spec { n_pub: c.below(4) as usize, n_aux: c.below(6) as usize, n_cons: c.below(12) as usize, witnesses: 1, plain: c.coin() };
    let z = Circ::<E::F>::random(c, &s);
    let k = Trap::random(c);
    if !regular(&z.sys(), &Qap::new(&z.sys(), k.tau), &k) {
        return Ok(());
    }
    let p = gen::<E, _>(z.with(None), &k).map_err(|e| format!("{:?}", e))?;
    if <E::F as PrimeField>::NUM_BITS < 40 && p.vk.ic.iter().any(|x| x.is_identity().into()) {
        // a coincidence in a small field: such keys may be refused
        c.count("identity_keys_skipped", 1);
        return Ok(());
    }
    let mut o = vec![];
    p.write(&mut o).map_err(|e| format!("{}", e))?;
    let (r, s) = (nonzero(&mut c.rng), nonzero(&mut c.rng));
    let pr = create_proof::<E, _, _>(z.clone(), &p, r, s).map_err(|e| format!("{:?}", e))?;
    for checked in [true, false] {
        let mut src = Odd::new(c, &o);
        let q = Parameters::<E>::read(&mut src, checked).map_err(|e| format!("{}: reading generated parameters (checked {}) failed: {}; {}", E::TAG, checked, e, z.describe()))?;
        ensure!(Obj::Params(q.clone()).same(&Obj::Params(p.clone())), "{}: generated parameters read back differently; {}", E::TAG, z.describe());
        let pr2 = create_proof::<E, _, _>(z.clone(), &q, r, s).map_err(|e| format!("{}: proving with parameters read back failed with {:?}; {}", E::TAG, e, z.describe()))?;
        ensure!((pr.a, pr.c) == (pr2.a, pr2.c) && pr.b == pr2.b, "{}: parameters read back give another proof; {}", E::TAG, z.describe());
        let mut o = vec![];
        pr2.write(&mut o).map_err(|e| format!("{}", e))?;
        let identity: bool = (pr.a.is_identity() | pr.b.is_identity() | pr.c.is_identity()).into();
        if identity {
            c.count("identity_proofs_skipped", 1);
            continue;
        }
        let pr3 = Proof::<E>::read(&o[..]).map_err(|e| format!("{}: reading a proof failed: {}", E::TAG, e))?;
        let mut o = vec![];
        q.vk.write(&mut o).map_err(|e| format!("{}", e))?;
        let vk = VerifyingKey::<E>::read(&o[..]).map_err(|e| format!("{}: reading a key failed: {}", E::TAG, e))?;
        c.ev(3);
        ensure!(verify_proof(&prepare_verifying_key(&vk), &pr3, &z.pubs()).is_ok(), "{}: a proof read back is rejected under the key read back; {}", E::TAG, z.describe());
        c.count("behaviours_compared", 1);
    }
    c.seen(z.hash());
    Ok(())
}
pub fn c22(r: &Runner) -> &'static str {
    r.par("roundtrip", 6000, 100000, engines!(roundtrip));
    r.par("long_lists", 24, 240, |c| if c.thorough && c.idx % 10 < 2 { long::<Bls12>(c) } else { long::<Dlog<F5_55>>(c) });
    r.par("medium_lists", 240, 6000, engines!(medium));
    r.par("streams", 1500, 20000, engines!(stream));
    r.par("writer_faults", 12000, 160000, engines!(writer_faults));
    r.par("differing", 60000, 800000, engines!(differing));
    r.seq("behaviour", 120, 2000, |c| on_engine(c, [behaves::<Bls12>, behaves::<Dlog<F5_55>>, behaves::<Dlog<Scalar>>, behaves::<Dlog<F5_55>>, behaves::<Dlog<F257>>]));
    "proofs, keys and parameters with random elements and list lengths 0..270 on BLS12-381 and transparent engines, written and read through readers and writers that move few bytes at a time or are interrupted, with following bytes, in streams, with failing writers; compared element by element, byte by byte with an independent encoder, by library equality and by proving and verifying; distinct = distinct encodings"
}

// ---------------------------------------------------------------- C23
/// Independent reading of an encoding. None: the outcome is not specified.
fn oracle<E: Eng>(k: Kind, d: &[u8]) -> Option<Result<usize, &'static str>> {
    struct Rd<'a> {
        d: &'a [u8],
        pos: usize,
        odd: bool,
    }
    impl<'a> Rd<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], &'static str> {
            if self.d.len() - self.pos < n {
                return Err("truncated");
            }
            self.pos += n;
            Ok(&self.d[self.pos - n..self.pos])
        }
        fn len(&mut self) -> Result<usize, &'static str> {
            let b = self.take(4)?;
            Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize)
        }
        fn comp<G: PrimeCurveAffine>(&mut self) -> Result<(), &'static str> {
            let mut r = G::Repr::default();
            let n = r.as_ref().len();
            r.as_mut().copy_from_slice(self.take(n)?);
            let p: Option<G> = G::from_bytes(&r).into();
            match p {
                None => Err("invalid point"),
                Some(p) if p.is_identity().into() => Err("infinity"),
                _ => Ok(()),
            }
        }
        /// identity: is it allowed to be the identity (unspecified) here
        fn unc<G: PrimeCurveAffine + UncompressedEncoding>(&mut self, checked: bool, key: bool) -> Result<(), &'static str> {
            let mut r = G::Uncompressed::default();
            let n = r.as_ref().len();
            r.as_mut().copy_from_slice(self.take(n)?);
            let p: Option<G> = if checked { G::from_uncompressed(&r) } else { G::from_uncompressed_unchecked(&r) }.into();
            match p {
                None => Err("invalid point"),
                Some(p) if p.is_identity().into() => {
                    if key {
                        self.odd = true;
                        Ok(())
                    } else {
                        Err("infinity")
                    }
                }
                _ => Ok(()),
            }
        }
    }
    let mut r = Rd { d, pos: 0, odd: false };
    let f = |r: &mut Rd| -> Result<(), &'static str> {
        match k {
            Kind::Proof => {
                r.comp::<E::G1Affine>()?;
                r.comp::<E::G2Affine>()?;
                r.comp::<E::G1Affine>()
            }
            _ => {
                for g2 in [false, false, true, true, false, true] {
                    if g2 {
                        r.unc::<E::G2Affine>(true, true)?;
                    } else {
                        r.unc::<E::G1Affine>(true, true)?;
                    }
                }
                for _ in 0..r.len()? {
                    r.unc::<E::G1Affine>(true, false)?;
                }
                if k != Kind::Vk {
                    for l in 0..5 {
                        for _ in 0..r.len()? {
                            if l < 4 {
                                r.unc::<E::G1Affine>(k == Kind::Checked, false)?;
                            } else {
                                r.unc::<E::G2Affine>(k == Kind::Checked, false)?;
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    };
    let x = f(&mut r);
    match x {
        _ if r.odd => None,
        Ok(()) => Some(Ok(r.pos)),
        Err(e) => Some(Err(e)),
    }
}
/// Reads and judges. Returns whether it was accepted.
fn judge<E: Codec>(c: &mut Case, k: Kind, d: &[u8], what: &dyn Fn() -> String) -> R<bool> {
    let style = c.below(4);
    let mut r = Odd::new(c, d);
    if style > 0 {
        r.chunk = 1 << 20;
        r.interrupt = 0;
    }
    let (res, peak) = meter::peak(|| guarded(|| Obj::<E>::read(k, &mut r)));
    c.ev(1);
    let head = || format!("{} {:?} from {} bytes: {}", E::TAG, k, d.len(), what());
    let got = match res {
        Ok(x) => x,
        Err(p) => fail!("{}: reading panicked: {}", head(), p),
    };
    let bound = 16 * r.pos as u64 + (2 << 20);
    c.max("peak_bytes", peak);
    if r.pos < 4096 {
        c.max("peak_bytes_for_less_than_4096_supplied", peak);
    }
    ensure!(peak <= bound, "{}: {} bytes were allocated after consuming {}", head(), peak, r.pos);
    let want = oracle::<E>(k, d);
    match &got {
        Ok(x) => {
            let mut o = vec![];
            x.write(&mut o).map_err(|e| format!("{}", e))?;
            ensure!(r.pos <= d.len() && o == d[..r.pos], "{}: accepted, but {} bytes were consumed and re-encoding gives {} bytes that differ", head(), r.pos, o.len());
            c.count("accepted", 1);
        }
        Err(_) => c.count("refused", 1),
    }
    match (want, &got) {
        (None, _) => c.count("unspecified", 1),
        (Some(Ok(n)), Ok(_)) => ensure!(n == r.pos, "{}: consumed {} bytes, expected {}", head(), r.pos, n),
        (Some(Err(_)), Err(_)) => {}
        (Some(Ok(_)), Err(e)) => fail!("{}: refused with {}, but every element is valid", head(), e),
        (Some(Err(why)), Ok(_)) => fail!("{}: accepted, but: {}", head(), why),
    }
    Ok(got.is_ok())
}
fn small<E: Codec>(c: &mut Case, kind: Kind) -> Obj<E> {
    let mut n = 0;
    loop {
        let x = random_obj::<E>(c, kind);
        if x.encode().1.len() < 60 || n > 20 {
            return x;
        }
        n += 1;
    }
}
fn truncated<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = small::<E>(c, kind);
    let (d, places) = x.encode();
    let mut cuts: Vec<usize> = if kind == Kind::Proof { (0..d.len()).collect() } else { places.iter().flat_map(|p| [p.at, p.at + 1, p.at + p.len / 2, p.at + p.len - 1]).collect() };
    for _ in 0..10 {
        cuts.push(c.below(d.len() as u64) as usize);
    }
    for n in cuts {
        let ok = judge::<E>(c, kind, &d[..n], &|| format!("a prefix of {} bytes of an encoding of {}", n, d.len()))?;
        ensure!(!ok, "{} {:?}: a prefix of {} bytes of an encoding of {} was accepted", E::TAG, kind, n, d.len());
        c.count("truncations", 1);
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
fn flipped<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = small::<E>(c, kind);
    let (d, places) = x.encode();
    for _ in 0..12 {
        let mut y = d.clone();
        let mut note = String::new();
        for _ in 0..1 + c.below(2) {
            match c.below(6) {
                0 | 1 => {
                    let k = c.below(8 * y.len() as u64) as usize;
                    y[k / 8] ^= 1 << (k % 8);
                    note += &format!("bit {} flipped; ", k);
                }
                2 => {
                    // flag bits and length bytes
                    let p = *c.pick(&places);
                    if p.at < y.len() {
                        let b = c.below(8);
                        y[p.at] ^= 1 << b;
                        note += &format!("first byte of the {:?} at {} changed; ", p.what, p.at);
                    }
                }
                3 => {
                    let p = *c.pick(&places);
                    let v = c.rng.next_u32() as u8;
                    if p.at + p.len <= y.len() {
                        y[p.at + p.len - 1] = v;
                        note += &format!("last byte of the {:?} at {} set to {}; ", p.what, p.at, v);
                    }
                }
                4 => {
                    let k = c.below(y.len() as u64) as usize;
                    y.remove(k);
                    note += &format!("byte {} removed; ", k);
                }
                _ => {
                    // two elements exchanged
                    let (p, q) = (*c.pick(&places), *c.pick(&places));
                    if p.len == q.len && p.at + p.len <= y.len() && q.at + q.len <= y.len() {
                        let a = y[p.at..p.at + p.len].to_vec();
                        let b = y[q.at..q.at + q.len].to_vec();
                        y[p.at..p.at + p.len].copy_from_slice(&b);
                        y[q.at..q.at + q.len].copy_from_slice(&a);
                        note += &format!("elements at {} and {} exchanged; ", p.at, q.at);
                    }
                }
            }
        }
        judge::<E>(c, kind, &y, &|| note.clone())?;
        c.count("mutations", 1);
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
fn garbage<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let n = c.below(4000) as usize;
    let mut d = vec![0u8; n];
    match c.below(4) {
        0 => c.rng.fill_bytes(&mut d),
        1 => d.fill(c.rng.next_u32() as u8),
        2 => {
            // a valid start, then noise
            let (e, _) = small::<E>(c, kind).encode();
            let m = c.below(e.len() as u64 + 1) as usize;
            c.rng.fill_bytes(&mut d);
            let mut v = e[..m].to_vec();
            v.extend_from_slice(&d);
            d = v;
        }
        _ => {}
    }
    judge::<E>(c, kind, &d, &|| "noise".to_string())?;
    c.count("noise", 1);
    c.seen(hash_bytes(&d));
    Ok(())
}
/// Valid long lists, the same cut short, and with one element deep inside that is damaged or forbidden.
fn long_bytes<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(&KINDS[1..]);
    let mut x = random_obj::<E>(c, kind);
    let bls = E::TAG == Bls12::TAG;
    let n = if bls { 20 + c.below(600) as usize } else if c.idx % 16 == 0 { 65536 + c.below(200) as usize } else { *c.pick(&[255usize, 256, 257, 600, 1023, 1024, 1025, 4096, 5000, 20000]) };
    let which = c.below(6);
    lengthen(c, &mut x, which, n);
    let (d, places) = x.encode();
    let ok = judge::<E>(c, kind, &d, &|| format!("a list of {} elements", n))?;
    ensure!(ok, "{} {:?}: a valid list of {} elements is refused", E::TAG, kind, n);
    c.count("long_lists", 1);
    let tries = if bls || n > 5000 { 2 } else { 6 };
    for _ in 0..tries {
        let p = places[places.len() - 1 - c.below(places.len().min(n) as u64) as usize];
        let cut = p.at + c.below(p.len as u64) as usize;
        let ok = judge::<E>(c, kind, &d[..cut], &|| format!("a list of {} elements cut at byte {} of {}", n, cut, d.len()))?;
        ensure!(!ok, "{} {:?}: {} of {} bytes were accepted", E::TAG, kind, cut, d.len());
        let mut y = d.clone();
        let k = 8 * p.at + c.below(8 * p.len as u64) as usize;
        y[k / 8] ^= 128 >> (k % 8);
        judge::<E>(c, kind, &y, &|| format!("bit {} flipped in a list of {} elements", k, n))?;
        c.count("deep_damage", 2);
    }
    // the identity at one position
    if let Some(at) = n.checked_sub(1 + c.below(n as u64) as usize) {
        match &mut x {
            Obj::Vk(v) => v.ic[at] = PrimeCurveAffine::identity(),
            Obj::Params(p) => match which {
                0 => p.vk.ic[at] = PrimeCurveAffine::identity(),
                1 => Arc::make_mut(&mut p.h)[at] = PrimeCurveAffine::identity(),
                2 => Arc::make_mut(&mut p.l)[at] = PrimeCurveAffine::identity(),
                3 => Arc::make_mut(&mut p.a)[at] = PrimeCurveAffine::identity(),
                4 => Arc::make_mut(&mut p.b_g1)[at] = PrimeCurveAffine::identity(),
                _ => Arc::make_mut(&mut p.b_g2)[at] = PrimeCurveAffine::identity(),
            },
            Obj::Proof(_) => {}
        }
        let ok = judge::<E>(c, kind, &x.encode().0, &|| format!("the identity as element {} of {} of list {}", at, n, which))?;
        ensure!(!ok, "{} {:?}: the identity as element {} of {} of list {} was accepted", E::TAG, kind, at, n, which);
        c.count("deep_damage", 1);
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
/// Lengths that claim more (or less) than what follows.
fn lengths<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(&KINDS[1..]);
    let x = small::<E>(c, kind);
    let (d, places) = x.encode();
    for p in places.iter().filter(|p| p.what == What::Len) {
        let n = u32::from_be_bytes([d[p.at], d[p.at + 1], d[p.at + 2], d[p.at + 3]]);
        // moderate claims first, so that over-allocation is measured before it is fatal
        for claim in [n + 1, n.wrapping_sub(1), 1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24, 1 << 28, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX] {
            if claim == u32::MAX && n == 0 && c.coin() {
                continue;
            }
            let mut y = d.clone();
            y[p.at..p.at + 4].copy_from_slice(&claim.to_be_bytes());
            if c.below(3) == 0 {
                // nothing follows, or some valid elements do
                y.truncate(p.at + 4);
            }
            judge::<E>(c, kind, &y, &|| format!("the count at {} claims {} for {}", p.at, claim, n))?;
            c.count("false_counts", 1);
            c.sample(|| format!("{:?} of {} bytes whose count at {} claims {} for {}", kind, y.len(), p.at, claim, n));
        }
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
fn reader_faults<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = small::<E>(c, kind);
    let (d, places) = x.encode();
    let mut ats: Vec<usize> = if kind == Kind::Proof { (0..d.len()).collect() } else { places.iter().flat_map(|p| [p.at, p.at + 1, p.at + p.len - 1]).collect() };
    for _ in 0..8 {
        ats.push(c.below(d.len() as u64) as usize);
    }
    for at in ats {
        let k = *c.pick(FAULTS);
        let mut r = Odd::new(c, &d);
        r.fail_at = Some((at, k));
        r.once = c.coin();
        let got = guarded(|| Obj::<E>::read(kind, &mut r)).map_err(|p| format!("{} {:?}: a reader failing at {} with {:?} makes reading panic: {}", E::TAG, kind, at, k, p))?;
        c.ev(1);
        c.count("reader_faults", 1);
        match got {
            Ok(_) => fail!("{} {:?}: a reader failing at {} of {} with {:?} gives an object", E::TAG, kind, at, d.len(), k),
            Err(e) => ensure!(injected(&e, at, k), "{} {:?}: a reader failing at {} with {:?} gives {:?}", E::TAG, kind, at, k, e),
        }
    }
    c.seen(hash_bytes(&d));
    Ok(())
}

// crafted points on BLS12-381
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Infinity,
    OffCurve,
    WrongSubgroup,
    SmallOrder,
    NonCanonical,
    CompressedFlag,
    SortFlag,
    InfinityFlagOnPoint,
    InfinityWithJunk,
    AllOnes,
    Zeros,
}
const BADS: &[Bad] = &[
    Bad::Infinity,
    Bad::OffCurve,
    Bad::WrongSubgroup,
    Bad::SmallOrder,
    Bad::NonCanonical,
    Bad::CompressedFlag,
    Bad::SortFlag,
    Bad::InfinityFlagOnPoint,
    Bad::InfinityWithJunk,
    Bad::AllOnes,
    Bad::Zeros,
];
const P_BE: [u8; 48] = [
    0x1a, 0x01, 0x11, 0xea, 0x39, 0x7f, 0xe6, 0x9a, 0x4b, 0x1b, 0xa7, 0xb6, 0x43, 0x4b, 0xac, 0xd7, 0x64, 0x77, 0x4b, 0x84, 0xf3, 0x85, 0x12, 0xbf, 0x67, 0x30, 0xd2, 0xa0, 0xf6, 0xb0, 0xf6, 0x24,
    0x1e, 0xab, 0xff, 0xfe, 0xb1, 0x53, 0xff, 0xff, 0xb9, 0xfe, 0xff, 0xff, 0xff, 0xff, 0xaa, 0xab,
];
fn add_p(b: &mut [u8]) -> bool {
    // keeps the flags; false on overflow into them
    let flags = b[0] & 0xe0;
    b[0] &= 0x1f;
    let mut carry = 0u16;
    let mut o = b.to_vec();
    for i in (0..48).rev() {
        let s = o[i] as u16 + P_BE[i] as u16 + carry;
        o[i] = s as u8;
        carry = s >> 8;
    }
    if carry != 0 || o[0] & 0xe0 != 0 {
        return false;
    }
    b.copy_from_slice(&o);
    b[0] |= flags;
    true
}
/// A point on the curve but outside the subgroup.
fn outside1(c: &mut Case) -> G1Affine {
    loop {
        let mut b = [0u8; 48];
        c.rng.fill_bytes(&mut b);
        b[0] = b[0] & 0x3f | 0x80;
        let p: Option<G1Affine> = G1Affine::from_compressed_unchecked(&b).into();
        if let Some(p) = p {
            if !bool::from(p.is_torsion_free()) && bool::from(p.is_on_curve()) {
                return p;
            }
        }
    }
}
fn outside2(c: &mut Case) -> G2Affine {
    loop {
        let mut b = [0u8; 96];
        c.rng.fill_bytes(&mut b);
        b[0] = b[0] & 0x3f | 0x80;
        b[48] &= 0x1f;
        let p: Option<G2Affine> = G2Affine::from_compressed_unchecked(&b).into();
        if let Some(p) = p {
            if !bool::from(p.is_torsion_free()) && bool::from(p.is_on_curve()) {
                return p;
            }
        }
    }
}
/// Multiplies by the group order: a point of order dividing the cofactor.
fn cofactor1(p: G1Affine) -> Option<G1Affine> {
    use group::Group;
    let q: bls12_381::G1Projective = p.into();
    // order r = -(-1) + ... : r p = (r - 1) p + p
    let rp = q * (-Scalar::ONE) + q;
    let a: G1Affine = rp.into();
    if bool::from(a.is_identity()) || bool::from(bls12_381::G1Projective::from(a).is_identity()) {
        None
    } else {
        Some(a)
    }
}
fn craft(c: &mut Case, b: &mut [u8], compressed: bool, bad: Bad) -> bool {
    let g2 = b.len() == if compressed { 96 } else { 192 };
    match bad {
        Bad::Infinity => {
            b.fill(0);
            b[0] = if compressed { 0xc0 } else { 0x40 };
        }
        Bad::OffCurve => {
            if compressed {
                // an x without a point
                loop {
                    c.rng.fill_bytes(&mut b[..]);
                    b[0] = b[0] & 0x2f | 0x80;
                    b[0] &= 0xaf;
                    if g2 {
                        b[48] &= 0x0f;
                    }
                    let none = if g2 {
                        let mut r = [0u8; 96];
                        r.copy_from_slice(b);
                        bool::from(G2Affine::from_compressed_unchecked(&r).is_none())
                    } else {
                        let mut r = [0u8; 48];
                        r.copy_from_slice(b);
                        bool::from(G1Affine::from_compressed_unchecked(&r).is_none())
                    };
                    if none {
                        break;
                    }
                }
            } else {
                let n = b.len();
                b[n - 1] ^= 1 << c.below(3);
            }
        }
        Bad::WrongSubgroup => {
            if g2 {
                let p = outside2(c);
                if compressed {
                    b.copy_from_slice(&p.to_compressed())
                } else {
                    b.copy_from_slice(&p.to_uncompressed())
                }
            } else {
                let p = outside1(c);
                if compressed {
                    b.copy_from_slice(&p.to_compressed())
                } else {
                    b.copy_from_slice(&p.to_uncompressed())
                }
            }
        }
        Bad::SmallOrder => {
            if g2 {
                return false;
            }
            let p = outside1(c);
            let Some(p) = cofactor1(p) else { return false };
            if compressed {
                b.copy_from_slice(&p.to_compressed())
            } else {
                b.copy_from_slice(&p.to_uncompressed())
            }
        }
        Bad::NonCanonical => {
            let k = c.below(b.len() as u64 / 48) as usize;
            return add_p(&mut b[48 * k..48 * k + 48]);
        }
        Bad::CompressedFlag => b[0] ^= 0x80,
        Bad::SortFlag => {
            if compressed {
                return false; // the negated point: valid
            }
            b[0] ^= 0x20
        }
        Bad::InfinityFlagOnPoint => b[0] |= 0x40,
        Bad::InfinityWithJunk => {
            b.fill(0);
            b[0] = if compressed { 0xc0 } else { 0x40 };
            let n = b.len();
            b[n - 1] = 1;
        }
        Bad::AllOnes => b.fill(0xff),
        Bad::Zeros => b.fill(0),
    }
    true
}
fn crafted(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = small::<Bls12>(c, kind);
    let (d, places) = x.encode();
    let at: Vec<Place> = places.iter().copied().filter(|p| p.what != What::Len).collect();
    // every element position of a small object, a few of a larger one
    for (i, p) in at.iter().enumerate() {
        if at.len() > 14 && i > 7 && i + 4 < at.len() && c.below(3) > 0 {
            continue;
        }
        let tries = if at.len() > 14 { 3 } else { 6 };
        for _ in 0..tries {
            let bad = *c.pick(BADS);
            let mut y = d.clone();
            let comp = matches!(p.what, What::Proof1 | What::Proof2);
            if !craft(c, &mut y[p.at..p.at + p.len], comp, bad) {
                continue;
            }
            let ok = judge::<Bls12>(c, kind, &y, &|| format!("{:?} as the {:?} element {} of {}", bad, p.what, i, at.len()))?;
            let unspecified = matches!(p.what, What::Key1 | What::Key2) && bad == Bad::Infinity;
            let unchecked = kind == Kind::Unchecked && matches!(p.what, What::Query1 | What::Query2) && matches!(bad, Bad::OffCurve | Bad::WrongSubgroup | Bad::SmallOrder | Bad::Zeros);
            if !unspecified && !unchecked {
                ensure!(!ok, "{:?} as the {:?} element {} of {} of a {:?} was accepted", bad, p.what, i, at.len(), kind);
            }
            c.count(&format!("crafted_{:?}", bad), 1);
        }
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
/// Non-canonical and zero elements of the transparent engines.
fn crafted_dlog<E: Codec>(c: &mut Case) -> R {
    let kind = *c.pick(KINDS);
    let x = small::<E>(c, kind);
    let (d, places) = x.encode();
    for p in places.iter().filter(|p| p.what != What::Len) {
        let mut y = d.clone();
        let z = c.below(3);
        match z {
            0 => y[p.at..p.at + p.len].fill(0),
            1 => y[p.at..p.at + p.len].fill(0xff),
            _ => c.rng.fill_bytes(&mut y[p.at..p.at + p.len]),
        }
        let ok = judge::<E>(c, kind, &y, &|| format!("{} as the {:?} at {}", ["identity", "ones", "noise"][z as usize], p.what, p.at))?;
        if z == 0 && !matches!(p.what, What::Key1 | What::Key2) || z == 1 {
            ensure!(!ok, "{} {:?}: {} as the {:?} at {} was accepted", E::TAG, kind, ["identity", "ones", "noise"][z as usize], p.what, p.at);
        }
        c.count("crafted_transparent", 1);
    }
    c.seen(hash_bytes(&d));
    Ok(())
}
pub fn c23(r: &Runner) -> &'static str {
    r.par("lengths", 400, 6000, engines!(lengths));
    r.par("long_bytes", 160, 3000, engines!(long_bytes));
    r.par("truncated", 400, 6000, engines!(truncated));
    r.par("flipped", 1500, 25000, engines!(flipped));
    r.par("noise", 60000, 1200000, engines!(garbage));
    r.par("reader_faults", 400, 6000, engines!(reader_faults));
    r.par("crafted", 600, 10000, crafted);
    r.par("crafted_transparent", 6000, 80000, |c| on_engine(c, [crafted_dlog::<Dlog<Scalar>>, crafted_dlog::<Dlog<Scalar>>, crafted_dlog::<Dlog<Scalar>>, crafted_dlog::<Dlog<F5_55>>, crafted_dlog::<Dlog<F257>>]));
    "encodings of proofs, keys and parameters (checked and unchecked) cut at element boundaries and inside, with flipped bits, removed bytes, exchanged elements, false counts up to 2^32-1, points at infinity, off the curve, in the wrong subgroup, of cofactor order, non-canonical or with wrong flags in every element position, noise, and readers failing at any byte; verdicts compared with an independent reader, re-encodings with the bytes consumed, and allocation peaks with the bytes supplied; distinct = distinct encodings mutated"
}
