//! C22: no use of the safe API causes undefined behaviour. The verdict comes from the sanitizer,
//! interpreter or library checks this is run under; wrong answers are other properties' business.
use mon::{attempt, bits, bvh, ceil_div, ivh, mask, wl, with_blk, Blk, Case, Workload, R};
use std::cell::Cell;
use std::io;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::coding::*;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector, SpaceUsage};

/// One call, whatever it does short of undefined behaviour.
macro_rules! go {
    ($c:expr, $name:expr, $e:expr) => {{
        $c.evals += 1;
        match attempt(|| $e) {
            Ok(x) => {
                $c.cov("calls that returned");
                Some(x)
            }
            Err(_) => {
                $c.cov("calls that panicked");
                None
            }
        }
    }};
}

/// Positions in, around and far outside n.
fn wild(c: &mut Case, n: u64) -> u64 {
    let r = &mut c.rng;
    match r.below(16) {
        0..=6 => r.below(n + 1),
        7 | 8 => n.wrapping_sub(r.below(66)),
        9 | 10 => n + r.below(130),
        11 => (r.below(1 << 30) << 32) + r.below(n + 1),
        12 => u64::MAX - r.below(130),
        13 => (u64::MAX / r.range(1, 64)).wrapping_add(r.below(3)),
        14 => 1 << r.below(64),
        _ => r.value(),
    }
}
fn wild_usize(c: &mut Case, n: u64) -> usize {
    match c.rng.below(6) {
        0 => usize::MAX - c.rng.below(70) as usize,
        _ => {
            let x = wild(c, n);
            if x > usize::MAX as u64 {
                x as usize
            } else {
                x as usize
            }
        }
    }
}
/// The interpreter is some thousand times slower: smaller histories there.
const SLOW: bool = cfg!(miri);
/// A size the test machine can hold.
fn size(c: &mut Case) -> u64 {
    if SLOW {
        return { let m = if c.rng.coin() { 4 } else { 90 }; c.rng.below(m) };
    }
    match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => c.rng.below(1500),
        _ => c.rng.below(200),
    }
}

fn look<V: BitVec>(c: &mut Case, v: &V)
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let n = v.bit_len();
    for _ in 0..6 {
        let (p, k) = (wild(c, n), wild_usize(c, nb));
        let b = wild_usize(c, ceil_div(n, nb));
        match c.rng.below(3) {
            0 => drop(go!(c, "get_bit", v.get_bit(p))),
            1 => drop(go!(c, "get_bits", v.get_bits(p, k))),
            _ => drop(go!(c, "get_block", v.get_block(b))),
        }
    }
    let _ = go!(c, "block_len", v.block_len());
}
fn touch<V: BitVecMut>(c: &mut Case, v: &mut V)
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let n = v.bit_len();
    for _ in 0..6 {
        let (p, k) = (wild(c, n), wild_usize(c, nb));
        let b = wild_usize(c, ceil_div(n, nb));
        let x = <V::Block as Blk>::of(c.rng.value());
        match c.rng.below(3) {
            0 => drop(go!(c, "set_bit", v.set_bit(p, x.u() & 1 == 1))),
            1 => drop(go!(c, "set_bits", v.set_bits(p, k, x))),
            _ => drop(go!(c, "set_block", v.set_block(b, x))),
        }
    }
}
fn ask<T: BitRankSupport>(c: &mut Case, r: &T, n: u64) {
    for _ in 0..6 {
        let p = wild(c, n);
        match c.rng.below(4) {
            0 => drop(go!(c, "rank1", r.rank1(p))),
            1 => drop(go!(c, "rank0", r.rank0(p))),
            2 => drop(go!(c, "rank", r.rank(p, true))),
            _ => drop(go!(c, "limit", r.limit())),
        }
    }
}
fn find<T: Select1Support + Select0Support + SelectSupport<Over = bool>>(c: &mut Case, s: &T, n: u64) {
    for _ in 0..6 {
        let k = wild(c, n);
        match c.rng.below(3) {
            0 => drop(go!(c, "select1", s.select1(k))),
            1 => drop(go!(c, "select0", s.select0(k))),
            _ => drop(go!(c, "select", s.select(k, false))),
        }
    }
}

fn bit_storm<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let mut v: BitVector<B> = BitVector::new();
    for _ in 0..c.rng.range(3, if SLOW { 14 } else { 40 }) {
        let n = v.bit_len();
        match c.rng.below(12) {
            0..=4 => {
                let o = bvh::random_op(c, nb, n, if SLOW { 150 } else { 2000 });
                c.t(|| format!("{:?}", o));
                let _ = go!(c, "op", bvh::real(&mut v, &o));
            }
            5 => {
                let (s, x) = (size(c), B::of(c.rng.value()));
                match c.rng.below(6) {
                    0 => drop(go!(c, "resize", v.resize(s, x.u() & 1 == 0))),
                    1 => drop(go!(c, "block_resize", v.block_resize((s / nb) as usize, x))),
                    2 => drop(go!(c, "truncate", v.truncate(wild(&mut *c, n)))),
                    3 => drop(go!(c, "block_truncate", v.block_truncate(wild_usize(&mut *c, n / nb + 1)))),
                    4 => drop(go!(c, "reserve", v.reserve(s))),
                    _ => drop(go!(c, "reserve_exact", v.reserve_exact(s))),
                }
            }
            6 => look(c, &v),
            7 => touch(c, &mut v),
            8 => {
                let (s, e) = (wild(c, n), wild(c, n));
                let r = attempt(|| {
                    let w = BitSlice::new(&v, s..e);
                    look(c, &w);
                    let m = w.bit_len();
                    let (s, e) = (wild(c, m), wild(c, m));
                    look(c, &BitSlice::new(&w, s..e));
                });
                c.cov(if r.is_ok() { "calls that returned" } else { "calls that panicked" });
            }
            9 => {
                let (s, e) = (wild(c, n), wild(c, n));
                let r = attempt(|| {
                    let mut w = BitSliceMut::new(&mut v, s..e);
                    touch(c, &mut w);
                    look(c, &w);
                });
                c.cov(if r.is_ok() { "calls that returned" } else { "calls that panicked" });
            }
            10 => {
                // an iterator driven past its ends
                let mut it = v.iter();
                for _ in 0..10 {
                    match c.rng.below(5) {
                        0 => drop(go!(c, "next", it.next())),
                        1 => drop(go!(c, "next_back", it.next_back())),
                        2 => {
                            let k = wild_usize(c, n);
                            drop(go!(c, "nth", it.nth(k)))
                        }
                        3 => drop(go!(c, "len", it.size_hint())),
                        _ => {
                            let k = wild_usize(c, n);
                            drop(go!(c, "nth_back", it.nth_back(k)))
                        }
                    }
                }
                let _ = go!(c, "count", it.count());
            }
            _ => {
                let w = v.clone();
                let _ = go!(c, "cmp", (w == v, w < v, w.heap_bytes(), format!("{:b}", w)));
                if let Some(j) = go!(c, "JacobsonRank", JacobsonRank::new(w)) {
                    ask(c, &j, n);
                    look(c, &j);
                    let s = BinSearchSelect::new(j);
                    find(c, &s, n);
                    v = s.into_inner().into_inner();
                }
            }
        }
        c.mix(v.bit_len());
    }
    Ok(())
}
fn int_storm<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let mut v: IntVector<B> = IntVector::new(k as usize);
    c.mix(k);
    for _ in 0..c.rng.range(3, if SLOW { 14 } else { 40 }) {
        let n = v.len();
        let x = B::of(if c.rng.chance(1, 6) { c.rng.value() } else { c.rng.value() & mask(k) });
        match c.rng.below(16) {
            0 | 1 => drop(go!(c, "push", v.push(x))),
            2 => drop(go!(c, "pop", v.pop())),
            3 => {
                let i = wild(c, n);
                drop(go!(c, "get", v.get(i)))
            }
            4 => {
                let i = wild(c, n);
                drop(go!(c, "set", v.set(i, x)))
            }
            5 => {
                let (o, w, i) = (wild(c, n * k), wild_usize(c, nb), wild(c, n));
                drop(go!(c, "get_random", v.get_random(o, w, i)))
            }
            6 => {
                let (o, w, i) = (wild(c, n * k), wild_usize(c, nb), wild(c, n));
                drop(go!(c, "set_random", v.set_random(o, w, i, x)))
            }
            7 => {
                let s = size(c) / 4;
                drop(go!(c, "resize", v.resize(s, x)))
            }
            8 => {
                let s = size(c) / 8;
                drop(go!(c, "block_resize", v.block_resize(s as usize, x)))
            }
            9 => {
                let s = wild(c, n);
                drop(go!(c, "truncate", v.truncate(s)))
            }
            10 => {
                let s = wild_usize(c, n * k / nb + 1);
                drop(go!(c, "block_truncate", v.block_truncate(s)))
            }
            11 => {
                let s = size(c);
                drop(go!(c, "reserve", v.reserve(s)));
                if c.rng.coin() {
                    v.shrink_to_fit()
                }
            }
            12 => look(c, &v),
            13 => touch(c, &mut v),
            14 => {
                let mut it = v.iter();
                for _ in 0..8 {
                    let j = wild_usize(c, n);
                    match c.rng.below(4) {
                        0 => drop(go!(c, "next", it.next())),
                        1 => drop(go!(c, "next_back", it.next_back())),
                        2 => drop(go!(c, "nth", it.nth(j))),
                        _ => drop(go!(c, "last", it.clone().last())),
                    }
                }
            }
            _ => {
                let s = size(c) / 4;
                let w = wild_usize(c, nb);
                match c.rng.below(4) {
                    0 => drop(go!(c, "with_fill", IntVector::<B>::with_fill(w, s, x).len())),
                    1 => drop(go!(c, "block_with_fill", IntVector::<B>::block_with_fill(w.max(1) % 200, (s / 8) as usize, x).len())),
                    2 => drop(go!(c, "clone", {
                        let u = v.clone();
                        (u == v, u < v, format!("{:?}", u).len(), u.total_bytes())
                    })),
                    _ => {
                        let o = {
                            let mut m = ivh::Model::new(k, nb);
                            for i in 0..n {
                                if let Some(x) = go!(c, "get", v.get(i)) {
                                    m.push(x.u())
                                }
                            }
                            ivh::random_op(c, &m, if SLOW { 150 } else { 2000 })
                        };
                        drop(go!(c, "op", ivh::real(&mut v, &o)))
                    }
                }
            }
        }
        c.mix(v.len());
    }
    Ok(())
}

/// A user type that breaks every promise: lengths change between calls, blocks differ on each
/// reading, and any call may panic. Memory safety may not depend on it.
struct Liar<B> {
    n: Cell<u64>,
    s: Cell<u64>,
    /// how often it lies, of 64
    p: u64,
    b: std::marker::PhantomData<B>,
}
impl<B: Blk> Liar<B> {
    fn new(c: &mut Case) -> Self {
        Liar { n: Cell::new(size(c)), s: Cell::new(c.rng.next()), p: c.rng.pick(&[0, 1, 8, 32]), b: std::marker::PhantomData }
    }
    fn roll(&self) -> u64 {
        let x = mon::rng::mix64(self.s.get().wrapping_add(0x9E37_79B9_7F4A_7C15));
        self.s.set(x);
        if x >> 40 & 0xfff == 0 {
            panic!("Liar: panicking")
        }
        x
    }
    fn lies(&self) -> bool {
        self.roll() & 63 < self.p
    }
}
impl<B: Blk> BitVec for Liar<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        if self.lies() {
            self.n.set(self.roll() % 1500)
        }
        self.n.get()
    }
    fn block_len(&self) -> usize {
        if self.lies() {
            return (self.roll() % 200) as usize;
        }
        ceil_div(self.n.get(), B::NB) as usize
    }
    fn get_bit(&self, _: u64) -> bool {
        self.roll() & 1 == 1
    }
    fn get_block(&self, _: usize) -> B {
        B::of(self.roll() ^ self.roll() << 31)
    }
}
impl<B: Blk> BitVecMut for Liar<B> {
    fn set_bit(&mut self, _: u64, _: bool) {
        self.roll();
    }
    fn set_block(&mut self, _: usize, _: B) {
        self.roll();
    }
}
impl<B: Blk> BitVecPush for Liar<B> {
    fn push_bit(&mut self, _: bool) {
        if !self.lies() {
            self.n.set(self.n.get() + 1)
        }
    }
    fn pop_bit(&mut self) -> Option<bool> {
        if self.lies() {
            return Some(true);
        }
        self.n.set(self.n.get().saturating_sub(1));
        None
    }
}
impl<B: Blk> RankSupport for Liar<B> {
    type Over = bool;
    fn rank(&self, p: u64, _: bool) -> u64 {
        if self.lies() {
            self.roll()
        } else {
            p / 2
        }
    }
    fn limit(&self) -> u64 {
        if self.lies() {
            self.roll()
        } else {
            self.n.get()
        }
    }
}
impl<B: Blk> BitRankSupport for Liar<B> {}

fn liar_t<B: Blk>(c: &mut Case) -> R {
    let l = Liar::<B>::new(c);
    let n = l.n.get();
    c.mix(n);
    c.mix(l.s.get());
    if let Some(j) = go!(c, "JacobsonRank", JacobsonRank::new(l)) {
        ask(c, &j, n);
        let _ = attempt(|| look(c, &j));
        let s = BinSearchSelect::new(j);
        find(c, &s, n);
    }
    let s = BinSearchSelect::new(Liar::<B>::new(c));
    find(c, &s, 1500);
    let mut b = BitBuffer::append(Liar::<B>::new(c));
    let _ = attempt(|| {
        for _ in 0..20 {
            let p = wild(c, 500);
            match c.rng.below(6) {
                0 => drop(go!(c, "seek", b.seek(p).is_ok())),
                1 => drop(go!(c, "read_bit", b.read_bit().is_ok())),
                2 => drop(go!(c, "write_bit", b.write_bit(p & 1 == 1).is_ok())),
                3 => drop(go!(c, "read_int", b.read_int::<u64>((p % 70) as usize).is_ok())),
                4 => look(c, &b),
                _ => touch(c, &mut b),
            }
        }
    });
    let l = Liar::<B>::new(c);
    let (s, e) = (wild(c, 200), wild(c, 1500));
    let _ = attempt(|| {
        let w = BitSlice::new(&l, s..e);
        look(c, &w);
        look(c, &BitSlice::new(&w, ..));
    });
    let mut l = Liar::<B>::new(c);
    let _ = attempt(|| {
        look(c, &l);
        touch(c, &mut l);
        for _ in 0..10 {
            match c.rng.below(3) {
                0 => drop(go!(c, "push_block", l.push_block(B::of(5)))),
                1 => drop(go!(c, "align_block", if l.p == 0 { l.align_block(true) })),
                _ => drop(go!(c, "pop_bit", l.pop_bit())),
            }
        }
    });
    if let Some(r) = go!(c, "Rank9", Rank9::new(Liar::<u64>::new(c))) {
        ask(c, &r, n);
        let _ = attempt(|| look(c, &r));
        find(c, &BinSearchSelect::new(r), n);
    }
    Ok(())
}

/// A bit source and sink that behaves arbitrarily.
struct Noise {
    s: u64,
    left: u64,
}
impl BitRead for Noise {
    fn read_bit(&mut self) -> io::Result<Option<bool>> {
        self.s = mon::rng::mix64(self.s.wrapping_add(0x9E37_79B9_7F4A_7C15));
        self.left = self.left.saturating_sub(1);
        match self.s >> 8 & 63 {
            _ if self.left == 0 => Ok(None),
            0 => Ok(None),
            1 => Err(io::Error::new(io::ErrorKind::Other, "noise")),
            _ => Ok(Some(self.s & 1 == 1)),
        }
    }
}
impl BitWrite for Noise {
    fn write_bit(&mut self, _: bool) -> io::Result<()> {
        self.read_bit().map(|_| ())
    }
}
fn noise(c: &mut Case) -> R {
    c.nontrivial = true;
    let s = c.rng.next();
    c.mix(s);
    let mut w = Noise { s, left: 3000 };
    for _ in 0..20 {
        let v = c.rng.value();
        let n = c.rng.below(70) as usize;
        macro_rules! code {
            ($e:expr) => {{
                let code = $e;
                let _ = go!(c, "encode", code.encode(&mut w, v).is_ok());
                let _ = go!(c, "decode", code.decode(&mut w).is_ok());
            }};
        }
        match c.rng.below(10) {
            0 => {
                let code = Unary;
                let _ = go!(c, "encode", code.encode(&mut w, v % 500).is_ok());
                let _ = go!(c, "decode", code.decode(&mut w).is_ok());
            }
            1 => code!(GAMMA),
            2 => code!(DELTA),
            3 => code!(Omega),
            4 => code!(Fibonacci),
            5 => code!(Comma(c.rng.range(2, 63) as u8)),
            6 => code!(Lift0(Omega)),
            7 => code!(Lift0(Lift0(Fibonacci))),
            8 => {
                let _ = go!(c, "read_int", w.read_int::<u64>(n).is_ok());
                let _ = go!(c, "read_int_be", w.read_int_be::<u16>(n).is_ok());
            }
            _ => {
                let _ = go!(c, "write_int", w.write_int::<u32>(n, v as u32).is_ok());
                let _ = go!(c, "write_int_be", w.write_int_be::<u8>(n, v as u8).is_ok());
            }
        }
    }
    Ok(())
}

fn storm(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 10);
    c.nontrivial = true;
    if k / 5 % 2 == 0 {
        with_blk!(k, bit_storm, c)
    } else {
        with_blk!(k, int_storm, c)
    }
}
fn liars(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, liar_t, c)
}

/// Structures over real vectors asked for everything, and rank9.
fn ranked(c: &mut Case) -> R {
    let n = size(c) * 3;
    let m = bits::pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = true;
    let v: BitVector<u64> = bvh::build_to(c, &m)?;
    let r = Rank9::new(v);
    ask(c, &r, n);
    look(c, &r);
    let s = BinSearchSelect::new(r);
    find(c, &s, n);
    ask(c, &s, n);
    look(c, &s);
    let words: Vec<u64> = m.chunks(64).map(|x| bits::field(x, 0, 64)).collect();
    let w = &words[..];
    look(c, &w);
    let mut x = words.clone();
    touch(c, &mut x);
    let r = Rank9::new(x);
    let e = ceil_div(n, 64) * 64;
    ask(c, &r, e);
    Ok(())
}

/// The record of a value read: branching on it makes MemorySanitizer and Miri judge it, and the record is compared
/// between runs whose fresh memory holds different bytes.
fn used(c: &mut Case, x: u64) {
    c.evals += 1;
    c.digest = mon::rng::mix64(c.digest ^ x).wrapping_add(0x51);
    if x & 1 == 1 {
        c.cov("odd values read");
    }
    if c.digest == 0 {
        c.cov("zero record");
    }
}
fn used_all<V: BitVec>(c: &mut Case, v: &V, what: &str)
where
    V::Block: Blk,
{
    let n = v.block_len();
    used(c, v.bit_len());
    // all blocks of most, every third of the rest
    let step = if SLOW && n > 600 { 3 } else { 1 };
    let mut i = 0;
    while i < n {
        let x = v.get_block(i).u();
        used(c, x);
        i += step;
    }
    let h = c.digest;
    c.t(|| format!("{}: {} bits, record {:x}", what, v.bit_len(), h));
}
/// Any number of blocks up to the thousands, thresholds of common sizes among them.
fn many(c: &mut Case) -> u64 {
    let top = if SLOW { 2300 } else { 20_000 };
    let r = &mut c.rng;
    match r.below(6) {
        0 => r.below(70),
        1 => (1u64 << r.range(4, 14)).min(top) + r.below(3) - 1,
        2 | 3 => (1u64 << r.range(4, 14)).min(top) + r.below(1 << 7),
        4 => r.below(top),
        _ => r.below(600),
    }
}
/// Large vectors through the calls that allocate, copy and fill in bulk; everything in them is then read.
fn bulk_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let x = B::of(c.rng.value());
    let n = many(c);
    c.mix(n * nb);
    match c.rng.below(3) {
        0 | 1 => {
            let mut v: BitVector<B> = match c.rng.below(4) {
                0 => BitVector::block_with_fill(n as usize, x),
                1 => BitVector::with_fill(n * nb + c.rng.below(nb), x.u() & 1 == 1),
                2 => BitVector::block_with_capacity(n as usize),
                _ => BitVector::with_capacity(n * nb),
            };
            used_all(c, &v, "made");
            for _ in 0..c.rng.range(1, 5) {
                let m = many(c);
                let b = c.rng.coin();
                let y = B::of(c.rng.value());
                match c.rng.below(12) {
                    0 => v.resize(m * nb + c.rng.below(nb), b),
                    1 => v.block_resize(m as usize, y),
                    2 => v.truncate(c.rng.below(v.bit_len() + 1)),
                    3 => v.block_truncate(m as usize),
                    4 => v.reserve(m * nb),
                    5 => v.block_reserve_exact(m as usize),
                    6 => v.shrink_to_fit(),
                    7 => v = v.clone(),
                    8 => {
                        let mut w: BitVector<B> = BitVector::block_with_fill(m as usize, y);
                        w.clone_from(&v);
                        v = w;
                    }
                    9 => (0..m.min(700)).for_each(|i| v.push_block(if b { y } else { B::of(i) })),
                    10 => (0..m.min(700)).for_each(|i| v.push_bit(i % 3 == 0)),
                    _ => v.align_block(b),
                }
                used_all(c, &v, "changed");
            }
            let w = v.clone();
            used(c, (v == w) as u64);
            used(c, (v < w) as u64);
            used(c, v.heap_bytes() as u64 & 0);
            let n = v.bit_len();
            let j = JacobsonRank::new(v);
            if n > 0 {
                for _ in 0..40 {
                    let p = c.rng.below(n);
                    used(c, j.rank1(p));
                }
                used(c, j.rank1(n - 1));
            }
            let s = BinSearchSelect::new(j);
            for _ in 0..20 {
                let k = c.rng.below(n + 1);
                let a = s.select1(k).unwrap_or(n);
                used(c, a);
            }
            // what was unused is zero when it comes into use
            let mut v = s.into_inner().into_inner();
            let e = v.bit_len();
            (0..nb + 3).for_each(|_| v.push_bit(false));
            for p in e..v.bit_len() {
                used(c, v.get_bit(p) as u64);
            }
        }
        _ => {
            let k = ivh::width(c, nb);
            let x = B::of(x.u() & mask(k));
            let n = n * nb / k;
            let n = if SLOW { n % 2500 } else { n % 200_000 };
            let mut v: IntVector<B> = match c.rng.below(3) {
                0 => IntVector::with_fill(k as usize, n, x),
                1 => IntVector::block_with_fill(k as usize, (n * k / nb) as usize, B::of(c.rng.value())),
                _ => IntVector::with_capacity(k as usize, n),
            };
            used_all(c, &v, "made");
            for _ in 0..c.rng.range(1, 5) {
                let m = many(c);
                let y = B::of(c.rng.value() & mask(k));
                match c.rng.below(8) {
                    0 | 1 => v.resize(m, y),
                    2 => v.block_resize((m / 4) as usize, y),
                    3 => v.truncate(m),
                    4 => v.reserve(m),
                    5 => v.shrink_to_fit(),
                    6 => v = v.clone(),
                    _ => (0..m.min(700)).for_each(|_| v.push(y)),
                }
                used_all(c, &v, "changed");
                let l = v.len();
                used(c, l);
                for _ in 0..20.min(l) {
                    let i = c.rng.below(l);
                    used(c, v.get(i).u());
                }
            }
            let w = v.clone();
            used(c, (v == w) as u64);
            let t: u64 = v.iter().rev().take(900).fold(0, |a, x| a.wrapping_mul(3) ^ x.u());
            used(c, t);
        }
    }
    Ok(())
}
fn bulk(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, bulk_t, c)
}

/// Word vectors with room to spare past their end, asked for what lies there; rank structures over long ones.
fn spare_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let n = c.rng.below(40);
    let mut v: Vec<B> = Vec::with_capacity((n + c.rng.below(70)) as usize);
    for _ in 0..n {
        v.push(B::of(c.rng.value()));
    }
    let mut bools: Vec<bool> = Vec::with_capacity((n + c.rng.below(900)) as usize);
    for _ in 0..n {
        bools.push(c.rng.coin());
    }
    c.mix(n);
    c.mix(v.capacity() as u64);
    macro_rules! see {
        ($e:expr) => {
            if let Some(x) = go!(c, "call", $e) {
                used(c, x)
            } else {
                used(c, 0xdead)
            }
        };
    }
    for _ in 0..if SLOW { 6 } else { 30 } {
        let i = c.rng.below(n + 80) as usize;
        let p = c.rng.below((n + 80) * nb);
        let k = c.rng.below(nb + 1) as usize;
        match c.rng.below(9) {
            0 => see!(v.get_block(i).u()),
            1 => see!(v.get_bit(p) as u64),
            2 => see!(BitVec::get_bits(&v, p, k).u()),
            3 => see!(bools.get_bit(i as u64) as u64),
            4 => see!(bools.get_bits(i as u64, k.min(8)) as u64),
            5 => see!(bools.get_block(i / 8) as u64),
            6 => see!({
                v.set_block(i, B::of(7));
                1
            }),
            7 => see!({
                bools.set_bit(i as u64, true);
                1
            }),
            _ => see!({
                v.set_bits(p, k, B::of(0));
                1
            }),
        }
    }
    used_all(c, &v, "words");
    used_all(c, &bools, "booleans");
    Ok(())
}
fn spare(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, spare_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![wl("storm", 12_000, 1_000_000, storm), wl("liars", 6_000, 400_000, liars), wl("noise", 6_000, 300_000, noise), wl("ranked", 3_000, 200_000, ranked),
         wl("bulk", 4_000, 200_000, bulk), wl("spare", 4_000, 200_000, spare)]
}
