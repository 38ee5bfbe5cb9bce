//! A catalogue of calls into the library, each a function of two words, whose user-supplied parts (sinks, sources,
//! stores, writers, hashers) can be made to yield, to panic, or to call the library again.
use crate::{attempt, mask, rng::mix64, stores::Formula};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io::{self, Read, Write};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::{self, Broadword};
use succinct::coding::{Comma, Fibonacci, Lift0, Omega, Unary, UniversalCode, DELTA, GAMMA};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::{Address, BlockType};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector, SpaceUsage};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Nothing,
    Panic,
    Call(usize, u64, u64),
}
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static ACT: Cell<Act> = const { Cell::new(Act::Nothing) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static YIELDING: Cell<bool> = const { Cell::new(false) };
    static NESTED: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
}
/// What the user-supplied parts do at their `left`-th use.
pub fn arm(left: u64, act: Act) {
    LEFT.with(|l| l.set(left));
    ACT.with(|a| a.set(act));
    TICKS.with(|t| t.set(0));
    NESTED.with(|n| n.borrow_mut().clear());
}
pub fn yielding(on: bool) {
    YIELDING.with(|y| y.set(on))
}
/// How often the user-supplied parts were used since `arm`.
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
/// What the calls made from inside gave.
pub fn nested() -> Vec<u64> {
    NESTED.with(|n| n.borrow().clone())
}
fn tick() {
    if YIELDING.with(|y| y.get()) {
        std::thread::yield_now();
    }
    TICKS.with(|t| t.set(t.get() + 1));
    let l = LEFT.with(|l| l.get());
    if l == 0 {
        return;
    }
    LEFT.with(|x| x.set(l - 1));
    if l == 1 {
        match ACT.with(|a| a.replace(Act::Nothing)) {
            Act::Nothing => {}
            Act::Panic => panic!("TRAP"),
            Act::Call(f, a, b) => {
                let t = ticks();
                let d = digest(f, a, b);
                TICKS.with(|x| x.set(t));
                NESTED.with(|n| n.borrow_mut().push(d));
            }
        }
    }
}

struct Sink(Vec<bool>);
impl BitWrite for Sink {
    fn write_bit(&mut self, b: bool) -> io::Result<()> {
        tick();
        self.0.push(b);
        Ok(())
    }
}
struct Source(Vec<bool>, usize);
impl BitRead for Source {
    fn read_bit(&mut self) -> io::Result<Option<bool>> {
        tick();
        self.1 += 1;
        Ok(self.0.get(self.1 - 1).copied())
    }
}
#[derive(Clone, Debug)]
pub struct Store<B>(Vec<B>, u64);
impl<B: BlockType> BitVec for Store<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.1
    }
    fn get_block(&self, i: usize) -> B {
        tick();
        self.0[i]
    }
}
impl<B: BlockType> BitVecMut for Store<B> {
    fn set_block(&mut self, i: usize, b: B) {
        tick();
        self.0[i] = b;
    }
}
#[derive(Clone, Debug)]
struct Ranks(Formula);
impl RankSupport for Ranks {
    type Over = u8;
    fn rank(&self, p: u64, s: u8) -> u64 {
        tick();
        self.0.rank(p, s)
    }
    fn limit(&self) -> u64 {
        self.0.limit()
    }
}
struct Text(String);
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        tick();
        self.0.push_str(s);
        Ok(())
    }
}
struct Mixer(u64);
impl Hasher for Mixer {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        tick();
        for &x in b {
            self.0 = mix64(self.0 ^ x as u64);
        }
    }
}
struct Bytes(Vec<u8>, usize);
impl Write for Bytes {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(3);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Bytes {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(3).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

fn word<B: BlockType + BitVec<Block = B>>(a: u64, b: u64, d: &mut dyn FnMut(u64)) {
    let nb = B::nbits() as u64;
    let x: B = num(a);
    let y: B = num(b);
    let i = (b >> 7) % nb;
    let k = (b >> 17) % (nb - i + 1);
    d(x.rank1(i));
    d(x.rank0(i));
    d(x.rank(i, b & 1 == 1));
    let sel = BinSearchSelect::new(x);
    d(sel.select1(i).map_or(99, |p| p));
    d(sel.select0(i).map_or(99, |p| p));
    d(RankSupport::limit(&x));
    d(u(BlockType::get_bits(x, i as usize, k as usize)));
    d(u(BlockType::with_bits(x, i as usize, k as usize, y)));
    d(BlockType::get_bit(x, i as usize) as u64);
    d(u(BlockType::with_bit(x, i as usize, b & 2 == 0)));
    d(u(B::low_mask(k as usize)));
    d(u(B::nth_mask(i as usize)));
    if a & mask(nb) != 0 {
        d(x.ceil_lg() as u64);
        d(x.floor_lg() as u64);
    }
    if b & mask(nb) != 0 {
        d(u(x.ceil_div(y)));
    }
    d(B::div_nbits(a >> 33) as u64);
    d(B::ceil_div_nbits(a >> 33) as u64);
    d(B::mod_nbits(a) as u64);
    d(B::last_block_bits(b) as u64);
    d(B::lg_nbits() as u64);
    d(B::mul_nbits((a & 0xFFFF) as usize));
    let mut w = x;
    w.set_bits(i, k as usize, y);
    d(u(w));
}
fn num<B: BlockType>(x: u64) -> B {
    let nb = B::nbits() as u64;
    // NumCast of a value that fits
    B::from(x & mask(nb)).unwrap()
}
fn u<B: BlockType>(x: B) -> u64 {
    x.to_u64().unwrap()
}
fn code<C: UniversalCode>(c: &C, least: u64, a: u64, b: u64, d: &mut dyn FnMut(u64)) {
    let vals = [a.max(least), b.max(least), (a >> 40) + least, least];
    let mut s = Sink(vec![]);
    for v in vals {
        d(c.encode(&mut s, v).is_ok() as u64);
    }
    d(s.0.len() as u64);
    s.0.chunks(60).for_each(|x| d(crate::field(x, 0, x.len() as u64)));
    let mut r = Source(s.0, 0);
    for _ in 0..5 {
        match c.decode(&mut r) {
            Ok(x) => d(x.unwrap_or(7)),
            Err(_) => d(3),
        }
    }
    d(r.1 as u64);
}
fn store<B: BlockType>(a: u64, b: u64, blocks: u64) -> Store<B> {
    let v: Vec<B> = (0..blocks).map(|i| num(mix64(a ^ i) & mix64(b ^ i << 9))).collect();
    let n = (blocks * B::nbits() as u64).saturating_sub(b % B::nbits() as u64);
    Store(v, n)
}
fn ranked<S: BitVec + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>>(s: &S, a: u64, b: u64, d: &mut dyn FnMut(u64)) {
    let n = RankSupport::limit(s);
    for i in 0..6 {
        let p = mix64(a ^ i) % n;
        d(s.rank1(p));
        d(s.rank0(p));
        d(s.rank(p, b >> i & 1 == 1));
        d(s.select1(p / 2).unwrap_or(n + 5));
        d(s.select0(p / 2).unwrap_or(n + 5));
        d(s.select(p, b >> i & 1 == 1).unwrap_or(n + 5));
        d(s.get_bit(p) as u64);
    }
}
fn traffic<B: BlockType>(a: u64, d: &mut dyn FnMut(u64)) {
    let mut w = Bytes(vec![], 0);
    let x: B = num(a);
    d(x.write_block::<_, byteorder::LittleEndian>(&mut w).is_ok() as u64);
    d(x.write_block::<_, byteorder::BigEndian>(&mut w).is_ok() as u64);
    w.0.iter().for_each(|&x| d(x as u64));
    d(B::read_block::<_, byteorder::LittleEndian>(&mut w).map_or(5, u));
    d(B::read_block::<_, byteorder::BigEndian>(&mut w).map_or(5, u));
    d(B::read_block::<_, byteorder::BigEndian>(&mut w).is_err() as u64);
}

pub const NAMES: [&str; 28] = [
    "broadword", "u8 word", "u16 word", "u32 word", "u64 word", "usize word", "unary", "gamma", "delta", "omega", "fibonacci", "comma", "lifted", "integers", "bit vector",
    "integer vector", "jacobson", "rank9", "symbol select", "window", "writable window", "buffer", "printing", "hashing", "block i/o", "addresses and space", "shared constants", "iterators",
];
/// The digest of everything call `f` gives for these words; panics as the library does.
fn call(f: usize, a: u64, b: u64) -> u64 {
    let mut acc = f as u64;
    let mut d = |x: u64| acc = mix64(acc ^ x).wrapping_add(0x9E37_79B9_7F4A_7C15);
    match f {
        0 => {
            d(broadword::count_ones(a) as u64);
            d(broadword::select1((b % 66) as usize, a).map_or(99, |x| x as u64));
            d(broadword::select1((b % 7) as usize, a).map_or(99, |x| x as u64));
            d(broadword::select1_raw((b % 64) as usize, a) as u64);
            d(broadword::u_le8(a, b));
            d(broadword::le8(a, b));
            d(broadword::u_nz8(a & b));
            let w = Broadword(a);
            d(w.rank1(b % 64));
            d(w.rank(b % 64, false));
            d(w.select1(b % 70).unwrap_or(99));
        }
        1 => word::<u8>(a, b, &mut d),
        2 => word::<u16>(a, b, &mut d),
        3 => word::<u32>(a, b, &mut d),
        4 => word::<u64>(a, b, &mut d),
        5 => word::<usize>(a, b, &mut d),
        6 => code(&Unary, 0, a % 200, b % 90, &mut d),
        7 => code(&GAMMA, 1, a, b, &mut d),
        8 => code(&DELTA, 1, a, b, &mut d),
        9 => code(&Omega, 1, a, b, &mut d),
        10 => code(&Fibonacci, 1, a >> 1, b >> 1, &mut d),
        11 => code(&Comma((b % 9) as u8 + 2), 0, a, b >> 3, &mut d),
        12 => {
            code(&Lift0(DELTA), 0, a >> 1, b >> 1, &mut d);
            code(&Lift0(Omega), 0, a >> 1, b >> 1, &mut d)
        }
        13 => {
            let k = (b % 65) as usize;
            let mut s = Sink(vec![]);
            d(s.write_int::<u64>(k, a & mask(k as u64)).is_ok() as u64);
            d(s.write_int_be::<u64>(k, a & mask(k as u64)).is_ok() as u64);
            d(s.write_int::<u16>(k % 17, (b & mask(k as u64 % 17)) as u16).is_ok() as u64);
            s.0.chunks(60).for_each(|x| d(crate::field(x, 0, x.len() as u64)));
            let mut r = Source(s.0, 0);
            d(r.read_int::<u64>(k).ok().and_then(|x| x).unwrap_or(3));
            d(r.read_int_be::<u64>(k).ok().and_then(|x| x).unwrap_or(3));
            d(r.read_int::<u16>(k % 17).ok().and_then(|x| x).map_or(3, |x| x as u64));
            d(r.read_int::<u32>(9).map_or(8, |x| x.map_or(9, |x| x as u64)));
        }
        14 => {
            let mut v = BitVector::<u16>::with_fill(a % 40, b & 1 == 1);
            (0..b % 50).for_each(|i| v.push_bit(a >> i & 1 == 1));
            d(v.pop_bit().map_or(2, |x| x as u64));
            v.push_block(b as u16);
            v.resize(a % 70 + 3, true);
            v.set_bits(1, 2, 1);
            v.truncate(b % 80);
            v.align_block(true);
            let w = v.clone();
            d((w == v) as u64);
            d(v.bit_len());
            v.iter().for_each(|x| d(x as u64));
        }
        15 => {
            let k = a % 32 + 1;
            let mut v = IntVector::<u32>::with_fill(k as usize, b % 9, (b & mask(k)) as u32);
            (0..a % 20).for_each(|i| v.push((mix64(a ^ i) & mask(k)) as u32));
            d(v.pop().map_or(2, |x| x as u64));
            v.resize(b % 21 + 1, (a & mask(k)) as u32);
            v.set(0, (mix64(b) & mask(k)) as u32);
            d(v.get_random(0, 1, 0).into());
            v.iter().for_each(|x| d(x as u64));
            v.iter().rev().for_each(|x| d(x as u64));
        }
        16 => {
            let s = BinSearchSelect::new(JacobsonRank::new(store::<u8>(a, b, 5 + b % 40)));
            ranked(&s, a, b, &mut d);
            let s = BinSearchSelect::new(JacobsonRank::new(store::<u64>(a, b, 1 + b % 10)));
            ranked(&s, a, b, &mut d);
        }
        17 => {
            let s = BinSearchSelect::new(Rank9::new(store::<u64>(a, b, 1 + b % 20)));
            ranked(&s, a, b, &mut d);
        }
        18 => {
            let f = Formula { table: vec![0, 1, (a % 3) as u8, 2], skip: a % 100, first: (b % 3) as u8, limit: b | 1 };
            let s = BinSearchSelect::new(Ranks(f));
            for k in [0, a % 64, a >> 8, b / 4] {
                d(s.select(k, (k % 3) as u8).unwrap_or(u64::MAX));
            }
        }
        19 => {
            let s = store::<u32>(a, b, 6);
            let w = BitSlice::new(&s, a % 32..s.1 - b % 32);
            let n = w.bit_len();
            for i in 0..4 {
                let p = mix64(b ^ i) % (n - 32);
                d(w.get_bits(p, (b % 33) as usize).into());
                d(w.get_bit(p) as u64);
                d(w.slice(p..).get_block(0).into());
            }
        }
        20 => {
            let mut s = store::<u8>(a, b, 9);
            let n = s.1;
            {
                let mut w = BitSliceMut::new(&mut s, a % 8..n - b % 8);
                w.set_bits(b % 30, (a % 9) as usize, b as u8);
                w.set_block(2, a as u8);
                w.set_bit(b % 40, a & 4 == 0);
                w.slice_mut(5..).set_bits(a % 20, 8, 0x3C);
            }
            s.0.iter().for_each(|&x| d(x as u64));
        }
        21 => {
            let mut v = BitBuffer::<BitVector<u8>>::new();
            d(GAMMA.encode(&mut v, a | 1).is_ok() as u64);
            d(v.write_int::<u64>(64, b).is_ok() as u64);
            let _ = v.seek(0);
            d(GAMMA.decode(&mut v).ok().and_then(|x| x).unwrap_or(2));
            d(v.read_int::<u64>(64).ok().and_then(|x| x).unwrap_or(2));
            d(v.bit_len());
        }
        22 => {
            let mut v = IntVector::<u16>::new((a % 16 + 1) as usize);
            (0..b % 12).for_each(|i| v.push((mix64(a ^ i) & mask(a % 16 + 1)) as u16));
            let mut w = BitVector::<u8>::new();
            (0..b % 30).for_each(|i| w.push_bit(a >> i & 1 == 1));
            let mut t = Text(String::new());
            let _ = write!(t, "{:?} {:?}", v, w);
            t.0.bytes().for_each(|x| d(x as u64));
        }
        23 => {
            let mut v = IntVector::<u32>::new((a % 32 + 1) as usize);
            (0..b % 12).for_each(|i| v.push((mix64(a ^ i) & mask(a % 32 + 1)) as u32));
            let mut h = Mixer(1);
            v.hash(&mut h);
            d(h.0);
            let mut w = BitVector::<u64>::with_fill(b % 99, true);
            w.push_bit(a & 1 == 0);
            let mut h = Mixer(1);
            w.hash(&mut h);
            d(h.0);
        }
        24 => {
            traffic::<u8>(a, &mut d);
            traffic::<u16>(a, &mut d);
            traffic::<u32>(a, &mut d);
            traffic::<u64>(a, &mut d);
            traffic::<usize>(a, &mut d);
        }
        25 => {
            let x = Address::new::<u32>(a >> 28);
            d(x.block_index as u64);
            d(x.bit_offset as u64);
            d(x.bit_index::<u32>());
            let v = BitVector::<u64>::with_fill(a % 1000, false);
            d((v.heap_bytes() > 0) as u64);
            d((v.total_bytes() == v.heap_bytes() + std::mem::size_of_val(&v)) as u64);
            d(vec![1u8; 3].heap_bytes() as u64);
        }
        26 => {
            // the shared code objects, one inside the other's sink
            let mut s = Sink(vec![]);
            for v in [a | 1, b | 1] {
                d(DELTA.encode(&mut s, v).is_ok() as u64);
                d(GAMMA.encode(&mut s, v).is_ok() as u64);
            }
            s.0.chunks(60).for_each(|x| d(crate::field(x, 0, x.len() as u64)));
        }
        _ => {
            let v = store::<u64>(a, b, 3);
            let mut w = BitVector::<u64>::new();
            (0..v.1).for_each(|i| w.push_bit(v.get_bit(i)));
            let mut it = w.iter();
            d(it.nth((a % 30) as usize).map_or(2, |x| x as u64));
            d(it.next_back().map_or(2, |x| x as u64));
            d(it.size_hint().0 as u64);
            d(it.step_by(7).filter(|&x| x).count() as u64);
            d(w.iter().last().map_or(2, |x| x as u64));
        }
    }
    acc
}
/// As `call`; a refusal is an answer like any other, but a trap's panic is passed on.
pub fn digest(f: usize, a: u64, b: u64) -> u64 {
    match attempt(|| call(f, a, b)) {
        Ok(x) => x,
        Err(e) if e == "TRAP" => panic!("TRAP"),
        Err(_) => 0xBAD,
    }
}
