//! User-supplied types plugged into the library: minimal implementations, instrumented and virtual ones.
use crate::{mask, Blk};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::{BitVec, BitVecMut, BitVecPush, SpaceUsage};

/// Supplies only `get_bit` / `set_bit` / `push_bit` / `pop_bit`; everything else is the trait's default.
#[derive(Clone, Debug)]
pub struct ByBit<B> {
    pub bits: Vec<bool>,
    p: PhantomData<B>,
}
impl<B> ByBit<B> {
    pub fn new(bits: &[bool]) -> Self {
        ByBit { bits: bits.to_vec(), p: PhantomData }
    }
}
impl<B: Blk> BitVec for ByBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.bits.len() as u64
    }
    fn get_bit(&self, p: u64) -> bool {
        assert!(p < self.bits.len() as u64, "ByBit: out of bounds");
        self.bits[p as usize]
    }
}
impl<B: Blk> BitVecMut for ByBit<B> {
    fn set_bit(&mut self, p: u64, v: bool) {
        assert!(p < self.bits.len() as u64, "ByBit: out of bounds");
        self.bits[p as usize] = v;
    }
}
impl<B: Blk> BitVecPush for ByBit<B> {
    fn push_bit(&mut self, v: bool) {
        self.bits.push(v)
    }
    fn pop_bit(&mut self) -> Option<bool> {
        self.bits.pop()
    }
}

/// Supplies only `get_block` / `set_block`. The unused bits of the last block hold garbage,
/// as the trait's documentation allows.
#[derive(Clone, Debug)]
pub struct ByBlock<B> {
    pub blocks: Vec<B>,
    pub n: u64,
}
impl<B: Blk> ByBlock<B> {
    pub fn new(bits: &[bool], garbage: u64) -> Self {
        let n = bits.len() as u64;
        let mut blocks = vec![];
        for ch in bits.chunks(B::NB as usize) {
            let live = ch.len() as u64;
            blocks.push(B::of(crate::field(ch, 0, live) | (garbage & !mask(live))));
        }
        ByBlock { blocks, n }
    }
    /// The garbage is still what it was.
    pub fn tail(&self) -> u64 {
        let live = self.n % B::NB;
        match self.blocks.last() {
            Some(b) if live != 0 => b.u() >> live,
            _ => 0,
        }
    }
}
impl<B: Blk> BitVec for ByBlock<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.n
    }
    fn get_block(&self, p: usize) -> B {
        self.blocks[p]
    }
}
impl<B: Blk> BitVecMut for ByBlock<B> {
    /// Keeps the trailing bits of a partial last block, as the documentation asks.
    fn set_block(&mut self, p: usize, v: B) {
        let live = if p + 1 == self.blocks.len() && self.n % B::NB != 0 { self.n % B::NB } else { B::NB };
        let old = self.blocks[p].u();
        self.blocks[p] = B::of((v.u() & mask(live)) | (old & !mask(live)));
    }
}

thread_local! {
    static READS: Cell<u64> = const { Cell::new(0) };
    static BITS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn reads() -> u64 {
    READS.with(|r| r.get())
}
pub fn reset_reads(limit: u64) {
    READS.with(|r| r.set(0));
    BITS.with(|r| r.set(0));
    LIMIT.with(|l| l.set(limit));
}
#[inline]
fn tick() {
    let n = READS.with(|r| {
        let n = r.get() + 1;
        r.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        panic!("STEP-BUDGET exceeded: more than {} reads of the underlying structure", n - 1);
    }
}

/// Counts every access to the wrapped bit vector (block, bit or field).
#[derive(Clone, Debug)]
pub struct CountingBits<V>(pub V);
impl<V: BitVec> BitVec for CountingBits<V> {
    type Block = V::Block;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn block_len(&self) -> usize {
        self.0.block_len()
    }
    fn get_bit(&self, p: u64) -> bool {
        tick();
        self.0.get_bit(p)
    }
    fn get_block(&self, p: usize) -> V::Block {
        tick();
        self.0.get_block(p)
    }
    fn get_bits(&self, s: u64, k: usize) -> V::Block {
        tick();
        self.0.get_bits(s, k)
    }
}
impl<V: SpaceUsage> SpaceUsage for CountingBits<V> {
    fn is_stack_only() -> bool {
        V::is_stack_only()
    }
    fn heap_bytes(&self) -> usize {
        self.0.heap_bytes()
    }
}

/// Counts every rank query.
#[derive(Clone, Debug)]
pub struct CountingRank<R>(pub R);
impl<R: RankSupport> RankSupport for CountingRank<R> {
    type Over = R::Over;
    fn rank(&self, p: u64, v: R::Over) -> u64 {
        tick();
        self.0.rank(p, v)
    }
    fn limit(&self) -> u64 {
        self.0.limit()
    }
}
impl<R: BitRankSupport> BitRankSupport for CountingRank<R> {
    fn rank1(&self, p: u64) -> u64 {
        tick();
        self.0.rank1(p)
    }
    fn rank0(&self, p: u64) -> u64 {
        tick();
        self.0.rank0(p)
    }
}

/// A bit vector of any length holding a repeated table of blocks; never materialized.
#[derive(Clone, Debug)]
pub struct Periodic<B> {
    pub table: Vec<B>,
    pub pre: Vec<u64>,
    pub n: u64,
}
impl<B: Blk> Periodic<B> {
    pub fn new(table: Vec<B>, n: u64) -> Self {
        let mut pre = vec![0u64];
        for b in &table {
            let x = pre[pre.len() - 1] + b.u().count_ones() as u64;
            pre.push(x);
        }
        Periodic { table, pre, n }
    }
    /// Ones strictly before position p.
    pub fn ones_before(&self, p: u64) -> u64 {
        let b = p / B::NB;
        let per = self.table.len() as u64;
        let full = (b / per) * self.pre[self.table.len()] + self.pre[(b % per) as usize];
        let off = p % B::NB;
        full + if off > 0 { (self.table[(b % per) as usize].u() & mask(off)).count_ones() as u64 } else { 0 }
    }
    pub fn bit(&self, p: u64) -> bool {
        (self.table[(p / B::NB % self.table.len() as u64) as usize].u() >> (p % B::NB)) & 1 == 1
    }
}
impl<B: Blk> BitVec for Periodic<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.n
    }
    #[inline]
    fn get_block(&self, p: usize) -> B {
        let p = p as u64;
        assert!(p < crate::ceil_div(self.n, B::NB), "Periodic: out of bounds");
        let b = self.table[(p % self.table.len() as u64) as usize];
        let live = (self.n - p * B::NB).min(B::NB);
        B::of(b.u() & mask(live))
    }
}
impl<B> SpaceUsage for Periodic<B> {
    fn is_stack_only() -> bool {
        false
    }
    fn heap_bytes(&self) -> usize {
        0
    }
}

/// A rank structure over symbols that exists only as a formula; its limit can be as large as u64::MAX.
/// Symbol at p is table[p % table.len()], except that positions before `skip` all hold `first`.
#[derive(Clone, Debug)]
pub struct Formula {
    pub table: Vec<u8>,
    pub skip: u64,
    pub first: u8,
    pub limit: u64,
}
impl Formula {
    pub fn at(&self, p: u64) -> u8 {
        if p < self.skip {
            self.first
        } else {
            self.table[((p - self.skip) % self.table.len() as u64) as usize]
        }
    }
    /// Occurrences strictly before p.
    pub fn before(&self, p: u64, s: u8) -> u64 {
        let a = if s == self.first { p.min(self.skip) } else { 0 };
        if p <= self.skip {
            return a;
        }
        let q = p - self.skip;
        let t = self.table.len() as u64;
        let per = self.table.iter().filter(|&&x| x == s).count() as u64;
        let part = self.table[..(q % t) as usize].iter().filter(|&&x| x == s).count() as u64;
        a + (q / t) * per + part
    }
    pub fn total(&self, s: u8) -> u64 {
        self.before(self.limit, s)
    }
}
impl RankSupport for Formula {
    type Over = u8;
    fn rank(&self, p: u64, s: u8) -> u64 {
        assert!(p < self.limit, "Formula: rank out of bounds");
        self.before(p, s) + (self.at(p) == s) as u64
    }
    fn limit(&self) -> u64 {
        self.limit
    }
}
/// The same over bits: symbol != 0.
#[derive(Clone, Debug)]
pub struct FormulaBits(pub Formula);
impl RankSupport for FormulaBits {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        self.0.rank(p, v as u8)
    }
    fn limit(&self) -> u64 {
        self.0.limit
    }
}
impl BitRankSupport for FormulaBits {}

/// A writable bit vector of any length: a repeated table, plus the blocks written since.
#[derive(Clone, Debug)]
pub struct Overlay<B> {
    pub base: Periodic<B>,
    pub written: BTreeMap<usize, B>,
}
impl<B: Blk> Overlay<B> {
    pub fn new(table: Vec<B>, n: u64) -> Self {
        Overlay { base: Periodic::new(table, n), written: BTreeMap::new() }
    }
    /// The reference: what bit `p` is (also past nothing; `p` is inside).
    pub fn bit(&self, p: u64) -> bool {
        match self.written.get(&((p / B::NB) as usize)) {
            Some(b) => (b.u() >> (p % B::NB)) & 1 == 1,
            None => self.base.bit(p),
        }
    }
    pub fn put(&mut self, p: u64, v: bool) {
        let i = (p / B::NB) as usize;
        let b = self.get_block(i).u();
        let m = 1u64 << (p % B::NB);
        self.written.insert(i, B::of(if v { b | m } else { b & !m }));
    }
    /// `count` bits from `s`.
    pub fn bits(&self, s: u64, count: u64) -> u64 {
        (0..count).fold(0u64, |a, i| a | (self.bit(s + i) as u64) << i)
    }
}
impl<B: Blk> BitVec for Overlay<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.base.n
    }
    fn get_block(&self, p: usize) -> B {
        let b = self.base.get_block(p);
        self.written.get(&p).copied().unwrap_or(b)
    }
}
impl<B: Blk> BitVecPush for Overlay<B> {
    fn push_bit(&mut self, v: bool) {
        let p = self.base.n;
        self.base.n += 1;
        self.put(p, v);
    }
    fn pop_bit(&mut self) -> Option<bool> {
        let p = self.base.n.checked_sub(1)?;
        let v = self.bit(p);
        self.base.n = p;
        Some(v)
    }
}
impl<B: Blk> BitVecMut for Overlay<B> {
    fn set_block(&mut self, p: usize, v: B) {
        let live = (self.base.n - p as u64 * B::NB).min(B::NB);
        let _ = self.base.get_block(p);
        self.written.insert(p, B::of(v.u() & mask(live)));
    }
}
