//! Reference model of a bit sequence, and generic observers and writers for bit vectors.
use crate::run::{attempt, Case, Viol, R};
use crate::{ck, ckeq, mask, Blk, Rng};
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut};

pub fn ceil_div(a: u64, b: u64) -> u64 {
    a / b + (a % b != 0) as u64
}

/// Bits `start .. start+count` of the model as an integer (bits past the end read as zero).
pub fn field(m: &[bool], start: u64, count: u64) -> u64 {
    let mut r = 0;
    for i in 0..count.min(64) {
        let p = start + i;
        if p < m.len() as u64 && m[p as usize] {
            r |= 1 << i;
        }
    }
    r
}

pub fn set_field(m: &mut [bool], start: u64, count: u64, v: u64) {
    for i in 0..count.min(64) {
        let p = start + i;
        if p < m.len() as u64 {
            m[p as usize] = (v >> i) & 1 == 1;
        }
    }
}

/// Contents of `n` bits in one of several shapes.
pub fn pattern(r: &mut Rng, n: u64, nb: u64) -> Vec<bool> {
    let n = n as usize;
    match r.below(10) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => (0..n).map(|_| r.coin()).collect(),
        3 => {
            let q = r.range(2, 200);
            (0..n).map(|_| r.below(q) == 0).collect()
        }
        4 => {
            let q = r.range(2, 200);
            (0..n).map(|_| r.below(q) != 0).collect()
        }
        5 => {
            let p = r.range(1, 2 * nb + 3) as usize;
            let o = r.below(p as u64) as usize;
            (0..n).map(|i| (i + o) % p == 0).collect()
        }
        6 => {
            // runs
            let mut v = Vec::with_capacity(n);
            let mut b = r.coin();
            let m = r.range(1, 4 * nb);
            while v.len() < n {
                let k = r.range(1, m) as usize;
                for _ in 0..k.min(n - v.len()) {
                    v.push(b);
                }
                b = !b;
            }
            v
        }
        7 => {
            // a few single bits near block boundaries
            let base = r.coin();
            let mut v = vec![base; n];
            for _ in 0..r.range(1, 6) {
                if n > 0 {
                    let blk = r.below(n as u64 / nb + 1) * nb;
                    let p = (blk + r.below(3)).saturating_sub(1).min(n as u64 - 1);
                    v[p as usize] = !base;
                }
            }
            v
        }
        8 => {
            // first part one value, rest the other
            let cut = r.below(n as u64 + 1) as usize;
            let b = r.coin();
            (0..n).map(|i| (i < cut) == b).collect()
        }
        _ => {
            // clustered: dense and empty regions
            let w = r.range(nb, 16 * nb) as usize;
            let mut v = vec![false; n];
            let mut i = 0;
            while i < n {
                let d = r.below(4);
                for j in i..(i + w).min(n) {
                    v[j] = r.below(4) < d;
                }
                i += w;
            }
            v
        }
    }
}

pub fn show(m: &[bool]) -> String {
    let mut s: String = m.iter().take(200).map(|&b| if b { '1' } else { '0' }).collect();
    if m.len() > 200 {
        s.push_str(&format!("...({} bits)", m.len()));
    }
    s
}

pub fn fp_bits(c: &mut Case, m: &[bool]) {
    c.mix(m.len() as u64);
    for ch in m.chunks(64) {
        let w = field(ch, 0, ch.len() as u64);
        c.mix(w);
    }
}

/// Positions worth looking at in a sequence of n things grouped by nb.
pub fn positions(r: &mut Rng, n: u64, nb: u64, all_below: u64, samples: u64) -> Vec<u64> {
    if n <= all_below {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, n - 1, n - 2, nb - 1, nb, nb + 1, n / nb * nb, (n / nb * nb).saturating_sub(1)];
    for _ in 0..samples {
        v.push(r.below(n));
        let b = r.below(n / nb + 1) * nb;
        v.push((b + r.below(3)).saturating_sub(1));
    }
    v.retain(|&p| p < n);
    v
}

/// Any bit vector behind one type, so that the observers below are compiled once per block type.
pub struct Ref<'a, V: ?Sized>(pub &'a V);
impl<'a, V: BitVec + ?Sized> BitVec for Ref<'a, V> {
    type Block = V::Block;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn block_len(&self) -> usize {
        self.0.block_len()
    }
    fn get_bit(&self, p: u64) -> bool {
        self.0.get_bit(p)
    }
    fn get_block(&self, p: usize) -> V::Block {
        self.0.get_block(p)
    }
    fn get_bits(&self, s: u64, k: usize) -> V::Block {
        self.0.get_bits(s, k)
    }
}
pub struct RefMut<'a, V: ?Sized>(pub &'a mut V);
impl<'a, V: BitVec + ?Sized> BitVec for RefMut<'a, V> {
    type Block = V::Block;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn block_len(&self) -> usize {
        self.0.block_len()
    }
    fn get_bit(&self, p: u64) -> bool {
        self.0.get_bit(p)
    }
    fn get_block(&self, p: usize) -> V::Block {
        self.0.get_block(p)
    }
    fn get_bits(&self, s: u64, k: usize) -> V::Block {
        self.0.get_bits(s, k)
    }
}
impl<'a, V: BitVecMut + ?Sized> BitVecMut for RefMut<'a, V> {
    fn set_bit(&mut self, p: u64, v: bool) {
        self.0.set_bit(p, v)
    }
    fn set_block(&mut self, p: usize, v: V::Block) {
        self.0.set_block(p, v)
    }
    fn set_bits(&mut self, s: u64, k: usize, v: V::Block) {
        self.0.set_bits(s, k, v)
    }
}

pub fn check_bits<V: BitVec + ?Sized>(c: &mut Case, v: &V, m: &[bool], who: &str) -> R {
    check_bits_dyn::<V::Block>(c, &Ref(v), m, who)
}
pub fn check_blocks<V: BitVec + ?Sized>(c: &mut Case, v: &V, m: &[bool], who: &str, zero_tail: bool) -> R
where
    V::Block: Blk,
{
    check_blocks_dyn::<V::Block>(c, &Ref(v), m, who, zero_tail)
}
pub fn check_fields<V: BitVec + ?Sized>(c: &mut Case, v: &V, m: &[bool], who: &str, tries: u64) -> R
where
    V::Block: Blk,
{
    check_fields_dyn::<V::Block>(c, &Ref(v), m, who, tries)
}
pub fn random_write<V: BitVecMut + ?Sized>(c: &mut Case, v: &mut V, m: &mut Vec<bool>, who: &str) -> R
where
    V::Block: Blk,
{
    random_write_dyn::<V::Block>(c, &mut RefMut(v), m, who)
}

/// Length and every single bit.
fn check_bits_dyn<B: BlockType>(c: &mut Case, v: &dyn BitVec<Block = B>, m: &[bool], who: &str) -> R {
    ckeq!(v.bit_len(), m.len() as u64, "bit_len", "{} bit_len", who);
    let ps = positions(&mut c.rng, m.len() as u64, 64, 700, 60);
    for p in ps {
        c.evals += 1;
        let got = attempt(|| v.get_bit(p)).map_err(|e| Viol {
            sig: "get_bit-panic".into(),
            msg: format!("{} get_bit({}) of {} panicked: {}", who, p, m.len(), e),
        })?;
        ckeq!(got, m[p as usize], "get_bit", "{} get_bit({}) of {}", who, p, m.len());
    }
    Ok(())
}

/// Every whole block. With `zero_tail` the unused bits of the last one must be zero.
fn check_blocks_dyn<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>, m: &[bool], who: &str, zero_tail: bool) -> R {
    let nb = B::NB;
    let n = m.len() as u64;
    ckeq!(v.block_len() as u64, ceil_div(n, nb), "block_len", "{} block_len with {} bits", who, n);
    let ps = positions(&mut c.rng, ceil_div(n, nb), 8, 100, 30);
    for b in ps {
        c.evals += 1;
        let live = (n - b * nb).min(nb);
        let got = attempt(|| v.get_block(b as usize))
            .map_err(|e| Viol {
                sig: "get_block-panic".into(),
                msg: format!("{} get_block({}) of {} bits panicked: {}", who, b, n, e),
            })?
            .u();
        let want = field(m, b * nb, live);
        ckeq!(got & mask(live), want, "get_block", "{} get_block({}) of {} bits ({} live)", who, b, n, live);
        if zero_tail {
            ck!(got & !mask(live) == 0, "tail-not-zero", "{} block {} has nonzero unused bits: {:#x}, {} live", who, b, got, live);
        }
    }
    Ok(())
}

/// Bit fields at many offsets.
fn check_fields_dyn<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>, m: &[bool], who: &str, tries: u64) -> R {
    let nb = B::NB;
    let n = m.len() as u64;
    let exhaustive = n <= 40;
    let mut list: Vec<(u64, u64)> = vec![];
    if exhaustive {
        for s in 0..=n {
            for k in 0..=nb.min(n - s) {
                list.push((s, k));
            }
        }
    } else {
        for _ in 0..tries {
            let s = match c.rng.below(4) {
                0 => (c.rng.below(n / nb + 1) * nb + c.rng.below(3)).saturating_sub(1).min(n),
                1 => n - c.rng.below((nb + 2).min(n)),
                _ => c.rng.below(n + 1),
            };
            let lim = nb.min(n - s);
            let k = match c.rng.below(4) {
                0 => lim,
                1 => lim.saturating_sub(1),
                _ => c.rng.below(lim + 1),
            };
            list.push((s, k));
        }
        list.push((n, 0));
    }
    for (s, k) in list {
        c.evals += 1;
        let got = attempt(|| v.get_bits(s, k as usize))
            .map_err(|e| Viol {
                sig: "get_bits-panic".into(),
                msg: format!("{} get_bits({}, {}) of {} bits panicked: {}", who, s, k, n, e),
            })?
            .u();
        ckeq!(got, field(m, s, k), "get_bits", "{} get_bits({}, {}) of {} bits", who, s, k, n);
    }
    Ok(())
}

pub fn check_all<V: BitVec + ?Sized>(c: &mut Case, v: &V, m: &[bool], who: &str, zero_tail: bool, tries: u64) -> R
where
    V::Block: Blk,
{
    check_bits(c, v, m, who)?;
    check_blocks(c, v, m, who, zero_tail)?;
    check_fields(c, v, m, who, tries)
}

/// One random in-range write through the trait; the model follows.
fn random_write_dyn<B: Blk>(c: &mut Case, v: &mut dyn BitVecMut<Block = B>, m: &mut Vec<bool>, who: &str) -> R {
    let nb = B::NB;
    let n = m.len() as u64;
    if n == 0 {
        return Ok(());
    }
    match c.rng.below(3) {
        0 => {
            let p = if c.rng.coin() { c.rng.below(n) } else { n - 1 - c.rng.below(n.min(nb + 1)) };
            let b = c.rng.coin();
            c.t(|| format!("{}.set_bit({}, {})", who, p, b));
            attempt(|| v.set_bit(p, b)).map_err(|e| Viol {
                sig: "set_bit-panic".into(),
                msg: format!("{} set_bit({}) of {} panicked: {}", who, p, n, e),
            })?;
            m[p as usize] = b;
            c.cov("write:set_bit");
        }
        1 => {
            let s = match c.rng.below(3) {
                0 => (c.rng.below(n / nb + 1) * nb + c.rng.below(3)).saturating_sub(1).min(n),
                _ => c.rng.below(n + 1),
            };
            let lim = nb.min(n - s);
            let k = match c.rng.below(3) {
                0 => lim,
                _ => c.rng.below(lim + 1),
            };
            // bits above the field must be ignored
            let x = c.rng.value();
            c.t(|| format!("{}.set_bits({}, {}, {:#x})", who, s, k, x));
            attempt(|| v.set_bits(s, k as usize, B::of(x))).map_err(|e| Viol {
                sig: "set_bits-panic".into(),
                msg: format!("{} set_bits({}, {}) of {} panicked: {}", who, s, k, n, e),
            })?;
            set_field(m, s, k, x);
            c.cov(if s % nb + k > nb { "write:set_bits-straddling" } else { "write:set_bits" });
        }
        _ => {
            let nbl = ceil_div(n, nb);
            let b = if c.rng.coin() { c.rng.below(nbl) } else { nbl - 1 };
            let x = c.rng.value();
            c.t(|| format!("{}.set_block({}, {:#x})", who, b, x));
            attempt(|| v.set_block(b as usize, B::of(x))).map_err(|e| Viol {
                sig: "set_block-panic".into(),
                msg: format!("{} set_block({}) of {} bits panicked: {}", who, b, n, e),
            })?;
            set_field(m, b * nb, nb, x);
            c.cov(if b + 1 == nbl && n % nb != 0 { "write:set_block-partial" } else { "write:set_block" });
        }
    }
    Ok(())
}
