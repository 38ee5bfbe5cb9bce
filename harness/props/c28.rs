//! C28: access, cursor moves and changes at the end take constant time; whole-structure operations and codes linear time.
use mon::refcodes::{code_name, decode, encode, reference, NCODES};
use mon::steps::steps;
use mon::stores::{reads, reset_reads, ByBlock, CountingBits};
use mon::streams::{CountSink, Rec, Src};
use mon::{alloc, ceil_div, ck, ivh, mask, pattern, with_blk, wl, wl_serial, Blk, Case, Workload, R};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// Executed edges an operation may take in a long structure: twice the most it took in a short one, plus these.
const SLACK: u64 = 60;
/// The same for each element or bit of a whole structure.
const PER: u64 = 20;
/// Accesses to a user's store, likewise.
const READS: u64 = 4;

/// The most each kind of operation took.
#[derive(Default)]
struct Most {
    by: BTreeMap<&'static str, (u64, u64)>,
    n: u64,
    grown: u64,
    /// Its operations are single accesses.
    access: bool,
}
fn accesses() -> Most {
    Most { access: true, ..Default::default() }
}
impl Most {
    /// One operation: its cost is noted, and what it allocated is charged to growth.
    fn op<T>(&mut self, what: &'static str, f: impl FnOnce() -> T) -> T {
        reset_reads(1_000_000);
        let a = alloc::allocs();
        let s = steps();
        let x = f();
        let e = steps();
        self.grown += alloc::allocs() - a;
        let r = reads();
        reset_reads(u64::MAX);
        if let Some(s) = s {
            // no single access of the short structures comes near this; going on would only take long
            if self.access && e.unwrap() - s > 100_000 {
                panic!("STEP-BUDGET exceeded: {} took {} steps", what, e.unwrap() - s);
            }
        }
        let m = self.by.entry(what).or_insert((0, 0));
        m.0 = m.0.max(s.map_or(0, |s| e.unwrap() - s));
        m.1 = m.1.max(r);
        self.n += 1;
        black_box(x)
    }
    fn against(&self, c: &mut Case, short: &Most, who: &str, lens: (u64, u64)) -> R {
        let slack = if who.starts_with("steps per") { PER } else { SLACK };
        for (k, &(s, r)) in &self.by {
            let &(s0, r0) = short.by.get(k).unwrap_or(&(s, r));
            c.evals += 2;
            ck!(s <= 2 * s0 + slack, "steps", "{}: {} takes up to {} steps in {} elements, but {} in {} elements", who, k, s0, lens.0, s, lens.1);
            ck!(r <= 2 * r0 + READS, "reads", "{}: {} reads the store up to {} times in {} elements, but {} times in {} elements", who, k, r0, lens.0, r, lens.1);
        }
        c.covn("operations measured", self.n + short.n);
        c.mix(self.by.values().fold(0, |a, x| a.wrapping_mul(31).wrapping_add(x.0)));
        c.t(|| format!("{}: {:?} against {:?}", who, short.by, self.by));
        Ok(())
    }
}

fn lengths(c: &mut Case) -> [u64; 2] {
    let lg = c.rng.range(12, if c.thorough { 22 } else { 18 });
    let r = [c.rng.range(700, 1400), c.rng.range(1 << (lg - 1), 1 << lg) + 3000];
    c.mix(r[0]);
    c.mix(r[1]);
    c.nontrivial = true;
    r
}
fn fill<B: Blk>(c: &mut Case, n: u64) -> BitVector<B> {
    let mut v = BitVector::<B>::block_with_capacity((n / B::NB) as usize + 9);
    let shape = c.rng.below(4);
    for _ in 0..n / B::NB {
        let w = c.rng.next();
        v.push_block(B::of(match shape {
            0 => 0,
            1 => u64::MAX,
            _ => w,
        }));
    }
    while v.bit_len() < n {
        v.push_bit(c.rng.coin());
    }
    v
}
/// A position, often at the ends.
fn at(c: &mut Case, n: u64) -> u64 {
    match c.rng.below(4) {
        0 => c.rng.below(n.min(70)),
        1 => n - 1 - c.rng.below(n.min(70)),
        _ => c.rng.below(n),
    }
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let lens = lengths(c);
    let mut all = vec![];
    for n in lens {
        let mut v = fill::<B>(c, n);
        let mut m = accesses();
        let mut quiet = accesses();
        for _ in 0..250 {
            let k = c.rng.below(B::NB + 1);
            let (p, b, w) = (at(c, n), c.rng.coin(), c.rng.next());
            let q = p.min(n - k);
            let blk = (p / B::NB) as usize;
            let (i, j) = (at(c, n), at(c, n));
            let (lo, hi) = (i.min(j), i.max(j) + 1);
            quiet.op("get_bit", || v.get_bit(p));
            quiet.op("set_bit", || v.set_bit(p, b));
            quiet.op("get_bits", || v.get_bits(q, k as usize));
            quiet.op("set_bits", || v.set_bits(q, k as usize, B::of(w & mask(k))));
            quiet.op("get_block", || v.get_block(blk));
            quiet.op("set_block", || v.set_block(blk, B::of(w)));
            quiet.op("lengths", || (v.bit_len(), v.block_len(), v.capacity(), v.block_capacity()));
            let s = quiet.op("slice", || BitSlice::new(&v, lo..hi));
            let ls = hi - lo;
            let x = at(c, ls);
            quiet.op("slice.get_bit", || s.get_bit(x));
            quiet.op("slice.get_bits", || s.get_bits(x.min(ls - k.min(ls)), k.min(ls) as usize));
            quiet.op("slice.get_block", || s.get_block((x / B::NB) as usize));
            let t = quiet.op("slice.slice", || s.slice(x..));
            quiet.op("slice.slice.get_block", || t.get_block(0));
            {
                let mut s = quiet.op("slice_mut", || BitSliceMut::new(&mut v, lo..hi));
                quiet.op("slice_mut.set_bit", || s.set_bit(x, b));
                quiet.op("slice_mut.set_block", || s.set_block((x / B::NB) as usize, B::of(w)));
            }
            let mut it = quiet.op("iter", || v.iter());
            quiet.op("iter.next", || it.next());
            quiet.op("iter.nth", || it.nth(p as usize));
            quiet.op("iter.size_hint", || it.size_hint());
            quiet.op("iter.next_back", || it.next_back());
            let jump = c.rng.value() as usize;
            quiet.op("iter.nth far", || it.nth(jump));
            quiet.op("pop_bit", || v.pop_bit());
            m.op("push_bit", || v.push_bit(b));
            let d = c.rng.below(70).min(n);
            quiet.op("truncate", || v.truncate(n - d));
            m.op("resize", || v.resize(n, b));
        }
        ck!(quiet.grown == 0, "allocates", "BitVector<{}> of {} bits: reading, writing and dropping made {} allocations", B::NAME, n, quiet.grown);
        ck!(v.bit_len() == n, "length", "length {}", v.bit_len());
        for (k, x) in m.by {
            quiet.by.insert(k, x);
        }
        quiet.n += m.n;
        all.push(quiet);
    }
    all[1].against(c, &all[0], &format!("BitVector<{}>", B::NAME), (lens[0], lens[1]))
}
fn bits(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, bits_t, c)
}

fn ints_t<B: Blk>(c: &mut Case) -> R {
    let k = ivh::width(c, B::NB);
    let lens = lengths(c);
    let mut all = vec![];
    for n in lens {
        let mut v = IntVector::<B>::with_capacity(k as usize, n + 400);
        let mut quiet = accesses();
        let mut m = accesses();
        for _ in 0..n {
            let x = B::of(c.rng.next() & mask(k));
            m.op("push", || v.push(x));
        }
        ck!(m.grown == 0, "allocates", "pushing within the capacity made {} allocations", m.grown);
        for _ in 0..250 {
            let (p, w) = (at(c, n), B::of(c.rng.next() & mask(k)));
            let cnt = c.rng.range(1, B::NB);
            let off = at(c, n * k).min(n * k - cnt);
            quiet.op("get", || v.get(p));
            quiet.op("set", || v.set(p, w));
            quiet.op("lengths", || (v.len(), v.element_bits(), v.block_len(), v.bit_len(), v.capacity()));
            quiet.op("get_random", || v.get_random(off % cnt, cnt as usize, off / cnt));
            quiet.op("set_random", || v.set_random(off % cnt, cnt as usize, off / cnt, B::of(c.rng.next() & mask(cnt))));
            let mut it = quiet.op("iter", || v.iter());
            quiet.op("iter.next", || it.next());
            quiet.op("iter.nth", || it.nth(p as usize));
            quiet.op("iter.size_hint", || it.size_hint());
            quiet.op("iter.next_back", || it.next_back());
            let jump = c.rng.value() as usize;
            quiet.op("iter.nth far", || it.nth(jump));
            quiet.op("pop", || v.pop());
            m.op("push", || v.push(w));
            let d = c.rng.below(20).min(n);
            quiet.op("truncate", || v.truncate(n - d));
            m.op("resize", || v.resize(n, w));
        }
        ck!(quiet.grown == 0, "allocates", "IntVector<{}> of {} elements: reading, writing and dropping made {} allocations", B::NAME, n, quiet.grown);
        for (k, x) in m.by {
            quiet.by.insert(k, x);
        }
        quiet.n += m.n;
        all.push(quiet);
    }
    all[1].against(c, &all[0], &format!("IntVector<{}> of {} bits", B::NAME, k), (lens[0], lens[1]))
}
fn ints(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, ints_t, c)
}

/// Buffers, and windows onto and default methods of stores that supply blocks only.
fn cursors_t<B: Blk>(c: &mut Case) -> R {
    let lens = lengths(c);
    let mut all = vec![];
    for n in lens {
        let mut m = accesses();
        let mut buf = BitBuffer::from(fill::<B>(c, n));
        let st = CountingBits(ByBlock::<B>::new(&pattern(&mut c.rng, n, B::NB), u64::MAX));
        for _ in 0..200 {
            let (p, q) = (at(c, n), at(c, n));
            let (v, k) = (c.rng.next(), c.rng.below(65) as usize);
            m.op("seek", || buf.seek(p)).unwrap();
            m.op("position", || buf.position());
            m.op("read_bit", || buf.read_bit()).unwrap();
            m.op("seek", || buf.seek(p.min(n - 64))).unwrap();
            m.op("read_int", || buf.read_int::<u64>(k)).unwrap();
            m.op("seek", || buf.seek(p.min(n - 64))).unwrap();
            m.op("write_int", || buf.write_int::<u64>(k, v)).unwrap();
            let e = buf.bit_len();
            m.op("seek", || buf.seek(e)).unwrap();
            m.op("write_bit at the end", || buf.write_bit(v & 1 == 1)).unwrap();
            m.op("write_int at the end", || buf.write_int_be::<u64>(k, v)).unwrap();
            // a store that supplies blocks
            let cnt = c.rng.below(B::NB + 1);
            m.op("store: get_bit", || st.get_bit(p));
            let (lo, hi) = (p.min(q), p.max(q) + 1);
            let w = m.op("store: slice", || BitSlice::new(&st, lo..hi));
            let x = at(c, hi - lo);
            m.op("store: slice.get_bit", || w.get_bit(x));
            m.op("store: slice.get_block", || w.get_block((x / B::NB) as usize));
            m.op("store: slice.get_bits", || w.get_bits(x.min(hi - lo - cnt.min(hi - lo)), cnt.min(hi - lo) as usize));
        }
        all.push(m);
    }
    all[1].against(c, &all[0], &format!("buffer and store of {}", B::NAME), (lens[0], lens[1]))
}
fn cursors(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, cursors_t, c)
}

/// Steps per element of whole-structure operations.
fn bulk_t<B: Blk>(c: &mut Case) -> R {
    let lens = lengths(c);
    let k = ivh::width(c, B::NB);
    let mut all = vec![];
    for n in lens {
        let mut m = Most::default();
        let b = c.rng.coin();
        let x = B::of(c.rng.next() & mask(k));
        let v = fill::<B>(c, n);
        let grow = |m: &mut Most| {
            m.op("BitVector: push each", || {
                let mut v = BitVector::<B>::new();
                for i in 0..n {
                    v.push_bit(i % 3 == 0);
                }
                v
            })
        };
        let w = grow(&mut m);
        let u = m.op("BitVector: clone", || v.clone());
        m.op("BitVector: ==", || (u == v, v == w));
        m.op("BitVector: cmp", || (u.cmp(&v), v.cmp(&w)));
        m.op("BitVector: hash", || {
            let mut h = DefaultHasher::new();
            v.hash(&mut h);
            h.finish()
        });
        m.op("BitVector: with_fill", || BitVector::<B>::with_fill(n, b));
        m.op("BitVector: block_with_fill", || BitVector::<B>::block_with_fill((n / B::NB) as usize, x));
        m.op("BitVector: resize", || {
            let mut v = BitVector::<B>::new();
            v.resize(n / 2, b);
            v.resize(n, !b);
            v.resize(n / 3, b);
            v.clear();
            v
        });
        m.op("BitVector: push_block each", || {
            let mut v = BitVector::<B>::new();
            for _ in 0..n / B::NB {
                v.push_block(x);
            }
            v
        });
        m.op("BitVector: iterate", || v.iter().filter(|&b| b).count() + v.iter().rev().filter(|&b| !b).count());
        m.op("BitVector: pop each", || {
            let mut v = v.clone();
            while v.pop_bit().is_some() {}
            v
        });
        m.op("BitVector: {:b}", || format!("{:b}", v).len());
        m.op("BitVector: shrink", || {
            let mut u = u;
            u.truncate(n / 2);
            u.shrink_to_fit();
            u.reserve(n);
            u
        });
        let iv = m.op("IntVector: push each", || {
            let mut v = IntVector::<B>::new(k as usize);
            for i in 0..n {
                v.push(B::of(i.wrapping_mul(7) & mask(k)));
            }
            v
        });
        m.op("IntVector: with_fill", || IntVector::<B>::with_fill(k as usize, n, x));
        m.op("IntVector: resize", || {
            let mut v = IntVector::<B>::new(k as usize);
            v.resize(n / 2, x);
            v.resize(n, x);
            v.resize(n / 3, x);
            v.clear();
            v
        });
        let iu = m.op("IntVector: clone", || iv.clone());
        m.op("IntVector: compare", || (iu == iv, iu.cmp(&iv)));
        m.op("IntVector: iterate", || iv.iter().fold(0u64, |a, x| a.wrapping_add(x.u())) + iv.iter().rev().fold(0u64, |a, x| a ^ x.u()));
        m.op("IntVector: {:?}", || format!("{:?}", iv).len());
        m.op("IntVector: pop each", || {
            let mut v = iv;
            while v.pop().is_some() {}
            v
        });
        // a window read and written as a whole
        m.op("slice: copy", || {
            let mut t = v.clone();
            let s = BitSlice::new(&v, 1..n);
            let mut d = BitSliceMut::new(&mut t, 0..n - 1);
            for i in 0..ceil_div(n - 1, B::NB) as usize {
                d.set_block(i, s.get_block(i));
            }
        });
        for (_, x) in m.by.iter_mut() {
            x.0 = ceil_div(x.0, n);
        }
        all.push(m);
    }
    all[1].against(c, &all[0], &format!("steps per element, {} (integers of {} bits)", B::NAME, k), (lens[0], lens[1]))
}
fn bulk(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, bulk_t, c)
}

/// Coding costs in proportion to the bits, wherever in the stream and however many numbers went before.
fn codes(c: &mut Case) -> R {
    let i = c.rng.below(NCODES as u64) as usize;
    let lens = [40u64, if c.thorough { 40_000 } else { 6_000 }];
    let mut all = vec![];
    c.nontrivial = true;
    c.mix(i as u64);
    let top = c.rng.range(1, if reference(i).unary_like() { 9 } else { 64 });
    c.mix(top);
    let values: Vec<u64> = (0..50)
        .map(|_| {
            let t = c.rng.range(1, top);
            c.rng.next() & mask(t)
        })
        .filter(|&v| matches!(mon::attempt(|| encode(i, &mut CountSink::default(), v)), Ok(Ok(()))))
        .collect();
    if values.is_empty() {
        c.nontrivial = false;
        return Ok(());
    }
    for n in lens {
        let mut m = Most::default();
        let mut out = Rec::default();
        let mut sink = CountSink::default();
        let mut buf = BitBuffer::<BitVector<u64>>::new();
        let each = |j: u64| values[(j % values.len() as u64) as usize];
        m.op("encode", || (0..n).all(|j| encode(i, &mut sink, each(j)).is_ok()));
        for j in 0..n {
            encode(i, &mut out, each(j)).unwrap();
        }
        m.op("encode to a buffer", || (0..n).all(|j| encode(i, &mut buf, each(j)).is_ok()));
        let mut src = Src::new(&out.0);
        let ok = m.op("decode", || (0..n).all(|j| decode(i, &mut src).ok() == Some(Some(each(j)))));
        let mut buf = BitBuffer::from(buf.into_inner());
        let okb = m.op("decode from a buffer", || (0..n).all(|j| decode(i, &mut buf).ok() == Some(Some(each(j)))));
        ck!(ok && okb, "decode", "{}: decoding {} numbers back", code_name(i), n);
        let bits = out.0.len() as u64 + n;
        for (_, x) in m.by.iter_mut() {
            x.0 = ceil_div(x.0, bits);
        }
        all.push(m);
    }
    all[1].against(c, &all[0], &format!("steps per bit, {} of numbers up to {} bits", code_name(i), top), (lens[0], lens[1]))
}
/// The cost of one code word grows no faster than its length (and a constant for tables).
fn words(c: &mut Case) -> R {
    let i = c.rng.below(NCODES as u64) as usize;
    c.nontrivial = true;
    let v = if c.rng.chance(1, 6) { c.rng.below(100_000) } else { mon::refcodes::value_for(&mut c.rng, i) };
    c.mix(v);
    let Some(w) = reference(i).word(v as u128) else { return Ok(()) };
    let mut m = Most::default();
    let mut sink = CountSink::default();
    if !matches!(mon::attempt(|| encode(i, &mut CountSink::default(), v)), Ok(Ok(()))) {
        return Ok(());
    }
    m.op("encode", || encode(i, &mut sink, v)).unwrap();
    m.op("decode", || decode(i, &mut Src::new(&w)).is_ok());
    let n = w.len() as u64;
    for (k, &(s, _)) in &m.by {
        c.evals += 1;
        ck!(s <= 300 * n + 6000, "word-steps", "{}: {} of {} takes {} steps for {} bits", code_name(i), k, v, s, n);
    }
    c.covn("operations measured", m.n);
    Ok(())
}
/// The same on a vector far beyond the common lengths.
fn large(c: &mut Case) -> R {
    let n = (1u64 << if c.thorough { 32 } else { 27 }) + 12_345;
    let v = BitVector::<u64>::block_with_fill((n / 64) as usize, 0x8001_0180_0C00_0003);
    let w = BitVector::<u64>::block_with_fill(20, 0x8001_0180_0C00_0003);
    c.nontrivial = true;
    let mut all = vec![];
    for mut v in [w, v] {
        let n = v.bit_len();
        let mut m = accesses();
        for _ in 0..500 {
            let p = at(c, n);
            let k = c.rng.below(65);
            m.op("get_bit", || v.get_bit(p));
            m.op("get_bits", || v.get_bits(p.min(n - k), k as usize));
            m.op("set_bits", || v.set_bits(p.min(n - k), k as usize, 0));
            let mut it = v.iter();
            m.op("nth", || it.nth(p as usize));
            let s = m.op("slice", || BitSlice::new(&v, p..));
            m.op("slice.get_block", || s.get_block(0));
            m.op("pop_bit", || v.pop_bit());
            m.op("push_bit", || v.push_bit(k == 0));
        }
        let mut b = BitBuffer::append(v);
        m.op("append", || b.write_bit(true)).unwrap();
        for _ in 0..100 {
            let p = at(c, n);
            m.op("seek", || b.seek(p)).unwrap();
            m.op("read_bit", || b.read_bit()).unwrap();
        }
        all.push(m);
    }
    all[1].against(c, &all[0], "BitVector<u64>", (1280, n))
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("bits", 200, 4_000, bits),
        wl("ints", 200, 4_000, ints),
        wl("cursors", 200, 4_000, cursors),
        wl("bulk", 100, 2_000, bulk),
        wl("codes", 300, 4_000, codes),
        wl("words", 20_000, 600_000, words),
        wl_serial("large", 1, 1, large),
    ]
}
