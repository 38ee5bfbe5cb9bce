//! C06: out-of-range requests are refused and change nothing.
use mon::bvh::{self, Bvh};
use mon::ivh::{self, Ivh};
use mon::stores::{ByBit, ByBlock, Periodic};
use mon::{attempt, ceil_div, check_all, ck, ckeq, field, mask, pattern, with_blk, wl, Blk, Case, Workload, R};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::storage::BlockType;
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecMut, BitVector, IntVec, IntVecMut, IntVector};

/// The request must panic.
macro_rules! refuse {
    ($c:expr, $sig:expr, $e:expr, $($fmt:tt)+) => {{
        $c.evals += 1;
        $c.cov($sig);
        match attempt(|| $e) {
            Err(_) => {}
            Ok(x) => {
                return Err(mon::Viol { sig: $sig.to_string(), msg: format!("{} was not refused: {:?}", format!($($fmt)+), x) })
            }
        }
    }};
}

/// A position at or past `n`.
pub fn past(c: &mut Case, n: u64, nb: u64) -> u64 {
    let r = &mut c.rng;
    let x = match r.below(12) {
        0 | 1 => n,
        2 => n + 1 + r.below(nb),
        // the unused tail of the last block
        3 | 4 => n + r.below((ceil_div(n, nb) * nb - n).max(1)),
        5 => ceil_div(n, nb) * nb + r.below(3),
        // truncation to 32 bits would land inside
        6 => (1 << 32) + r.below(n.max(1)),
        7 => (r.range(1, 0xffff_fffe) << 32) + r.below(n.max(1)),
        // times nb or a small width would wrap
        8 => (u64::MAX / r.range(1, 64)).wrapping_add(r.below(4)),
        9 => (1u64 << r.range(32, 63)) + r.below(n.max(1)),
        10 => u64::MAX - r.below(2 * nb),
        _ => n.saturating_add(r.next() >> r.below(64)),
    };
    x.max(n)
}

/// A field that does not lie inside n bits: start and count.
fn past_field(c: &mut Case, n: u64, nb: u64) -> (u64, usize) {
    let r = &mut c.rng;
    match r.below(8) {
        0 | 1 => {
            // starts inside, ends outside
            let k = r.range(1, nb);
            let s = (n + 1).saturating_sub(r.below(k) + 1).min(n);
            let need = n - s + 1;
            (s, need.max(k) as usize)
        }
        2 => {
            // sum wraps
            let k = r.range(1, nb);
            (u64::MAX - r.below(k), k as usize)
        }
        3 => {
            // a count that makes the sum wrap to something inside
            let s = r.below(n + 1);
            (s, usize::MAX - (r.below(s + 2)) as usize)
        }
        4 => (r.below(n + 1), usize::MAX - r.below(3) as usize),
        5 => {
            let p = past(c, n, nb);
            if p == n {
                (n + 1, 0)
            } else {
                (p, 0)
            }
        }
        _ => {
            let p = past(c, n, nb);
            let k = c.rng.range(1, nb);
            (p, k as usize)
        }
    }
}
fn outside(n: u64, s: u64, k: usize) -> bool {
    s as u128 + k as u128 > n as u128
}

fn past_block(c: &mut Case, blocks: u64, nb: u64) -> usize {
    let r = &mut c.rng;
    let x = match r.below(6) {
        0 | 1 => blocks,
        2 => blocks + 1 + r.below(3),
        3 => (u64::MAX / nb).wrapping_add(r.below(3)),
        // index times nb wraps to something inside
        4 => (1u64 << (64 - nb.trailing_zeros())).wrapping_add(r.below(blocks.max(1))),
        _ => u64::MAX - r.below(3),
    };
    (x as usize).max(blocks as usize)
}

fn reads<V: BitVec + ?Sized>(c: &mut Case, v: &V, who: &str, times: u64) -> R
where
    V::Block: Blk,
{
    reads_dyn::<V::Block>(c, &mon::Ref(v), who, times)
}
fn writes<V: BitVecMut + ?Sized>(c: &mut Case, v: &mut V, m: &[bool], who: &str, times: u64) -> R
where
    V::Block: Blk,
{
    writes_dyn::<V::Block>(c, &mut mon::RefMut(v), m, who, times)
}
// compiled once per block type
fn reads_dyn<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>, who: &str, times: u64) -> R {
    let nb = B::NB;
    let n = v.bit_len();
    for _ in 0..times {
        let p = past(c, n, nb);
        refuse!(c, "get_bit", v.get_bit(p), "{} of {} bits: get_bit({})", who, n, p);
        let (s, k) = past_field(c, n, nb);
        if outside(n, s, k) {
            refuse!(c, "get_bits", v.get_bits(s, k), "{} of {} bits: get_bits({}, {})", who, n, s, k);
        }
        let b = past_block(c, ceil_div(n, nb), nb);
        refuse!(c, "get_block", v.get_block(b), "{} of {} bits: get_block({})", who, n, b);
    }
    Ok(())
}

fn writes_dyn<B: Blk>(c: &mut Case, v: &mut dyn BitVecMut<Block = B>, m: &[bool], who: &str, times: u64) -> R {
    let nb = B::NB;
    let n = v.bit_len();
    for _ in 0..times {
        let x = c.rng.value();
        match c.rng.below(3) {
            0 => {
                let p = past(c, n, nb);
                refuse!(c, "set_bit", v.set_bit(p, x & 1 == 1), "{} of {} bits: set_bit({})", who, n, p);
            }
            1 => {
                let (s, k) = past_field(c, n, nb);
                if outside(n, s, k) {
                    refuse!(c, "set_bits", v.set_bits(s, k, B::of(x)), "{} of {} bits: set_bits({}, {}, {:#x})", who, n, s, k, x);
                }
            }
            _ => {
                let b = past_block(c, ceil_div(n, nb), nb);
                refuse!(c, "set_block", v.set_block(b, B::of(x)), "{} of {} bits: set_block({}, {:#x})", who, n, b, x);
            }
        }
    }
    check_all(c, v, m, &format!("{} after refused writes", who), false, 4)
}

fn slices<V: BitVecMut>(c: &mut Case, v: &mut V, m: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let n = v.bit_len();
    // ranges reaching outside
    for _ in 0..2 {
        let e = past(c, n, nb).saturating_add(1);
        let s = if c.rng.coin() { c.rng.below(n + 1) } else { c.rng.below(e.min(1 << 40) + 1).min(e) };
        refuse!(c, "slice", { BitSlice::new(&*v, s..e); }, "BitSlice::new({} of {} bits, {}..{})", who, n, s, e);
        refuse!(c, "slice", { BitSlice::new(&*v, ..e); }, "BitSlice::new({} of {} bits, ..{})", who, n, e);
        refuse!(c, "slice", { BitSliceMut::new(v, s..e); }, "BitSliceMut::new({} of {} bits, {}..{})", who, n, s, e);
        refuse!(c, "slice", { BitSliceMut::new(v, ..e); }, "BitSliceMut::new({} of {} bits, ..{})", who, n, e);
    }
    // requests outside the window, though perhaps inside the base
    let (a, b) = (c.rng.below(n + 1), c.rng.below(n + 1));
    let (s, e) = (a.min(b), a.max(b));
    let name = format!("BitSlice({} of {} bits)[{}..{}]", who, n, s, e);
    {
        let t = BitSlice::new(&*v, s..e);
        reads(c, &t, &name, 4)?;
        for _ in 0..2 {
            let q = past(c, e - s, nb).saturating_add(1);
            let p = c.rng.below(e - s + 1);
            refuse!(c, "slice", { t.slice(p..q); }, "{}.slice({}..{})", name, p, q);
            refuse!(c, "slice", { t.slice(..q); }, "{}.slice(..{})", name, q);
            refuse!(c, "slice", { BitSlice::new(&t, p..q); }, "BitSlice::new({}, {}..{})", name, p, q);
        }
    }
    {
        let mut t = BitSliceMut::new(v, s..e);
        let name = format!("BitSliceMut({} of {} bits)[{}..{}]", who, n, s, e);
        reads(c, &t, &name, 4)?;
        writes(c, &mut t, &m[s as usize..e as usize], &name, 6)?;
        for _ in 0..2 {
            let q = past(c, e - s, nb).saturating_add(1);
            let p = c.rng.below(e - s + 1);
            refuse!(c, "slice", { t.slice(p..q); }, "{}.slice({}..{})", name, p, q);
            refuse!(c, "slice", { t.slice_mut(p..q); }, "{}.slice_mut({}..{})", name, p, q);
        }
        // a nested window
        let (a, b) = (c.rng.below(e - s + 1), c.rng.below(e - s + 1));
        let (s2, e2) = (a.min(b), a.max(b));
        let mut u = t.slice_mut(s2..e2);
        let name = format!("{}[{}..{}]", name, s2, e2);
        reads(c, &u, &name, 2)?;
        writes(c, &mut u, &m[(s + s2) as usize..(s + e2) as usize], &name, 3)?;
    }
    check_all(c, v, m, &format!("{} after refused writes through slices", who), false, 4)
}

fn ranks(c: &mut Case, v: &dyn BitRankSupport, n: u64, nb: u64, who: &str) -> R {
    for _ in 0..6 {
        let p = past(c, n, nb);
        refuse!(c, "rank1", v.rank1(p), "{} of {} bits: rank1({})", who, n, p);
        refuse!(c, "rank0", v.rank0(p), "{} of {} bits: rank0({})", who, n, p);
        let b = c.rng.coin();
        refuse!(c, "rank", v.rank(p, b), "{} of {} bits: rank({}, {})", who, n, p, b);
    }
    Ok(())
}

/// Room past the end of a vector, perhaps written to before: it is outside all the same.
fn spare<T: Copy>(c: &mut Case, v: &mut Vec<T>, x: T) {
    match c.rng.below(3) {
        0 => v.shrink_to_fit(),
        1 => v.reserve_exact(c.rng.range(1, 40) as usize),
        _ => {
            let n = v.len();
            v.resize(n + c.rng.range(1, 40) as usize, x);
            v.truncate(n);
        }
    }
}

fn kinds_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let max = c.rng.pick(&[3 * nb, 10 * nb]);
    let n = c.rng.size(nb, max);
    let mut m = pattern(&mut c.rng, n, nb);
    let kind = c.rng.below(8);
    c.mix(n * 64 + kind * 8);
    c.mix(field(&m, 0, 64.min(n)) ^ nb);
    c.nontrivial = true;
    c.t(|| format!("kind {} block {} bits {}", kind, B::NAME, n));
    match kind {
        0 => {
            let mut v = bvh::build_to::<B>(c, &m)?;
            let before = v.clone();
            reads(c, &v, "BitVector", 6)?;
            writes(c, &mut v, &m, "BitVector", 10)?;
            slices(c, &mut v, &m, "BitVector")?;
            ck!(v == before, "changed", "BitVector<{}> of {} bits changed by refused requests", B::NAME, n);
            Ok(())
        }
        1 => {
            m.resize((ceil_div(n, nb) * nb) as usize, true);
            let mut v: Vec<B> = m.chunks(nb as usize).map(|x| B::of(field(x, 0, nb))).collect();
            spare(c, &mut v, B::of(u64::MAX));
            reads(c, &v, "Vec<Block>", 6)?;
            reads(c, &v[..], "[Block]", 6)?;
            writes(c, &mut v, &m, "Vec<Block>", 10)?;
            writes(c, &mut v[..], &m, "[Block]", 10)?;
            {
                let mut s: &mut [B] = &mut v;
                reads(c, &s, "&mut [Block]", 3)?;
                writes(c, &mut s, &m, "&mut [Block]", 5)?;
                let t: &[B] = s;
                reads(c, &t, "&[Block]", 3)?;
            }
            slices(c, &mut v, &m, "Vec<Block>")
        }
        2 => {
            let mut v = m.clone();
            spare(c, &mut v, true);
            reads(c, &v, "Vec<bool>", 6)?;
            writes(c, &mut v, &m, "Vec<bool>", 10)?;
            slices(c, &mut v, &m, "Vec<bool>")?;
            ck!(v == m, "changed", "Vec<bool> changed by refused requests");
            Ok(())
        }
        3 => {
            let k = ivh::width(c, nb);
            let len = n / k;
            m.truncate((len * k) as usize);
            let xs: Vec<u64> = (0..len).map(|i| field(&m, i * k, k)).collect();
            let mut v = ivh::build_to::<B>(c, k, &xs)?;
            let before = v.clone();
            let name = format!("IntVector<{}>[{} bits]", B::NAME, k);
            reads(c, &v, &name, 6)?;
            writes(c, &mut v, &m, &name, 10)?;
            slices(c, &mut v, &m, &name)?;
            ints(c, &mut v, &xs, k, 12)?;
            ck!(v == before, "changed", "{} changed by refused requests", name);
            Ok(())
        }
        4 => {
            let mut v: ByBit<B> = ByBit::new(&m);
            reads(c, &v, "ByBit", 6)?;
            writes(c, &mut v, &m, "ByBit", 10)?;
            slices(c, &mut v, &m, "ByBit")
        }
        5 => {
            let g = c.rng.value();
            let mut v: ByBlock<B> = ByBlock::new(&m, g);
            reads(c, &v, "ByBlock", 6)?;
            writes(c, &mut v, &m, "ByBlock", 10)?;
            slices(c, &mut v, &m, "ByBlock")
        }
        6 => {
            let v = bvh::build_to::<B>(c, &m)?;
            let mut b = BitBuffer::from(v.clone());
            reads(c, &b, "BitBuffer", 6)?;
            writes(c, &mut b, &m, "BitBuffer", 10)?;
            slices(c, &mut b, &m, "BitBuffer")?;
            ck!(b.into_inner() == v, "changed", "BitBuffer contents changed by refused requests");
            Ok(())
        }
        _ => {
            let g = c.rng.value();
            let j = JacobsonRank::new(bvh::build_to::<B>(c, &m)?);
            reads(c, &j, "JacobsonRank", 4)?;
            ranks(c, &j, n, nb, "JacobsonRank")?;
            let s = BinSearchSelect::new(j);
            reads(c, &s, "BinSearchSelect", 4)?;
            ranks(c, &s, n, nb, "BinSearchSelect(JacobsonRank)")?;
            let j = JacobsonRank::new(ByBlock::<B>::new(&m, g));
            ranks(c, &j, n, nb, "JacobsonRank(ByBlock)")?;
            let r = Rank9::new(bvh::build_to::<u64>(c, &m)?);
            reads(c, &r, "Rank9", 4)?;
            ranks(c, &r, n, 64, "Rank9")?;
            ranks(c, &r, n, 512, "Rank9")?;
            let r = BinSearchSelect::new(Rank9::new(ByBlock::<u64>::new(&m, g)));
            ranks(c, &r, n, 64, "BinSearchSelect(Rank9(ByBlock))")
        }
    }
}
fn kinds(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, kinds_t, c)
}

/// Refused element requests.
fn ints<B: Blk>(c: &mut Case, v: &mut IntVector<B>, xs: &[u64], k: u64, times: u64) -> R {
    let nb = B::NB;
    let len = xs.len() as u64;
    let bits = len * k;
    let who = format!("IntVector<{}> of {} {}-bit elements", B::NAME, len, k);
    for _ in 0..times {
        let x = c.rng.value() & mask(nb);
        // element index past the end
        let i = {
            let r = &mut c.rng;
            let y = match r.below(8) {
                0 | 1 => len,
                2 => len + r.below(nb),
                // index * k wraps to something inside
                3 | 4 => {
                    let q = ((1u128 << 64) / k as u128) as u64;
                    q.wrapping_add(r.below(4)).wrapping_add(r.below(len.max(1)))
                }
                5 => (r.range(1, 0xffff_fffe) << 32) + r.below(len.max(1)),
                6 => u64::MAX - r.below(4),
                _ => (bits + r.below(nb)) / k,
            };
            y.max(len)
        };
        refuse!(c, "get", v.get(i), "{}: get({})", who, i);
        let y = x & mask(k);
        refuse!(c, "set", v.set(i, B::of(y)), "{}: set({}, {})", who, i, y);
        // arbitrary field outside
        let w = c.rng.range(1, nb);
        let (o, j) = match c.rng.below(5) {
            0 => (bits.saturating_sub(w - 1), c.rng.below(3)),
            1 => (c.rng.below(bits + 1), bits / w + 1),
            2 => {
                // offset makes the sum wrap
                let j = c.rng.below(bits / w + 1);
                ((u64::MAX - c.rng.below(w)).wrapping_sub(j * w).wrapping_add(1), j)
            }
            3 => {
                let q = ((1u128 << 64) / w as u128) as u64;
                (c.rng.below(bits + 1), q.wrapping_add(c.rng.below(4)))
            }
            _ => (c.rng.value(), c.rng.value()),
        };
        let end = o as u128 + j as u128 * w as u128 + w as u128;
        if end > bits as u128 {
            refuse!(c, "get_random", v.get_random(o, w as usize, j), "{}: get_random({}, {}, {})", who, o, w, j);
            let y = x & mask(w);
            refuse!(c, "set_random", v.set_random(o, w as usize, j, B::of(y)), "{}: set_random({}, {}, {}, {})", who, o, w, j, y);
        }
        // values too wide for their element
        if k < nb {
            let wide = {
                let r = &mut c.rng;
                let y = match r.below(3) {
                    0 => 1u64 << k,
                    1 => mask(nb),
                    _ => x | 1 << r.range(k, nb - 1),
                };
                y & mask(nb)
            };
            refuse!(c, "push-wide", v.push(B::of(wide)), "{}: push({})", who, wide);
            if len > 0 {
                let i = c.rng.below(len);
                refuse!(c, "set-wide", v.set(i, B::of(wide)), "{}: set({}, {})", who, i, wide);
            }
            refuse!(c, "set-wide", v.set(i, B::of(wide)), "{}: set({}, {})", who, i, wide);
        }
        if w < nb && bits >= w {
            let wide = 1u64 << c.rng.range(w, nb - 1) | x & mask(w);
            let o = c.rng.below(bits - w + 1);
            refuse!(c, "set_random-wide", v.set_random(o, w as usize, 0, B::of(wide)), "{}: set_random({}, {}, 0, {})", who, o, w, wide);
        }
        ckeq!(v.len(), len, "changed", "{}: len after refused requests", who);
    }
    for (i, &x) in xs.iter().enumerate() {
        ckeq!(v.get(i as u64).u(), x, "changed", "{}: element {} after refused requests", who, i);
    }
    Ok(())
}

/// Histories with refused requests in between: later behaviour is unaffected.
fn bv_hist_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let mut h: Bvh<B> = Bvh::empty();
    let max = c.rng.pick(&[nb, 2 * nb, 6 * nb]);
    let o = bvh::random_ctor(c, nb, max);
    h.apply(c, &o)?;
    for _ in 0..c.rng.range(2, 20) {
        let n = h.m.len() as u64;
        let o = bvh::random_op(c, nb, n, max);
        h.apply(c, &o)?;
        if c.rng.coin() {
            let before = h.v.clone();
            reads(c, &h.v, "BitVector", 1)?;
            let m = h.m.clone();
            writes(c, &mut h.v, &m, "BitVector", 2)?;
            ck!(h.v == before, "changed", "BitVector<{}> changed by refused requests", B::NAME);
            c.cov("refusals inside histories");
        }
        h.quick_check(c)?;
    }
    c.nontrivial = true;
    c.mix(h.m.len() as u64 ^ nb << 32);
    let (l, f) = (h.m.len() as u64, h.ops);
    c.mix(field(&h.m, 0, 64.min(l)) ^ f);
    h.full_check(c)
}
fn bv_hist(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, bv_hist_t, c)
}
fn iv_hist_t<B: Blk>(c: &mut Case) -> R {
    let k = ivh::width(c, B::NB);
    let max = c.rng.pick(&[2u64, 8, 30]);
    let mut h: Ivh<B> = Ivh::new(k);
    let o = ivh::random_ctor(c, k, B::NB, max);
    h.apply(c, &o)?;
    for _ in 0..c.rng.range(2, 20) {
        let o = ivh::random_op(c, &h.m, max);
        h.apply(c, &o)?;
        if c.rng.coin() {
            let before = h.v.clone();
            let xs: Vec<u64> = (0..h.m.len()).map(|i| h.m.get(i)).collect();
            ints(c, &mut h.v, &xs, k, 1)?;
            ck!(h.v == before, "changed", "IntVector<{}> changed by refused requests", B::NAME);
            c.cov("refusals inside histories");
        }
        h.quick_check(c)?;
    }
    c.nontrivial = true;
    c.mix(k << 40 | h.m.bits.len() as u64);
    let l = h.m.bits.len() as u64;
    c.mix(field(&h.m.bits, 0, 64.min(l)) ^ B::NB);
    h.full_check(c)
}
fn iv_hist(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, iv_hist_t, c)
}

/// Words: bit fields of a block, as bit vectors, and rank; widths an integer vector cannot have.
fn prim_t<B: Blk + BitVec<Block = B>>(c: &mut Case) -> R {
    let nb = B::NB;
    let x = c.rng.value() & mask(nb);
    c.mix(x ^ nb << 57);
    c.nontrivial = true;
    let mut v = B::of(x);
    let m: Vec<bool> = (0..nb).map(|i| (x >> i) & 1 == 1).collect();
    reads(c, &v, B::NAME, 5)?;
    writes(c, &mut v, &m, B::NAME, 8)?;
    ranks(c, &v, nb, nb, B::NAME)?;
    slices(c, &mut v, &m, B::NAME)?;
    for _ in 0..6 {
        let i = past(c, nb, nb) as usize;
        if (i as u64) < nb {
            continue;
        }
        refuse!(c, "word-get_bit", BlockType::get_bit(v, i), "{}: get_bit({})", B::NAME, i);
        refuse!(c, "word-with_bit", v.with_bit(i, true), "{}: with_bit({})", B::NAME, i);
        let (s, k) = past_field(c, nb, nb);
        let s = s as usize;
        if outside(nb, s as u64, k) {
            refuse!(c, "word-get_bits", BlockType::get_bits(v, s, k), "{}: get_bits({}, {})", B::NAME, s, k);
            refuse!(c, "word-with_bits", v.with_bits(s, k, B::of(c.rng.next())), "{}: with_bits({}, {})", B::NAME, s, k);
        }
        let w = match c.rng.below(3) {
            0 => 0,
            1 => nb as usize + 1 + c.rng.below(4) as usize,
            _ => usize::MAX - c.rng.below(3) as usize,
        };
        // (a huge width with a non-zero capacity may abort instead: not here)
        let few = if w > 1000 { 0 } else { c.rng.below(2) };
        refuse!(c, "width", IntVector::<B>::new(w), "IntVector<{}>::new({})", B::NAME, w);
        refuse!(c, "width", IntVector::<B>::with_capacity(w, few), "IntVector<{}>::with_capacity({}, _)", B::NAME, w);
        refuse!(c, "width", IntVector::<B>::with_fill(w, few, B::of(0)), "IntVector<{}>::with_fill({}, _)", B::NAME, w);
        refuse!(c, "width", IntVector::<B>::block_with_capacity(w, few as usize), "IntVector<{}>::block_with_capacity({}, _)", B::NAME, w);
        refuse!(c, "width", IntVector::<B>::block_with_fill(w, few as usize, B::of(0)), "IntVector<{}>::block_with_fill({}, _)", B::NAME, w);
    }
    let b = Broadword(c.rng.value());
    ranks(c, &b, 64, 64, "Broadword")
}
fn prim(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, prim_t, c)
}

/// Structures longer than 2^32 bits.
fn far(c: &mut Case) -> R {
    let table: Vec<u64> = (0..c.rng.range(1, 9)).map(|_| c.rng.next()).collect();
    let n = if cfg!(target_pointer_width = "64") { c.rng.range(1 << 32, 1 << 40) } else { c.rng.range(1 << 32, 1 << 36) };
    let p = Periodic::new(table, n);
    c.mix(n);
    c.nontrivial = true;
    reads(c, &p, "user vector", 8)?;
    let s = c.rng.below(n);
    let e = c.rng.range(s, n);
    let t = BitSlice::new(&p, s..e);
    reads(c, &t, &format!("slice {}..{} of {}", s, e, n), 8)
}

/// Sizes no machine has: each in its own process, where it may panic or abort but not succeed.
pub fn probes() -> Vec<(u64, u64, u64, u64)> {
    // (block type, operation, width, size)
    let mut v = vec![];
    for b in 0..5u64 {
        let nb = [8u64, 16, 32, 64, usize::BITS as u64][b as usize];
        let mut sizes = vec![u64::MAX, u64::MAX - 1, u64::MAX - nb + 1, u64::MAX - nb, 1 << 63, (1 << 63) + 3, 1 << 62, 1 << 61, 1 << 60, (1 << 58) + 1];
        sizes.push((1u64 << (64 - nb.trailing_zeros())) + 1);
        sizes.push(u64::MAX / nb);
        let short = cfg!(target_pointer_width = "32");
        if short {
            // numbers of blocks that fit a usize, but not a vector
            sizes.extend([1 << 34, (1 << 34) + 5, (1 << 34) + nb, (1 << 35) - 1, nb << 31, (nb << 32) - nb, (nb << 32) - 1, nb << 32, (nb << 32) + 1]);
        }
        for op in 0..10 {
            let blocks = op % 2 == 1;
            for &s in &sizes {
                if !(short && blocks) {
                    v.push((b, op, 0, s));
                }
            }
            if short {
                for s in [1u64 << 31, (1 << 31) + 1, 3 << 30, (1 << 32) - 2, (1 << 32) - 1] {
                    if blocks {
                        v.push((b, op, 0, s));
                        for k in [1, 5, nb] {
                            v.push((b, op, k, s));
                        }
                    } else {
                        for k in [1, 2, 3, nb / 2 - 1, nb / 2 + 1, nb] {
                            v.push((b, op, k, (s * nb) / k + (s & 1)));
                        }
                    }
                }
                if blocks {
                    continue;
                }
            }
            for k in [1, 2, 3, nb / 2 - 1, nb / 2, nb / 2 + 1, nb - 1, nb] {
                for s in [((1u128 << 64) / k as u128) as u64, (((1u128 << 64) / k as u128) as u64).wrapping_add(1), u64::MAX, u64::MAX / k - 1, (1 << 61) + 1, (1 << 63) + 7, u64::MAX / nb + 2] {
                    if s > 1 << 56 {
                        v.push((b, op, k, s));
                    }
                }
            }
        }
    }
    v
}

fn probe_t<B: Blk>(op: u64, k: u64, size: u64) -> String {
    let base = [1u64, 0, 1];
    let us = size as usize;
    let r = if k == 0 {
        let mut v = BitVector::<B>::with_fill(13, true);
        let keep = v.clone();
        let r = attempt(|| match op {
            0 => BitVector::<B>::with_capacity(size).capacity(),
            1 => BitVector::<B>::block_with_capacity(us).block_capacity() as u64,
            2 => BitVector::<B>::with_fill(size, true).bit_len(),
            3 => BitVector::<B>::block_with_fill(us, B::of(1)).block_len() as u64,
            4 => {
                v.resize(size, true);
                v.bit_len()
            }
            5 => {
                v.block_resize(us, B::of(1));
                v.block_len() as u64
            }
            6 => {
                v.reserve(size);
                v.capacity()
            }
            7 => {
                v.block_reserve(us);
                v.block_capacity() as u64
            }
            8 => {
                v.reserve_exact(size);
                v.capacity()
            }
            _ => {
                v.block_reserve_exact(us);
                v.block_capacity() as u64
            }
        });
        if r.is_err() && v != keep {
            return format!("CHANGED {:?}", v.bit_len());
        }
        r
    } else {
        let mut v = IntVector::<B>::new(k as usize);
        for &x in &base {
            v.push(B::of(x));
        }
        let keep = v.clone();
        let ku = k as usize;
        let r = attempt(|| match op {
            0 => IntVector::<B>::with_capacity(ku, size).capacity(),
            1 => IntVector::<B>::block_with_capacity(ku, us).block_capacity() as u64,
            2 => IntVector::<B>::with_fill(ku, size, B::of(1)).len(),
            3 => IntVector::<B>::block_with_fill(ku, us, B::of(1)).block_len() as u64,
            4 => {
                v.resize(size, B::of(1));
                v.len()
            }
            5 => {
                v.block_resize(us, B::of(1));
                v.block_len() as u64
            }
            6 => {
                v.reserve(size);
                v.capacity()
            }
            7 => {
                v.block_reserve(us);
                v.block_capacity() as u64
            }
            8 => {
                v.reserve_exact(size);
                v.capacity()
            }
            _ => {
                v.block_reserve_exact(us);
                v.block_capacity() as u64
            }
        });
        if r.is_err() && v != keep {
            return format!("CHANGED {:?}", v.len());
        }
        r
    };
    match r {
        Err(_) => "REFUSED".into(),
        Ok(n) => format!("SUCCEEDED {}", n),
    }
}
/// Run in a child process: prints what became of one probe.
pub fn probe(i: usize) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    mon::alloc::set_budget(64 << 20);
    let (b, op, k, s) = probes()[i];
    let out = with_blk!(b, probe_t, op, k, s);
    println!("{}", out);
    std::process::exit(0)
}

fn sizes(c: &mut Case) -> R {
    let all = probes();
    let (b, op, k, s) = all[c.index as usize % all.len()];
    c.mix(c.index);
    c.nontrivial = true;
    let opname = ["with_capacity", "block_with_capacity", "with_fill", "block_with_fill", "resize", "block_resize", "reserve", "block_reserve", "reserve_exact", "block_reserve_exact"][op as usize];
    let ty = ["u8", "u16", "u32", "u64", "usize"][b as usize];
    let who = if k == 0 { format!("BitVector<{}> {}({})", ty, opname, s) } else { format!("IntVector<{}>[{} bits] {}({})", ty, k, opname, s) };
    c.t(|| who.clone());
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .env("RUST_BACKTRACE", "0")
        .arg("--probe")
        .arg((c.index as usize % all.len()).to_string())
        .output()
        .expect("start probe");
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    c.evals += 1;
    use std::os::unix::process::ExitStatusExt;
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) if text == "REFUSED" => c.cov("huge size: panic"),
        // the allocator said no and the process was aborted
        (None, Some(6)) => c.cov("huge size: abort"),
        (Some(0), _) => ck!(false, "huge-size", "{}: {}", who, text),
        (code, sig) => ck!(false, "huge-size-crash", "{}: died with code {:?} signal {:?}", who, code, sig),
    }
    Ok(())
}

/// A few far requests to one small structure, with cheap snapshots (sized for the 32-bit interpreter).
fn thin_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let n = c.rng.below(3 * nb) + 1;
    c.mix(n);
    c.nontrivial = true;
    let far = |c: &mut Case, n: u64, unit: u64| {
        // a 32-bit index, or a 32-bit block index, of the low part would be inside
        let s = c.rng.range(32, 38);
        match c.rng.below(3) {
            0 => ((c.rng.range(1, 60) << s) | c.rng.below(n)).max(n),
            1 => ((1u64 << 32) * unit) + c.rng.below(n),
            _ => past(c, n, unit),
        }
    };
    let mut v = BitVector::<B>::new();
    v.block_resize(ceil_div(n, nb) as usize, B::of(c.rng.next()));
    v.truncate(n);
    let keep = v.clone();
    let k = c.rng.range(1, nb);
    let xs = c.rng.range(1, 6);
    let mut w = IntVector::<B>::with_fill(k as usize, xs, B::of(c.rng.next() & mask(k)));
    let kept = w.clone();
    let j = JacobsonRank::new(v.clone());
    for _ in 0..6 {
        let p = far(c, n, nb);
        let len = c.rng.range(1, nb) as usize;
        let i = far(c, xs, c.index % 64 + 1);
        let (ip, flip) = (far(c, xs * k, nb), c.rng.coin());
        let x = B::of(c.rng.next() & mask(len as u64));
        let y = B::of(c.rng.next() & mask(k));
        c.mix(p ^ i);
        match c.rng.below(14) {
            0 => refuse!(c, "get_bit", v.get_bit(p), "bit {} of {} bits", p, n),
            1 => refuse!(c, "set_bit", v.set_bit(p, true), "setting bit {} of {} bits", p, n),
            2 => refuse!(c, "get_bits", v.get_bits(p, len), "{} bits at {} of {} bits", len, p, n),
            3 => refuse!(c, "set_bits", v.set_bits(p, len, x), "setting {} bits at {} of {} bits", len, p, n),
            4 => refuse!(c, "get_int", w.get(i), "element {} of {}", i, xs),
            5 | 6 => refuse!(c, "set_int", w.set(i, y), "setting element {} of {}", i, xs),
            7 => refuse!(c, "get_random", w.get_random(if flip { 0 } else { ip }, len, if flip { ip } else { 0 }), "{} bits at {} of {} bits", len, ip, xs * k),
            8 => refuse!(c, "set_random", w.set_random(if flip { 0 } else { ip }, len, if flip { ip } else { 0 }, x), "setting {} bits at {} of {} bits", len, ip, xs * k),
            9 => refuse!(c, "rank1", j.rank1(p), "rank at {} of {} bits", p, n),
            10 => refuse!(c, "slice", BitSlice::new(&v, 0..p.saturating_add(1)).bit_len(), "slice to {} of {} bits", p, n),
            11 => {
                let sl = BitSlice::new(&v, 1..n);
                refuse!(c, "slice get_bit", sl.get_bit(p - 1), "bit {} of a slice of {} bits", p - 1, n - 1)
            }
            12 => {
                let mut sl = BitSliceMut::new(&mut v, 1..n);
                refuse!(c, "slice set_bit", sl.set_bit(p - 1, true), "setting bit {} of a slice of {} bits", p - 1, n - 1)
            }
            _ => {
                let b = (p / nb).max(ceil_div(n, nb)) as usize;
                if b as u64 >= ceil_div(n, nb) {
                    refuse!(c, "get_block", v.get_block(b), "block {} of {} bits", b, n)
                }
            }
        }
        ck!(v == keep && v.bit_len() == n, "changed", "a refused request changed a vector of {} bits", n);
        ck!(w == kept && w.len() == xs, "changed", "a refused request changed an integer vector of {} elements", xs);
    }
    Ok(())
}
fn thin(c: &mut Case) -> R {
    let k = c.rng.next();
    with_blk!(k, thin_t, c)
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(4);
    if k < 2 {
        mon::with_user_blk!(k, bv_hist_t, c)
    } else {
        mon::with_user_blk!(k, iv_hist_t, c)
    }
}

pub fn workloads() -> Vec<Workload> {
    let mut v = vec![
        wl("kinds", 20_000, 1_000_000, kinds),
        wl("bv_hist", 6_000, 300_000, bv_hist),
        wl("iv_hist", 6_000, 300_000, iv_hist),
        wl("prim", 4_000, 200_000, prim),
        wl("far", 4_000, 200_000, far),
        wl("thin", 40_000, 2_000_000, thin),
        wl("user_blocks", 1_000, 50_000, user_blocks),
    ];
    if !cfg!(miri) {
        v.push(mon::wl_fixed("sizes", probes().len() as u64, sizes));
    }
    v
}
