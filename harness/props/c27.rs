//! C27: rank, select, buffer and adapter layers are transparent.
use mon::stores::{ByBit, ByBlock, Formula, FormulaBits, Periodic};
use mon::{attempt, bits, bvh, ceil_div, ck, ckeq, field, ivh, mask, must, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use succinct::bit_vec::BitSlice;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitRead};
use succinct::{
    impl_bit_rank_support_adapter, impl_bit_vec_adapter, impl_rank_support_adapter, impl_select0_support_adapter,
    impl_select1_support_adapter, impl_select_support_adapter, BitVec, BitVecMut, BitVecPush, BitVector,
};

/// User types built with the adapter macros.
struct UBits<V> {
    part: V,
}
impl<V: BitVec> BitVec for UBits<V> {
    impl_bit_vec_adapter!(V::Block, part);
}
struct URank<T> {
    ranks: T,
    _other: u8,
}
impl<T: BitVec> BitVec for URank<T> {
    impl_bit_vec_adapter!(T::Block, ranks);
}
impl<T: RankSupport> RankSupport for URank<T> {
    impl_rank_support_adapter!(T::Over, ranks);
}
impl<T: BitRankSupport> BitRankSupport for URank<T> {
    impl_bit_rank_support_adapter!(ranks);
}
struct USelect<T> {
    sel: T,
}
impl<T: BitVec> BitVec for USelect<T> {
    impl_bit_vec_adapter!(T::Block, sel);
}
impl<T: RankSupport> RankSupport for USelect<T> {
    impl_rank_support_adapter!(T::Over, sel);
}
impl<T: BitRankSupport> BitRankSupport for USelect<T> {
    impl_bit_rank_support_adapter!(sel);
}
impl<T: SelectSupport> SelectSupport for USelect<T> {
    impl_select_support_adapter!(T::Over, sel);
}
impl<T: Select1Support> Select1Support for USelect<T> {
    impl_select1_support_adapter!(sel);
}
impl<T: Select0Support> Select0Support for USelect<T> {
    impl_select0_support_adapter!(sel);
}

/// The bits the model says, at every granularity, whatever lies beyond the last.
fn shows<V: BitVec>(c: &mut Case, v: &V, m: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    c.cov("layers compared bit by bit");
    bits::check_all(c, v, m, who, false, 12)
}
/// Wrapped and wrapper answer alike (values, and refusals).
fn like<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>, w: &dyn BitVec<Block = B>, who: &str) -> R {
    let nb = B::NB;
    let n = v.bit_len();
    ckeq!(w.bit_len(), n, "bit_len", "{}: bit_len", who);
    ckeq!(w.block_len(), v.block_len(), "block_len", "{}: block_len", who);
    for _ in 0..24 {
        let p = if c.rng.chance(1, 8) { c.rng.value() } else { c.rng.below(n + 2) };
        c.evals += 3;
        ckeq!(attempt(|| w.get_bit(p)).ok(), attempt(|| v.get_bit(p)).ok(), "get_bit", "{}: get_bit({}) of {}", who, p, n);
        let k = c.rng.below(nb + 1);
        ckeq!(attempt(|| w.get_bits(p, k as usize).u()).ok(), attempt(|| v.get_bits(p, k as usize).u()).ok(), "get_bits", "{}: get_bits({}, {}) of {}", who, p, k, n);
        let b = c.rng.below(ceil_div(n, nb) + 1);
        let live = mask(n.saturating_sub(b * nb).min(nb));
        if b < ceil_div(n, nb) {
            ckeq!(attempt(|| w.get_block(b as usize).u() & live).ok(), attempt(|| v.get_block(b as usize).u() & live).ok(), "get_block", "{}: get_block({}) of {} bits", who, b, n);
        } else {
            ck!(attempt(|| w.get_block(b as usize)).is_err(), "get_block", "{}: get_block({}) of {} bits was not refused", who, b, n);
        }
    }
    Ok(())
}
struct Facts {
    pre: Vec<u64>,
    ones: Vec<u64>,
    zeros: Vec<u64>,
}
fn facts(m: &[bool]) -> Facts {
    let mut f = Facts { pre: vec![], ones: vec![], zeros: vec![] };
    let mut k = 0;
    for (i, &b) in m.iter().enumerate() {
        k += b as u64;
        f.pre.push(k);
        if b {
            f.ones.push(i as u64)
        } else {
            f.zeros.push(i as u64)
        }
    }
    f
}
fn ranks(c: &mut Case, r: &dyn BitRankSupport, f: &Facts, who: &str) -> R {
    let n = f.pre.len() as u64;
    ckeq!(r.limit(), n, "limit", "{}: limit", who);
    for i in 0..30.min(n) {
        let p = if n <= 30 { i } else { c.rng.below(n) };
        let one = f.pre[p as usize];
        c.evals += 4;
        ckeq!(must("rank-panic", &|| format!("{}: rank1({})", who, p), || r.rank1(p))?, one, "rank1", "{}: rank1({}) of {}", who, p, n);
        ckeq!(r.rank0(p), p + 1 - one, "rank0", "{}: rank0({}) of {}", who, p, n);
        ckeq!(r.rank(p, true), one, "rank", "{}: rank({}, true) of {}", who, p, n);
        ckeq!(r.rank(p, false), p + 1 - one, "rank", "{}: rank({}, false) of {}", who, p, n);
    }
    for p in [n, n + 1, n + 64, u64::MAX] {
        c.evals += 2;
        ck!(attempt(|| r.rank1(p)).is_err(), "rank-refusal", "{}: rank1({}) of {} answered", who, p, n);
        ck!(attempt(|| r.rank(p, true)).is_err(), "rank-refusal", "{}: rank({}, true) of {} answered", who, p, n);
    }
    c.cov("layers compared by rank");
    Ok(())
}
trait Sel: Select0Support + Select1Support + SelectSupport<Over = bool> {}
impl<T: Select0Support + Select1Support + SelectSupport<Over = bool>> Sel for T {}
fn selects(c: &mut Case, s: &dyn Sel, f: &Facts, who: &str) -> R {
    let t = f.ones.len() as u64;
    let z = f.zeros.len() as u64;
    let mut ks = vec![0, 1, t, z, t + 1, z + 1, t.saturating_sub(1), z.saturating_sub(1), u64::MAX];
    for _ in 0..12 {
        ks.push(c.rng.below(t + 2));
        ks.push(c.rng.below(z + 2));
    }
    for k in ks {
        let one = f.ones.get(k as usize).copied().filter(|_| k < t);
        let zero = f.zeros.get(k as usize).copied().filter(|_| k < z);
        c.evals += 4;
        ckeq!(must("select-panic", &|| format!("{}: select1({})", who, k), || s.select1(k))?, one, "select1", "{}: select1({}) of {} ones", who, k, t);
        ckeq!(s.select0(k), zero, "select0", "{}: select0({}) of {} zeros", who, k, z);
        ckeq!(s.select(k, true), one, "select", "{}: select({}, true)", who, k);
        ckeq!(s.select(k, false), zero, "select", "{}: select({}, false)", who, k);
    }
    c.cov("layers compared by select");
    Ok(())
}

/// Every stack of layers over one store that keeps its contents.
fn stack<V: BitVec + Clone>(c: &mut Case, v: V, m: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    let f = facts(m);
    let n = m.len();
    let w = |s: &str| format!("{} over {} of {} bits", s, who, n);
    // one layer each
    let u = UBits { part: v.clone() };
    shows(c, &u, m, &w("adapter"))?;
    like(c, &v, &u, &w("adapter"))?;
    let b = BitBuffer::from(v.clone());
    shows(c, &b, m, &w("BitBuffer"))?;
    like(c, &v, &b, &w("BitBuffer"))?;
    like(c, &v, b.inner(), &w("BitBuffer::inner"))?;
    like(c, &v, &b.into_inner(), &w("BitBuffer::into_inner"))?;
    let b = BitBuffer::append(v.clone());
    shows(c, &b, m, &w("BitBuffer::append"))?;
    like(c, &v, &b.into_inner(), &w("BitBuffer::append, into_inner"))?;
    let j = must("build-panic", &|| w("JacobsonRank"), || JacobsonRank::new(v.clone()))?;
    shows(c, &j, m, &w("JacobsonRank"))?;
    like(c, &v, &j, &w("JacobsonRank"))?;
    ranks(c, &j, &f, &w("JacobsonRank"))?;
    like(c, &v, j.inner(), &w("JacobsonRank::inner"))?;
    // more
    let s = BinSearchSelect::new(j.clone());
    shows(c, &s, m, &w("BinSearchSelect(JacobsonRank)"))?;
    like(c, &j, &s, &w("BinSearchSelect(JacobsonRank)"))?;
    ranks(c, &s, &f, &w("BinSearchSelect(JacobsonRank)"))?;
    selects(c, &s, &f, &w("BinSearchSelect(JacobsonRank)"))?;
    ranks(c, s.inner(), &f, &w("BinSearchSelect::inner"))?;
    shows(c, s.inner().inner(), m, &w("BinSearchSelect::inner, inner"))?;
    let u = USelect { sel: s };
    shows(c, &u, m, &w("adapter(BinSearchSelect(JacobsonRank))"))?;
    ranks(c, &u, &f, &w("adapter(BinSearchSelect(JacobsonRank))"))?;
    selects(c, &u, &f, &w("adapter(BinSearchSelect(JacobsonRank))"))?;
    let back = u.sel.into_inner();
    ranks(c, &back, &f, &w("BinSearchSelect::into_inner"))?;
    like(c, &j, &back, &w("BinSearchSelect::into_inner"))?;
    let back = back.into_inner();
    shows(c, &back, m, &w("taken back"))?;
    like(c, &v, &back, &w("taken back"))?;
    let u = URank { ranks: j, _other: 3 };
    shows(c, &u, m, &w("adapter(JacobsonRank)"))?;
    ranks(c, &u, &f, &w("adapter(JacobsonRank)"))?;
    let s = BinSearchSelect::new(USelect { sel: BinSearchSelect::new(u) });
    ranks(c, &s, &f, &w("select over adapter over select over adapter"))?;
    selects(c, &s, &f, &w("select over adapter over select over adapter"))?;
    shows(c, &s, m, &w("select over adapter over select over adapter"))?;
    // layers over layers
    let j = JacobsonRank::new(BitBuffer::append(UBits { part: v.clone() }));
    ranks(c, &j, &f, &w("JacobsonRank(BitBuffer(adapter))"))?;
    shows(c, &j, m, &w("JacobsonRank(BitBuffer(adapter))"))?;
    let j = JacobsonRank::new(JacobsonRank::new(v.clone()));
    ranks(c, &j, &f, &w("JacobsonRank(JacobsonRank)"))?;
    ranks(c, j.inner(), &f, &w("inner of JacobsonRank(JacobsonRank)"))?;
    let mut b = BitBuffer::from(JacobsonRank::new(v.clone()));
    for (i, &x) in m.iter().enumerate().take(200) {
        ckeq!(b.read_bit().map_err(|e| e.to_string()), Ok(Some(x)), "read_bit", "{}: bit {} read", w("BitBuffer(JacobsonRank)"), i);
    }
    ranks(c, b.inner(), &f, &w("inner of BitBuffer(JacobsonRank)"))?;
    let j = b.into_inner();
    ranks(c, &j, &f, &w("JacobsonRank out of a BitBuffer"))?;
    let s = BitSlice::new(&j, ..);
    shows(c, &s, m, &w("BitSlice(JacobsonRank)"))?;
    Ok(())
}
/// The same for words of 64 bits and rank9.
fn stack9<V: BitVec<Block = u64> + Clone>(c: &mut Case, v: V, m: &[bool], who: &str) -> R {
    let f = facts(m);
    let w = |s: &str| format!("{} over {} of {} bits", s, who, m.len());
    let r = must("build-panic", &|| w("Rank9"), || Rank9::new(v.clone()))?;
    shows(c, &r, m, &w("Rank9"))?;
    like(c, &v, &r, &w("Rank9"))?;
    ranks(c, &r, &f, &w("Rank9"))?;
    like(c, &v, r.inner(), &w("Rank9::inner"))?;
    let s = BinSearchSelect::new(r.clone());
    shows(c, &s, m, &w("BinSearchSelect(Rank9)"))?;
    ranks(c, &s, &f, &w("BinSearchSelect(Rank9)"))?;
    selects(c, &s, &f, &w("BinSearchSelect(Rank9)"))?;
    let u = USelect { sel: s };
    selects(c, &u, &f, &w("adapter(BinSearchSelect(Rank9))"))?;
    ranks(c, &u, &f, &w("adapter(BinSearchSelect(Rank9))"))?;
    let r2 = u.sel.into_inner();
    ranks(c, &r2, &f, &w("BinSearchSelect::into_inner"))?;
    shows(c, &r2.into_inner(), m, &w("Rank9 taken back"))?;
    let j = JacobsonRank::new(r);
    ranks(c, &j, &f, &w("JacobsonRank(Rank9)"))?;
    ranks(c, j.inner(), &f, &w("inner of JacobsonRank(Rank9)"))?;
    let r = Rank9::new(BitBuffer::append(UBits { part: j }));
    shows(c, &r, m, &w("Rank9(BitBuffer(adapter(JacobsonRank(Rank9))))"))?;
    ranks(c, &r, &f, &w("Rank9(BitBuffer(adapter(JacobsonRank(Rank9))))"))?;
    let back = r.into_inner().into_inner().part.into_inner().into_inner();
    shows(c, &back, m, &w("taken back from four layers"))?;
    like(c, &v, &back, &w("taken back from four layers"))
}
fn layers_t<B: Blk + BitVec<Block = B>>(c: &mut Case, m: &[bool], kind: u64) -> R {
    let garbage = c.rng.value() | c.rng.next();
    match kind {
        0 => {
            let v: BitVector<B> = bvh::build_to(c, m)?;
            let j = JacobsonRank::new(v.clone()).into_inner();
            ck!(j == v, "into_inner", "BitVector<{}> taken back from JacobsonRank is not equal", B::NAME);
            ck!(BinSearchSelect::new(JacobsonRank::new(v.clone())).into_inner().into_inner() == v, "into_inner", "BitVector<{}> taken back from BinSearchSelect is not equal", B::NAME);
            ck!(BitBuffer::from(v.clone()).into_inner() == v && BitBuffer::append(v.clone()).into_inner() == v, "into_inner", "BitVector<{}> taken back from BitBuffer is not equal", B::NAME);
            // it is the same vector, not a copy of it
            let mut w: BitVector<B> = BitVector::with_capacity(m.len() as u64 + 1000);
            for &b in m {
                w.push_bit(b)
            }
            let cap = w.block_capacity();
            let w = BitBuffer::append(JacobsonRank::new(w)).into_inner().into_inner();
            c.evals += 5;
            ckeq!(w.block_capacity(), cap, "into_inner", "block capacity of a BitVector<{}> after wrapping and taking back", B::NAME);
            stack(c, v, m, &format!("BitVector<{}>", B::NAME))
        }
        1 => {
            let v = ByBlock::<B>::new(m, garbage);
            let blocks: Vec<u64> = v.blocks.iter().map(|b| b.u()).collect();
            let w = JacobsonRank::new(BitBuffer::from(v.clone())).into_inner().into_inner();
            c.evals += 1;
            ckeq!(w.blocks.iter().map(|b| b.u()).collect::<Vec<_>>(), blocks, "into_inner", "blocks of a user store after wrapping and taking back");
            stack(c, v, m, &format!("user type by block<{}>", B::NAME))
        }
        2 => stack(c, ByBit::<B>::new(m), m, &format!("user type by bit<{}>", B::NAME)),
        3 => {
            let pre = c.rng.below(70);
            let post = c.rng.below(70);
            let mut b: Vec<bool> = (0..pre).map(|_| c.rng.coin()).collect();
            b.extend_from_slice(m);
            b.extend((0..post).map(|_| c.rng.coin()));
            let v: BitVector<B> = bvh::build_to(c, &b)?;
            stack(c, BitSlice::new(&v, pre..pre + m.len() as u64), m, &format!("BitSlice(BitVector<{}>)", B::NAME))
        }
        4 => {
            let k = ivh::width(c, B::NB);
            let m = &m[..m.len() / k as usize * k as usize];
            let vals: Vec<u64> = (0..m.len() as u64 / k).map(|i| field(m, i * k, k)).collect();
            let v = ivh::build_to::<B>(c, k, &vals)?;
            ck!(JacobsonRank::new(v.clone()).into_inner() == v, "into_inner", "IntVector<{}> taken back from JacobsonRank is not equal", B::NAME);
            stack(c, v, m, &format!("IntVector<{}>", B::NAME))
        }
        5 => {
            let m = &m[..m.len() / B::NB as usize * B::NB as usize];
            let v: Vec<B> = m.chunks(B::NB as usize).map(|x| B::of(field(x, 0, B::NB))).collect();
            stack(c, v.clone(), m, &format!("Vec<{}>", B::NAME))?;
            stack(c, &v[..], m, &format!("&[{}]", B::NAME))
        }
        _ => {
            let x = c.rng.value();
            let p = B::of(x);
            let m: Vec<bool> = (0..B::NB).map(|i| (p.u() >> i) & 1 == 1).collect();
            stack(c, p, &m, B::NAME)?;
            stack(c, m.clone(), &m, "Vec<bool>")
        }
    }
}
fn layers(c: &mut Case) -> R {
    let n = match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => c.rng.below(200),
        _ => c.rng.below(1500),
    };
    layers_n(c, n)
}
/// Long vectors, around every power of two up to 2^17.
fn long(c: &mut Case) -> R {
    let e = c.rng.range(11, 17);
    let n = (1u64 << e) + c.rng.below(5) - 2 + if c.rng.coin() { c.rng.below(1 << e) } else { 0 };
    layers_n(c, n)
}
fn layers_n(c: &mut Case, n: u64) -> R {
    let m = bits::pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = true;
    let (t, kind) = (c.rng.below(5), c.rng.below(7));
    c.mix(t * 7 + kind);
    c.t(|| format!("{} bits, block type {}, store {}", n, t, kind));
    with_blk!(t, layers_t, c, &m, kind)?;
    if c.rng.chance(1, 2) {
        let g = c.rng.next();
        match c.rng.below(4) {
            0 => stack9(c, ByBlock::<u64>::new(&m, g), &m, "user type by block")?,
            1 => stack9(c, ByBit::<u64>::new(&m), &m, "user type by bit")?,
            2 => {
                let v: BitVector<u64> = bvh::build_to(c, &m)?;
                stack9(c, BitSlice::new(&v, ..), &m, "BitSlice")?
            }
            _ => {
                let v: BitVector<u64> = bvh::build_to(c, &m)?;
                stack9(c, v, &m, "BitVector<u64>")?
            }
        }
    }
    Ok(())
}

/// Writes through a buffer are writes to what it wraps.
fn writes_t<B: Blk>(c: &mut Case, m: &[bool]) -> R {
    let mut m = m.to_vec();
    let v: BitVector<B> = bvh::build_to(c, &m)?;
    let n = m.len() as u64;
    let mut at = if c.rng.coin() { 0 } else { n };
    let mut b = if at == 0 { BitBuffer::from(v) } else { BitBuffer::append(v) };
    for _ in 0..c.rng.range(1, 30) {
        // wherever the stream position is
        match c.rng.below(4) {
            0 => {
                at = if c.rng.coin() { c.rng.below(n + 1) } else { n - c.rng.below(n.min(B::NB) + 1) };
                must("seek", &|| format!("seek({}) of {}", at, n), || b.seek(at).map_err(|e| e.to_string()))?.ok();
                c.cov("seeks between writes");
            }
            1 if at < n => {
                ckeq!(b.read_bit().map_err(|e| e.to_string()), Ok(Some(m[at as usize])), "read_bit", "bit {} of {} read between writes", at, n);
                at += 1;
                c.cov("reads between writes");
            }
            _ => {}
        }
        c.t(|| format!("position {}", at));
        bits::random_write(c, &mut b, &mut m, "BitBuffer")?;
        shows_some(c, b.inner(), &m, "inner of the written BitBuffer")?;
        shows_some(c, &b, &m, "the written BitBuffer")?;
        ckeq!(b.position(), at, "position", "position after writing through the vector interface");
    }
    shows(c, &b, &m, "written BitBuffer")?;
    let v = b.into_inner();
    shows(c, &v, &m, "vector out of the written BitBuffer")
}
fn shows_some<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>, m: &[bool], who: &str) -> R {
    let n = m.len() as u64;
    ckeq!(v.bit_len(), n, "bit_len", "{}: length", who);
    for _ in 0..12 {
        if n > 0 {
            let p = c.rng.below(n);
            c.evals += 1;
            ckeq!(v.get_bit(p), m[p as usize], "get_bit", "{}: bit {}", who, p);
        }
    }
    Ok(())
}
fn writes(c: &mut Case) -> R {
    let n = c.rng.below(300);
    let m = bits::pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = true;
    let t = c.rng.below(5);
    c.mix(t);
    with_blk!(t, writes_t, c, &m)
}

/// Rank over any symbols: adapters and select keep every answer.
fn symbols(c: &mut Case) -> R {
    let sym = c.rng.range(1, 6);
    let table: Vec<u8> = (0..c.rng.range(1, 30)).map(|_| c.rng.below(sym) as u8).collect();
    let limit = if c.rng.coin() { c.rng.value() } else { c.rng.below(500) };
    let f = Formula { skip: c.rng.below(limit / 2 + 1), first: c.rng.below(sym) as u8, table, limit };
    c.mix(limit);
    c.mix(f.skip);
    for &x in &f.table {
        c.mix(x as u64);
    }
    c.nontrivial = true;
    c.t(|| format!("{:?}", f));
    let a = URank { ranks: f.clone(), _other: 0 };
    let s = USelect { sel: BinSearchSelect::new(URank { ranks: f.clone(), _other: 1 }) };
    ckeq!(a.limit(), limit, "limit", "adapter over a user rank: limit");
    ckeq!(s.limit(), limit, "limit", "adapter over select over a user rank: limit");
    for _ in 0..20 {
        let x = c.rng.below(sym + 1) as u8;
        if limit > 0 {
            let p = if c.rng.coin() { c.rng.below(limit) } else { limit - 1 - c.rng.below(limit.min(50)) };
            let want = f.before(p, x) + (f.at(p) == x) as u64;
            c.evals += 2;
            ckeq!(a.rank(p, x), want, "rank", "adapter over a user rank of {}: rank({}, {})", limit, p, x);
            ckeq!(s.rank(p, x), want, "rank", "adapter over select over a user rank of {}: rank({}, {})", limit, p, x);
        }
        let t = f.total(x);
        let k = match c.rng.below(4) {
            0 => t,
            1 => t.wrapping_sub(1),
            2 => c.rng.value(),
            _ => c.rng.below(t.saturating_add(1).max(1)),
        };
        let got = must("select-panic", &|| format!("select({}, {}) of {:?}", k, x, f), || s.select(k, x))?;
        let direct = BinSearchSelect::new(f.clone()).select(k, x);
        c.evals += 2;
        ckeq!(got, direct, "select", "select({}, {}) through adapters and directly, {} of {}", k, x, t, limit);
        match got {
            None => ck!(k >= t, "select", "select({}, {}) reports none of {}", k, x, t),
            Some(p) => ck!(p < limit && f.at(p) == x && f.before(p, x) == k, "select", "select({}, {}) is {}, of {} in {}", k, x, p, t, limit),
        }
    }
    let b = FormulaBits(f.clone());
    let u = URank { ranks: b.clone(), _other: 0 };
    for _ in 0..10 {
        if limit > 0 {
            let p = c.rng.below(limit);
            c.evals += 2;
            ckeq!(u.rank1(p), b.rank1(p), "rank1", "adapter over a user bit rank: rank1({})", p);
            ckeq!(u.rank0(p), b.rank0(p), "rank0", "adapter over a user bit rank: rank0({})", p);
        }
    }
    Ok(())
}

/// Bit vectors far longer than memory, through every layer.
fn endless_t<B: Blk>(c: &mut Case) -> R {
    let per = c.rng.range(1, 9);
    let n = (c.rng.value() >> 1).max(1);
    // a block index is a usize
    let n = if usize::BITS < 64 { (n % (B::NB * u32::MAX as u64)).max(1) } else { n };
    let table: Vec<B> = (0..per).map(|_| B::of(c.rng.next())).collect();
    let v = Periodic::new(table, n);
    c.mix(n);
    let u = UBits { part: BitBuffer::append(UBits { part: v.clone() }) };
    ckeq!(u.bit_len(), n, "bit_len", "buffer between adapters over {} bits", n);
    ckeq!(u.block_len() as u64, ceil_div(n, B::NB), "block_len", "buffer between adapters over {} bits", n);
    ckeq!(u.part.position(), n, "position", "BitBuffer::append over {} bits", n);
    for _ in 0..30 {
        let p = c.rng.below(n);
        c.evals += 3;
        ckeq!(u.get_bit(p), v.bit(p), "get_bit", "buffer between adapters over {} bits: bit {}", n, p);
        let b = p / B::NB;
        let live = mask((n - b * B::NB).min(B::NB));
        ckeq!(u.get_block(b as usize).u() & live, v.get_block(b as usize).u() & live, "get_block", "buffer between adapters over {} bits: block {}", n, b);
        let k = c.rng.below(B::NB.min(n - p) + 1);
        let want = (0..k).fold(0u64, |a, i| a | (v.bit(p + i) as u64) << i);
        ckeq!(u.get_bits(p, k as usize).u(), want, "get_bits", "buffer between adapters over {} bits: get_bits({}, {})", n, p, k);
    }
    Ok(())
}
fn endless(c: &mut Case) -> R {
    let t = c.rng.below(5);
    c.mix(t);
    c.nontrivial = true;
    with_blk!(t, endless_t, c)
}

/// Broadword and primitive words under select.
fn words(c: &mut Case) -> R {
    let x = c.rng.value();
    c.mix(x);
    c.nontrivial = true;
    let m: Vec<bool> = (0..64).map(|i| (x >> i) & 1 == 1).collect();
    let f = facts(&m);
    let s = BinSearchSelect::new(Broadword(x));
    ranks(c, &s, &f, "BinSearchSelect(Broadword)")?;
    selects(c, &s, &f, "BinSearchSelect(Broadword)")?;
    ckeq!(s.into_inner().0, x, "into_inner", "Broadword taken back");
    let s = USelect { sel: BinSearchSelect::new(URank { ranks: x, _other: 0 }) };
    ranks(c, &s, &f, "adapter(BinSearchSelect(adapter(u64)))")?;
    selects(c, &s, &f, "adapter(BinSearchSelect(adapter(u64)))")?;
    ckeq!(s.sel.into_inner().ranks, x, "into_inner", "u64 taken back");
    Ok(())
}
/// Every short vector.
fn short(c: &mut Case) -> R {
    let n = c.index % 8;
    let t = c.index / 8;
    c.mix(c.index);
    c.nontrivial = true;
    for x in 0..1u64 << n {
        let m: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
        let kind = c.rng.below(4);
        with_blk!(t, layers_t, c, &m, kind)?;
        if t == 0 {
            stack9(c, ByBlock::<u64>::new(&m, !0), &m, "user type by block")?;
        }
    }
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("layers", 3_000, 100_000, layers),
        wl_fixed("short", 40, short),
        wl("long", 300, 10_000, long),
        wl("writes", 3_000, 100_000, writes),
        wl("symbols", 5_000, 200_000, symbols),
        wl("endless", 3_000, 100_000, endless),
        wl("words", 2_000, 100_000, words),
    ]
}
