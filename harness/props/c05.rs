//! C05: a bit slice is a faithful window onto its base.
use mon::stores::{ByBit, ByBlock};
use mon::{bvh, ceil_div, check_all, ck, ckeq, field, fp_bits, mask, must, pattern, random_write, with_blk, wl, wl_fixed, Blk, Case, Workload, R};
use std::ops::Range;
use succinct::bit_vec::{BitSlice, BitSliceMut, IntoRange};
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecMut, BitVector, IntVec, IntVecMut, IntVector};

#[derive(Clone, Copy, Debug)]
enum Rg {
    Full,
    To(u64),
    From(u64),
    Both(u64, u64),
}
impl Rg {
    fn of(self, n: u64) -> Range<u64> {
        match self {
            Rg::Full => 0..n,
            Rg::To(e) => 0..e,
            Rg::From(s) => s..n,
            Rg::Both(s, e) => s..e,
        }
    }
}
fn rg(c: &mut Case, n: u64, nb: u64) -> Rg {
    let r = &mut c.rng;
    let near = |r: &mut mon::Rng| match r.below(3) {
        0 => (r.below(n / nb + 1) * nb + r.below(3)).saturating_sub(1).min(n),
        1 => n - r.below(n.min(3) + 1),
        _ => r.below(n + 1),
    };
    match r.below(8) {
        0 => Rg::Full,
        1 => Rg::To(near(r)),
        2 => Rg::From(near(r)),
        3 => {
            let s = near(r);
            Rg::Both(s, s)
        }
        _ => {
            let (a, b) = (near(r), near(r));
            Rg::Both(a.min(b), a.max(b))
        }
    }
}
macro_rules! by_range {
    ($g:expr, $r:ident => $e:expr) => {
        match $g {
            Rg::Full => {
                let $r = ..;
                $e
            }
            Rg::To(e) => {
                let $r = ..e;
                $e
            }
            Rg::From(s) => {
                let $r = s..;
                $e
            }
            Rg::Both(s, e) => {
                let $r = s..e;
                $e
            }
        }
    };
}

fn sub(m: &[bool], r: &Range<u64>) -> Vec<bool> {
    m[r.start as usize..r.end as usize].to_vec()
}

/// Whole blocks of a slice; a partial last block shows its bits and the rest as zero.
fn slice_blocks<V: BitVec>(c: &mut Case, v: &V, m: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    check_all(c, v, m, who, false, 12)
}

fn immut<V: BitVec + Clone>(c: &mut Case, base: &V, m: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let g = rg(c, m.len() as u64, nb);
    let r = g.of(m.len() as u64);
    c.t(|| format!("BitSlice::new({} of {} bits, {:?})", who, m.len(), g));
    let s = must("slice-panic", &|| format!("BitSlice::new({}, {:?})", who, g), || by_range!(g, x => BitSlice::new(base, x)))?;
    let mut w = sub(m, &r);
    slice_blocks(c, &s, &w, &format!("BitSlice({})[{:?}]", who, r))?;
    // a copy shows the same
    let t = s.clone();
    slice_blocks(c, &t, &w, &format!("copied BitSlice({})[{:?}]", who, r))?;
    // nested by subslicing
    let mut cur = s;
    let mut path = format!("{}[{:?}]", who, r);
    for _ in 0..c.rng.below(4) {
        let g = rg(c, w.len() as u64, nb);
        let r = g.of(w.len() as u64);
        path = format!("{}[{:?}]", path, r);
        cur = must("slice-panic", &|| format!("slice of {} {:?}", path, g), || by_range!(g, x => cur.slice(x)))?;
        w = sub(&w, &r);
        slice_blocks(c, &cur, &w, &path)?;
        c.cov("nested slices");
    }
    // nested by slicing a slice as a base
    let g = rg(c, w.len() as u64, nb);
    let r = g.of(w.len() as u64);
    let again = must("slice-panic", &|| format!("BitSlice::new of {} {:?}", path, g), || by_range!(g, x => BitSlice::new(&cur, x)))?;
    let w2 = sub(&w, &r);
    slice_blocks(c, &again, &w2, &format!("BitSlice::new({})[{:?}]", path, r))?;
    let g = rg(c, w2.len() as u64, nb);
    let r = g.of(w2.len() as u64);
    let deeper = by_range!(g, x => again.slice(x));
    slice_blocks(c, &deeper, &sub(&w2, &r), &format!("BitSlice::new({})[..][{:?}]", path, r))
}

fn mutable<V: BitVecMut>(c: &mut Case, base: &mut V, m: &mut Vec<bool>, who: &str) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    for _ in 0..3 {
        let g = rg(c, m.len() as u64, nb);
        let r = g.of(m.len() as u64);
        c.t(|| format!("BitSliceMut::new({} of {} bits, {:?})", who, m.len(), g));
        let mut w = sub(m, &r);
        {
            let mut s = must("slice-panic", &|| format!("BitSliceMut::new({}, {:?})", who, g), || by_range!(g, x => BitSliceMut::new(&mut *base, x)))?;
            let name = format!("BitSliceMut({})[{:?}]", who, r);
            check_all(c, &s, &w, &name, false, 8)?;
            for _ in 0..c.rng.range(1, 5) {
                random_write(c, &mut s, &mut w, &name)?;
                mon::check_blocks(c, &s, &w, &name, false)?;
            }
            // an immutable view of the mutable slice
            let g2 = rg(c, w.len() as u64, nb);
            let r2 = g2.of(w.len() as u64);
            {
                let t = by_range!(g2, x => s.slice(x));
                check_all(c, &t, &sub(&w, &r2), &format!("{}.slice({:?})", name, r2), false, 8)?;
            }
            // a nested mutable slice, and one made with the slice as its base
            let g3 = rg(c, w.len() as u64, nb);
            let r3 = g3.of(w.len() as u64);
            let mut inner = sub(&w, &r3);
            {
                let mut t = by_range!(g3, x => s.slice_mut(x));
                let nm = format!("{}.slice_mut({:?})", name, r3);
                check_all(c, &t, &inner, &nm, false, 8)?;
                for _ in 0..c.rng.range(1, 4) {
                    random_write(c, &mut t, &mut inner, &nm)?;
                }
                check_all(c, &t, &inner, &nm, false, 8)?;
                let g4 = rg(c, inner.len() as u64, nb);
                let r4 = g4.of(inner.len() as u64);
                let mut deep = sub(&inner, &r4);
                let mut u = by_range!(g4, x => BitSliceMut::new(&mut t, x));
                let nm = format!("BitSliceMut::new({})[{:?}]", nm, r4);
                for _ in 0..c.rng.range(1, 3) {
                    random_write(c, &mut u, &mut deep, &nm)?;
                }
                check_all(c, &u, &deep, &nm, false, 8)?;
                inner[r4.start as usize..r4.end as usize].copy_from_slice(&deep);
            }
            w[r3.start as usize..r3.end as usize].copy_from_slice(&inner);
            check_all(c, &s, &w, &name, false, 4)?;
            c.cov("mutable slices");
        }
        m[r.start as usize..r.end as usize].copy_from_slice(&w);
        check_all(c, base, m, &format!("{} after writes through [{:?}]", who, r), false, 8)?;
    }
    Ok(())
}

fn bases_t<B: Blk>(c: &mut Case, size: u64) -> R {
    let nb = B::NB;
    let n = c.rng.size(nb, size * nb);
    let mut m = pattern(&mut c.rng, n, nb);
    fp_bits(c, &m);
    c.nontrivial = n > 0;
    let kind = c.rng.below(7);
    c.mix(kind * 100 + nb);
    match kind {
        0 => {
            let mut v = bvh::build_to::<B>(c, &m)?;
            immut(c, &v, &m, "BitVector")?;
            mutable(c, &mut v, &mut m, "BitVector")?;
            let mut w = BitVector::<B>::new();
            for &b in &m {
                use succinct::BitVecPush;
                w.push_bit(b);
            }
            ck!(v == w, "content", "BitVector<{}> differs after writes through slices", B::NAME);
            Ok(())
        }
        1 => {
            m.resize((ceil_div(n, nb) * nb) as usize, false);
            let mut v: Vec<B> = m.chunks(nb as usize).map(|c| B::of(field(c, 0, nb))).collect();
            immut(c, &v, &m, "Vec<Block>")?;
            mutable(c, &mut v, &mut m, "Vec<Block>")
        }
        2 => {
            let mut v = m.clone();
            immut(c, &v, &m, "Vec<bool>")?;
            mutable(c, &mut v, &mut m, "Vec<bool>")?;
            ck!(v == m, "content", "Vec<bool> differs");
            Ok(())
        }
        3 => {
            let k = mon::ivh::width(c, nb);
            let len = n / k;
            m.truncate((len * k) as usize);
            let mut v: IntVector<B> = IntVector::with_fill(k as usize, len, B::of(0));
            for i in 0..len {
                v.set(i, B::of(field(&m, i * k, k)));
            }
            immut(c, &v, &m, "IntVector")?;
            mutable(c, &mut v, &mut m, "IntVector")?;
            for i in 0..len {
                ckeq!(v.get(i).u(), field(&m, i * k, k), "content", "IntVector element {}", i);
            }
            Ok(())
        }
        4 => {
            let mut v: ByBit<B> = ByBit::new(&m);
            immut(c, &v, &m, "ByBit")?;
            mutable(c, &mut v, &mut m, "ByBit")?;
            ck!(v.bits == m, "content", "ByBit differs");
            Ok(())
        }
        5 => {
            let g = c.rng.value();
            let mut v: ByBlock<B> = ByBlock::new(&m, g);
            let t = v.tail();
            immut(c, &v, &m, "ByBlock")?;
            mutable(c, &mut v, &mut m, "ByBlock")?;
            ckeq!(v.tail(), t, "tail", "ByBlock unused bits after writes through slices");
            Ok(())
        }
        _ => {
            let v = bvh::build_to::<B>(c, &m)?;
            let mut b = BitBuffer::from(v);
            immut(c, &b, &m, "BitBuffer")?;
            mutable(c, &mut b, &mut m, "BitBuffer")
        }
    }
}
fn bases(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let size = c.rng.pick(&[1, 2, 4, 8]);
    with_blk!(k, bases_t, c, size)
}

/// Primitive words and unsized slices as bases.
fn prim_t<B: Blk + BitVec<Block = B> + BitVecMut>(c: &mut Case) -> R {
    let x = c.rng.value() & mask(B::NB);
    c.mix(x ^ (B::NB << 56));
    c.nontrivial = true;
    let mut v = B::of(x);
    let mut m: Vec<bool> = (0..B::NB).map(|i| (x >> i) & 1 == 1).collect();
    immut(c, &v, &m, B::NAME)?;
    mutable(c, &mut v, &mut m, B::NAME)?;
    ckeq!(v.u(), field(&m, 0, B::NB), "content", "{} after writes through slices", B::NAME);
    // unsized base
    let mut arr = [v, B::of(c.rng.next()), B::of(c.rng.next())];
    let mut m: Vec<bool> = arr.iter().flat_map(|b| (0..B::NB).map(move |i| (b.u() >> i) & 1 == 1)).collect();
    let g = rg(c, m.len() as u64, B::NB);
    let r = g.of(m.len() as u64);
    {
        let s: &[B] = &arr[..];
        let t = by_range!(g, x => BitSlice::new(s, x));
        check_all(c, &t, &sub(&m, &r), "BitSlice([Block])", false, 8)?;
    }
    {
        let s: &mut [B] = &mut arr[..];
        let mut t = by_range!(g, x => BitSliceMut::new(s, x));
        let mut w = sub(&m, &r);
        for _ in 0..3 {
            random_write(c, &mut t, &mut w, "BitSliceMut([Block])")?;
        }
        check_all(c, &t, &w, "BitSliceMut([Block])", false, 8)?;
        m[r.start as usize..r.end as usize].copy_from_slice(&w);
    }
    check_all(c, &arr[..], &m, "[Block] after writes through a slice", true, 8)
}
fn prim(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, prim_t, c)
}

/// Every (start, end) window of a small vector: all bits, blocks, fields; all block writes.
fn windows(c: &mut Case) -> R {
    let n = c.index + 1;
    c.nontrivial = true;
    c.mix(n);
    let m: Vec<bool> = (0..n).map(|_| c.rng.coin()).collect();
    let mut v = BitVector::<u8>::with_fill(n, false);
    for (i, &b) in m.iter().enumerate() {
        v.set_bit(i as u64, b);
    }
    for s in 0..=n {
        for e in s..=n {
            let w = &m[s as usize..e as usize];
            let sl = BitSlice::new(&v, s..e);
            ckeq!(sl.bit_len(), e - s, "bit_len", "window {}..{} of {}", s, e, n);
            ckeq!(sl.block_len() as u64, ceil_div(e - s, 8), "block_len", "window {}..{} of {}", s, e, n);
            for p in 0..e - s {
                ckeq!(sl.get_bit(p), w[p as usize], "get_bit", "window {}..{} of {}: bit {}", s, e, n, p);
                for k in 0..=8.min(e - s - p) {
                    c.evals += 1;
                    ckeq!(sl.get_bits(p, k as usize).u(), field(w, p, k), "get_bits", "window {}..{} of {}: get_bits({}, {})", s, e, n, p, k);
                }
            }
            for b in 0..ceil_div(e - s, 8) {
                let live = (e - s - 8 * b).min(8);
                let got = must("get_block-panic", &|| format!("window {}..{} of {}: get_block({})", s, e, n, b), || sl.get_block(b as usize))?;
                ckeq!(got.u() & mask(live), field(w, 8 * b, live), "get_block", "window {}..{} of {}: get_block({})", s, e, n, b);
                let x = c.rng.next();
                let mut v2 = v.clone();
                let mut mm = m.clone();
                must("set_block-panic", &|| format!("window {}..{} of {}: set_block({})", s, e, n, b), || {
                    BitSliceMut::new(&mut v2, s..e).set_block(b as usize, x as u8)
                })?;
                mon::set_field(&mut mm[..(e as usize)], s + 8 * b, 8, x);
                for q in 0..n {
                    ckeq!(v2.get_bit(q), mm[q as usize], "set_block", "window {}..{} of {}: bit {} of the base after set_block({}, {:#x})", s, e, n, q, b, x as u8);
                }
            }
        }
    }
    c.cov("window sweeps");
    Ok(())
}

/// Windows far beyond 2^32 bits into their base.
fn far(c: &mut Case) -> R {
    let table: Vec<u64> = (0..c.rng.range(3, 40)).map(|_| c.rng.next()).collect();
    // a block index is a usize
    let n = c.rng.range(1 << 33, if usize::BITS < 64 { 1 << 38 } else { (1 << 40) + 1 });
    let p = mon::stores::Periodic::new(table, n);
    c.mix(n);
    c.nontrivial = true;
    let s = match c.rng.below(3) {
        0 => (1u64 << 32) - c.rng.below(70),
        1 => n - c.rng.range(1, 300),
        _ => c.rng.below(n),
    };
    let e = if c.rng.coin() { n } else { c.rng.range(s, n) };
    let sl = BitSlice::new(&p, s..e);
    ckeq!(sl.bit_len(), e - s, "bit_len", "window {}..{} of {}", s, e, n);
    ckeq!(sl.block_len() as u64, ceil_div(e - s, 64), "block_len", "window {}..{} of {}", s, e, n);
    for _ in 0..20 {
        if e == s {
            break;
        }
        let q = if c.rng.coin() { c.rng.below(e - s) } else { e - s - 1 - c.rng.below((e - s).min(100)) };
        let k = c.rng.below(64.min(e - s - q) + 1);
        c.evals += 3;
        ckeq!(sl.get_bit(q), p.bit(s + q), "get_bit", "window {}..{} of {}: bit {}", s, e, n, q);
        let want = (0..k).fold(0u64, |a, i| a | (p.bit(s + q + i) as u64) << i);
        ckeq!(sl.get_bits(q, k as usize), want, "get_bits", "window {}..{} of {}: get_bits({}, {})", s, e, n, q, k);
        let b = q / 64;
        let live = (e - s - b * 64).min(64);
        let want = (0..live).fold(0u64, |a, i| a | (p.bit(s + b * 64 + i) as u64) << i);
        let got = must("get_block-panic", &|| format!("window {}..{} of {}: get_block({})", s, e, n, b), || sl.get_block(b as usize))?;
        ckeq!(got & mask(live), want, "get_block", "window {}..{} of {}: get_block({})", s, e, n, b);
        let d = c.rng.range(q, e - s);
        let t = sl.slice(q..d);
        ckeq!(t.bit_len(), d - q, "bit_len", "window {}..{} of {}: slice {}..{}", s, e, n, q, d);
        if d > q {
            ckeq!(t.get_bit(d - q - 1), p.bit(s + d - 1), "get_bit", "window {}..{} of {}: slice {}..{}", s, e, n, q, d);
        }
    }
    // range conversion itself
    let (a, b) = (c.rng.next(), c.rng.next());
    ckeq!((a..b).into_range(3, 9), a..b, "into_range", "Range");
    ckeq!((..b).into_range(a, 9), a..b, "into_range", "RangeTo");
    ckeq!((a..).into_range(3, b), a..b, "into_range", "RangeFrom");
    ckeq!((..).into_range(a, b), a..b, "into_range", "RangeFull");
    Ok(())
}

type Ov<B> = mon::stores::Overlay<B>;

/// A window `at..end` of a very long base, looked at near its ends and at random.
fn probe<B: Blk, V: BitVec<Block = B>>(c: &mut Case, v: &V, base: &Ov<B>, at: u64, end: u64, who: &str) -> R {
    let nb = B::NB;
    let n = end - at;
    ckeq!(v.bit_len(), n, "bit_len", "{}", who);
    ckeq!(v.block_len() as u64, ceil_div(n, nb), "block_len", "{}", who);
    if n == 0 {
        return Ok(());
    }
    for _ in 0..5 {
        let q = far_pos(c, n, at);
        let k = c.rng.below(nb.min(n - q) + 1);
        c.evals += 3;
        let got = must("get_bit-panic", &|| format!("{}: get_bit({})", who, q), || v.get_bit(q))?;
        ckeq!(got, base.bit(at + q), "get_bit", "{}: bit {}", who, q);
        let got = must("get_bits-panic", &|| format!("{}: get_bits({}, {})", who, q, k), || v.get_bits(q, k as usize))?;
        ckeq!(got.u(), base.bits(at + q, k), "get_bits", "{}: get_bits({}, {})", who, q, k);
        let b = q / nb;
        let live = (n - b * nb).min(nb);
        let got = must("get_block-panic", &|| format!("{}: get_block({})", who, b), || v.get_block(b as usize))?;
        ckeq!(got.u() & mask(live), base.bits(at + b * nb, live), "get_block", "{}: get_block({})", who, b);
    }
    Ok(())
}
/// A position inside a window of `n > 0` bits that starts at `at`: anywhere, near its ends, or where a number crosses 2^31 or 2^32.
fn far_pos(c: &mut Case, n: u64, at: u64) -> u64 {
    let p = c.rng.pick(&[31u32, 32, 32, 33]);
    let x = (1u64 << p) + c.rng.below(130);
    let q = match c.rng.below(5) {
        0 => c.rng.below(n),
        1 => c.rng.below(n.min(130)),
        2 => n - 1 - c.rng.below(n.min(130)),
        3 => x.saturating_sub(64),
        _ => x.saturating_sub(64).saturating_sub(at),
    };
    q.min(n - 1)
}
fn far_rg(c: &mut Case, n: u64, at: u64) -> Rg {
    let g = c.rng.below(8);
    if n == 0 {
        return c.rng.pick(&[Rg::Full, Rg::To(0), Rg::From(0), Rg::Both(0, 0)]);
    }
    match g {
        0 => Rg::Full,
        1 => Rg::To(far_pos(c, n, at) + 1),
        2..=4 => Rg::From(far_pos(c, n, at)),
        _ => {
            let (a, b) = (far_pos(c, n, at), far_pos(c, n, at) + 1);
            Rg::Both(a.min(b), a.max(b))
        }
    }
}
fn far_write<B: Blk, V: BitVecMut<Block = B>>(c: &mut Case, v: &mut V, twin: &mut Ov<B>, at: u64, end: u64, who: &str) -> R {
    let nb = B::NB;
    let n = end - at;
    if n == 0 {
        return Ok(());
    }
    let q = far_pos(c, n, at);
    let x = c.rng.value();
    let (from, k, what) = match c.rng.below(3) {
        0 => {
            must("set_bit-panic", &|| format!("{}: set_bit({})", who, q), || v.set_bit(q, x & 1 == 1))?;
            (q, 1, "set_bit")
        }
        1 => {
            let k = c.rng.below(nb.min(n - q) + 1);
            must("set_bits-panic", &|| format!("{}: set_bits({}, {})", who, q, k), || v.set_bits(q, k as usize, B::of(x)))?;
            (q, k, "set_bits")
        }
        _ => {
            let b = q / nb;
            must("set_block-panic", &|| format!("{}: set_block({})", who, b), || v.set_block(b as usize, B::of(x)))?;
            (b * nb, (n - b * nb).min(nb), "set_block")
        }
    };
    c.t(|| format!("{}: {} at {} of {} bits: {:#x}", who, what, from, k, x));
    for i in 0..k {
        twin.put(at + from + i, (x >> i) & 1 == 1);
    }
    Ok(())
}
/// Nested windows of every range kind, read and written, over a writable base far beyond 2^32 bits.
fn far_nested_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let table: Vec<B> = (0..c.rng.range(3, 40)).map(|_| B::of(c.rng.next())).collect();
    let n = c.rng.range(1 << 33, if usize::BITS < 64 { 1 << 34 } else { (1 << 40) + 1 });
    let mut base: Ov<B> = Ov::new(table, n);
    let mut twin = base.clone();
    c.mix(n ^ nb << 50);
    c.nontrivial = true;
    for _ in 0..3 {
        let g = far_rg(c, n, 0);
        let r = g.of(n);
        let who = format!("{} bits[{:?}]", n, g);
        {
            let s = by_range!(g, x => BitSlice::new(&base, x));
            probe(c, &s, &twin, r.start, r.end, &who)?;
            let (mut cur, mut at, mut end, mut path) = (s, r.start, r.end, who.clone());
            for _ in 0..3 {
                let g = far_rg(c, end - at, at);
                let r = g.of(end - at);
                path = format!("{}[{:?}]", path, g);
                cur = must("slice-panic", &|| path.clone(), || by_range!(g, x => cur.slice(x)))?;
                let was = at;
                at = was + r.start;
                end = was + r.end;
                probe(c, &cur, &twin, at, end, &path)?;
            }
            let g = far_rg(c, end - at, at);
            let r = g.of(end - at);
            let again = must("slice-panic", &|| format!("BitSlice::new({}, {:?})", path, g), || by_range!(g, x => BitSlice::new(&cur, x)))?;
            probe(c, &again, &twin, at + r.start, at + r.end, &format!("BitSlice::new({}, {:?})", path, g))?;
        }
        {
            let (at, end) = (r.start, r.end);
            let mut s = by_range!(g, x => BitSliceMut::new(&mut base, x));
            let who = format!("mutable {}", who);
            for _ in 0..3 {
                far_write(c, &mut s, &mut twin, at, end, &who)?;
            }
            probe(c, &s, &twin, at, end, &who)?;
            let g2 = far_rg(c, end - at, at);
            let r2 = g2.of(end - at);
            {
                let t = must("slice-panic", &|| format!("{}.slice({:?})", who, g2), || by_range!(g2, x => s.slice(x)))?;
                probe(c, &t, &twin, at + r2.start, at + r2.end, &format!("{}.slice({:?})", who, g2))?;
            }
            let g3 = far_rg(c, end - at, at);
            let r3 = g3.of(end - at);
            let nm = format!("{}.slice_mut({:?})", who, g3);
            let mut t = must("slice-panic", &|| nm.clone(), || by_range!(g3, x => s.slice_mut(x)))?;
            let (at, end) = (at + r3.start, at + r3.end);
            for _ in 0..3 {
                far_write(c, &mut t, &mut twin, at, end, &nm)?;
            }
            probe(c, &t, &twin, at, end, &nm)?;
            let g4 = far_rg(c, end - at, at);
            let r4 = g4.of(end - at);
            let nm = format!("BitSliceMut::new({}, {:?})", nm, g4);
            let mut u = must("slice-panic", &|| nm.clone(), || by_range!(g4, x => BitSliceMut::new(&mut t, x)))?;
            let (at, end) = (at + r4.start, at + r4.end);
            for _ in 0..2 {
                far_write(c, &mut u, &mut twin, at, end, &nm)?;
            }
            probe(c, &u, &twin, at, end, &nm)?;
        }
        // nothing but what was written has changed in the base
        for (&i, &b) in base.written.iter().chain(twin.written.iter()) {
            c.evals += 1;
            ckeq!(base.get_block(i), twin.get_block(i), "base-content", "block {} of the base of {} bits after writes through windows (one of them holds {:?})", i, n, b);
        }
        c.cov("writable windows beyond 2^32 bits");
    }
    Ok(())
}
fn far_nested(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, far_nested_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("bases", 16_000, 800_000, bases),
        wl("prim", 4_000, 200_000, prim),
        wl_fixed("windows", 36, windows),
        wl("far", 10_000, 500_000, far),
        wl("far_nested", 20_000, 1_000_000, far_nested),
    ]
}
