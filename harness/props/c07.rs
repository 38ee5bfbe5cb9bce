//! C07: rank counts exactly, at every position of every bit vector.
use mon::stores::{ByBit, ByBlock, Formula, FormulaBits, Periodic};
use mon::{bvh, ceil_div, ck, ckeq, field, ivh, mask, must, pattern, with_blk, wl, wl_fixed, wl_serial, Blk, Case, Workload, R};
use succinct::bit_vec::BitSlice;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVector};

/// Ones at positions 0 through p.
pub fn prefix(m: &[bool]) -> Vec<u64> {
    let mut v = Vec::with_capacity(m.len());
    let mut k = 0;
    for &b in m {
        k += b as u64;
        v.push(k);
    }
    v
}

fn at<R1: BitRankSupport>(c: &mut Case, r: &R1, p: u64, ones: u64, n: u64, who: &str) -> R {
    c.evals += 4;
    let got = must("rank-panic", &|| format!("{} of {} bits: rank1({})", who, n, p), || r.rank1(p))?;
    ckeq!(got, ones, "rank1", "{} of {} bits: rank1({})", who, n, p);
    ckeq!(r.rank0(p), p + 1 - ones, "rank0", "{} of {} bits: rank0({})", who, n, p);
    ckeq!(r.rank(p, true), ones, "rank", "{} of {} bits: rank({}, true)", who, n, p);
    ckeq!(r.rank(p, false), p + 1 - ones, "rank", "{} of {} bits: rank({}, false)", who, n, p);
    Ok(())
}

/// Positions: all of them in a short vector; otherwise around every kind of boundary.
fn check<R1: BitRankSupport>(c: &mut Case, r: &R1, pre: &[u64], who: &str) -> R {
    let n = pre.len() as u64;
    ckeq!(r.limit(), n, "limit", "{}: limit", who);
    if n <= 3000 {
        for p in 0..n {
            at(c, r, p, pre[p as usize], n, who)?;
        }
        return Ok(());
    }
    for _ in 0..400 {
        let g = c.rng.pick(&[8, 16, 32, 64, 512, 4096]);
        let p = match c.rng.below(3) {
            0 => c.rng.below(n),
            1 => n - 1 - c.rng.below(600),
            _ => (c.rng.below(n / g + 1) * g + c.rng.below(3)).saturating_sub(1).min(n - 1),
        };
        at(c, r, p, pre[p as usize], n, who)?;
    }
    Ok(())
}

fn build<V, T>(n: u64, who: &str, v: V, f: impl FnOnce(V) -> T) -> Result<T, mon::Viol> {
    must("build-panic", &|| format!("building {} over {} bits", who, n), || f(v))
}

fn all_t<B: Blk>(c: &mut Case, m: &[bool]) -> R {
    let pre = prefix(m);
    let n = m.len() as u64;
    let garbage = c.rng.value() | c.rng.next();
    let kind = c.rng.below(7);
    let v = bvh::build_to::<B>(c, m)?;
    c.cov(["store:BitVector", "store:ByBlock+garbage", "store:ByBit", "store:BitSlice", "store:BitBuffer", "store:IntVector", "store:Vec<Block>"][kind as usize]);
    c.cov(B::NAME);
    match kind {
        0 => {
            let j = build(n, "JacobsonRank", v, JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(BitVector)")?;
            check(c, &BinSearchSelect::new(j.clone()), &pre, "BinSearchSelect(JacobsonRank)")?;
            // moved and copied structures answer alike
            let k = Box::new(j.clone());
            drop(j);
            check(c, &*k, &pre, "copied JacobsonRank")
        }
        1 => {
            let j = build(n, "JacobsonRank", ByBlock::<B>::new(m, garbage), JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(store with garbage in its last block)")
        }
        2 => {
            let j = build(n, "JacobsonRank", ByBit::<B>::new(m), JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(ByBit)")
        }
        3 => {
            // a window of something longer
            let (a, z) = (c.rng.below(70), c.rng.below(70));
            let mut w: Vec<bool> = (0..a).map(|_| c.rng.coin()).collect();
            w.extend_from_slice(m);
            w.extend((0..z).map(|_| true));
            let base = bvh::build_to::<B>(c, &w)?;
            let s = BitSlice::new(&base, a..a + n);
            let j = build(n, "JacobsonRank", s, JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(BitSlice)")
        }
        4 => {
            let j = build(n, "JacobsonRank", BitBuffer::from(v), JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(BitBuffer)")
        }
        5 => {
            let k = ivh::width(c, B::NB);
            let len = n / k;
            let xs: Vec<u64> = (0..len).map(|i| field(m, i * k, k)).collect();
            let v = ivh::build_to::<B>(c, k, &xs)?;
            let j = build(n, "JacobsonRank", v, JacobsonRank::new)?;
            check(c, &j, &pre[..(len * k) as usize], "JacobsonRank(IntVector)")
        }
        _ => {
            let mut w = m.to_vec();
            w.resize((ceil_div(n, B::NB) * B::NB) as usize, false);
            let v: Vec<B> = w.chunks(B::NB as usize).map(|x| B::of(field(x, 0, B::NB))).collect();
            let pre = prefix(&w);
            let j = build(n, "JacobsonRank", v.clone(), JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(Vec)")?;
            let j = build(n, "JacobsonRank", &v[..], JacobsonRank::new)?;
            check(c, &j, &pre, "JacobsonRank(&[Block])")
        }
    }
}
fn nine(c: &mut Case, m: &[bool]) -> R {
    let pre = prefix(m);
    let n = m.len() as u64;
    let g = c.rng.value() | c.rng.next();
    let v = bvh::build_to::<u64>(c, m)?;
    match c.rng.below(5) {
        0 | 1 => {
            let r = build(n, "Rank9", v, Rank9::new)?;
            check(c, &r, &pre, "Rank9(BitVector)")?;
            check(c, &BinSearchSelect::new(r.clone()), &pre, "BinSearchSelect(Rank9)")
        }
        2 => check(c, &build(n, "Rank9", ByBlock::<u64>::new(m, g), Rank9::new)?, &pre, "Rank9(store with garbage in its last block)"),
        3 => {
            let mut w: Vec<bool> = (0..7).map(|_| c.rng.coin()).collect();
            w.extend_from_slice(m);
            w.push(true);
            let base = bvh::build_to::<u64>(c, &w)?;
            let r = build(n, "Rank9", BitSlice::new(&base, 7..7 + n), Rank9::new)?;
            check(c, &r, &pre, "Rank9(BitSlice)")
        }
        _ => check(c, &build(n, "Rank9", ByBit::<u64>::new(m), Rank9::new)?, &pre, "Rank9(ByBit)"),
    }
}
fn both(c: &mut Case, m: &[bool]) -> R {
    mon::fp_bits(c, m);
    c.nontrivial = !m.is_empty();
    let k = c.rng.below(5);
    c.mix(k);
    c.t(|| format!("{} bits {}", m.len(), mon::show(m)));
    with_blk!(k, all_t, c, m)?;
    nine(c, m)
}

fn random(c: &mut Case) -> R {
    let max = c.rng.pick(&[100, 700, 3000, 20_000]);
    let n = c.rng.len(64, max);
    let m = pattern(&mut c.rng, n, 64);
    both(c, &m)
}
/// Every length in turn: the block sizes depend on it.
fn lengths(c: &mut Case) -> R {
    let n = c.index;
    let m = pattern(&mut c.rng, n, 64);
    c.mix(n);
    both(c, &m)?;
    let k = c.rng.below(5);
    with_blk!(k, all_t, c, &m)
}
/// All contents of up to 11 bits.
fn exhaustive_t<B: Blk>(c: &mut Case) -> R {
    let n = c.index % 12;
    c.mix(n << 8 | B::NB);
    c.nontrivial = true;
    for x in 0..1u64 << n {
        let m: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
        let pre = prefix(&m);
        let mut v = BitVector::<B>::with_fill(n, false);
        for (i, &b) in m.iter().enumerate() {
            use succinct::BitVecMut;
            v.set_bit(i as u64, b);
        }
        let j = build(n, "JacobsonRank", v, JacobsonRank::new)?;
        check(c, &j, &pre, "JacobsonRank(BitVector)")?;
        let j = build(n, "JacobsonRank", ByBlock::<B>::new(&m, !0), JacobsonRank::new)?;
        check(c, &j, &pre, "JacobsonRank(store with garbage in its last block)")?;
        let r = build(n, "Rank9", ByBlock::<u64>::new(&m, !0), Rank9::new)?;
        check(c, &r, &pre, "Rank9(store with garbage in its last block)")?;
    }
    Ok(())
}
fn exhaustive(c: &mut Case) -> R {
    let k = c.index / 12;
    with_blk!(k, exhaustive_t, c)
}

/// Long vectors that exist only as a formula.
fn long_t<B: Blk>(c: &mut Case, lg: u64) -> R {
    let n = match c.rng.below(3) {
        // more than 2^32 ones
        _ if lg >= 33 => c.rng.range(3 << 31, 1 << 33),
        0 => (1u64 << lg) - 1 + c.rng.below(3),
        _ => c.rng.range(1 << (lg - 1), 1 << lg),
    };
    let per = c.rng.range(1, 90);
    let shape = if lg >= 33 { 2 } else { c.rng.below(4) };
    let table: Vec<B> = (0..per)
        .map(|_| {
            B::of(match shape {
                0 => u64::MAX,
                1 => c.rng.next() & c.rng.next() & c.rng.next() & c.rng.next(),
                2 => c.rng.next() | c.rng.next() | c.rng.next(),
                _ => c.rng.next(),
            })
        })
        .collect();
    c.mix(n);
    for b in &table {
        c.mix(b.u());
    }
    c.nontrivial = true;
    let who = format!("JacobsonRank<{}>", B::NAME);
    c.t(|| format!("{} over {} bits of period {}", who, n, per));
    let p = Periodic::new(table, n);
    let j = build(n, &who, p.clone(), JacobsonRank::new)?;
    far_check(c, &j, &p, n, &who)?;
    if B::NB == 64 {
        let p = Periodic::new(p.table.iter().map(|b| b.u()).collect(), n);
        let r = build(n, "Rank9", p.clone(), Rank9::new)?;
        far_check(c, &r, &p, n, "Rank9")?;
    }
    Ok(())
}
fn far_check<B: Blk, R1: BitRankSupport>(c: &mut Case, r: &R1, p: &Periodic<B>, n: u64, who: &str) -> R {
    ckeq!(r.limit(), n, "limit", "{}: limit", who);
    at(c, r, 0, p.ones_before(1), n, who)?;
    at(c, r, n - 1, p.ones_before(n), n, who)?;
    for _ in 0..600 {
        let lg = 64 - n.leading_zeros() as u64;
        let g = match c.rng.below(4) {
            0 => B::NB,
            1 => 512,
            // a superblock
            2 => ceil_div(lg * lg, B::NB) * B::NB,
            _ => 1 << c.rng.range(8, lg),
        };
        let q = match c.rng.below(4) {
            0 => c.rng.below(n),
            1 => n - 1 - c.rng.below(n.min(5000)),
            _ => (c.rng.below(n / g + 1) * g + c.rng.below(3)).saturating_sub(1).min(n - 1),
        };
        at(c, r, q, p.ones_before(q + 1), n, who)?;
    }
    if n > 1 << 32 {
        for q in [(1u64 << 32) - 1, 1 << 32, (1 << 32) + 1] {
            if q < n {
                at(c, r, q, p.ones_before(q + 1), n, who)?;
            }
        }
        c.cov("vectors beyond 2^32 bits");
    }
    Ok(())
}
fn long(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let hi = if c.thorough { 24 } else { 20 };
    let lg = c.rng.range(10, hi);
    with_blk!(k, long_t, c, lg)
}
fn huge(c: &mut Case) -> R {
    let lg = 33;
    let k = if c.thorough { c.index + 3 } else { 3 };
    with_blk!(k, long_t, c, lg)
}

/// Words.
fn prim_t<B: Blk>(c: &mut Case) -> R {
    for _ in 0..16 {
        let x = c.rng.value() & mask(B::NB);
        c.mix(x);
        let m: Vec<bool> = (0..B::NB).map(|i| (x >> i) & 1 == 1).collect();
        check(c, &B::of(x), &prefix(&m), B::NAME)?;
        let y = c.rng.value();
        let m: Vec<bool> = (0..64).map(|i| (y >> i) & 1 == 1).collect();
        check(c, &Broadword(y), &prefix(&m), "Broadword")?;
    }
    c.nontrivial = true;
    Ok(())
}
fn prim(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, prim_t, c)
}
fn bytes(c: &mut Case) -> R {
    c.mix(c.index);
    c.nontrivial = true;
    let x = c.index as u8;
    let m: Vec<bool> = (0..8).map(|i| (x >> i) & 1 == 1).collect();
    check(c, &x, &prefix(&m), "u8")?;
    for hi in 0..=255u16 {
        let x = hi << 8 | c.index as u16;
        let m: Vec<bool> = (0..16).map(|i| (x >> i) & 1 == 1).collect();
        check(c, &x, &prefix(&m), "u16")?;
    }
    Ok(())
}

/// A user type that supplies only the required methods.
fn user(c: &mut Case) -> R {
    let table: Vec<u8> = (0..c.rng.range(1, 20)).map(|_| c.rng.coin() as u8).collect();
    let limit = c.rng.value().max(1);
    let f = Formula { skip: c.rng.below(limit), first: c.rng.coin() as u8, table, limit };
    c.mix(limit);
    c.mix(f.skip);
    c.nontrivial = true;
    let b = FormulaBits(f.clone());
    for _ in 0..30 {
        let p = c.rng.below(limit);
        let ones = f.before(p, 1) + (f.at(p) == 1) as u64;
        at(c, &b, p, ones, limit, "user rank")?;
        at(c, &BinSearchSelect::new(b.clone()), p, ones, limit, "BinSearchSelect(user rank)")?;
    }
    ck!(b.rank1(limit - 1) + b.rank0(limit - 1) == limit, "rank0", "user rank: totals at {}", limit - 1);
    Ok(())
}

/// The answers do not depend on the order or the repetition of queries.
fn order(c: &mut Case) -> R {
    let n = c.rng.range(1, 4000);
    let m = pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = true;
    let pre = prefix(&m);
    let j = JacobsonRank::new(bvh::build_to::<u32>(c, &m)?);
    let r = Rank9::new(bvh::build_to::<u64>(c, &m)?);
    for _ in 0..300 {
        let p = c.rng.below(n);
        c.evals += 2;
        ckeq!(j.rank1(p), pre[p as usize], "rank1", "JacobsonRank of {} bits: rank1({})", n, p);
        ckeq!(r.rank1(p), pre[p as usize], "rank1", "Rank9 of {} bits: rank1({})", n, p);
    }
    ck!(j.inner().bit_len() == n && r.inner().bit_len() == n, "limit", "inner length");
    Ok(())
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let n = c.rng.len(64, 3000);
    let m = pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = !m.is_empty();
    let k = c.rng.below(2);
    mon::with_user_blk!(k, all_t, c, &m)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("random", 8_000, 300_000, random),
        wl("lengths", 4_500, 30_000, lengths),
        wl_fixed("exhaustive", 60, exhaustive),
        wl("long", 150, 1_500, long),
        wl("prim", 5_000, 200_000, prim),
        wl_fixed("bytes", 256, bytes),
        wl("user", 3_000, 100_000, user),
        wl("order", 2_000, 60_000, order),
        wl_serial("huge", 1, 2, huge),
        wl("user_blocks", 1_500, 50_000, user_blocks),
    ]
}
