//! C25: structures are as compact as documented.
use mon::alloc::live;
use mon::bits::ceil_div;
use mon::stores::Periodic;
use mon::{bits, bvh, ck, ckeq, ivh, must, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use succinct::rank::{JacobsonRank, Rank9};
use succinct::{BitVec, BitVecPush, BitVector, IntVec, IntVector};

/// Blocks occupied are those needed for n elements of k bits.
fn packed(c: &mut Case, got: u64, n: u64, k: u64, nb: u64, who: &dyn Fn() -> String) -> R {
    c.evals += 1;
    ckeq!(got, ceil_div(n * k, nb), "block_len", "{}: blocks occupied by {} elements of {} bits in blocks of {}", who(), n, k, nb);
    Ok(())
}
/// The storage allocated is not more than `blocks` blocks.
fn tight(c: &mut Case, cap: u64, bytes: i64, blocks: u64, nb: u64, who: &dyn Fn() -> String) -> R {
    c.evals += 2;
    ck!(cap <= blocks, "allocated", "{}: block capacity is {}, {} blocks are needed", who(), cap, blocks);
    ck!(bytes as u64 <= blocks * nb / 8, "allocated", "{}: {} bytes allocated, {} blocks of {} bits are needed", who(), bytes, blocks, nb);
    Ok(())
}

fn bit_history<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let max = c.rng.bound(&[5, 40, 300]) * nb;
    let mut v: BitVector<B> = BitVector::new();
    let mut m: Vec<bool> = vec![];
    let mut owned = 0i64;
    for i in 0..c.rng.range(4, 60) {
        let o = if i == 0 { bvh::random_ctor(c, nb, max) } else { bvh::random_op(c, nb, m.len() as u64, max) };
        let l = live();
        must("panic", &|| format!("{:?}", o), || bvh::real(&mut v, &o))?;
        owned += live() - l;
        bvh::model(&mut m, nb, &o);
        c.t(|| format!("{:?}: {} bits, {} bytes", o, m.len(), owned));
        c.cov(bvh::name(&o));
        let who = || format!("BitVector<{}> after {:?} (step {})", B::NAME, o, i);
        ckeq!(v.bit_len(), m.len() as u64, "bit_len", "{}: length", who());
        packed(c, v.block_len() as u64, m.len() as u64, 1, nb, &who)?;
        let limit = match o {
            bvh::Op::WithCapacity(n) => Some(ceil_div(n, nb)),
            bvh::Op::BlockWithCapacity(b) => Some(b),
            bvh::Op::New | bvh::Op::Default => Some(0),
            bvh::Op::WithFill(..) | bvh::Op::BlockWithFill(..) | bvh::Op::Shrink => Some(ceil_div(m.len() as u64, nb)),
            _ => None,
        };
        if let Some(b) = limit {
            c.cov("allocation judged");
            tight(c, v.block_capacity() as u64, owned, b, nb, &who)?;
        }
    }
    mon::fp_bits(c, &m);
    Ok(())
}
fn int_history<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let max = c.rng.bound(&[5, 40, 300]) * nb;
    let mut m = ivh::Model::new(k, nb);
    let mut v: IntVector<B> = IntVector::new(k as usize);
    let mut owned = 0i64;
    for i in 0..c.rng.range(4, 60) {
        let o = if i == 0 { ivh::random_ctor(c, k, nb, max) } else { ivh::random_op(c, &m, max) };
        let l = live();
        must("panic", &|| format!("{:?}", o), || ivh::real(&mut v, &o))?;
        owned += live() - l;
        m.apply(&o);
        c.t(|| format!("{:?}: {} elements, {} bytes", o, m.len(), owned));
        c.cov(ivh::name(&o));
        let who = || format!("IntVector<{}> of {}-bit elements after {:?} (step {})", B::NAME, k, o, i);
        ckeq!(v.len(), m.len(), "len", "{}: length", who());
        ckeq!(v.bit_len(), m.len() * k, "bit_len", "{}: bits", who());
        packed(c, v.block_len() as u64, m.len(), k, nb, &who)?;
        let limit = match o {
            ivh::Op::WithCapacity(n) => Some(ceil_div(n * k, nb)),
            ivh::Op::BlockWithCapacity(b) | ivh::Op::BlockWithFill(b, _) => Some(b),
            ivh::Op::New => Some(0),
            ivh::Op::WithFill(..) | ivh::Op::Shrink => Some(ceil_div(m.len() * k, nb)),
            _ => None,
        };
        if let Some(b) = limit {
            c.cov("allocation judged");
            tight(c, v.block_capacity() as u64, owned, b, nb, &who)?;
        }
    }
    mon::fp_bits(c, &m.bits);
    c.mix(k);
    Ok(())
}
fn histories(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 10);
    c.nontrivial = true;
    if k / 5 % 2 == 0 {
        with_blk!(k, bit_history, c)
    } else {
        with_blk!(k, int_history, c)
    }
}

/// Every width, every length up to some blocks, by every way of making a vector.
fn every_t<B: Blk>(c: &mut Case, k: u64) -> R {
    let nb = B::NB;
    for n in 0..(4 * nb / k + 6) {
        let need = ceil_div(n * k, nb);
        let who = |s: &str| format!("IntVector<{}>::{} of {} elements of {} bits", B::NAME, s, n, k);
        let x = B::of(n & mon::mask(k));
        let l = live();
        let v: IntVector<B> = IntVector::with_fill(k as usize, n, x);
        tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("with_fill"))?;
        packed(c, v.block_len() as u64, n, k, nb, &|| who("with_fill"))?;
        drop(v);
        let l = live();
        let mut v: IntVector<B> = IntVector::with_capacity(k as usize, n);
        tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("with_capacity"))?;
        for i in 0..n {
            v.push(x);
            packed(c, v.block_len() as u64, i + 1, k, nb, &|| who("with_capacity, then push,"))?;
        }
        // filled up to what was asked for, it is still no larger
        tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("with_capacity, then push,"))?;
        v.reserve(50);
        v.shrink_to_fit();
        tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("shrink_to_fit"))?;
        while v.pop().is_some() {
            packed(c, v.block_len() as u64, v.len(), k, nb, &|| who("pop"))?;
        }
        v.shrink_to_fit();
        tight(c, v.block_capacity() as u64, live() - l, 0, nb, &|| who("shrink_to_fit of the emptied vector"))?;
        drop(v);
        if k == 1 {
            let l = live();
            let mut v: BitVector<B> = BitVector::with_capacity(n);
            tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("BitVector::with_capacity"))?;
            for i in 0..n {
                v.push_bit(i % 3 == 0);
                packed(c, v.block_len() as u64, i + 1, 1, nb, &|| who("BitVector::push_bit"))?;
            }
            tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("BitVector::with_capacity, then push_bit,"))?;
            drop(v);
            let l = live();
            let v: BitVector<B> = BitVector::with_fill(n, true);
            tight(c, v.block_capacity() as u64, live() - l, need, nb, &|| who("BitVector::with_fill"))?;
        }
    }
    Ok(())
}
fn every(c: &mut Case) -> R {
    let t = c.index % 5;
    let k = c.index / 5 + 1;
    let nb = [8, 16, 32, 64, usize::BITS as u64][t as usize];
    c.mix(c.index);
    if k > nb {
        return Ok(());
    }
    c.nontrivial = true;
    with_blk!(t, every_t, c, k)
}

/// Large vectors; no page of the capacity is touched.
fn large_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let lg = c.rng.range(1, 32);
    let n = c.rng.range(1, 1 << lg) / k + 1;
    c.mix(n);
    c.mix(k);
    let l = live();
    let v: IntVector<B> = IntVector::with_capacity(k as usize, n);
    tight(c, v.block_capacity() as u64, live() - l, ceil_div(n * k, nb), nb, &|| format!("IntVector<{}>::with_capacity({}, {})", B::NAME, k, n))?;
    drop(v);
    let l = live();
    let mut v: BitVector<B> = BitVector::block_with_fill(ceil_div(n, nb) as usize, B::of(0));
    tight(c, v.block_capacity() as u64, live() - l, ceil_div(n, nb), nb, &|| format!("BitVector<{}>::block_with_fill for {} bits", B::NAME, n))?;
    v.truncate(n / 2);
    packed(c, v.block_len() as u64, n / 2, 1, nb, &|| format!("BitVector<{}> truncated to {} bits", B::NAME, n / 2))?;
    Ok(())
}
fn large(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, large_t, c)
}

fn ceil_lg(n: u64) -> u64 {
    if n <= 1 {
        0
    } else {
        64 - (n - 1).leading_zeros() as u64
    }
}
/// One short relative count per block, one full count per lg² n bits, and a constant.
fn jacobson_bound(n: u64, nb: u64) -> u64 {
    let lg2 = ceil_lg(n) * ceil_lg(n);
    // a relative count covers at most lg² n bits rounded up to whole blocks
    let short = ceil_lg(lg2 + nb + 1).max(1);
    let full = ceil_lg(n + 1).max(1);
    let blocks = ceil_div(n, nb) + 1;
    let large = n / lg2.max(nb) + 2;
    let bits = blocks * short + large * full;
    bits + bits / 20 + 256
}
fn ranks_over<B: Blk>(c: &mut Case, store: Periodic<B>) -> R {
    let n = store.n;
    let l = live();
    let j = must("panic", &|| format!("JacobsonRank of {} bits", n), || JacobsonRank::new(store.clone()))?;
    let clone = live();
    let s = j.into_inner();
    let store_bytes = live() - l;
    let index = (clone - live()) * 8;
    drop(s);
    c.evals += 1;
    let max = jacobson_bound(n, B::NB);
    ck!(index as u64 <= max, "jacobson-index", "JacobsonRank over {} bits in blocks of {}: the index takes {} bits, at most {} allowed", n, B::NB, index, max);
    c.t(|| format!("JacobsonRank over {} bits of {}: index of {} bits, store {} bytes, limit {}", n, B::NAME, index, store_bytes, max));
    Ok(())
}
fn rank9_over(c: &mut Case, store: Periodic<u64>) -> R {
    let n = store.n;
    let r = must("panic", &|| format!("Rank9 of {} bits", n), || Rank9::new(store))?;
    let with = live();
    let _s = r.into_inner();
    let index = (with - live()) * 8;
    c.evals += 1;
    let max = n / 4 + 512;
    ck!(index as u64 <= max, "rank9-index", "Rank9 over {} bits: the index takes {} bits, at most {} allowed", n, index, max);
    c.t(|| format!("Rank9 over {} bits: index of {} bits, limit {}", n, index, max));
    Ok(())
}
fn ranks_t<B: Blk>(c: &mut Case, n: u64) -> R {
    let table: Vec<B> = (0..c.rng.range(1, 9)).map(|_| B::of(c.rng.value())).collect();
    ranks_over(c, Periodic::new(table, n))
}
fn ranks(c: &mut Case) -> R {
    let big = c.rng.range(1, 24);
    let n = match c.rng.below(4) {
        0 => c.rng.below(2000),
        1 => c.rng.below(1 << 16),
        2 => (1 << c.rng.range(3, 20)) + c.rng.below(3) - 1,
        _ => c.rng.below(1 << big),
    };
    c.mix(n);
    c.nontrivial = true;
    let k = c.rng.next();
    c.mix(k % 5);
    with_blk!(k, ranks_t, c, n)?;
    let table: Vec<u64> = (0..c.rng.range(1, 9)).map(|_| c.rng.value()).collect();
    rank9_over(c, Periodic::new(table, n))
}
/// Every length.
fn rank_lengths(c: &mut Case) -> R {
    c.mix(c.index);
    c.nontrivial = true;
    for n in c.index * 50..c.index * 50 + 50 {
        for k in 0..5 {
            with_blk!(k, ranks_t, c, n)?;
        }
        rank9_over(c, Periodic::new(vec![!0u64], n))?;
    }
    Ok(())
}
/// Beyond what tests hold: the index of a long vector.
fn rank_huge(c: &mut Case) -> R {
    let n = [(1u64 << 32) + 77, (1 << 30) - 1, (1 << 33) + 5][c.index as usize];
    c.mix(n);
    c.nontrivial = true;
    let x = c.rng.next();
    ranks_over(c, Periodic::new(vec![x, !0, 0], n))?;
    rank9_over(c, Periodic::new(vec![x, !0, 0], n))
}

/// Real vectors: the index on top of what the vector holds, and totals.
fn stacked(c: &mut Case) -> R {
    let lg = c.rng.range(1, 18);
    let n = c.rng.below(1 << lg);
    let m = bits::pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = true;
    let mut v: BitVector<u64> = BitVector::with_capacity(n);
    for &b in &m {
        v.push_bit(b)
    }
    let l = live();
    let w = v.clone();
    let store = live() - l;
    c.evals += 3;
    ck!(store as u64 <= ceil_div(n, 64) * 8, "allocated", "the clone of {} bits takes {} bytes", n, store);
    let r = Rank9::new(w);
    let total = (live() - l) * 8;
    let max = ceil_div(n, 64) * 64 + n / 4 + 512;
    ck!(total as u64 <= max, "rank9-index", "Rank9 with its vector of {} bits takes {} bits, at most {} allowed", n, total, max);
    drop(r);
    let l = live();
    let j = JacobsonRank::new(v.clone());
    let total = (live() - l) * 8;
    let max = ceil_div(n, 64) * 64 + jacobson_bound(n, 64);
    ck!(total as u64 <= max, "jacobson-index", "JacobsonRank with its vector of {} bits takes {} bits, at most {} allowed", n, total, max);
    drop(j);
    Ok(())
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(4);
    c.nontrivial = true;
    if k < 2 {
        mon::with_user_blk!(k, bit_history, c)
    } else {
        mon::with_user_blk!(k, int_history, c)
    }
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("histories", 20_000, 800_000, histories),
        wl_fixed("every", 320, every),
        wl("large", 2_000, 50_000, large),
        wl("ranks", 1_500, 20_000, ranks),
        wl("rank_lengths", 60, 1000, rank_lengths),
        wl("stacked", 1_000, 30_000, stacked),
        mon::wl_serial("rank_huge", 1, 3, rank_huge),
        wl("user_blocks", 2_000, 100_000, user_blocks),
    ]
}
