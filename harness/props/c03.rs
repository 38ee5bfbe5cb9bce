//! C03: equality, ordering and hash depend only on contents, never on history.
use mon::{bvh, ck, field, ivh, mask, pattern, show, with_blk, wl, wl_fixed, Blk, Case, Workload, R};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn same<T: Eq + Ord + Hash + Debug>(c: &mut Case, a: &T, b: &T, what: &str) -> R {
    c.evals += 5;
    ck!(a == b, "eq", "{}: equal contents compare unequal", what);
    ck!(!(a != b), "eq", "{}: equal contents compare != ", what);
    ck!(h(a) == h(b), "hash", "{}: equal contents hash differently", what);
    ck!(a.cmp(b) == Ordering::Equal, "order", "{}: equal contents order as {:?}", what, a.cmp(b));
    ck!(a.partial_cmp(b) == Some(Ordering::Equal), "order", "{}: equal contents partially order as {:?}", what, a.partial_cmp(b));
    Ok(())
}
fn differ<T: Eq + Ord + Hash + Debug>(c: &mut Case, a: &T, b: &T, what: &str) -> R {
    c.evals += 4;
    ck!(a != b, "eq", "{}: different contents compare equal", what);
    ck!(!(a == b), "eq", "{}: different contents compare ==", what);
    let o = a.cmp(b);
    ck!(o != Ordering::Equal, "order", "{}: different contents order as equal", what);
    ck!(b.cmp(a) == o.reverse(), "order", "{}: order is not antisymmetric", what);
    ck!(a.partial_cmp(b) == Some(o), "order", "{}: cmp and partial_cmp disagree", what);
    ck!((a < b) == (o == Ordering::Less), "order", "{}: < disagrees with cmp", what);
    Ok(())
}

/// The order of a set of vectors: total, transitive and independent of how they were made.
fn total<T: Ord + Debug>(c: &mut Case, xs: &[T], what: &str) -> R {
    for x in xs {
        for y in xs {
            for z in xs {
                c.evals += 1;
                if x <= y && y <= z {
                    ck!(x <= z, "order", "{}: order is not transitive: {:?} {:?} {:?}", what, x, y, z);
                }
            }
        }
    }
    Ok(())
}

fn tail_bits<B: Blk>(c: &mut Case, v: &impl BitVec<Block = B>, n: u64, what: &str) -> R {
    if n % B::NB != 0 {
        c.evals += 1;
        let last = v.get_block((n / B::NB) as usize).u();
        ck!(last & !mask(n % B::NB) == 0, "tail-not-zero", "{}: unused bits of the last block are {:#x}", what, last);
    }
    Ok(())
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.len(B::NB, 6 * B::NB);
    let m = pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    c.mix(B::NB);
    c.nontrivial = n > 0;
    let what = format!("BitVector<{}> {}", B::NAME, show(&m));
    c.t(|| what.clone());
    let a = bvh::build_to::<B>(c, &m)?;
    let b = bvh::build_to::<B>(c, &m)?;
    tail_bits(c, &a, n, &what)?;
    tail_bits(c, &b, n, &what)?;
    same(c, &a, &b, &what)?;
    let mut d = a.clone();
    same(c, &a, &d, &what)?;
    // through a set, as a user would
    let mut hs = HashSet::new();
    hs.insert(a.clone());
    ck!(hs.contains(&b), "hash", "{}: not found in a HashSet holding an equal vector", what);
    let mut bs = BTreeSet::new();
    bs.insert(a.clone());
    ck!(bs.contains(&b), "order", "{}: not found in a BTreeSet holding an equal vector", what);
    // the clone is independent
    if n > 0 {
        let p = c.rng.below(n);
        d.set_bit(p, !m[p as usize]);
        differ(c, &a, &d, &format!("{} with bit {} flipped", what, p))?;
        same(c, &a, &b, &format!("{} after writing its clone", what))?;
        d.set_bit(p, m[p as usize]);
        same(c, &a, &d, &what)?;
    }
    d.push_bit(false);
    differ(c, &a, &d, &format!("{} with a zero pushed", what))?;
    ck!(a.bit_len() == n, "clone", "{}: pushing to the clone changed the original", what);
    d.pop_bit();
    same(c, &a, &d, &what)?;
    d.push_block(B::of(c.rng.next()));
    d.truncate(n);
    same(c, &a, &d, &format!("{} after push_block and truncate", what))?;
    d.resize(n + B::NB + 3, true);
    d.resize(n, false);
    same(c, &a, &d, &format!("{} after growing and shrinking", what))?;
    // order among a handful
    let mut xs = vec![a.clone(), d.clone()];
    for _ in 0..3 {
        let k = c.rng.len(B::NB, 2 * B::NB);
        let mm = pattern(&mut c.rng, k, B::NB);
        let x = bvh::build_to::<B>(c, &mm)?;
        let y = bvh::build_to::<B>(c, &m)?;
        if mm != m {
            differ(c, &a, &x, &what)?;
            ck!(a.cmp(&x) == y.cmp(&x), "order", "{}: order depends on history", what);
        }
        xs.push(x);
    }
    total(c, &xs, &what)?;
    let it = a.iter();
    ck!(it == a.iter() && h(&it) == h(&a.iter()), "eq", "{}: equal iterators differ", what);
    Ok(())
}
fn bits(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, bits_t, c)
}

fn ints_t<B: Blk>(c: &mut Case) -> R {
    let k = ivh::width(c, B::NB);
    let n = c.rng.len((B::NB / k).max(2), 4 * B::NB / k + 4);
    let xs: Vec<u64> = (0..n).map(|_| ivh::elem(c, k)).collect();
    c.mix(B::NB * 100 + k);
    for &x in &xs {
        c.mix(x);
    }
    c.nontrivial = n > 0;
    let what = format!("IntVector<{}>({} bits) of {}", B::NAME, k, n);
    c.t(|| format!("{} {:?}", what, xs));
    let a = ivh::build_to::<B>(c, k, &xs)?;
    let b = ivh::build_to::<B>(c, k, &xs)?;
    tail_bits(c, &a, n * k, &what)?;
    tail_bits(c, &b, n * k, &what)?;
    same(c, &a, &b, &what)?;
    let mut d = a.clone();
    same(c, &a, &d, &what)?;
    if n > 0 {
        let p = c.rng.below(n);
        d.set(p, B::of(xs[p as usize] ^ 1));
        differ(c, &a, &d, &format!("{} with element {} changed", what, p))?;
        same(c, &a, &b, &format!("{} after writing its clone", what))?;
        d.set(p, B::of(xs[p as usize]));
        same(c, &a, &d, &what)?;
    }
    d.push(B::of(0));
    differ(c, &a, &d, &format!("{} with a zero pushed", what))?;
    ck!(a.len() == n, "clone", "{}: pushing to the clone changed the original", what);
    d.pop();
    same(c, &a, &d, &what)?;
    // leave through raw blocks: whatever is beyond the last element must be forgotten
    let blocks = mon::ceil_div(n * k, B::NB);
    d.block_resize(blocks as usize + 1, B::of(c.rng.next()));
    d.truncate(n);
    same(c, &a, &d, &format!("{} after block_resize and truncate", what))?;
    if blocks > 0 {
        let raw = field(&raw(&xs, k), (blocks - 1) * B::NB, B::NB);
        let live = n * k - (blocks - 1) * B::NB;
        let junk = c.rng.next() & !mask(live) & mask(B::NB);
        d.set_block(blocks as usize - 1, B::of(raw | junk));
        same(c, &a, &d, &format!("{} after set_block of the last block", what))?;
    }
    d.resize(n + 5, B::of(mask(k)));
    d.resize(n, B::of(0));
    same(c, &a, &d, &format!("{} after growing and shrinking", what))?;
    let mut vs = vec![a.clone(), d.clone()];
    for _ in 0..3 {
        let l = c.rng.below(n + 2);
        let ys: Vec<u64> = (0..l).map(|_| ivh::elem(c, k)).collect();
        let x = ivh::build_to::<B>(c, k, &ys)?;
        if ys != xs {
            differ(c, &a, &x, &what)?;
            ck!(a.cmp(&x) == b.cmp(&x), "order", "{}: order depends on history", what);
        }
        vs.push(x);
    }
    total(c, &vs, &what)?;
    Ok(())
}
fn raw(xs: &[u64], k: u64) -> Vec<bool> {
    let mut v = vec![];
    for &x in xs {
        for i in 0..k {
            v.push((x >> i) & 1 == 1);
        }
    }
    v
}
fn ints(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, ints_t, c)
}

/// Long vectors that differ in one place only, wherever it is.
fn long_bits_t<B: Blk>(c: &mut Case, max: u64) -> R {
    let n = c.rng.range(1, max);
    let m = pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    c.mix(B::NB);
    c.nontrivial = true;
    let what = format!("BitVector<{}> of {} bits", B::NAME, n);
    c.t(|| what.clone());
    let a = bvh::build_to::<B>(c, &m)?;
    let b = bvh::build_to::<B>(c, &m)?;
    same(c, &a, &b, &what)?;
    let mut xs = vec![];
    for _ in 0..3 {
        let p = far(c, n, B::NB);
        let mut d = if c.rng.coin() { a.clone() } else { b.clone() };
        d.set_bit(p, !m[p as usize]);
        let what = format!("{}, bit {} different", what, p);
        differ(c, &a, &d, &what)?;
        ck!(a.cmp(&d) == b.cmp(&d), "order", "{}: order depends on history", what);
        let mut e = d.clone();
        e.set_bit(p, m[p as usize]);
        same(c, &e, &b, &format!("{} and back", what))?;
        xs.push(d);
    }
    let mut d = a.clone();
    d.truncate(far(c, n, B::NB));
    differ(c, &a, &d, &format!("{} against its first {}", what, d.bit_len()))?;
    xs.push(d);
    xs.push(a);
    total(c, &xs, &what)?;
    c.cov("long vectors");
    Ok(())
}
fn long_ints_t<B: Blk>(c: &mut Case, max: u64) -> R {
    let k = ivh::width(c, B::NB);
    let n = c.rng.range(1, max / k + 1);
    let xs: Vec<u64> = (0..n).map(|_| ivh::elem(c, k)).collect();
    c.mix(B::NB * 100 + k);
    for &x in &xs {
        c.mix(x);
    }
    c.nontrivial = true;
    let what = format!("IntVector<{}>({} bits) of {}", B::NAME, k, n);
    c.t(|| what.clone());
    let a = ivh::build_to::<B>(c, k, &xs)?;
    let b = ivh::build_to::<B>(c, k, &xs)?;
    same(c, &a, &b, &what)?;
    let mut vs = vec![];
    for _ in 0..3 {
        let p = far(c, n, (B::NB / k).max(1));
        let mut d = if c.rng.coin() { a.clone() } else { b.clone() };
        d.set(p, B::of(xs[p as usize] ^ 1 << c.rng.below(k)));
        let what = format!("{}, element {} different", what, p);
        differ(c, &a, &d, &what)?;
        ck!(a.cmp(&d) == b.cmp(&d), "order", "{}: order depends on history", what);
        d.set(p, B::of(xs[p as usize]));
        same(c, &d, &b, &format!("{} and back", what))?;
        d.set(p, B::of(xs[p as usize] ^ 1));
        vs.push(d);
    }
    let mut d = a.clone();
    d.truncate(far(c, n, 1));
    differ(c, &a, &d, &format!("{} against its first {}", what, d.len()))?;
    vs.push(d);
    vs.push(a);
    total(c, &vs, &what)
}
/// Anywhere, at the ends, or next to a multiple of a large power of two.
fn far(c: &mut Case, n: u64, nb: u64) -> u64 {
    let q = 1u64 << c.rng.below(14);
    let p = match c.rng.below(5) {
        0 => c.rng.below(n.min(nb + 1)),
        1 => n - 1 - c.rng.below(n.min(nb + 1)),
        2 | 3 => (c.rng.below(n / q + 1) * q + c.rng.below(2 * nb)).saturating_sub(nb),
        _ => c.rng.below(n),
    };
    p.min(n - 1)
}
fn long(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let max = c.rng.pick(&[1_500, 6_000, 40_000, 80_000]);
    if c.rng.coin() {
        with_blk!(k, long_bits_t, c, max)
    } else {
        with_blk!(k, long_ints_t, c, max)
    }
}

/// All bit vectors of at most 9 bits over bytes: pairwise.
fn exhaustive(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let mut all: Vec<(Vec<bool>, BitVector<u8>)> = vec![];
    for n in 0..=9u64 {
        for x in 0..1u64 << n {
            let m: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
            let mut v = BitVector::<u8>::with_fill(c.rng.below(20), c.rng.coin());
            v.resize(n, c.rng.coin());
            for (i, &b) in m.iter().enumerate() {
                v.set_bit(i as u64, b);
            }
            all.push((m, v));
        }
    }
    let per = all.len() / 16 + 1;
    let lo = c.index as usize * per;
    for i in lo..(lo + per).min(all.len()) {
        let other = {
            let mut v = BitVector::<u8>::block_with_fill(3, 0xEE);
            v.clear();
            for &b in &all[i].0 {
                v.push_bit(b);
            }
            v
        };
        for j in 0..all.len() {
            c.evals += 1;
            let (a, b) = (&other, &all[j].1);
            let o = a.cmp(b);
            ck!((o == Ordering::Equal) == (i == j), "order", "{:?} vs {:?}: {:?}", all[i].0, all[j].0, o);
            ck!((a == b) == (i == j), "eq", "{:?} vs {:?}", all[i].0, all[j].0);
            ck!(o == all[i].1.cmp(b), "order", "order depends on history: {:?} vs {:?}", all[i].0, all[j].0);
            if i == j {
                ck!(h(a) == h(b), "hash", "{:?}", all[i].0);
            }
        }
    }
    Ok(())
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(4);
    if k < 2 {
        mon::with_user_blk!(k, bits_t, c)
    } else {
        mon::with_user_blk!(k, ints_t, c)
    }
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("bits", 120_000, 4_000_000, bits),
        wl("ints", 120_000, 4_000_000, ints),
        wl("long", 8_000, 300_000, long),
        wl_fixed("exhaustive", 16, exhaustive),
        wl("user_blocks", 8_000, 400_000, user_blocks),
    ]
}
