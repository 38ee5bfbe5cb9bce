//! C17: iterators agree with indexing under every order of calls.
use mon::{bits, bvh, ck, ivh, must, wl, wl_fixed, wl_serial, with_blk, Blk, Case, Viol, Workload, R};
use std::fmt::Debug;
use succinct::{BitVecMut, BitVector, IntVecMut, IntVector};

#[cfg(target_pointer_width = "64")]
pub trait It: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone {}
#[cfg(target_pointer_width = "64")]
impl<I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone> It for I {}
// a 32-bit usize cannot count every vector's elements: no exact length there
#[cfg(target_pointer_width = "32")]
pub trait It: Iterator + DoubleEndedIterator + Clone {}
#[cfg(target_pointer_width = "32")]
impl<I: Iterator + DoubleEndedIterator + Clone> It for I {}

#[cfg(target_pointer_width = "64")]
fn left<I: It>(i: &I) -> usize {
    i.len()
}
#[cfg(target_pointer_width = "32")]
fn left<I: It>(i: &I) -> usize {
    i.size_hint().0
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Len,
    Hint,
    /// ends the iterator
    Count,
    Last,
    Fold,
    Rev,
    Collect,
    Skip(usize, usize),
    StepBy(usize),
    Position,
    CloneThen,
}

/// Runs one operation on both; the string is the pair of answers if they differ.
fn step<I: It, J: It<Item = I::Item>>(a: &mut I, b: &mut J, op: &Op) -> Result<(), String>
where
    I::Item: Debug + PartialEq + Copy,
{
    macro_rules! same {
        ($x:expr, $y:expr) => {{
            let x = $x;
            let y = $y;
            if x != y {
                return Err(format!("got {:?}, a slice iterator gives {:?}", x, y));
            }
        }};
    }
    match *op {
        Op::Next => same!(a.next(), b.next()),
        Op::Back => same!(a.next_back(), b.next_back()),
        Op::Nth(n) => same!(a.nth(n), b.nth(n)),
        Op::NthBack(n) => same!(a.nth_back(n), b.nth_back(n)),
        Op::Len => same!(left(a), left(b)),
        Op::Hint => same!(a.size_hint(), b.size_hint()),
        Op::Count => same!(a.clone().count(), b.clone().count()),
        Op::Last => same!(a.clone().last(), b.clone().last()),
        Op::Fold => {
            let f = |i: I::Item, v: &mut Vec<I::Item>| v.push(i);
            let (mut x, mut y) = (vec![], vec![]);
            a.clone().for_each(|i| f(i, &mut x));
            b.clone().for_each(|i| f(i, &mut y));
            same!(x, y)
        }
        Op::Rev => same!(a.clone().rev().collect::<Vec<_>>(), b.clone().rev().collect::<Vec<_>>()),
        Op::Collect => same!(a.clone().collect::<Vec<_>>(), b.clone().collect::<Vec<_>>()),
        Op::Skip(n, m) => {
            let (mut x, mut y) = (a.clone().skip(n), b.clone().skip(n));
            same!(x.size_hint(), y.size_hint());
            same!(x.nth(m), y.nth(m));
            same!(x.next(), y.next());
            #[cfg(target_pointer_width = "64")]
            same!(x.next_back(), y.next_back());
            same!(x.next(), y.next());
        }
        Op::StepBy(n) => same!(a.clone().step_by(n).take(100).collect::<Vec<_>>(), b.clone().step_by(n).take(100).collect::<Vec<_>>()),
        Op::Position => {
            // rposition walks from the back and uses len()
            if let Some(x) = b.clone().next() {
                #[cfg(target_pointer_width = "64")]
                same!(a.clone().rposition(|y| y == x), b.clone().rposition(|y| y == x));
                same!(a.clone().rfind(|&y| y == x), b.clone().rfind(|&y| y == x));
                same!(a.clone().position(|y| y != x), b.clone().position(|y| y != x));
            }
        }
        Op::CloneThen => {
            let (mut x, mut y) = (a.clone(), b.clone());
            same!(x.next(), y.next());
            same!(x.next_back(), y.next_back());
            same!(left(&x), left(&y));
            // the clone's steps leave the original alone
            same!(left(a), left(b));
        }
    }
    same!(left(a), left(b));
    same!(a.size_hint(), b.size_hint());
    Ok(())
}
fn op(c: &mut Case, left: usize) -> Op {
    let far = |c: &mut Case| match c.rng.below(6) {
        0 => left,
        1 => left + 1,
        2 => left.saturating_sub(1),
        3 => usize::MAX - c.rng.below(3) as usize,
        4 => left + c.rng.below(100) as usize,
        _ => c.rng.below(left as u64 + 2) as usize,
    };
    match c.rng.below(24) {
        0..=4 => Op::Next,
        5..=9 => Op::Back,
        10 | 11 => Op::Nth(c.rng.below(6) as usize),
        12 => Op::Nth(far(c)),
        13 => Op::NthBack(c.rng.below(6) as usize),
        14 => Op::NthBack(far(c)),
        15 => Op::Len,
        16 => Op::Hint,
        17 => Op::Count,
        18 => Op::Last,
        19 => {
            if c.rng.chance(1, 4) {
                Op::Fold
            } else {
                Op::CloneThen
            }
        }
        20 => {
            if c.rng.coin() {
                Op::Rev
            } else {
                Op::Collect
            }
        }
        21 => {
            let n = far(c);
            let m = c.rng.below(4) as usize;
            Op::Skip(n.min(usize::MAX / 2), m)
        }
        22 => Op::StepBy(c.rng.range(1, 9) as usize),
        _ => Op::Position,
    }
}
const COV: [(&str, fn(&Op) -> bool); 4] = [
    ("op:next/next_back", |o| matches!(o, Op::Next | Op::Back)),
    ("op:nth/nth_back", |o| matches!(o, Op::Nth(_) | Op::NthBack(_))),
    ("op:len/size_hint/count/last", |o| matches!(o, Op::Len | Op::Hint | Op::Count | Op::Last)),
    ("op:clone, adapters, whole traversals", |o| !matches!(o, Op::Next | Op::Back | Op::Nth(_) | Op::NthBack(_) | Op::Len | Op::Hint | Op::Count | Op::Last)),
];

fn session<I: It, T: Copy + Debug + PartialEq>(c: &mut Case, real: I, list: &[T], who: &str) -> R
where
    I: Iterator<Item = T>,
{
    let mut a = real;
    let mut b = list.iter().copied();
    let n = c.rng.range(4, 60);
    let mut after_end = 0;
    for _ in 0..n {
        let left = b.len();
        let o = op(c, left);
        c.t(|| format!("{:?} with {} left", o, left));
        c.evals += 1;
        for (k, f) in COV {
            if f(&o) {
                c.cov(k);
            }
        }
        if matches!(o, Op::Nth(k) | Op::NthBack(k) if k >= left) {
            c.cov("skips past the end");
        }
        if left == 0 {
            c.cov("calls on a finished iterator");
            after_end += 1;
            if after_end > 6 {
                break;
            }
        }
        let r = must("panic", &|| format!("{}: {:?} with {} of {} left", who, o, left, list.len()), || step(&mut a, &mut b, &o))?;
        if let Err(e) = r {
            return Err(Viol { sig: "iterator".into(), msg: format!("{} of {} elements: {:?} with {} left: {}", who, list.len(), o, left, e) });
        }
    }
    // whatever is left, from both ends
    let r = must("panic", &|| format!("{}: draining", who), || {
        for i in 0..list.len() + 2 {
            step(&mut a, &mut b, if i % 3 == 1 { &Op::Back } else { &Op::Next })?;
        }
        Ok::<(), String>(())
    })?;
    if let Err(e) = r {
        return Err(Viol { sig: "iterator".into(), msg: format!("{} of {} elements, draining: {}", who, list.len(), e) });
    }
    Ok(())
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.size(B::NB, 5 * B::NB);
    let m = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    let v: BitVector<B> = bvh::build_to(c, &m)?;
    c.nontrivial = n > 0;
    c.t(|| format!("BitVector<{}> of {} bits", B::NAME, n));
    // agrees with indexing
    for (i, b) in v.iter().enumerate() {
        ck!(b == m[i], "element", "BitVector<{}>: element {} of the iterator", B::NAME, i);
    }
    let mut k = 0;
    for b in &v {
        ck!(k < m.len() && b == m[k], "into_iter", "&BitVector<{}> as IntoIterator: element {}", B::NAME, k);
        k += 1;
    }
    ck!(k == m.len(), "into_iter", "&BitVector<{}> as IntoIterator yields {} of {}", B::NAME, k, m.len());
    c.evals += n;
    session(c, v.iter(), &m, &format!("BitVector<{}>::iter", B::NAME))
}
fn ints_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let n = (c.rng.size(nb, 5 * nb) / k).max(c.rng.below(3));
    let list: Vec<u64> = (0..n).map(|_| ivh::elem(c, k)).collect();
    for &x in &list {
        c.mix(x);
    }
    c.mix(k << 32 | n);
    let v: IntVector<B> = ivh::build_to(c, k, &list)?;
    let m: Vec<B> = list.iter().map(|&x| B::of(x)).collect();
    c.nontrivial = n > 0;
    c.t(|| format!("IntVector<{}> of {} elements of {} bits", B::NAME, n, k));
    let got: Vec<B> = v.iter().collect();
    ck!(got == m, "element", "IntVector<{}>: iterating {} elements of {} bits", B::NAME, n, k);
    let mut i = 0;
    for x in &v {
        ck!(i < m.len() && x == m[i], "into_iter", "&IntVector<{}> as IntoIterator: element {}", B::NAME, i);
        i += 1;
    }
    ck!(i == m.len(), "into_iter", "&IntVector<{}> as IntoIterator yields {} of {}", B::NAME, i, m.len());
    c.evals += 2 * n;
    session(c, v.iter(), &m, &format!("IntVector<{}>::iter ({} bits)", B::NAME, k))
}
fn random(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k);
    if c.rng.coin() {
        with_blk!(k, bits_t, c)
    } else {
        with_blk!(k, ints_t, c)
    }
}

/// Every sequence of 5 calls, at every small length.
fn exhaustive_t<B: Blk>(c: &mut Case, n: u64, k: u64) -> R {
    let list: Vec<u64> = (0..n).map(|i| (i * 5 + 3) & mon::mask(k)).collect();
    let m: Vec<B> = list.iter().map(|&x| B::of(x)).collect();
    let mut v = IntVector::<B>::new(k as usize);
    for &x in &m {
        v.push(x);
    }
    let bl: Vec<bool> = list.iter().map(|x| x & 1 == 1).collect();
    let mut bv = BitVector::<B>::new();
    for &x in &bl {
        use succinct::BitVecPush;
        bv.push_bit(x);
    }
    let ops = [Op::Next, Op::Back, Op::Nth(0), Op::Nth(1), Op::Nth(2), Op::Nth(n as usize), Op::Nth(usize::MAX), Op::NthBack(1), Op::NthBack(n as usize), Op::Last, Op::CloneThen];
    let q = ops.len() as u64;
    for code in 0..q.pow(5) {
        let (mut a, mut b) = (v.iter(), m.iter().copied());
        let (mut d, mut e) = (bv.iter(), bl.iter().copied());
        let mut x = code;
        for _ in 0..5 {
            let o = &ops[(x % q) as usize];
            x /= q;
            let r = must("panic", &|| format!("{:?} in sequence {}", o, code), || step(&mut a, &mut b, o).and_then(|_| step(&mut d, &mut e, o)))?;
            if let Err(w) = r {
                return Err(Viol { sig: "iterator".into(), msg: format!("{} elements of {} bits, sequence {} at {:?}: {}", n, k, code, o, w) });
            }
        }
        c.evals += 10;
    }
    Ok(())
}
fn exhaustive(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let n = c.index % 5;
    match c.index / 5 {
        0 => exhaustive_t::<u8>(c, n, 3),
        _ => exhaustive_t::<u64>(c, n, 64),
    }
}

/// Equal iterators compare equal; iterators at different places do not.
fn compare_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.range(3, 60);
    let m = bits::pattern(&mut c.rng, n, B::NB);
    let v: BitVector<B> = bvh::build_to(c, &m)?;
    let (mut a, mut b) = (v.iter(), v.iter());
    for _ in 0..c.rng.below(n) {
        if c.rng.coin() {
            a.next();
            b.next();
        } else {
            a.next_back();
            b.next_back();
        }
        c.evals += 1;
        ck!(a.clone().eq(b.clone()), "eq", "two iterators moved alike differ");
    }
    Ok(())
}
fn compare(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.next();
    c.mix(k);
    with_blk!(k, compare_t, c)
}

/// More elements than 32 bits can count.
fn huge(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let n = (1u64 << 32) + 70 + c.rng.below(100);
    let mut v: BitVector<u64> = BitVector::block_with_fill((n / 64 + 1) as usize, 0);
    v.truncate(n);
    let marks = [0, 5, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, n - 1];
    for &p in &marks {
        v.set_bit(p, true);
    }
    let mut a = v.iter();
    #[cfg(target_pointer_width = "64")]
    ck!(a.len() as u64 == n, "len", "an iterator over {} bits reports {}", n, a.len());
    let mut at = 0u64;
    for &p in &marks {
        let got = if p - at > usize::MAX as u64 {
            // no single skip reaches this far
            a.nth(usize::MAX);
            a.nth((p - at - usize::MAX as u64 - 1) as usize)
        } else {
            a.nth((p - at) as usize)
        };
        c.evals += 1;
        ck!(got == Some(true), "nth", "bit {} of {} through nth: {:?}", p, n, got);
        at = p + 1;
        let (lo, hi) = a.size_hint();
        ck!(lo as u64 <= n - at && hi.map_or(true, |h| h as u64 >= n - at), "size_hint", "after bit {} of {}: {:?}", p, n, (lo, hi));
        if n - at <= usize::MAX as u64 {
            ck!((lo, hi) == ((n - at) as usize, Some((n - at) as usize)), "size_hint", "after bit {} of {}: {:?}", p, n, (lo, hi));
        }
        #[cfg(target_pointer_width = "64")]
        ck!(a.len() as u64 == n - at, "len", "remaining length after bit {}: {}", p, a.len());
    }
    ck!(a.next().is_none() && a.next_back().is_none(), "end", "after the last bit");
    let mut a = v.iter();
    ck!(a.next_back() == Some(true), "back", "last bit");
    ck!(a.nth(((1u64 << 32) - 1) as usize) == Some(true), "nth", "bit 2^32 - 1");
    ck!(a.next() == Some(true), "nth", "bit 2^32");
    ck!(a.last() == Some(false), "last", "the bit before the last");
    // counting them one by one is no fault, but takes long in checked builds
    #[cfg(all(target_pointer_width = "64", not(debug_assertions)))]
    {
        let mut a = v.iter();
        a.next();
        ck!(a.clone().count() as u64 == n - 1, "count", "{} bits left: count() gives {}", n - 1, a.clone().count());
        a.next_back();
        ck!(a.clone().count() as u64 == n - 2, "count", "{} bits left: count() gives {}", n - 2, a.clone().count());
    }
    drop(v);
    let mut w: IntVector<u64> = IntVector::block_with_fill(1, (n / 64 + 1) as usize, 0);
    w.truncate(n);
    w.set(1 << 32, 1);
    let mut a = w.iter();
    ck!(a.nth(((1u64 << 32) - 1) as usize) == Some(0), "nth", "element 2^32 - 1");
    ck!(a.next() == Some(1), "nth", "element 2^32");
    let (lo, hi) = a.size_hint();
    ck!((lo as u64, hi.map(|h| h as u64)) == (n - (1 << 32) - 1, Some(n - (1 << 32) - 1)), "size_hint", "after element 2^32");
    #[cfg(target_pointer_width = "64")]
    ck!(a.len() as u64 == n - (1 << 32) - 1, "len", "after element 2^32");
    c.cov("iterators over more than 2^32 elements");
    Ok(())
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(4);
    if k < 2 {
        mon::with_user_blk!(k, bits_t, c)
    } else {
        mon::with_user_blk!(k, ints_t, c)
    }
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("random", 40_000, 2_000_000, random),
        wl_fixed("exhaustive", 10, exhaustive),
        wl("compare", 2_000, 50_000, compare),
        wl_serial("huge", 1, 3, huge),
        wl("user_blocks", 3_000, 150_000, user_blocks),
    ]
}
