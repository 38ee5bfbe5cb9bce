//! C18: reported space equals the memory actually owned.
use mon::alloc::live;
use mon::{bits, bvh, ck, ckeq, ivh, must, wl, with_blk, Blk, Case, Workload, R};
use std::mem::size_of;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::Broadword;
use succinct::rank::{JacobsonRank, Rank9};
use succinct::select::BinSearchSelect;
use succinct::{impl_stack_only_space_usage, BitVector, IntVector, SpaceUsage};

/// What a value says about itself against what the allocator saw.
fn judge<T: SpaceUsage>(c: &mut Case, v: &T, owned: i64, who: &dyn Fn() -> String) -> R {
    c.evals += 4;
    let heap = v.heap_bytes();
    ck!(heap as i64 == owned, "heap_bytes", "{}: heap_bytes() is {}, its allocations hold {} bytes", who(), heap, owned);
    ckeq!(T::stack_bytes(), size_of::<T>(), "stack_bytes", "{}: stack_bytes()", who());
    ckeq!(v.total_bytes(), size_of::<T>() + heap, "total_bytes", "{}: total_bytes()", who());
    ck!(!T::is_stack_only() || owned == 0, "stack-only", "{}: said to be stack-only, but owns {} bytes", who(), owned);
    if owned > 0 {
        c.cov("values owning heap memory");
    } else {
        c.cov("values owning none");
    }
    Ok(())
}
/// Builds a value, watching the allocator, and judges it.
fn made<T: SpaceUsage>(c: &mut Case, who: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, mon::Viol> {
    let before = live();
    let v = must("panic", who, f)?;
    let owned = live() - before;
    judge(c, &v, owned, who)?;
    Ok(v)
}
/// As `made`, and the memory is given back.
fn check<T: SpaceUsage>(c: &mut Case, who: &dyn Fn() -> String, f: impl FnOnce() -> T) -> R {
    let before = live();
    let v = must("panic", who, f)?;
    let owned = live() - before;
    judge(c, &v, owned, who)?;
    let l = live();
    drop(v);
    ckeq!(live() - l, -owned, "leak", "{}: bytes given back by dropping it, of {}", who(), owned);
    Ok(())
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let max = c.rng.bound(&[40, 200, 2000]) * B::NB / 8;
    let mut ops = vec![bvh::random_ctor(c, B::NB, max)];
    let mut m = vec![];
    bvh::model(&mut m, B::NB, &ops[0]);
    for _ in 0..c.rng.range(3, 60) {
        let o = bvh::random_op(c, B::NB, m.len() as u64, max);
        bvh::model(&mut m, B::NB, &o);
        ops.push(o);
    }
    let mut owned = 0;
    let mut v: BitVector<B> = BitVector::new();
    for (i, o) in ops.iter().enumerate() {
        let l = live();
        must("panic", &|| format!("{:?}", o), || bvh::real(&mut v, o))?;
        owned += live() - l;
        let who = || format!("BitVector<{}> after {:?} (step {})", B::NAME, o, i);
        c.t(|| format!("{:?}: {} bytes", o, owned));
        judge(c, &v, owned, &who)?;
        c.cov(bvh::name(o));
    }
    let l = live();
    drop(v);
    owned += live() - l;
    ckeq!(owned, 0, "leak", "bytes left after dropping a BitVector<{}>", B::NAME);
    mon::fp_bits(c, &m);
    Ok(())
}
fn ints_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let max = c.rng.bound(&[5, 40, 200]) * nb;
    let mut m = ivh::Model::new(k, nb);
    let mut ops = vec![ivh::random_ctor(c, k, nb, max)];
    m.apply(&ops[0]);
    for _ in 0..c.rng.range(3, 60) {
        let o = ivh::random_op(c, &m, max);
        m.apply(&o);
        ops.push(o);
    }
    let l = live();
    let mut v: IntVector<B> = IntVector::new(k as usize);
    let mut owned = live() - l;
    for (i, o) in ops.iter().enumerate() {
        let l = live();
        must("panic", &|| format!("{:?}", o), || ivh::real(&mut v, o))?;
        owned += live() - l;
        let who = || format!("IntVector<{}> of {}-bit elements after {:?} (step {})", B::NAME, k, o, i);
        c.t(|| format!("{:?}: {} bytes", o, owned));
        judge(c, &v, owned, &who)?;
        c.cov(ivh::name(o));
    }
    let l = live();
    drop(v);
    owned += live() - l;
    ckeq!(owned, 0, "leak", "bytes left after dropping an IntVector<{}>", B::NAME);
    mon::fp_bits(c, &m.bits);
    c.mix(k);
    Ok(())
}
/// Histories of the two vectors.
fn histories(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 10);
    c.nontrivial = true;
    if k / 5 % 2 == 0 {
        with_blk!(k, bits_t, c)
    } else {
        with_blk!(k, ints_t, c)
    }
}

fn layers_t<B: Blk>(c: &mut Case) -> R {
    let n = match c.rng.below(4) {
        0 => c.rng.below(3),
        1 => c.rng.below(100),
        2 => c.rng.below(5000),
        _ => c.rng.below(60_000),
    };
    let m = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    // with or without spare capacity
    let mut v: BitVector<B> = BitVector::with_capacity(n + c.rng.below(500));
    for &b in &m {
        use succinct::BitVecPush;
        v.push_bit(b);
    }
    let name = B::NAME;
    let who = |s: &str| format!("{} over BitVector<{}> of {} bits", s, name, n);
    check(c, &|| who("BitVector (clone)"), || v.clone())?;
    check(c, &|| who("JacobsonRank"), || JacobsonRank::new(v.clone()))?;
    check(c, &|| who("BinSearchSelect<JacobsonRank>"), || BinSearchSelect::new(JacobsonRank::new(v.clone())))?;
    check(c, &|| who("JacobsonRank<Vec>"), || JacobsonRank::new(vec![B::of(5); (n % 50) as usize]))?;
    check(c, &|| who("Box<JacobsonRank>"), || Box::new(JacobsonRank::new(v.clone())))?;
    check(c, &|| who("(JacobsonRank, BitVector)"), || (JacobsonRank::new(v.clone()), v.clone()))?;
    // over something borrowed: only the index is its own
    check(c, &|| who("JacobsonRank<BitSlice>"), || JacobsonRank::new(BitSlice::new(&v, ..)))?;
    check(c, &|| who("BitSlice"), || BitSlice::new(&v, ..))?;
    {
        let mut w = v.clone();
        check(c, &|| who("BitSliceMut"), || BitSliceMut::new(&mut w, ..))?;
    }
    let mut w: BitVector<u64> = BitVector::with_capacity(n + c.rng.below(500));
    for &b in &m {
        use succinct::BitVecPush;
        w.push_bit(b);
    }
    check(c, &|| who("Rank9"), || Rank9::new(w.clone()))?;
    check(c, &|| who("BinSearchSelect<Rank9>"), || BinSearchSelect::new(Rank9::new(w.clone())))?;
    check(c, &|| who("Rank9<BitSlice>"), || Rank9::new(BitSlice::new(&w, ..)))?;
    check(c, &|| who("JacobsonRank<Rank9>"), || JacobsonRank::new(Rank9::new(w.clone())))?;
    check(c, &|| who("Vec<Rank9>"), || {
        let mut x = Vec::with_capacity(3);
        x.push(Rank9::new(w.clone()));
        x.push(Rank9::new(w.clone()));
        x
    })?;
    // taking the store back leaves exactly the store
    let l = live();
    let r = JacobsonRank::new(v.clone());
    let s = r.into_inner();
    judge(c, &s, live() - l, &|| who("JacobsonRank::into_inner"))?;
    let l = live();
    let r = Rank9::new(w.clone());
    let s2 = r.into_inner();
    judge(c, &s2, live() - l, &|| who("Rank9::into_inner"))?;
    Ok(())
}
/// Rank and select layers.
fn layers(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, layers_t, c)
}

#[derive(Debug, Clone)]
struct Point {
    _x: u32,
    _y: u8,
}
impl_stack_only_space_usage!(Point);

/// Containers of containers.
fn nested(c: &mut Case) -> R {
    c.nontrivial = true;
    let r = &mut c.rng;
    let (a, b, d) = (r.below(20) as usize, r.below(20) as usize, r.below(20) as usize);
    let n = r.below(300);
    let k = r.range(1, 32) as usize;
    c.mix(a as u64 | (b as u64) << 8 | (d as u64) << 16 | n << 24 | (k as u64) << 40);
    c.t(|| format!("sizes {} {} {} {} {}", a, b, d, n, k));
    let bv = move || BitVector::<u8>::with_fill(n, true);
    let iv = move || IntVector::<u32>::with_capacity(k, n);
    fn cap<T>(n: usize, extra: usize, f: impl Fn() -> T) -> Vec<T> {
        let mut v = Vec::with_capacity(n + extra);
        for _ in 0..n {
            v.push(f());
        }
        v
    }
    macro_rules! t {
        ($($e:expr),* $(,)?) => { $( check(c, &|| stringify!($e).to_string(), || $e)?; )* };
    }
    t!(
        cap(a, b, || 7u8),
        cap(a, b, || 7u16),
        cap(a, b, || 7u64),
        cap(a, b, || 1.5f64),
        cap(a, b, || ()),
        cap(a, b, || Point { _x: 1, _y: 2 }),
        cap(a, b, || (1u8, 2u32)),
        cap(a, b, bv),
        cap(a, b, iv),
        cap(a, b, || cap(d, 1, || 3u32)),
        cap(a, b, || cap(d, 1, || cap(2, 0, bv))),
        cap(a, b, || Box::new(5u64)),
        cap(a, b, || Box::new(bv())),
        cap(a, b, || (bv(), 3u8, iv())),
        Box::new(3u16),
        Box::new(Box::new(3u16)),
        Box::new(bv()),
        Box::new(cap(a, b, bv)),
        Box::new((bv(), iv(), 5u8)),
        (bv(),),
        (bv(), iv()),
        (1u8, bv(), 2u64),
        (1u8, bv(), 2u64, cap(a, b, iv)),
        (bv(), bv(), bv(), bv(), bv()),
        (bv(), 1u8, iv(), 2u8, bv(), 3u16),
        (1u8, 2u8, 3u8, 4u8, 5u8, 6u8, bv()),
        (bv(), 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, iv()),
        (1u8, bv(), 3u8, 4u8, iv(), 6u8, 7u8, 8u8, bv()),
        (1u8, bv(), 3u8, 4u8, iv(), 6u8, 7u8, 8u8, 9u8, bv()),
        (1u8, 2u8, bv(), 4u8, 5u8, iv(), 7u8, 8u8, 9u8, 10u8, bv()),
        (bv(), 2u8, 3u8, iv(), 5u8, 6u8, 7u8, bv(), 9u8, 10u8, 11u8, iv()),
        ((bv(), 1u8), (iv(), (bv(),))),
        JacobsonRank::new(bv()),
        BinSearchSelect::new(JacobsonRank::new(bv())),
        (Rank9::new(BitVector::<u64>::with_fill(n, true)), bv()),
        7u8, 7u16, 7u32, 7u64, 7usize, 7i8, 7i16, 7i32, 7i64, 7isize, 1.0f32, 1.0f64, (),
        Point { _x: 1, _y: 2 },
        (1u8, 2u16, 3u64),
        BinSearchSelect::new(77u64),
    );
    let v = bv();
    let s = [1u32, 2, 3];
    t!(&v, &s[..], (&v, &s[..], 1u8), cap(a, b, || &v));
    // borrowed things are stack-only; owned ones are not
    c.evals += 3;
    ck!(<&BitVector<u8>>::is_stack_only() && u32::is_stack_only() && <(u8, u64)>::is_stack_only(), "stack-only", "references and primitive tuples are stack-only");
    ck!(!BitVector::<u8>::is_stack_only() && !<(u8, BitVector<u8>)>::is_stack_only() && !Vec::<u8>::is_stack_only() && !Box::<u8>::is_stack_only(), "stack-only", "owning types are not stack-only");
    ck!(!IntVector::<u8>::is_stack_only() && !JacobsonRank::<BitVector<u8>>::is_stack_only() && !Rank9::<BitVector<u64>>::is_stack_only() && !BinSearchSelect::<Rank9<BitVector<u64>>>::is_stack_only(), "stack-only", "owning types are not stack-only");
    let w = made(c, &|| "Box<Vec<BitVector>>".into(), || Box::new(cap(a, b, bv)))?;
    let _ = &w;
    let _ = Broadword(3u64);
    Ok(())
}

/// Containers whose elements own different amounts: all random, or alike but for a few.
fn uneven(c: &mut Case) -> R {
    c.nontrivial = true;
    let n = if c.rng.chance(1, 20) { c.rng.below(3000) } else { c.rng.below(70) } as usize;
    let base = c.rng.below(40);
    let mut sizes: Vec<u64> = vec![base; n];
    match c.rng.below(4) {
        0 => sizes.iter_mut().for_each(|x| *x = c.rng.below(200)),
        1 => sizes.iter_mut().for_each(|x| *x = if c.rng.chance(1, 8) { c.rng.below(200) } else { *x }),
        _ => {
            for _ in 0..c.rng.range(1, 2) {
                if n > 0 {
                    let at = match c.rng.below(4) {
                        0 => n - 1,
                        1 => 0,
                        _ => c.rng.below(n as u64) as usize,
                    };
                    sizes[at] = c.rng.below(1000);
                }
            }
        }
    }
    c.mix(n as u64);
    for &x in sizes.iter().take(50) {
        c.mix(x);
    }
    c.t(|| format!("elements own {:?}", sizes));
    c.cov(if n > 16 { "vectors of more than 16 containers" } else { "vectors of few containers" });
    fn vec_of<T>(sizes: &[u64], f: impl Fn(u64) -> T) -> Vec<T> {
        let mut v = Vec::with_capacity(sizes.len());
        v.extend(sizes.iter().map(|&x| f(x)));
        v
    }
    let bv = |x: u64| BitVector::<u16>::with_capacity(x);
    let iv = |x: u64| IntVector::<u64>::with_fill(7, x, 5);
    let by = |x: u64| Vec::<u8>::with_capacity(x as usize);
    let half = sizes.len() / 2;
    let (lo, hi) = sizes.split_at(half);
    macro_rules! t {
        ($($e:expr),* $(,)?) => { $( check(c, &|| format!("{} with {} elements", stringify!($e), n), || $e)?; )* };
    }
    match c.rng.below(5) {
        0 => { t!(vec_of(&sizes, bv), vec_of(&sizes, iv)); }
        1 => { t!(vec_of(&sizes, by), (vec_of(lo, by), vec_of(hi, bv)), Box::new(vec_of(&sizes, by))); }
        2 => { t!(vec_of(&sizes, |x| Box::new(bv(x))), vec_of(&sizes, |x| (1u8, by(x), Box::new(x)))); }
        3 => { t!(vec_of(&[1, 2, 3], |x| vec_of(&sizes[..(half * x as usize).min(n)], by)), vec_of(&sizes, |x| vec_of(&[x, 1, x + 1], by))); }
        _ => { t!(vec_of(&sizes, |x| JacobsonRank::new(bv(x))), vec_of(&sizes, |x| Rank9::new(vec![x; (x % 20) as usize]))); }
    }
    Ok(())
}

/// A vector grown, shrunk and regrown keeps reporting the truth while inside other containers.
fn inside_t<B: Blk>(c: &mut Case) -> R {
    let max = 300 * B::NB / 8;
    let mut ops = vec![];
    let mut m: [Vec<bool>; 2] = [vec![], vec![]];
    for _ in 0..c.rng.range(5, 40) {
        let w = c.rng.below(2) as usize;
        let o = bvh::random_op(c, B::NB, m[w].len() as u64, max);
        bvh::model(&mut m[w], B::NB, &o);
        ops.push((w, o));
    }
    let l = live();
    let mut t = (Box::new(BitVector::<B>::new()), vec![BitVector::<B>::new()]);
    let mut owned = live() - l;
    for (w, o) in &ops {
        let l = live();
        must("panic", &|| format!("{:?}", o), || bvh::real(if *w == 0 { &mut *t.0 } else { &mut t.1[0] }, o))?;
        owned += live() - l;
        judge(c, &t, owned, &|| format!("(Box<BitVector<{}>>, Vec<BitVector>) after {:?}", B::NAME, o))?;
    }
    mon::fp_bits(c, &m[0]);
    mon::fp_bits(c, &m[1]);
    Ok(())
}
fn inside(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, inside_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("histories", 20_000, 800_000, histories),
        wl("layers", 3_000, 60_000, layers),
        wl("nested", 2_000, 60_000, nested),
        wl("uneven", 6_000, 200_000, uneven),
        wl("inside", 5_000, 200_000, inside),
    ]
}
