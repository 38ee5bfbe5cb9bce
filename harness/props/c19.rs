//! C19: capacity promises hold.
use mon::alloc::allocs;
use mon::bits::ceil_div;
use mon::{bits, bvh, ck, ckeq, ivh, must, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use succinct::stream::{BitBuffer, BitWrite};
use succinct::{BitVec, BitVecPush, BitVector, IntVec, IntVector};

/// The two vectors seen alike: what can be observed of their storage.
trait Caps {
    fn cap(&self) -> u64;
    fn bcap(&self) -> u64;
    fn count(&self) -> u64;
    fn blocks(&self) -> u64;
    fn add(&mut self, i: u64);
    fn rm(&mut self);
}
impl<B: Blk> Caps for BitVector<B> {
    fn cap(&self) -> u64 {
        self.capacity()
    }
    fn bcap(&self) -> u64 {
        self.block_capacity() as u64
    }
    fn count(&self) -> u64 {
        self.bit_len()
    }
    fn blocks(&self) -> u64 {
        self.block_len() as u64
    }
    fn add(&mut self, i: u64) {
        self.push_bit(i % 3 == 0)
    }
    fn rm(&mut self) {
        self.pop_bit();
    }
}
impl<B: Blk> Caps for IntVector<B> {
    fn cap(&self) -> u64 {
        self.capacity()
    }
    fn bcap(&self) -> u64 {
        self.block_capacity() as u64
    }
    fn count(&self) -> u64 {
        self.len()
    }
    fn blocks(&self) -> u64 {
        self.block_len() as u64
    }
    fn add(&mut self, i: u64) {
        let k = self.element_bits() as u64;
        self.push(B::of(i & mon::mask(k)))
    }
    fn rm(&mut self) {
        self.pop();
    }
}

/// Pushing up to the reported capacity allocates nothing and moves nothing.
fn fill_up<V: Caps>(c: &mut Case, v: &mut V, limit: u64, who: &dyn Fn() -> String) -> R {
    let cap = v.cap();
    let n = v.count();
    ck!(cap >= n, "capacity", "{}: capacity {} below the length {}", who(), cap, n);
    if cap - n > limit {
        return Ok(());
    }
    let a = allocs();
    for i in n..cap {
        v.add(i);
        if allocs() != a {
            ck!(false, "reallocated", "{}: pushing element {} within the capacity {} allocated", who(), i, cap);
        }
    }
    c.evals += cap - n + 1;
    ckeq!(v.cap(), cap, "reallocated", "{}: capacity after pushing up to it", who());
    c.cov("filled up to the capacity");
    Ok(())
}

/// What an operation may do to the storage. `req`: elements and blocks that must fit afterwards.
struct Before {
    cap: u64,
    bcap: u64,
    n: u64,
    blocks: u64,
}
enum Rule {
    /// at least this many elements, and quiet if they already fit
    Elems(u64),
    /// at least this many blocks
    Blocks(u64),
    /// the storage stays exactly as it is
    Keep,
    /// nothing asked
    Any,
}
fn after<V: Caps>(c: &mut Case, v: &V, b: &Before, grew: u64, rule: Rule, fresh: bool, who: &dyn Fn() -> String) -> R {
    c.evals += 2;
    ck!(v.cap() >= v.count(), "capacity", "{}: capacity {} below the length {}", who(), v.cap(), v.count());
    ck!(v.bcap() >= v.blocks(), "capacity", "{}: block capacity {} below the block count {}", who(), v.bcap(), v.blocks());
    match rule {
        Rule::Elems(n) => {
            ck!(v.cap() >= n, "promise", "{}: capacity {} afterwards, {} elements were asked for", who(), v.cap(), n);
            if !fresh && b.cap >= n {
                ck!(grew == 0 && v.bcap() == b.bcap, "needless", "{}: {} elements already fit, but it allocated (block capacity {} to {})", who(), n, b.bcap, v.bcap());
                c.cov("reservations already satisfied");
            } else {
                c.cov("reservations to be satisfied");
            }
        }
        Rule::Blocks(n) => {
            ck!(v.bcap() >= n, "promise", "{}: block capacity {} afterwards, {} blocks were asked for", who(), v.bcap(), n);
            if !fresh && b.bcap >= n {
                ck!(grew == 0 && v.bcap() == b.bcap, "needless", "{}: {} blocks already fit, but it allocated", who(), n);
                c.cov("reservations already satisfied");
            } else {
                c.cov("reservations to be satisfied");
            }
        }
        Rule::Keep => {
            ck!(grew == 0 && v.bcap() == b.bcap && v.cap() == b.cap, "not-kept", "{}: storage went from {} to {} blocks ({} allocations)", who(), b.bcap, v.bcap(), grew);
            c.cov("storage kept");
        }
        Rule::Any => {}
    }
    Ok(())
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let max = c.rng.bound(&[5, 30, 200]) * nb;
    let mut h: bvh::Bvh<B> = bvh::Bvh::empty();
    for s in 0..c.rng.range(3, 50) {
        let n = h.m.len() as u64;
        let o = if s == 0 { bvh::random_ctor(c, nb, max) } else { bvh::random_op(c, nb, n, max) };
        let b = Before { cap: h.v.cap(), bcap: h.v.bcap(), n, blocks: ceil_div(n, nb) };
        // the operation alone, between two looks at the allocator
        let a = allocs();
        let got = must("panic", &|| format!("{:?}", o), || bvh::real(&mut h.v, &o))?;
        let grew = allocs() - a;
        let want = bvh::model(&mut h.m, nb, &o);
        ckeq!(got, want, "pop", "result of {:?}", o);
        c.cov(bvh::name(&o));
        c.t(|| format!("{:?}: capacity {} to {}", o, b.cap, h.v.cap()));
        use bvh::Op::*;
        let (rule, fresh) = match o {
            Reserve(k) | ReserveExact(k) => (Rule::Elems(b.n + k), false),
            BlockReserve(k) | BlockReserveExact(k) => (Rule::Blocks(b.blocks + k), false),
            WithCapacity(k) => (Rule::Elems(k), true),
            BlockWithCapacity(k) => (Rule::Blocks(k), true),
            Clear | Truncate(_) | BlockTruncate(_) | Pop => (Rule::Keep, false),
            Push(_) => (if b.n < b.cap { Rule::Keep } else { Rule::Any }, false),
            PushBlock(_) => (if b.blocks < b.bcap { Rule::Keep } else { Rule::Any }, false),
            Resize(k, _) => (if k <= b.n { Rule::Keep } else { Rule::Elems(k) }, false),
            BlockResize(k, _) => (if k <= b.blocks { Rule::Keep } else { Rule::Blocks(k) }, false),
            _ => (Rule::Any, false),
        };
        let who = || format!("BitVector<{}> of {} bits, {:?}", B::NAME, b.n, o);
        after(c, &h.v, &b, grew, rule, fresh, &who)?;
        h.quick_check(c)?;
        if matches!(o, WithCapacity(_) | BlockWithCapacity(_) | Reserve(_) | ReserveExact(_) | BlockReserve(_) | BlockReserveExact(_) | Shrink | Clear | Truncate(_)) && c.rng.chance(1, 3) {
            let mut w = h.v.clone();
            std::mem::swap(&mut w, &mut h.v);
            // w is the original storage
            fill_up(c, &mut w, 40_000, &who)?;
            for i in 0..h.m.len() as u64 {
                ck!(w.get_bit(i) == h.m[i as usize], "content", "{}: bit {} after filling up", who(), i);
            }
            w.truncate(h.m.len() as u64);
            h.v = w;
        }
    }
    mon::fp_bits(c, &h.m);
    h.full_check(c)
}
fn ints_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let max = c.rng.bound(&[5, 30, 200]) * nb;
    let mut h: ivh::Ivh<B> = ivh::Ivh::new(k);
    for s in 0..c.rng.range(3, 50) {
        let o = if s == 0 { ivh::random_ctor(c, k, nb, max) } else { ivh::random_op(c, &h.m, max) };
        let b = Before { cap: h.v.cap(), bcap: h.v.bcap(), n: h.m.len(), blocks: ceil_div(h.m.bits.len() as u64, nb) };
        let a = allocs();
        let got = must("panic", &|| format!("{:?}", o), || ivh::real(&mut h.v, &o))?;
        let grew = allocs() - a;
        let want = h.m.apply(&o);
        ckeq!(got, want, "pop", "result of {:?}", o);
        c.cov(ivh::name(&o));
        c.t(|| format!("{:?}: capacity {} to {}", o, b.cap, h.v.cap()));
        use ivh::Op::*;
        let (rule, fresh) = match o {
            Reserve(n) | ReserveExact(n) => (Rule::Elems(b.n + n), false),
            BlockReserve(n) | BlockReserveExact(n) => (Rule::Blocks(b.blocks + n), false),
            WithCapacity(n) => (Rule::Elems(n), true),
            BlockWithCapacity(n) => (Rule::Blocks(n), true),
            Clear | Truncate(_) | BlockTruncate(_) | Pop => (Rule::Keep, false),
            Push(_) => (if b.n < b.cap { Rule::Keep } else { Rule::Any }, false),
            Resize(n, _) => (if n <= b.n { Rule::Keep } else { Rule::Elems(n) }, false),
            BlockResize(n, _) => (if n <= b.blocks { Rule::Keep } else { Rule::Blocks(n) }, false),
            _ => (Rule::Any, false),
        };
        let who = || format!("IntVector<{}> of {} {}-bit elements, {:?}", B::NAME, b.n, k, o);
        after(c, &h.v, &b, grew, rule, fresh, &who)?;
        h.quick_check(c)?;
        if matches!(o, WithCapacity(_) | BlockWithCapacity(_) | Reserve(_) | ReserveExact(_) | BlockReserve(_) | BlockReserveExact(_) | Shrink | Clear | Truncate(_)) && c.rng.chance(1, 3) {
            let n = h.m.len();
            let mut w = h.v.clone();
            std::mem::swap(&mut w, &mut h.v);
            fill_up(c, &mut w, 20_000, &who)?;
            for i in 0..n {
                ck!(w.get(i).u() == h.m.get(i), "content", "{}: element {} after filling up", who(), i);
            }
            w.truncate(n);
            h.v = w;
        }
    }
    mon::fp_bits(c, &h.m.bits);
    c.mix(k);
    h.full_check(c)
}
fn histories(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 10);
    c.nontrivial = true;
    if k / 5 % 2 == 0 {
        with_blk!(k, bits_t, c)
    } else {
        with_blk!(k, ints_t, c)
    }
}

/// Capacity asked for, then used to the last element.
fn ask_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let n0 = c.rng.size(nb, 3 * nb) / k;
    let ask = c.rng.size(nb, 40 * nb) / k + c.rng.below(2);
    let exact = c.rng.coin();
    c.mix(k << 40 | n0 << 20 | ask);
    c.t(|| format!("{} elements of {} bits, {} more asked for", n0, k, ask));
    let mut v: IntVector<B> = if c.rng.coin() { IntVector::with_capacity(k as usize, ask) } else { IntVector::new(k as usize) };
    for i in 0..n0 {
        v.add(i);
    }
    if c.rng.coin() {
        v.shrink_to_fit();
    }
    if exact {
        v.reserve_exact(ask)
    } else {
        v.reserve(ask)
    }
    let who = || format!("IntVector<{}> of {} {}-bit elements with {} reserved", B::NAME, n0, k, ask);
    ck!(v.cap() >= n0 + ask, "promise", "{}: capacity {}", who(), v.cap());
    let a = allocs();
    for i in n0..n0 + ask {
        v.add(i);
    }
    ckeq!(allocs() - a, 0, "reallocated", "{}: allocations while pushing them", who());
    fill_up(c, &mut v, 100_000, &who)?;
    // everything off again: the storage stays
    let (cap, a) = (v.cap(), allocs());
    if c.rng.coin() {
        while v.count() > 0 {
            v.rm();
        }
    } else if c.rng.coin() {
        v.clear();
    } else {
        v.truncate(0);
    }
    ckeq!((v.cap(), allocs()), (cap, a), "not-kept", "{}: capacity after emptying", who());
    for i in 0..cap {
        v.add(i);
    }
    ckeq!(allocs(), a, "reallocated", "{}: allocations while refilling", who());
    v.truncate(n0);
    v.shrink_to_fit();
    ckeq!(v.count(), n0, "content", "{}: length after shrinking", who());
    for i in 0..n0 {
        ck!(v.get(i).u() == i & mon::mask(k), "content", "{}: element {} after shrinking", who(), i);
    }
    // bits
    let (n0, ask) = (n0 * k, ask * k);
    let mut w: BitVector<B> = BitVector::new();
    for i in 0..n0 {
        w.add(i);
    }
    if exact {
        w.reserve_exact(ask)
    } else {
        w.reserve(ask)
    }
    let who = || format!("BitVector<{}> of {} bits with {} reserved", B::NAME, n0, ask);
    ck!(w.cap() >= n0 + ask, "promise", "{}: capacity {}", who(), w.cap());
    let a = allocs();
    for i in n0..n0 + ask {
        w.add(i);
    }
    ckeq!(allocs() - a, 0, "reallocated", "{}: allocations while pushing them", who());
    fill_up(c, &mut w, 100_000, &who)?;
    // blocks
    let q = c.rng.below(30) as usize;
    let mut w: BitVector<B> = if c.rng.coin() { BitVector::block_with_capacity(q) } else { BitVector::new() };
    for i in 0..n0 {
        w.add(i);
    }
    let b0 = w.block_len();
    if exact {
        w.block_reserve_exact(q)
    } else {
        w.block_reserve(q)
    }
    ck!(w.block_capacity() >= b0 + q, "promise", "BitVector<{}> with {} blocks and {} reserved: block capacity {}", B::NAME, b0, q, w.block_capacity());
    let a = allocs();
    for _ in 0..q {
        w.push_block(B::of(7));
    }
    ckeq!(allocs() - a, 0, "reallocated", "BitVector<{}> with {} blocks: allocations while pushing {} reserved blocks", B::NAME, b0, q);
    // a bit buffer
    let mut b: BitBuffer<BitVector<B>> = BitBuffer::with_capacity(ask);
    let a = allocs();
    for i in 0..ask {
        let _ = b.write_bit(i % 2 == 0);
    }
    ckeq!(allocs() - a, 0, "reallocated", "BitBuffer::with_capacity({}): allocations while writing that many bits", ask);
    c.evals += 8;
    Ok(())
}
fn ask(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, ask_t, c)
}

/// Repeated pushing reallocates only logarithmically often.
fn amortized_t<B: Blk>(c: &mut Case) -> R {
    let n = 1u64 << c.rng.range(8, 18);
    let k = ivh::width(c, B::NB);
    c.mix(n << 8 | k);
    let lg = 64 - n.leading_zeros() as u64;
    let bound = 4 * lg + 16;
    c.t(|| format!("{} pushes", n));
    let mut v: BitVector<B> = BitVector::new();
    let a = allocs();
    for i in 0..n {
        v.push_bit(i % 5 == 0);
    }
    let g = allocs() - a;
    ck!(g <= bound, "amortized", "{} push_bit on BitVector<{}>: {} allocations", n, B::NAME, g);
    let mut v: BitVector<B> = BitVector::new();
    let a = allocs();
    for i in 0..n {
        v.push_block(B::of(i));
    }
    let g = allocs() - a;
    ck!(g <= bound, "amortized", "{} push_block on BitVector<{}>: {} allocations", n, B::NAME, g);
    let mut v: IntVector<B> = IntVector::new(k as usize);
    let a = allocs();
    for i in 0..n {
        v.add(i);
    }
    let g = allocs() - a;
    ck!(g <= bound, "amortized", "{} pushes of {} bits on IntVector<{}>: {} allocations", n, k, B::NAME, g);
    // up and down around one length: no thrashing
    let a = allocs();
    for i in 0..2000 {
        if i % 2 == 0 {
            v.rm()
        } else {
            v.add(i)
        }
    }
    ckeq!(allocs() - a, 0, "amortized", "allocations while pushing and popping around one length");
    // reserve(1) before every push is amortized too
    let mut v: BitVector<B> = BitVector::new();
    let a = allocs();
    for i in 0..n.min(20_000) {
        v.reserve(1);
        v.push_bit(i % 5 == 0);
    }
    let g = allocs() - a;
    ck!(g <= bound, "amortized", "{} times reserve(1) and push_bit on BitVector<{}>: {} allocations", n.min(20_000), B::NAME, g);
    c.evals += 5;
    c.covn("pushes counted", 3 * n);
    Ok(())
}
fn amortized(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.index;
    with_blk!(k, amortized_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("histories", 20_000, 800_000, histories),
        wl("ask", 20_000, 600_000, ask),
        wl_fixed("amortized", 40, amortized),
    ]
}
#[allow(unused_imports)]
use bits as _;
