//! C23: structures can be shared and used across threads.
use mon::stores::{ByBit, ByBlock};
use mon::{attempt, bits, bvh, ceil_div, ck, field, ivh, mask, with_blk, wl, wl_fixed, Blk, Case, Viol, Workload, R};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::mpsc;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::Broadword;
use succinct::coding::{Comma, Fibonacci, Lift0, Omega, Unary, UniversalCode, DELTA, GAMMA};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::Address;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector, SpaceUsage};

// ------------------------------------------------------------ markers

/// Are the marker traits there? (An answer rather than a failure to compile.)
struct Probe<T: ?Sized>(PhantomData<T>);
trait Absent {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Absent for Probe<T> {}
struct ProbeSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Absent for ProbeSync<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
macro_rules! marks {
    ($v:ident: $($t:ty),* $(,)?) => {
        $($v.push((stringify!($t), Probe::<$t>::SEND, ProbeSync::<$t>::SYNC));)*
    };
}

/// A store that must stay on its thread.
#[allow(dead_code)]
#[derive(Clone, Debug)]
struct Local(Rc<Vec<u64>>);
impl BitVec for Local {
    type Block = u64;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0.get_bit(i)
    }
}
/// A store that may be moved but not shared.
#[allow(dead_code)]
#[derive(Clone, Debug)]
struct Unshared(Cell<u64>);
impl BitVec for Unshared {
    type Block = u64;
    fn bit_len(&self) -> u64 {
        64
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0.get() >> i & 1 == 1
    }
}

fn markers(c: &mut Case) -> R {
    let mut yes: Vec<(&str, bool, bool)> = vec![];
    marks!(yes:
        BitVector<u8>, BitVector<u16>, BitVector<u32>, BitVector<u64>, BitVector<usize>,
        IntVector<u8>, IntVector<u16>, IntVector<u32>, IntVector<u64>, IntVector<usize>,
        BitSlice<'static, BitVector<u64>>, BitSlice<'static, Vec<u8>>, BitSliceMut<'static, BitVector<u64>>,
        BitSlice<'static, BitSlice<'static, [u32]>>, BitSliceMut<'static, IntVector<u16>>,
        JacobsonRank<BitVector<u8>>, JacobsonRank<BitVector<u64>>, JacobsonRank<Vec<u32>>, JacobsonRank<BitSlice<'static, BitVector<u64>>>,
        Rank9<BitVector<u64>>, Rank9<Vec<u64>>, Rank9<&'static [u64]>,
        BinSearchSelect<JacobsonRank<BitVector<u16>>>, BinSearchSelect<Rank9<BitVector<u64>>>, BinSearchSelect<u64>,
        BitBuffer<BitVector<u8>>, BitBuffer<BitVector<usize>>, BitBuffer<BitSlice<'static, BitVector<u64>>>,
        Broadword, Address, Unary, Omega, Fibonacci, Comma, Lift0<Omega>,
        succinct::coding::Elias<Unary>,
        succinct::bit_vec::Iter<'static, u64>, succinct::int_vec::Iter<'static, u8>,
    );
    for (t, send, sync) in yes {
        c.evals += 2;
        ck!(send, "not-send", "{} cannot be moved to another thread", t);
        ck!(sync, "not-sync", "{} cannot be shared with another thread", t);
    }
    let mut no: Vec<(&str, bool, bool)> = vec![];
    marks!(no: JacobsonRank<Local>, BinSearchSelect<JacobsonRank<Local>>, BitBuffer<Local>, Rank9<Local>, BitSlice<'static, Unshared>, BitSlice<'static, Local>);
    for (t, send, _) in no {
        c.evals += 1;
        ck!(!send, "send-anyway", "{} may be moved to another thread although what it holds may not", t);
    }
    let mut no: Vec<(&str, bool, bool)> = vec![];
    marks!(no: JacobsonRank<Unshared>, BinSearchSelect<JacobsonRank<Unshared>>, BitBuffer<Unshared>, Rank9<Unshared>, BitSlice<'static, Unshared>);
    for (t, _, sync) in no {
        c.evals += 1;
        ck!(!sync, "sync-anyway", "{} may be shared with another thread although what it holds may not", t);
    }
    c.nontrivial = true;
    c.mix(1);
    Ok(())
}

/// Shared and moved whatever the markers say: those are judged by `markers`.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

// ------------------------------------------------------------ a store that yields

thread_local!(static SPIN: Cell<u64> = const { Cell::new(0) });
/// Gives other threads a chance to run in the middle of a query.
fn pause() {
    let s = SPIN.with(|s| {
        let x = s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s.set(x);
        x >> 33
    });
    match s % 16 {
        0 | 1 => std::thread::yield_now(),
        2..=7 => {
            for _ in 0..s >> 4 & 63 {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}
#[derive(Clone, Debug)]
struct Yielding<V>(V);
impl<V: BitVec> BitVec for Yielding<V> {
    type Block = V::Block;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn get_bit(&self, i: u64) -> bool {
        pause();
        let x = self.0.get_bit(i);
        pause();
        x
    }
    fn get_block(&self, i: usize) -> V::Block {
        pause();
        let x = self.0.get_block(i);
        pause();
        x
    }
}
impl<R1: RankSupport> RankSupport for Yielding<R1> {
    type Over = R1::Over;
    fn rank(&self, p: u64, v: R1::Over) -> u64 {
        pause();
        let x = self.0.rank(p, v);
        pause();
        x
    }
    fn limit(&self) -> u64 {
        self.0.limit()
    }
}
impl<R1: BitRankSupport> BitRankSupport for Yielding<R1> {
    fn rank1(&self, p: u64) -> u64 {
        pause();
        let x = self.0.rank1(p);
        pause();
        x
    }
}

// ------------------------------------------------------------ queries and their sequential answers

#[derive(Clone, Copy, Debug)]
enum Q {
    Bit(u64),
    Field(u64, usize),
    Block(usize),
    Rank(u64, bool),
    Select(u64, bool),
    Window(u64, u64, u64),
    Elem(u64),
    Random(u64, usize, u64),
    /// Iterate: from the back, skip, take.
    Walk(u64, u64),
    Whole,
}
#[derive(Clone, Debug, PartialEq)]
enum A {
    N(u64),
    Pos(Option<u64>),
    Refused,
    List(Vec<u64>),
    Unasked,
}
trait Ask: Send + Sync {
    fn ask(&self, q: Q) -> A;
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ask_bits<V: BitVec + ?Sized>(v: &V, q: Q) -> A {
    match q {
        Q::Bit(p) => A::N(v.get_bit(p) as u64),
        Q::Field(p, k) => A::N(v.get_bits(p, k).u64x()),
        Q::Block(i) => A::N(v.get_block(i).u64x()),
        Q::Window(a, b, p) => A::N(BitSlice::new(v, a..b).get_bit(p) as u64),
        Q::Whole => A::List((0..v.bit_len()).filter(|&p| v.get_bit(p)).collect()),
        _ => A::Unasked,
    }
}
trait X64 {
    fn u64x(self) -> u64;
}
impl<T: succinct::storage::BlockType> X64 for T {
    fn u64x(self) -> u64 {
        self.to_u64().unwrap()
    }
}
struct Plain<V>(V);
impl<V: BitVec> Ask for Force<Plain<V>> {
    fn ask(&self, q: Q) -> A {
        ask_bits(&self.0 .0, q)
    }
}
struct Full<S>(S);
impl<S: BitVec + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>> Ask for Force<Full<S>> {
    fn ask(&self, q: Q) -> A {
        let s = &self.0 .0;
        match q {
            Q::Rank(p, true) => A::N(s.rank1(p)),
            Q::Rank(p, false) => A::N(if p % 2 == 0 { s.rank0(p) } else { s.rank(p, false) }),
            Q::Select(k, true) => A::Pos(s.select1(k)),
            Q::Select(k, false) => A::Pos(if k % 2 == 0 { s.select0(k) } else { s.select(k, false) }),
            q => ask_bits(s, q),
        }
    }
}
struct RankOnly<S>(S);
impl<S: BitVec + BitRankSupport> Ask for Force<RankOnly<S>> {
    fn ask(&self, q: Q) -> A {
        let s = &self.0 .0;
        match q {
            Q::Rank(p, true) => A::N(s.rank1(p)),
            Q::Rank(p, false) => A::N(s.rank0(p)),
            q => ask_bits(s, q),
        }
    }
}
struct Ints<B: Blk>(IntVector<B>, IntVector<B>);
impl<B: Blk> Ask for Force<Ints<B>> {
    fn ask(&self, q: Q) -> A {
        let v = &self.0 .0;
        match q {
            Q::Elem(i) => A::N(v.get(i).u()),
            Q::Random(o, k, i) => A::N(v.get_random(o, k, i).u()),
            Q::Walk(a, n) => A::List(v.iter().skip(a as usize).step_by(2).take(n as usize).map(|x| x.u()).collect()),
            Q::Whole => A::List(vec![(*v == self.0 .1) as u64, (hash(v) == hash(&self.0 .1)) as u64, v.len(), v.clone().iter().count() as u64]),
            q => ask_bits(v, q),
        }
    }
}

struct Oracle {
    m: Vec<bool>,
    pos: [Vec<u64>; 2],
    vals: Vec<u64>,
    k: u64,
    nb: u64,
    odd_last: bool,
}
impl Oracle {
    fn new(m: &[bool], nb: u64) -> Self {
        let p = |b: bool| (0..m.len() as u64).filter(|&i| m[i as usize] == b).collect();
        Oracle { m: m.to_vec(), pos: [p(false), p(true)], vals: vec![], k: 0, nb, odd_last: false }
    }
    fn answer(&self, q: Q) -> A {
        let m = &self.m;
        let n = m.len() as u64;
        let ints = self.k > 0;
        match q {
            Q::Bit(p) if p < n => A::N(m[p as usize] as u64),
            Q::Field(p, k) if p + k as u64 <= n => A::N(field(m, p, k as u64)),
            Q::Block(i) if (i as u64) < ceil_div(n, self.nb) => {
                let s = i as u64 * self.nb;
                A::N(field(m, s, self.nb.min(n - s)))
            }
            Q::Window(a, b, p) if a <= b && b <= n && p < b - a => A::N(m[(a + p) as usize] as u64),
            Q::Rank(p, v) if p < n => A::N(self.pos[v as usize].partition_point(|&x| x <= p) as u64),
            Q::Select(k, v) => A::Pos(self.pos[v as usize].get(k as usize).copied()),
            Q::Elem(i) if i < self.vals.len() as u64 => A::N(self.vals[i as usize]),
            Q::Random(o, k, i) if o + (i + 1) * k as u64 <= n => A::N(field(m, o + i * k as u64, k as u64)),
            Q::Walk(a, t) => A::List(self.vals.iter().skip(a as usize).step_by(2).take(t as usize).copied().collect()),
            Q::Whole if ints => A::List(vec![1, 1, self.vals.len() as u64, self.vals.len() as u64]),
            Q::Whole => A::List(self.pos[1].clone()),
            _ => A::Refused,
        }
    }
    fn query(&self, c: &mut Case, caps: u32, hot: &[u64]) -> Q {
        let n = self.m.len() as u64;
        let out = c.rng.chance(1, 12);
        let p = if out {
            n + c.rng.below(70)
        } else if !hot.is_empty() {
            (c.rng.pick(hot) + c.rng.below(3)).min(n - 1)
        } else {
            c.rng.below(n)
        };
        loop {
            return match c.rng.below(12) {
                0 => Q::Bit(p),
                1 => {
                    let k = c.rng.range(1, self.nb.min(n)) as usize;
                    Q::Field(if out { p } else { p.min(n - k as u64) }, k)
                }
                2 if self.odd_last && p / self.nb >= n / self.nb => continue,
                2 => Q::Block(((p + if out { self.nb } else { 0 }) / self.nb) as usize),
                3..=5 if caps & 1 != 0 => Q::Rank(p, c.rng.coin()),
                6..=8 if caps & 2 != 0 => {
                    let v = c.rng.coin();
                    let t = self.pos[v as usize].len() as u64;
                    let k = if out { t + p % 7 } else { (p * t) / n.max(1) };
                    Q::Select(k, v)
                }
                9 => {
                    let a = c.rng.below(p.min(n) + 1);
                    let b = if out { p + 1 } else { c.rng.range(a, n) };
                    Q::Window(a, b, c.rng.below(b - a + 2))
                }
                3..=5 if caps & 4 != 0 => Q::Elem(if out { self.vals.len() as u64 + p } else { p / self.k }),
                6 | 7 if caps & 4 != 0 => {
                    let k = c.rng.range(1, self.nb);
                    let o = c.rng.below(k + 3);
                    let i = p / k;
                    // within the whole vector of k-bit fields, or surely outside
                    if o + (i + 1) * k <= n || o + i * k >= n {
                        Q::Random(o, k as usize, i)
                    } else {
                        Q::Elem(p.min(n - 1) / self.k)
                    }
                }
                8 if caps & 4 != 0 => Q::Walk(c.rng.below(self.vals.len() as u64 + 2), c.rng.below(9)),
                11 if n < 1000 && c.rng.chance(1, 4) => Q::Whole,
                _ => continue,
            };
        }
    }
}

/// One shared structure, and what it can be asked (1 rank, 2 select, 4 integers).
fn shared_t<B: Blk>(c: &mut Case, size: u64) -> Result<(Box<dyn Ask>, u32, Oracle, &'static str), Viol> {
    let kind = c.rng.below(13);
    let n = c.rng.range(1, size);
    let mut m = bits::pattern(&mut c.rng, n, B::NB);
    let seed = c.rng.next();
    fn bx<T: 'static>(x: T) -> Box<dyn Ask>
    where
        Force<T>: Ask,
    {
        Box::new(Force(x))
    }
    let round = |m: &mut Vec<bool>, nb: u64| {
        while m.len() as u64 % nb != 0 {
            m.push(false);
        }
    };
    if kind == 11 || kind == 12 {
        let k = ivh::width(c, B::NB);
        let cnt = c.rng.range(1, size / k + 1);
        let vals: Vec<u64> = (0..cnt).map(|_| ivh::elem(c, k) & mask(k)).collect();
        let v: IntVector<B> = ivh::build_to(c, k, &vals)?;
        let mut w = IntVector::<B>::new(k as usize);
        let mut m = vec![];
        for &x in &vals {
            w.push(B::of(x));
            (0..k).for_each(|j| m.push(x >> j & 1 == 1));
        }
        let mut o = Oracle::new(&m, B::NB);
        o.vals = vals;
        o.k = k;
        if kind == 12 {
            o.vals.clear();
            o.k = 0;
            return Ok((bx(Full(BinSearchSelect::new(JacobsonRank::new(v)))), 3, o, "select over jacobson over IntVector"));
        }
        return Ok((bx(Ints(v, w)), 4, o, "IntVector"));
    }
    let v: BitVector<B> = bvh::build_to(c, &m)?;
    let nb = if (3..=5).contains(&kind) { 64 } else { B::NB };
    let (b, caps, name): (Box<dyn Ask>, u32, _) = match kind {
        0 => (bx(Plain(v)), 0, "BitVector"),
        1 => (bx(Full(BinSearchSelect::new(JacobsonRank::new(v)))), 3, "select over jacobson"),
        2 => (bx(Full(BinSearchSelect::new(JacobsonRank::new(Yielding(v))))), 3, "select over jacobson over a yielding store"),
        3 => (bx(Full(BinSearchSelect::new(Rank9::new(bvh::build_to::<u64>(c, &m)?)))), 3, "select over rank9"),
        4 => (bx(Full(BinSearchSelect::new(Rank9::new(Yielding(bvh::build_to::<u64>(c, &m)?))))), 3, "select over rank9 over a yielding store"),
        5 => {
            round(&mut m, 64);
            let w: Vec<u64> = m.chunks(64).map(|x| field(x, 0, 64)).collect();
            (bx(RankOnly(Rank9::new(w))), 1, "rank9 over words")
        }
        6 => {
            round(&mut m, B::NB);
            let w: Vec<B> = m.chunks(B::NB as usize).map(|x| B::of(field(x, 0, B::NB))).collect();
            (bx(RankOnly(JacobsonRank::new(w))), 1, "jacobson over blocks")
        }
        7 => (bx(Plain(BitBuffer::append(v))), 0, "BitBuffer"),
        8 => (bx(RankOnly(JacobsonRank::new(BitBuffer::append(v)))), 1, "jacobson over a buffer"),
        9 => (bx(Full(BinSearchSelect::new(JacobsonRank::new(ByBit::<B>::new(&m))))), 3, "select over jacobson over a user type"),
        _ => (bx(Full(BinSearchSelect::new(JacobsonRank::new(ByBlock::<B>::new(&m, seed))))), 3, "select over jacobson over a user type"),
    };
    let mut o = Oracle::new(&m, nb);
    // this user store's last block carries bits beyond its end
    o.odd_last = kind == 10;
    Ok((b, caps, o, name))
}

fn shared_any(c: &mut Case, size: u64) -> Result<(Box<dyn Ask>, u32, Oracle, &'static str), Viol> {
    let k = c.rng.below(5);
    with_blk!(k, shared_t, c, size)
}

// ------------------------------------------------------------ concurrent readers

/// A gate without ordering: it adds no synchronisation between the readers.
struct Gate {
    here: AtomicUsize,
    ticket: AtomicU64,
    done: AtomicUsize,
}

fn readers(c: &mut Case) -> R {
    let small = cfg!(miri) || c.rng.chance(3, 4);
    let size = if cfg!(miri) { 150 } else if small { 700 } else { 12_000 };
    let (s, caps, o, name) = shared_any(c, size)?;
    let threads = c.rng.range(2, if cfg!(miri) { 3 } else { 5 }) as usize;
    let per = if cfg!(miri) { 8 } else { c.rng.range(1, 60) };
    c.t(|| format!("{} of {} bits read by {} threads, {} queries each", name, o.m.len(), threads, per));
    bits_fp(c, &o.m);
    c.mix(threads as u64 ^ per << 8);
    let hot: Vec<u64> = match c.rng.below(3) {
        0 => vec![],
        _ => (0..c.rng.range(1, 3)).map(|_| c.rng.below(o.m.len() as u64)).collect(),
    };
    let plans: Vec<Vec<(Q, A)>> = (0..threads)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let q = o.query(c, caps, &hot);
                    (q, o.answer(q))
                })
                .collect()
        })
        .collect();
    let gate = Gate { here: AtomicUsize::new(0), ticket: AtomicU64::new(0), done: AtomicUsize::new(0) };
    let spins: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
    let drop_last = c.rng.coin();
    let shared = Force(s);
    // (violation, tickets taken before and after each query)
    type Out = (Option<Viol>, Vec<(u64, u64)>);
    let outs: Vec<std::thread::Result<Out>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (gate, shared) = (&gate, &shared);
                let spin = spins[t];
                sc.spawn(move || -> Out {
                    SPIN.with(|s| s.set(spin));
                    gate.here.fetch_add(1, Relaxed);
                    while gate.here.load(Relaxed) < threads {
                        std::thread::yield_now();
                    }
                    let mut log = Vec::with_capacity(plan.len());
                    let mut bad = None;
                    for (i, (q, want)) in plan.iter().enumerate() {
                        let t0 = gate.ticket.fetch_add(1, Relaxed);
                        let got = match attempt(|| shared.get().ask(*q)) {
                            Ok(x) => x,
                            Err(_) => A::Refused,
                        };
                        let t1 = gate.ticket.fetch_add(1, Relaxed);
                        log.push((t0, t1));
                        if got != *want && bad.is_none() {
                            bad = Some(Viol {
                                sig: "shared-answer".into(),
                                msg: format!("{}: thread {} query {} {:?} got {:?}, sequentially {:?}", name, t, i, q, got, want),
                            });
                        }
                    }
                    gate.done.fetch_add(1, Relaxed);
                    (bad, log)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut spans = vec![];
    let mut viol = None;
    for (t, o) in outs.into_iter().enumerate() {
        match o {
            Err(_) => return Err(Viol { sig: "thread-panic".into(), msg: format!("{}: thread {} panicked", name, t) }),
            Ok((v, log)) => {
                viol = viol.or(v);
                c.evals += log.len() as u64;
                spans.extend(log.into_iter().map(|(a, b)| (a, b, t)));
            }
        }
    }
    if let Some(v) = viol {
        return Err(v);
    }
    // how the queries really interleaved
    spans.sort();
    let mut shape = 0u64;
    let mut overlap = 0;
    let mut open: Vec<(u64, usize)> = vec![];
    for &(a, b, t) in &spans {
        shape = mon::rng::mix64(shape ^ t as u64 ^ (b - a) << 8);
        open.retain(|x| x.0 > a);
        if open.iter().any(|x| x.1 != t) {
            overlap += 1;
        }
        open.push((b, t));
    }
    c.covn("queries by concurrent readers", spans.len() as u64);
    c.covn("queries that began while another thread's was under way", overlap);
    if overlap > 0 {
        c.cov("runs with overlapping queries");
    }
    c.mix(shape);
    c.nontrivial = overlap > 0;
    // afterwards it still answers the same, and another thread may drop it
    for _ in 0..5 {
        let q = o.query(c, caps, &hot);
        let got = attempt(|| shared.get().ask(q)).unwrap_or(A::Refused);
        c.evals += 1;
        ck!(got == o.answer(q), "after-sharing", "{}: {:?} afterwards got {:?}, before {:?}", name, q, got, o.answer(q));
    }
    if drop_last {
        std::thread::spawn(move || drop(shared)).join().unwrap();
    }
    Ok(())
}
fn bits_fp(c: &mut Case, m: &[bool]) {
    mon::fp_bits(c, m)
}

// ------------------------------------------------------------ handing structures over

/// A vector that changes hands between threads behaves as on one thread.
fn handover_t<B: Blk>(c: &mut Case) -> R {
    let hops = c.rng.range(2, 5);
    let max = c.rng.pick(&[30, 150, 700]);
    let ints = c.rng.coin();
    let k = ivh::width(c, B::NB);
    c.mix(hops ^ max << 8);
    c.nontrivial = true;
    let seeds: Vec<u64> = (0..hops).map(|_| c.rng.next()).collect();
    c.mix(seeds[0]);
    c.t(|| format!("{} hops of {} with {}-bit blocks", hops, if ints { "IntVector" } else { "BitVector" }, B::NB));
    let steps = if cfg!(miri) { 4 } else { 20 };
    let sub = |c: &Case, s: u64| mon::sub_case(c, s);
    if ints {
        let mut h = ivh::Ivh::<B>::new(k);
        for s in seeds {
            let mut cc = sub(c, s);
            let f = Force(h);
            let (r, f, e) = std::thread::spawn(move || {
                let mut h = f.take();
                let r = (|| {
                    for _ in 0..steps {
                        let op = ivh::random_op(&mut cc, &h.m, max);
                        h.apply(&mut cc, &op)?;
                    }
                    h.full_check(&mut cc)
                })();
                (r, Force(h), cc.evals)
            })
            .join()
            .map_err(|_| Viol { sig: "thread-panic".into(), msg: "a thread working on a vector handed to it panicked".into() })?;
            c.evals += e;
            r?;
            h = f.take();
            h.full_check(c)?;
        }
    } else {
        let mut h = bvh::Bvh::<B>::empty();
        for s in seeds {
            let mut cc = sub(c, s);
            let f = Force(h);
            let (r, f, e) = std::thread::spawn(move || {
                let mut h = f.take();
                let r = (|| {
                    for _ in 0..steps {
                        let n = h.m.len() as u64;
                        let op = bvh::random_op(&mut cc, B::NB, n, max);
                        h.apply(&mut cc, &op)?;
                    }
                    h.full_check(&mut cc)
                })();
                (r, Force(h), cc.evals)
            })
            .join()
            .map_err(|_| Viol { sig: "thread-panic".into(), msg: "a thread working on a vector handed to it panicked".into() })?;
            c.evals += e;
            r?;
            h = f.take();
            h.full_check(c)?;
        }
    }
    Ok(())
}
fn handover(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, handover_t, c)
}

// ------------------------------------------------------------ separate structures

/// What one thread does with structures of its own; the digest of all it saw.
fn own_work(seed: u64, rounds: u64) -> u64 {
    let mut c = mon::bare_case(seed);
    let mut d = 0u64;
    let mut eat = |x: u64| d = mon::rng::mix64(d ^ x).wrapping_add(17);
    for _ in 0..rounds {
        pause();
        match c.rng.below(6) {
            0 => {
                let mut v = BitVector::<u32>::new();
                for _ in 0..c.rng.range(1, 90) {
                    match c.rng.below(6) {
                        0 => v.push_block(c.rng.next() as u32),
                        1 => eat(v.pop_bit().map_or(2, |b| b as u64)),
                        2 => v.resize(c.rng.below(200), c.rng.coin()),
                        3 if v.bit_len() > 0 => {
                            let p = c.rng.below(v.bit_len());
                            v.set_bit(p, c.rng.coin())
                        }
                        4 => eat(attempt(|| v.get_bit(v.bit_len() + c.rng.below(40))).is_ok() as u64),
                        _ => v.push_bit(c.rng.coin()),
                    }
                }
                v.iter().for_each(|b| eat(b as u64));
                let n = v.bit_len();
                let s = BinSearchSelect::new(JacobsonRank::new(v));
                for _ in 0..10 {
                    if n > 0 {
                        eat(s.rank1(c.rng.below(n)));
                    }
                    eat(s.select0(c.rng.below(n + 3)).unwrap_or(9999));
                }
                eat(format!("{:b}", s.into_inner().into_inner()).len() as u64);
            }
            1 => {
                let k = c.rng.range(1, 64);
                let mut v = IntVector::<u64>::new(k as usize);
                for _ in 0..c.rng.range(1, 60) {
                    match c.rng.below(5) {
                        0 => eat(v.pop().unwrap_or(5)),
                        1 if v.len() > 0 => {
                            let i = c.rng.below(v.len());
                            v.set(i, c.rng.next() & mask(k))
                        }
                        2 if k < 64 => eat(attempt(|| v.push(u64::MAX)).is_ok() as u64),
                        _ => v.push(c.rng.next() & mask(k)),
                    }
                }
                v.iter().rev().for_each(|x| eat(x));
                eat(format!("{:?}", v).len() as u64);
                eat(v.total_bytes() as u64 * 0 + v.block_len() as u64);
            }
            2 | 3 => {
                let mut b = BitBuffer::<BitVector<u8>>::new();
                let vals: Vec<u64> = (0..c.rng.range(1, 9)).map(|_| c.rng.value().clamp(1, u64::MAX >> 2)).collect();
                let which = c.rng.below(6);
                macro_rules! code {
                    ($e:expr) => {{
                        for &v in &vals {
                            eat($e.encode(&mut b, v).is_ok() as u64);
                        }
                        eat(b.bit_len());
                        let _ = b.seek(0);
                        for _ in &vals {
                            eat($e.decode(&mut b).ok().and_then(|x| x).unwrap_or(3));
                        }
                    }};
                }
                match which {
                    0 => code!(GAMMA),
                    1 => code!(DELTA),
                    2 => code!(Omega),
                    3 => code!(Fibonacci),
                    4 => code!(Comma(3)),
                    _ => code!(Lift0(Omega)),
                }
                let _ = Unary.encode(&mut b, 40);
                let _ = b.write_int_be::<u16>(11, c.rng.next() as u16 & 0x7ff);
                eat(b.bit_len());
                let _ = b.seek(0);
                while let Ok(Some(x)) = b.read_int::<u32>(5) {
                    eat(x as u64);
                }
            }
            4 => {
                let n = c.rng.range(1, 3000);
                let mut r = mon::Rng::new(c.rng.next());
                let mut v = BitVector::<u64>::with_capacity(n);
                (0..n).for_each(|_| v.push_bit(r.coin()));
                let r = Rank9::new(v);
                for _ in 0..20 {
                    eat(r.rank1(c.rng.below(n)));
                    eat(r.rank(c.rng.below(n), false));
                }
                let s = BinSearchSelect::new(r);
                for _ in 0..10 {
                    eat(s.select1(c.rng.below(n)).unwrap_or(77));
                }
            }
            _ => {
                let mut w = vec![0u16; 8];
                {
                    let mut s = BitSliceMut::new(&mut w[..], 5u64..101);
                    for _ in 0..40 {
                        let p = c.rng.below(96);
                        s.set_bit(p, c.rng.coin());
                    }
                    let x = c.rng.next() as u16;
                    s.set_bits(3, 16, x);
                    eat(s.get_block(5).into());
                }
                w.iter().for_each(|&x| eat(x as u64));
                let b = Broadword(c.rng.next());
                eat(b.0.count_ones() as u64);
                eat(succinct::broadword::select1_raw(3, b.0) as u64);
                eat(succinct::broadword::u_le8(b.0, c.rng.next()));
            }
        }
    }
    d
}

fn separate(c: &mut Case) -> R {
    let threads = c.rng.range(2, if cfg!(miri) { 3 } else { 6 });
    let rounds = if cfg!(miri) { 1 } else { c.rng.range(1, 12) };
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
    c.mix(seeds[0]);
    c.nontrivial = true;
    c.t(|| format!("{} threads, {} rounds each on their own structures", threads, rounds));
    // alone first, in a fresh thread each, or afterwards
    let alone = |s: u64| std::thread::spawn(move || own_work(s, rounds)).join();
    let before = c.rng.coin();
    let mut want: Vec<_> = if before { seeds.iter().map(|&s| alone(s).ok()).collect() } else { vec![] };
    let here = AtomicUsize::new(0);
    let got: Vec<Option<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&s| {
                let here = &here;
                sc.spawn(move || {
                    SPIN.with(|x| x.set(s));
                    here.fetch_add(1, Relaxed);
                    while (here.load(Relaxed) as u64) < threads {
                        std::thread::yield_now();
                    }
                    own_work(s, rounds)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    if !before {
        want = seeds.iter().map(|&s| alone(s).ok()).collect();
    }
    c.evals += threads;
    c.covn("threads on separate structures", threads);
    for t in 0..threads as usize {
        if want[t].is_none() {
            c.cov("work that panics on its own (not judged here)");
            continue;
        }
        ck!(got[t] == want[t], "separate-structures", "thread {} of {} saw {:?} while others worked on other structures, {:?} alone", t, threads, got[t], want[t]);
    }
    Ok(())
}

/// Messages between threads: buffers filled by one and read by another.
fn pipeline(c: &mut Case) -> R {
    let n = if cfg!(miri) { 4 } else { c.rng.range(1, 40) };
    let vals: Vec<Vec<u64>> = (0..n).map(|_| (0..c.rng.range(1, 6)).map(|_| c.rng.value().clamp(1, u64::MAX >> 1)).collect()).collect();
    c.mix(vals[0][0] ^ n << 50);
    c.nontrivial = true;
    c.t(|| format!("{} buffers through a channel", n));
    let (tx, rx) = mpsc::sync_channel::<Force<BitBuffer<BitVector<usize>>>>(2);
    let vs = vals.clone();
    let writer = std::thread::spawn(move || {
        for v in &vs {
            let mut b = BitBuffer::<BitVector<usize>>::new();
            for &x in v {
                DELTA.encode(&mut b, x).unwrap();
            }
            if tx.send(Force(b)).is_err() {
                return;
            }
        }
    });
    let mut res = Ok(());
    'all: for v in &vals {
        let b = match rx.recv() {
            Ok(b) => b.take(),
            Err(_) => {
                c.cov("a writer that fails on its own (not judged here)");
                break;
            }
        };
        let mut b = BitBuffer::from(b.into_inner());
        for &x in v {
            c.evals += 1;
            let got = attempt(|| DELTA.decode(&mut b).ok().and_then(|x| x));
            if got != Ok(Some(x)) {
                res = Err(Viol { sig: "handed-over".into(), msg: format!("{} written by another thread, read as {:?}", x, got) });
                break 'all;
            }
        }
    }
    drop(rx);
    let _ = writer.join();
    res
}

// ------------------------------------------------------------ the same calls at once, after a panic, from inside

use mon::calls::{self, Act, NAMES};

fn words(c: &mut Case) -> (u64, u64) {
    let v = |c: &mut Case| if c.rng.coin() { c.rng.value() } else { c.rng.next() };
    (v(c), v(c))
}
/// Threads that make the same calls over and over, each alternating between a few words of its own.
fn hot(c: &mut Case) -> R {
    let f = c.index as usize % NAMES.len();
    let threads = c.rng.range(2, if cfg!(miri) { 2 } else { 4 }) as usize;
    let rounds = if cfg!(miri) { 5 } else { c.rng.pick(&[20, 100, 400]) };
    let mixed = c.rng.chance(1, 3);
    c.nontrivial = true;
    c.mix(f as u64);
    c.t(|| format!("{} threads, {} rounds of calls to {}", threads, rounds, NAMES[f]));
    let spoken = c.rng.coin();
    let plans: Vec<Vec<(usize, u64, u64, u64)>> = (0..threads)
        .map(|_| {
            (0..c.rng.range(1, 3))
                .map(|_| {
                    let (a, b) = words(c);
                    let g = if mixed { c.rng.below(NAMES.len() as u64) as usize } else { f };
                    c.mix(a ^ b);
                    calls::arm(0, Act::Nothing);
                    (g, a, b, calls::digest(g, a, b))
                })
                .collect()
        })
        .collect();
    let here = AtomicUsize::new(0);
    let outs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let here = &here;
                sc.spawn(move || {
                    calls::yielding(spoken);
                    here.fetch_add(1, Relaxed);
                    while here.load(Relaxed) < threads {
                        std::thread::yield_now();
                    }
                    for i in 0..rounds {
                        let (g, a, b, want) = plan[i as usize % plan.len()];
                        let got = calls::digest(g, a, b);
                        if got != want {
                            return Some((g, a, b, i));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    c.evals += threads as u64 * rounds as u64;
    c.covn("calls made by several threads at once", threads as u64 * rounds as u64);
    for o in outs {
        match o {
            Err(_) => return Err(Viol { sig: "thread-panic".into(), msg: format!("calls to {} on {} threads: one panicked", NAMES[f], threads) }),
            Ok(Some((g, a, b, i))) => {
                return Err(Viol {
                    sig: "concurrent-calls".into(),
                    msg: format!("{}({:#x}, {:#x}) gave another answer in round {} of {} threads calling at once than alone", NAMES[g], a, b, i, threads),
                })
            }
            Ok(None) => {}
        }
    }
    Ok(())
}

/// A call whose sink, source, store or writer panics: every later call must answer as if it had not been made.
fn aftermath(c: &mut Case) -> R {
    let f = c.index as usize % NAMES.len();
    let (a, b) = words(c);
    calls::arm(0, Act::Nothing);
    let first = calls::digest(f, a, b);
    let total = calls::ticks();
    c.mix(f as u64 ^ a ^ b);
    if total == 0 {
        c.cov("calls without user-supplied parts");
        return Ok(());
    }
    c.nontrivial = true;
    let mut plan = vec![(f, a, b, first)];
    for i in 0..4 {
        let (x, y) = words(c);
        let g = if i < 2 { f } else { c.rng.below(NAMES.len() as u64) as usize };
        plan.push((g, x, y, calls::digest(g, x, y)));
    }
    for _ in 0..2 {
        let at = if c.rng.coin() { c.rng.range(1, total) } else { c.rng.range(1, total.min(9)) };
        c.t(|| format!("{}({:#x}, {:#x}), panic at use {} of {}", NAMES[f], a, b, at, total));
        calls::arm(at, Act::Panic);
        let r = attempt(|| calls::digest(f, a, b));
        calls::arm(0, Act::Nothing);
        c.covn("panics inside calls", r.is_err() as u64);
        for elsewhere in [false, true] {
            let check = |plan: &Vec<(usize, u64, u64, u64)>| plan.iter().find(|p| calls::digest(p.0, p.1, p.2) != p.3).copied();
            let bad = if elsewhere {
                let p = plan.clone();
                std::thread::spawn(move || check(&p)).join().unwrap_or(Some(plan[0]))
            } else {
                check(&plan)
            };
            c.evals += plan.len() as u64;
            if let Some((g, x, y, _)) = bad {
                return Err(Viol {
                    sig: "after-a-panic".into(),
                    msg: format!(
                        "{}({:#x}, {:#x}) answers differently{} after a user-supplied part of {}({:#x}, {:#x}) panicked at use {}",
                        NAMES[g], x, y, if elsewhere { " on another thread" } else { "" }, NAMES[f], a, b, at
                    ),
                });
            }
        }
    }
    Ok(())
}

/// Calls made from inside the sinks, sources, stores and writers of other calls.
fn nested(c: &mut Case) -> R {
    let f = c.index as usize % NAMES.len();
    let (a, b) = words(c);
    calls::arm(0, Act::Nothing);
    let want = calls::digest(f, a, b);
    let total = calls::ticks();
    c.mix(f as u64 ^ a ^ b);
    if total == 0 {
        return Ok(());
    }
    c.nontrivial = true;
    for i in 0..4 {
        let (x, y) = if c.rng.chance(1, 4) { (a, b) } else { words(c) };
        let g = if i < 2 { f } else { c.rng.below(NAMES.len() as u64) as usize };
        let inner = calls::digest(g, x, y);
        let at = if c.rng.coin() { c.rng.range(1, total) } else { c.rng.range(1, total.min(9)) };
        c.t(|| format!("{}({:#x}, {:#x}), at use {} of {} calls {}({:#x}, {:#x})", NAMES[f], a, b, at, total, NAMES[g], x, y));
        calls::arm(at, Act::Call(g, x, y));
        let got = calls::digest(f, a, b);
        let seen = calls::nested();
        calls::arm(0, Act::Nothing);
        c.evals += 2;
        c.cov("calls made inside calls");
        ck!(got == want, "around-a-call", "{}({:#x}, {:#x}) answers differently when its user-supplied part calls {}({:#x}, {:#x}) at use {}", NAMES[f], a, b, NAMES[g], x, y, at);
        ck!(seen == [inner], "inside-a-call", "{}({:#x}, {:#x}) answers differently ({:?}) when called from inside {}({:#x}, {:#x}) at use {}", NAMES[g], x, y, seen, NAMES[f], a, b, at);
    }
    Ok(())
}

/// In a fresh process: the very first calls into the library, made by several threads at once.
pub fn cold_child(seed: u64) -> ! {
    mon::run::quiet();
    let f = seed as usize % NAMES.len();
    let mut r = mon::Rng::new(seed);
    let threads = r.range(2, 6) as usize;
    let pairs: Vec<(u64, u64)> = (0..threads).map(|_| (r.next(), if r.coin() { r.next() } else { r.value() })).collect();
    let here = AtomicUsize::new(0);
    let got: Vec<Option<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = pairs
            .iter()
            .map(|&(a, b)| {
                let here = &here;
                sc.spawn(move || {
                    here.fetch_add(1, Relaxed);
                    while here.load(Relaxed) < threads {
                        std::hint::spin_loop();
                    }
                    calls::digest(f, a, b)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    let want: Vec<Option<u64>> = pairs.iter().map(|&(a, b)| Some(calls::digest(f, a, b))).collect();
    if got == want {
        println!("SAME");
    } else {
        println!("{} {:?}: first calls on {} threads gave {:x?}, later calls {:x?}", NAMES[f], pairs, threads, got, want);
    }
    std::process::exit(0)
}
fn cold(c: &mut Case) -> R {
    let seed = c.rng.next() / NAMES.len() as u64 * NAMES.len() as u64 + c.index % NAMES.len() as u64;
    c.mix(seed);
    c.nontrivial = true;
    c.t(|| format!("first calls of a process: {} from several threads", NAMES[seed as usize % NAMES.len()]));
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .env("RUST_BACKTRACE", "0")
        .arg("--cold")
        .arg(seed.to_string())
        .stderr(std::process::Stdio::inherit())
        .output()
        .expect("start a child");
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    c.evals += 1;
    c.cov("processes whose first calls were concurrent");
    if out.status.success() && text == "SAME" {
        return Ok(());
    }
    ck!(!text.is_empty(), "cold-crash", "a process whose first calls to {} came from several threads died: {:?}", NAMES[seed as usize % NAMES.len()], out.status);
    Err(Viol { sig: "first-calls".into(), msg: text })
}

pub fn workloads() -> Vec<Workload> {
    let mut v = vec![
        wl_fixed("markers", 1, markers),
        wl("readers", 12_000, 400_000, readers),
        wl("handover", 3_000, 100_000, handover),
        wl("separate", 1_500, 60_000, separate),
        wl("pipeline", 1_500, 50_000, pipeline),
        wl("hot", 600, 80_000, hot),
        wl("aftermath", 4_000, 150_000, aftermath),
        wl("nested", 8_000, 300_000, nested),
    ];
    if !cfg!(miri) {
        v.push(wl("cold", 280, 6_000, cold));
    }
    v
}
#[allow(dead_code)]
fn _d<T: Debug>() {}
