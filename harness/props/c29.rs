//! C29: a panic in user-supplied code leaves the call unchanged, and everything it met usable.
use mon::rng::mix64;
use mon::refcodes::{decode, encode, reference, value_for, NCODES};
use mon::streams::{Rec, Src};
use mon::{alloc, ck, ckeq, fp_bits, mask, pattern, with_blk, wl, Blk, Case, Workload, R};
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::coding::{Elias, Lift0, UniversalCode};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::BlockType;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVector};

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static NONCE: Cell<u64> = const { Cell::new(0) };
    static GETS: Cell<u64> = const { Cell::new(0) };
    static PUTS: Cell<u64> = const { Cell::new(0) };
    static AFTER: Cell<bool> = const { Cell::new(false) };
}
/// What the user's code panics with: no other panic must come out in its place.
struct Trap(u64);
/// The next `left`-th use of user code panics, before or after it has done its work.
fn arm(c: &mut Case, left: u64) -> u64 {
    let n = c.rng.next();
    c.mix(left);
    LEFT.with(|x| x.set(left));
    NONCE.with(|x| x.set(n));
    GETS.with(|x| x.set(0));
    PUTS.with(|x| x.set(0));
    AFTER.with(|x| x.set(c.rng.coin()));
    n
}
/// One use of user code: `f` does the work.
fn user<T>(put: bool, f: impl FnOnce() -> T) -> T {
    let l = LEFT.with(|x| x.get());
    let trap = l == 1;
    if l > 0 {
        LEFT.with(|x| x.set(l - 1));
    }
    if trap && !AFTER.with(|x| x.get()) {
        std::panic::panic_any(Trap(NONCE.with(|x| x.get())));
    }
    let r = f();
    if trap {
        std::panic::panic_any(Trap(NONCE.with(|x| x.get())));
    }
    if put { PUTS.with(|x| x.set(x.get() + 1)) } else { GETS.with(|x| x.set(x.get() + 1)) }
    r
}
/// `Ok(Some)`: it returned; `Ok(None)`: the trap came out.
fn trapped<T>(nonce: u64, what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, mon::Viol> {
    let r = catch_unwind(AssertUnwindSafe(f));
    let pending = LEFT.with(|x| x.replace(0)) != 0;
    match r {
        Ok(x) => {
            ck!(nonce == 0 || pending, "swallowed", "{}: the panic of the user's code did not come out", what);
            Ok(Some(x))
        }
        Err(p) => match p.downcast::<Trap>() {
            Ok(t) if t.0 == nonce => Ok(None),
            _ => Err(mon::Viol { sig: "other-panic".into(), msg: format!("{}: another panic came out: {:?}", what, mon::run::last_panic()) }),
        },
    }
}

#[derive(Clone)]
struct Bits<B>(Vec<bool>, PhantomData<B>);
impl<B: Blk> BitVec for Bits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.len() as u64
    }
    fn get_bit(&self, p: u64) -> bool {
        user(false, || self.0[p as usize])
    }
}
impl<B: Blk> BitVecMut for Bits<B> {
    fn set_bit(&mut self, p: u64, v: bool) {
        user(true, || self.0[p as usize] = v)
    }
}
impl<B: Blk> BitVecPush for Bits<B> {
    fn push_bit(&mut self, v: bool) {
        user(true, || self.0.push(v))
    }
    fn pop_bit(&mut self) -> Option<bool> {
        user(true, || self.0.pop())
    }
}
#[derive(Clone)]
struct Blocks<B>(Vec<B>, u64);
impl<B: Blk> BitVec for Blocks<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.1
    }
    fn get_block(&self, i: usize) -> B {
        user(false, || self.0[i])
    }
}
impl<B: Blk> BitVecMut for Blocks<B> {
    fn set_block(&mut self, i: usize, v: B) {
        user(true, || self.0[i] = v)
    }
}
fn blocks_of<B: Blk>(m: &[bool]) -> Blocks<B> {
    Blocks(m.chunks(B::NB as usize).map(|x| B::of(mon::field(x, 0, x.len() as u64))).collect(), m.len() as u64)
}
fn read_all<V: BitVec>(v: &V) -> Vec<bool> {
    (0..v.bit_len()).map(|i| v.get_bit(i)).collect()
}

/// Buffers over a user's store: a cursor whose position never runs ahead of what was done.
fn buffers_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.below(90);
    let mut m = pattern(&mut c.rng, n, B::NB);
    fp_bits(c, &m);
    let mut buf = BitBuffer::from(Bits::<B>(m.clone(), PhantomData));
    let mut pos = 0u64;
    for step in 0..30 {
        let k = c.rng.below(40);
        let v = c.rng.next() & mask(k);
        let live = m.len() as u64;
        if c.rng.chance(1, 3) {
            let p = c.rng.below(live + 1);
            buf.seek(p).unwrap();
            pos = p;
        }
        let left = if c.rng.chance(2, 3) { c.rng.range(1, 2 * k + 3) } else { 0 };
        let what = c.rng.below(6);
        let nonce = arm(c, left);
        let nonce = if left == 0 { 0 } else { nonce };
        let who = format!("step {}: operation {} of {} bits at {} of {}, trap {}", step, what, k, pos, live, left);
        c.t(|| who.clone());
        let count = if what == 0 || what == 3 { 1 } else { k };
        let write = what >= 3;
        let word: Vec<bool> = (0..count).map(|i| if what == 5 { v >> (count - 1 - i) & 1 == 1 } else { v >> i & 1 == 1 }).collect();
        let done = trapped(nonce, &who, || match what {
            0 => buf.read_bit().map(|b| b.map(u64::from)),
            1 => buf.read_int::<u64>(k as usize),
            2 => buf.read_int_be::<u64>(k as usize),
            3 => buf.write_bit(v & 1 == 1).map(|_| None),
            4 => buf.write_int::<u64>(k as usize, v).map(|_| None),
            _ => buf.write_int_be::<u64>(k as usize, v).map(|_| None),
        })?;
        c.evals += 1;
        let got = buf.inner().0.clone();
        let now = buf.position();
        if done.is_none() {
            c.cov("traps in buffers");
            c.nontrivial = true;
            let ops = if write { PUTS.with(|x| x.get()) } else { GETS.with(|x| x.get()) };
            ck!(now >= pos && now <= pos + ops.min(count), "position", "{}: the position is {} after {} finished accesses", who, now, ops);
            if write {
                ck!(got.len() as u64 >= live && got.len() as u64 <= live.max(pos + count), "contents", "{}: the store has {} bits", who, got.len());
                for (i, &b) in got.iter().enumerate() {
                    let i = i as u64;
                    let old = m.get(i as usize).copied();
                    let fine = if i >= pos && i < now {
                        b == word[(i - pos) as usize]
                    } else if i >= now && i < pos + count {
                        Some(b) == old || b == word[(i - pos) as usize] || (old.is_none() && !b)
                    } else {
                        Some(b) == old
                    };
                    ck!(fine, "contents", "{}: bit {} is {}, was {:?}", who, i, b, old);
                }
            } else {
                ckeq!(&got, &m, "contents", "{}: a read changed the store", who);
            }
            m = got;
            pos = now;
            // once more, undisturbed
            if write && c.rng.coin() {
                let p = pos;
                buf.write_int::<u64>(k as usize, v).unwrap();
                mon_write(&mut m, p, (0..k).map(|i| v >> i & 1 == 1));
                pos = p + k;
            }
        } else if write {
            mon_write(&mut m, pos, word.iter().copied());
            pos += count;
        } else {
            let some = (live - pos).min(count);
            pos += some;
        }
        ckeq!(buf.position(), pos, "later", "{}: position afterwards", who);
        ckeq!(&buf.inner().0, &m, "later", "{}: contents afterwards", who);
    }
    Ok(())
}
fn mon_write(m: &mut Vec<bool>, p: u64, bits: impl Iterator<Item = bool>) {
    for (i, b) in bits.enumerate() {
        let i = p as usize + i;
        if i < m.len() {
            m[i] = b
        } else {
            m.push(b)
        }
    }
}
fn buffers(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, buffers_t, c)
}

/// Reads and writes through `v`, a layer over a user's store; `m` is what the layer shows. Interrupted writes change addressed bits only.
fn poke<V: BitVecMut>(c: &mut Case, v: &mut V, m: &mut Vec<bool>, who: &str) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let n = m.len() as u64;
    if n == 0 {
        return Ok(());
    }
    let what = c.rng.below(6);
    let k = c.rng.below(nb.min(n) + 1);
    let (p, s, i) = (c.rng.below(n), c.rng.below(n - k + 1), c.rng.below((n + nb - 1) / nb));
    let x = c.rng.next();
    let top = c.rng.pick(&[2, 4, 2 * nb]);
    let left = if c.rng.chance(3, 4) { c.rng.range(1, top) } else { 0 };
    let nonce = arm(c, left);
    let nonce = if left == 0 { 0 } else { nonce };
    let live = nb.min(n - i * nb);
    let (a, cnt, val) = match what {
        0 | 3 => (p, 1, x & 1),
        1 | 4 => (s, k, x & mask(k)),
        _ => (i * nb, live, x & mask(live)),
    };
    let who = format!("{}: operation {} on {} bits at {} of {}, trap {}", who, what, cnt, a, n, left);
    c.t(|| who.clone());
    type U<V> = <V as BitVec>::Block;
    let r = trapped(nonce, &who, || match what {
        0 => v.get_bit(p) as u64,
        1 => v.get_bits(s, k as usize).u(),
        2 => v.get_block(i as usize).u() & mask(live),
        3 => {
            v.set_bit(p, x & 1 == 1);
            0
        }
        4 => {
            v.set_bits(s, k as usize, U::<V>::of(val));
            0
        }
        _ => {
            v.set_block(i as usize, U::<V>::of(val));
            0
        }
    })?;
    c.evals += 1;
    let old = m.clone();
    match r {
        Some(g) if what < 3 => ckeq!(g, mon::field(m, a, cnt), "answer", "{}", who),
        Some(_) => mon::set_field(m, a, cnt, val),
        None => {
            c.cov("traps in stores");
            c.nontrivial = true;
        }
    }
    let got = read_all(v);
    if r.is_some() || what < 3 {
        ckeq!(&got, m, "contents", "{}", who);
    } else {
        ckeq!(got.len(), old.len(), "contents", "{}: length", who);
        for j in 0..n {
            let inside = j >= a && j < a + cnt;
            let b = got[j as usize];
            ck!(b == old[j as usize] || (inside && b == (val >> (j - a) & 1 == 1)), "contents", "{}: bit {} became {}", who, j, b);
        }
        *m = got;
    }
    Ok(())
}
fn pushes<V: BitVecPush>(c: &mut Case, v: &mut V, m: &mut Vec<bool>, who: &str) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    let what = c.rng.below(3);
    let x = c.rng.next();
    let left = if c.rng.chance(3, 4) { c.rng.range(1, nb + 4) } else { 0 };
    let nonce = arm(c, left);
    let nonce = if left == 0 { 0 } else { nonce };
    let mut want = m.clone();
    if what > 0 {
        while want.len() as u64 % nb != 0 {
            want.push(what == 1 && x & 1 == 1);
        }
    }
    if what == 2 {
        want.extend((0..nb).map(|i| x >> i & 1 == 1));
    } else if what == 0 {
        want.push(x & 1 == 1);
    }
    let who = format!("{}: append {} to {} bits, trap {}", who, what, m.len(), left);
    type U<V> = <V as BitVec>::Block;
    let r = trapped(nonce, &who, || match what {
        0 => v.push_bit(x & 1 == 1),
        1 => v.align_block(x & 1 == 1),
        _ => v.push_block(U::<V>::of(x & mask(nb))),
    })?;
    c.evals += 1;
    let got = read_all(v);
    if r.is_some() {
        ckeq!(&got, &want, "contents", "{}", who);
    } else {
        c.cov("traps in stores");
        ck!(got.len() >= m.len() && got.len() <= want.len() && got[..] == want[..got.len()], "contents", "{}: now {} bits", who, got.len());
    }
    *m = got;
    Ok(())
}
fn stores_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.range(1, 3 * B::NB + 5);
    let m = pattern(&mut c.rng, n, B::NB);
    fp_bits(c, &m);
    let mut byb = Bits::<B>(m.clone(), PhantomData);
    let mut blk = blocks_of::<B>(&m);
    let (mut m1, mut m2) = (m.clone(), m.clone());
    for _ in 0..12 {
        match c.rng.below(5) {
            0 => poke(c, &mut byb, &mut m1, "by-bit store")?,
            1 => poke(c, &mut blk, &mut m2, "by-block store")?,
            2 => {
                let (a, b) = (c.rng.below(m1.len() as u64 + 1), c.rng.below(m1.len() as u64 + 1));
                let (a, b) = (a.min(b), a.max(b));
                let mut w = m1[a as usize..b as usize].to_vec();
                {
                    let mut s = BitSliceMut::new(&mut byb, a..b);
                    poke(c, &mut s, &mut w, "window onto a by-bit store")?;
                    poke(c, &mut s, &mut w, "window onto a by-bit store")?;
                }
                m1.splice(a as usize..b as usize, w);
                ckeq!(&byb.0, &m1, "outside", "the store under the window {}..{}", a, b);
            }
            3 => {
                let (a, b) = (c.rng.below(n + 1), c.rng.below(n + 1));
                let (a, b) = (a.min(b), a.max(b));
                let mut w = m2[a as usize..b as usize].to_vec();
                {
                    let mut s = BitSliceMut::new(&mut blk, a..b);
                    poke(c, &mut s, &mut w, "window onto a by-block store")?;
                    poke(c, &mut s, &mut w, "window onto a by-block store")?;
                }
                m2.splice(a as usize..b as usize, w);
                ckeq!(&read_all(&blk), &m2, "outside", "the store under the window {}..{}", a, b);
            }
            _ => {
                pushes(c, &mut byb, &mut m1, "by-bit store")?;
                let mut buf = BitBuffer::append(std::mem::replace(&mut byb, Bits(vec![], PhantomData)));
                poke(c, &mut buf, &mut m1, "buffer over a by-bit store")?;
                byb = buf.into_inner();
            }
        }
        if m1.len() as u64 > 6 * B::NB {
            m1.truncate(n as usize);
            byb.0.truncate(n as usize);
        }
    }
    Ok(())
}
fn stores(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, stores_t, c)
}

/// Building is given up without a leak; a query that was given up does not disturb the next.
fn ranks_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.len(B::NB, 1500);
    let m = pattern(&mut c.rng, n, B::NB);
    fp_bits(c, &m);
    let mut pre = vec![0u64];
    for &b in &m {
        pre.push(pre[pre.len() - 1] + b as u64);
    }
    let st = blocks_of::<B>(&m);
    let st9 = blocks_of::<u64>(&m);
    for _ in 0..4 {
        let nine = c.rng.coin();
        let left = c.rng.range(1, n / if nine { 64 } else { B::NB } + 2);
        let nonce = arm(c, left);
        let before = alloc::live();
        let (s, s9) = (st.clone(), st9.clone());
        let r = trapped(nonce, "building a rank structure", move || {
            if nine {
                drop((Rank9::new(s9), s));
            } else {
                drop((JacobsonRank::new(s), s9));
            }
        })?;
        c.evals += 1;
        // what carries the panic is allocated on its first use
        let after = alloc::live();
        if r.is_none() {
            c.cov("traps in building");
            c.nontrivial = true;
            ck!(cfg!(miri) || after - before < 200, "leak", "{} bytes are left of a rank structure that was never finished", after - before);
        }
    }
    let j = JacobsonRank::new(st.clone());
    let r9 = Rank9::new(st9.clone());
    let sj = BinSearchSelect::new(JacobsonRank::new(st));
    let s9 = BinSearchSelect::new(Rank9::new(st9));
    if n == 0 {
        return Ok(());
    }
    for _ in 0..30 {
        let p = c.rng.below(n);
        let k = c.rng.below(n + 2);
        let what = c.rng.below(10);
        let left = if c.rng.coin() { c.rng.range(1, 6) } else { 0 };
        let nonce = arm(c, left);
        let nonce = if left == 0 { 0 } else { nonce };
        let ones = pre[p as usize + 1];
        let sel = |one: bool| {
            let mut i = 0;
            m.iter().position(|&b| {
                i += (b == one) as u64;
                b == one && i == k + 1
            })
        };
        let want = match what {
            0 | 1 | 2 => Some(ones),
            3 | 4 => Some(p + 1 - ones),
            5 | 6 | 7 => sel(true).map(|x| x as u64),
            _ => sel(false).map(|x| x as u64),
        };
        let got = trapped(nonce, "a query", || match what {
            0 => Some(j.rank1(p)),
            1 => Some(r9.rank1(p)),
            2 => Some(sj.rank(p, true)),
            3 => Some(j.rank(p, false)),
            4 => Some(r9.rank0(p)),
            5 => sj.select1(k),
            6 => s9.select1(k),
            7 => s9.select(k, true),
            8 => sj.select0(k),
            _ => s9.select0(k),
        })?;
        c.evals += 1;
        match got {
            Some(g) => ckeq!(g, want, "answer", "query {} of {} or {} in {} bits of {}", what, p, k, n, B::NAME),
            None => {
                c.cov("traps in queries");
                c.nontrivial = true
            }
        }
    }
    Ok(())
}
fn ranks(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, ranks_t, c)
}

struct Sink(Vec<bool>);
impl BitWrite for Sink {
    fn write_bit(&mut self, b: bool) -> io::Result<()> {
        user(true, || self.0.push(b));
        Ok(())
    }
}
struct Source<'a>(&'a [bool], usize);
impl<'a> BitRead for Source<'a> {
    fn read_bit(&mut self) -> io::Result<Option<bool>> {
        user(false, || {
            let b = self.0.get(self.1).copied();
            self.1 += b.is_some() as usize;
            Ok(b)
        })
    }
}
/// A user's code inside the library's.
struct Mine;
impl UniversalCode for Mine {
    fn encode<W: BitWrite>(&self, w: &mut W, v: u64) -> io::Result<()> {
        user(true, || w.write_int::<u64>(64, v))
    }
    fn decode<R: BitRead>(&self, r: &mut R) -> io::Result<Option<u64>> {
        user(false, || r.read_int::<u64>(64))
    }
}
fn codes(c: &mut Case) -> R {
    let mut good: Vec<(usize, u64, Vec<bool>)> = vec![];
    for _ in 0..8 {
        let i = c.rng.below(NCODES as u64) as usize;
        let v = if reference(i).unary_like() { c.rng.below(400) } else { value_for(&mut c.rng, i) };
        c.mix(v);
        c.mix(i as u64);
        let mut r = Rec::default();
        if reference(i).unary_like() && v > 3000 {
            continue;
        }
        if !matches!(mon::attempt(|| encode(i, &mut r, v)), Ok(Ok(()))) {
            continue;
        }
        let word = r.0;
        let left = c.rng.range(1, word.len() as u64 + 2);
        let nonce = arm(c, left);
        let mut sink = Sink(vec![]);
        let r = trapped(nonce, "encoding", || encode(i, &mut sink, v).is_ok())?;
        c.evals += 2;
        ck!(sink.0.len() <= word.len() && sink.0[..] == word[..sink.0.len()], "prefix", "code {} of {}: an interrupted sink has {} bits", i, v, sink.0.len());
        ck!(r.is_some() == (left > word.len() as u64), "uses", "code {} of {}: trap {} in a word of {} bits", i, v, left, word.len());
        c.covn("traps in streams", r.is_none() as u64);
        c.nontrivial |= r.is_none();
        let left = c.rng.range(1, word.len() as u64 + 2);
        let nonce = arm(c, left);
        let after = AFTER.with(|x| x.get()) as u64;
        let mut s = Source(&word, 0);
        let r = trapped(nonce, "decoding", || decode(i, &mut s).ok())?;
        match r {
            Some(x) => ckeq!(x, Some(Some(v)), "answer", "code {}", i),
            None => ckeq!(s.1 as u64, left - 1 + after, "consumed", "code {} of {}: bits taken before the trap", i, v),
        }
        good.push((i, v, word));
        for (i, v, w) in &good {
            let mut r = Rec::default();
            encode(*i, &mut r, *v).unwrap();
            ckeq!(&r.0, w, "later", "code {} of {} after an interrupted call", i, v);
            ckeq!(decode(*i, &mut Src::new(w)).ok(), Some(Some(*v)), "later", "code {} after an interrupted call", i);
        }
    }
    for e in 0..2 {
        let v = c.rng.next() >> c.rng.range(1, 60) | 1;
        let run = |s: &mut Rec| if e == 0 { Lift0(Mine).encode(s, v).is_ok() } else { Elias(Mine).encode(s, v).is_ok() };
        let mut whole = Rec::default();
        ck!(run(&mut whole), "inner", "encoding {}", v);
        let nonce = arm(c, 1);
        let after = AFTER.with(|x| x.get());
        let mut part = Rec::default();
        let r = trapped(nonce, "a user's code", || run(&mut part))?;
        ck!(r.is_none() && part.0[..] == whole.0[..if after { 64 } else { 0 }], "inner", "the inner code panicked; {} bits are written", part.0.len());
        let nonce = arm(c, 1);
        let after = AFTER.with(|x| x.get());
        let mut s = Src::new(&whole.0);
        let dec = |s: &mut Src| if e == 0 { Lift0(Mine).decode(s).ok() } else { Elias(Mine).decode(s).ok() };
        let r = trapped(nonce, "a user's code", || dec(&mut s))?;
        ck!(r.is_none() && s.pos == if after { 64 } else { 0 }, "inner", "the inner code panicked; {} bits are taken", s.pos);
        ckeq!(dec(&mut Src::new(&whole.0)), Some(Some(v)), "later", "the user's code again");
        c.evals += 4;
    }
    Ok(())
}

struct Out(Vec<u8>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        user(true, || self.0.extend_from_slice(&b[..1.min(b.len())]));
        Ok(1.min(b.len()))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct In<'a>(&'a [u8]);
impl<'a> Read for In<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        user(false, || {
            let k = 1.min(b.len()).min(self.0.len());
            b[..k].copy_from_slice(&self.0[..k]);
            self.0 = &self.0[k..];
            Ok(k)
        })
    }
}
struct Text(String);
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        user(true, || self.0.push_str(s));
        Ok(())
    }
}
struct Mixer(u64);
impl Hasher for Mixer {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        user(true, || self.0 = b.iter().fold(self.0, |a, &x| mix64(a ^ x as u64)))
    }
}
fn sinks_t<B: Blk>(c: &mut Case) -> R {
    type E = byteorder::BigEndian;
    let x = B::of(c.rng.next() & mask(B::NB));
    c.mix(x.u());
    let mut whole = Out(vec![]);
    x.write_block::<_, E>(&mut whole).unwrap();
    let left = c.rng.range(1, B::NB / 8 + 1);
    let nonce = arm(c, left);
    let mut part = Out(vec![]);
    let r = trapped(nonce, "write_block", || x.write_block::<_, E>(&mut part).is_ok())?;
    c.nontrivial |= r.is_none();
    c.covn("traps in sinks", r.is_none() as u64);
    ck!(whole.0.starts_with(&part.0), "prefix", "bytes written before the trap: {:?} of {:?}", part.0, whole.0);
    let nonce = arm(c, left);
    let after = AFTER.with(|x| x.get()) as usize;
    let mut s = In(&whole.0);
    let r = trapped(nonce, "read_block", || B::read_block::<_, E>(&mut s).ok())?;
    match r {
        Some(y) => ckeq!(y, Some(x), "answer", "read_block"),
        None => ckeq!(whole.0.len() - s.0.len(), left as usize - 1 + after, "consumed", "bytes taken before the trap"),
    }
    ckeq!(B::read_block::<_, E>(&mut In(&whole.0)).ok(), Some(x), "later", "read_block");
    c.evals += 3;

    let n = c.rng.len(B::NB, 300);
    let m = pattern(&mut c.rng, n, B::NB);
    fp_bits(c, &m);
    let mut v = BitVector::<B>::new();
    let mut iv = IntVector::<B>::new(3);
    for &b in &m {
        v.push_bit(b);
        iv.push(B::of(b as u64 * 5));
    }
    let (mut t1, mut t2, mut h1, mut h2) = (Text(String::new()), Text(String::new()), Mixer(1), Mixer(1));
    write!(t1, "{:b}", v).unwrap();
    write!(t2, "{:?}", iv).unwrap();
    v.hash(&mut h1);
    iv.hash(&mut h2);
    for _ in 0..4 {
        let left = c.rng.range(1, n + 3);
        let what = c.rng.below(4);
        let nonce = arm(c, left);
        let (mut t, mut h) = (Text(String::new()), Mixer(1));
        trapped(nonce, "printing or hashing", || match what {
            0 => write!(t, "{:b}", v).is_ok(),
            1 => write!(t, "{:?}", iv).is_ok(),
            2 => {
                v.hash(&mut h);
                true
            }
            _ => {
                iv.hash(&mut h);
                true
            }
        })?;
        c.evals += 1;
        ck!((if what == 0 { &t1.0 } else { &t2.0 }).starts_with(&t.0), "prefix", "text written before the trap: {:.100}", t.0);
    }
    let mut t = Text(String::new());
    write!(t, "{:b}{:?}", v, iv).unwrap();
    ckeq!(t.0, format!("{}{}", t1.0, t2.0), "later", "text");
    let (mut g1, mut g2) = (Mixer(1), Mixer(1));
    v.hash(&mut g1);
    iv.hash(&mut g2);
    ckeq!((g1.0, g2.0), (h1.0, h2.0), "later", "hashes");
    ckeq!(read_all(&v), m.clone(), "later", "contents");
    ckeq!(BitSlice::new(&v, ..).bit_len(), n, "later", "length");
    ck!((0..n).all(|i| iv.get(i).u() == m[i as usize] as u64 * 5), "later", "elements");
    Ok(())
}
fn sinks(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, sinks_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("buffers", 4_000, 150_000, buffers),
        wl("stores", 4_000, 150_000, stores),
        wl("ranks", 1_500, 60_000, ranks),
        wl("codes", 3_000, 100_000, codes),
        wl("sinks", 3_000, 100_000, sinks),
    ]
}
