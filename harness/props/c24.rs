//! C24: results do not depend on the build mode or platform.
//!
//! Each case drives the library with requests that are the same everywhere (64-bit generator, fixed-size blocks) and
//! records every result, error kind and refusal. The driver compares the records between builds and targets.
use byteorder::{BigEndian, LittleEndian};
use mon::bvh;
use mon::ivh;
use mon::rng::mix64;
use mon::streams::{Rec, Src};
use mon::{attempt, bits, ceil_div, mask, wl, Blk, Case, Workload, R};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::{self, Broadword};
use succinct::coding::{Comma, Fibonacci, Lift0, Omega, Unary, UniversalCode, DELTA, GAMMA};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::storage::{Address, BlockType};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// What a result looks like in the record.
trait Seen {
    fn seen(&self) -> u64;
}
macro_rules! seen_int {
    ($($t:ty),*) => { $(impl Seen for $t { fn seen(&self) -> u64 { *self as u64 } })* };
}
seen_int!(u8, u16, u32, u64, usize, bool);
impl Seen for () {
    fn seen(&self) -> u64 {
        0x11
    }
}
impl<T: Seen> Seen for Option<T> {
    fn seen(&self) -> u64 {
        self.as_ref().map_or(0x22, |x| mix64(x.seen() ^ 0x33))
    }
}
impl<T: Seen> Seen for std::io::Result<T> {
    fn seen(&self) -> u64 {
        match self {
            Ok(x) => mix64(x.seen() ^ 0x44),
            Err(e) => mix64(e.kind() as u64 ^ 0x5500),
        }
    }
}
impl Seen for [u8] {
    fn seen(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
    }
}
impl Seen for String {
    fn seen(&self) -> u64 {
        self.as_bytes().seen()
    }
}
impl Seen for Vec<bool> {
    fn seen(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
    }
}
impl Seen for std::cmp::Ordering {
    fn seen(&self) -> u64 {
        *self as i8 as u64
    }
}
impl Seen for (u64, u64) {
    fn seen(&self) -> u64 {
        mix64(self.0) ^ self.1
    }
}

/// Records the result of an expression, or that it was refused.
macro_rules! see {
    ($c:expr, $e:expr, $($fmt:tt)+) => {{
        let r = attempt(|| $e);
        let x = match &r {
            Ok(x) => Seen::seen(x),
            Err(_) => 0xdead_0000_dead,
        };
        $c.evals += 1;
        $c.digest = mix64($c.digest ^ x).wrapping_add(0x9E37);
        if $c.trace_on {
            let s = match &r {
                Ok(x) => format!("{} = {:?}", format!($($fmt)+), x),
                Err(_) => format!("{} refused", format!($($fmt)+)),
            };
            $c.t(|| s);
        }
        r.ok()
    }};
}

/// A position around or far beyond n, the same on every platform.
fn pos(c: &mut Case, n: u64, nb: u64) -> u64 {
    let r = &mut c.rng;
    match r.below(14) {
        0 => n + r.below(nb + 1),
        1 => (1 << r.range(32, 38)) + r.below(n + 1),
        2 => (r.range(1, 0xffff_ffff) << 32) + r.below(n + 1),
        3 => u64::MAX - r.below(2 * nb),
        _ => r.below(n.max(1)),
    }
}
fn contents<B: Blk>(c: &mut Case, v: &dyn BitVec<Block = B>) {
    see!(c, (v.bit_len(), v.block_len() as u64), "len");
    for i in 0..v.block_len() {
        see!(c, v.get_block(i).u(), "block {:?}", i);
    }
}

/// One request to any mutable bit vector.
fn request<B: Blk>(c: &mut Case, v: &mut dyn BitVecMut<Block = B>) {
    let n = v.bit_len();
    let nb = B::NB;
    let p = pos(c, n, nb);
    let k = c.rng.below(nb + 1);
    let x = B::of(c.rng.next() & mask(k));
    let i = c.rng.below(ceil_div(n, nb) + 2) as usize;
    match c.rng.below(8) {
        0 => drop(see!(c, v.get_bit(p), "get_bit({:?})", p)),
        1 => drop(see!(c, v.get_bits(p, k as usize).u(), "get_bits({:?}, {:?})", p, k)),
        2 => drop(see!(c, v.get_block(i).u(), "get_block({:?})", i)),
        3 => drop(see!(c, v.set_bit(p, k % 2 == 0), "set_bit({:?}, {:?})", p, k % 2 == 0)),
        4 | 5 => drop(see!(c, v.set_bits(p, k as usize, x), "set_bits({:?}, {:?}, {:?})", p, k, x)),
        6 => drop(see!(c, v.set_block(i, x), "set_block({:?}, {:?})", i, x)),
        _ => drop(see!(c, BitSlice::new(&*v, 0..p).get_bit(p.wrapping_sub(1)), "last of 0..{:?}", p)),
    }
}

macro_rules! by_block {
    ($c:expr, $f:ident) => {
        match $c.rng.below(4) {
            0 => $f::<u8>($c),
            1 => $f::<u16>($c),
            2 => $f::<u32>($c),
            _ => $f::<u64>($c),
        }
    };
}

/// A bound on lengths, now and then far above `of`. The same cases on every leg, but Miri takes none of the long ones.
fn bound(c: &mut Case, of: &[u64]) -> u64 {
    if c.rng.below(160) == 0 {
        c.void = cfg!(miri);
        (1 << c.rng.range(10, 16)) + 64
    } else {
        c.rng.pick(of)
    }
}

fn bits_t<B: Blk>(c: &mut Case) -> R {
    let max = bound(c, &[10, 40, 90, 150]);
    if c.void {
        return Ok(());
    }
    let mut v = BitVector::<B>::new();
    let o = bvh::random_ctor(c, B::NB, max);
    see!(c, bvh::real(&mut v, &o), "{:?}", o);
    for _ in 0..c.rng.range(2, 12) {
        if c.rng.chance(2, 3) {
            let o = bvh::random_op(c, B::NB, v.bit_len().min(max), max);
            c.mix(v.bit_len());
            see!(c, bvh::real(&mut v, &o), "{:?}", o);
        } else {
            request::<B>(c, &mut v);
        }
        see!(c, v.bit_len(), "bit_len");
    }
    contents::<B>(c, &v);
    let mut w = v.clone();
    see!(c, w == v, "clone equals");
    let x = c.rng.coin();
    see!(c, w.push_bit(x), "push to the clone");
    see!(c, v.cmp(&w), "order with the longer clone");
    if v.bit_len() < 80 {
        see!(c, format!("{:b}", v), "binary form");
    }
    Ok(())
}

fn ints_t<B: Blk>(c: &mut Case) -> R {
    let k = ivh::width(c, B::NB);
    let max = bound(c, &[10, 60, 150]);
    if c.void {
        return Ok(());
    }
    let mut m = ivh::Model::new(k, B::NB);
    let mut v = IntVector::<B>::new(k as usize);
    let o = ivh::random_ctor(c, k, B::NB, max);
    m.apply(&o);
    see!(c, ivh::real(&mut v, &o), "{:?} ({:?} bits each)", o, k);
    for _ in 0..c.rng.range(2, 10) {
        let n = m.len();
        match c.rng.below(6) {
            0 => {
                let i = pos(c, n, B::NB);
                see!(c, v.get(i).u(), "get({:?})", i);
            }
            1 => {
                let i = pos(c, n, B::NB);
                let x = if k < B::NB && c.rng.chance(1, 3) { mask(k) + 1 } else { ivh::elem(c, k) };
                if see!(c, v.set(i, B::of(x)), "set({:?}, {:?})", i, x).is_some() && i < n && x <= mask(k) {
                    m.apply(&ivh::Op::Set(i, x));
                }
            }
            2 => {
                let w = c.rng.range(1, B::NB);
                // inside, or beyond the whole vector for certain
                let i = if c.rng.coin() { pos(c, n * k / w, B::NB) } else { c.rng.below(n * k / w + 1) };
                let o = if i < n * k / w { c.rng.below((n * k - (i + 1) * w).min(w) + 1) } else { n * k };
                see!(c, v.get_random(o, w as usize, i).u(), "get_random({:?}, {:?}, {:?})", o, w, i);
            }
            _ => {
                let o = ivh::random_op(c, &m, max);
                c.mix(n);
                m.apply(&o);
                see!(c, ivh::real(&mut v, &o), "{:?}", o);
            }
        }
        see!(c, v.len(), "len");
    }
    contents::<B>(c, &v);
    for x in v.iter().rev().take(4) {
        see!(c, x.u(), "from the back");
    }
    if v.len() < 20 {
        see!(c, format!("{:?}", v), "debug form");
    }
    Ok(())
}

fn window_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.below(5) + 1;
    let mut w: Vec<B> = (0..n).map(|_| B::of(c.rng.next())).collect();
    let len = n * B::NB;
    let a = c.rng.below(len + 1);
    let b = c.rng.range(a, len);
    c.mix(a << 32 ^ b);
    {
        let mut s = BitSliceMut::new(&mut w[..], a..b);
        contents::<B>(c, &s);
        for _ in 0..6 {
            request::<B>(c, &mut s);
        }
        contents::<B>(c, &s);
        let (a2, b2) = {
            let x = c.rng.below(b - a + 1);
            (x, c.rng.range(x, b - a))
        };
        let t = BitSlice::new(&s, a2..b2);
        contents::<B>(c, &t);
        let p = pos(c, b2 - a2, B::NB);
        see!(c, t.get_bits(p, 3).u(), "get_bits({:?}, 3) of the inner window", p);
    }
    for _ in 0..3 {
        request::<B>(c, &mut w);
    }
    contents::<B>(c, &w);
    let p = pos(c, len, B::NB);
    let q = p.saturating_add(c.rng.below(9));
    see!(c, BitSlice::new(&w, p..q).bit_len(), "slice {:?}..{:?} of {:?}", p, q, len);
    Ok(())
}

fn rank_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.below(400);
    let m = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    let mut v = BitVector::<B>::with_capacity(n);
    m.iter().for_each(|&b| v.push_bit(b));
    let j = BinSearchSelect::new(JacobsonRank::new(v));
    let mut u = BitVector::<u64>::with_capacity(n);
    m.iter().for_each(|&b| u.push_bit(b));
    let r = BinSearchSelect::new(Rank9::new(u));
    fn ask<S: BitRankSupport + Select0Support + Select1Support + SelectSupport<Over = bool>>(c: &mut Case, s: &S, n: u64, nb: u64) {
        see!(c, s.limit(), "limit");
        for _ in 0..4 {
            let p = pos(c, n, nb);
            see!(c, s.rank1(p), "rank1({:?})", p);
            let p = pos(c, n, nb);
            see!(c, s.rank0(p), "rank0({:?})", p);
            let k = if c.rng.chance(1, 6) { c.rng.value() } else { c.rng.below(n / 2 + 1) };
            see!(c, s.select1(k), "select1({:?})", k);
            see!(c, s.select(k, false), "select({:?}, false)", k);
        }
    }
    ask(c, &j, n, B::NB);
    ask(c, &r, n, 64);
    let x = c.rng.next();
    let p = pos(c, B::NB, B::NB);
    let y = B::of(x).u();
    macro_rules! prim {
        ($($t:ty),*) => { $(if B::NB == <$t>::BITS as u64 { see!(c, (y as $t).rank1(p), "{:?}.rank1({:?})", y, p); })* };
    }
    prim!(u8, u16, u32, u64);
    see!(c, Broadword(x).rank1(p), "Broadword({:?}).rank1({:?})", x, p);
    let k = c.rng.below(70);
    see!(c, Broadword(x).select1(k), "Broadword({:?}).select1({:?})", x, k);
    Ok(())
}

fn codes(c: &mut Case) -> R {
    let mut w = Rec::default();
    let mut script = vec![];
    for _ in 0..c.rng.range(1, 5) {
        let v = c.rng.value();
        let k = c.rng.below(9);
        c.mix(v);
        macro_rules! enc {
            ($e:expr, $v:expr) => {{
                let v = $v;
                let ok = see!(c, $e.encode(&mut w, v), "{:?} encodes {:?}", stringify!($e), v);
                if !matches!(ok, Some(Ok(()))) {
                    // what a refused encode leaves behind is recorded, then forgotten
                    see!(c, w.0.clone(), "bits after a refusal");
                    return Ok(());
                }
            }};
        }
        match k {
            0 => enc!(Unary, v % 90),
            1 => enc!(GAMMA, v),
            2 => enc!(DELTA, v),
            3 => enc!(Omega, v),
            4 => enc!(Fibonacci, v),
            5 => enc!(Comma(2), v),
            6 => enc!(Comma(7), v),
            7 => enc!(Lift0(Omega), v),
            _ => enc!(Lift0(DELTA), v),
        }
        script.push(k);
    }
    see!(c, w.0.clone(), "bits");
    // damaged in places, or as written
    let mut bits = w.0.clone();
    if c.rng.chance(2, 3) && !bits.is_empty() {
        for _ in 0..c.rng.range(1, 4) {
            let i = c.rng.below(bits.len() as u64) as usize;
            match c.rng.below(3) {
                0 => bits[i] = !bits[i],
                1 => bits.truncate(i + 1),
                _ => {
                    let b = c.rng.coin();
                    let n = c.rng.below(70) as usize;
                    bits.extend(vec![b; n])
                }
            }
        }
    }
    let mut s = Src::new(&bits);
    for k in script {
        match k {
            0 => drop(see!(c, Unary.decode(&mut s), "Unary decodes")),
            1 => drop(see!(c, GAMMA.decode(&mut s), "GAMMA decodes")),
            2 => drop(see!(c, DELTA.decode(&mut s), "DELTA decodes")),
            3 => drop(see!(c, Omega.decode(&mut s), "Omega decodes")),
            4 => drop(see!(c, Fibonacci.decode(&mut s), "Fibonacci decodes")),
            5 => drop(see!(c, Comma(2).decode(&mut s), "Comma(2) decodes")),
            6 => drop(see!(c, Comma(7).decode(&mut s), "Comma(7) decodes")),
            7 => drop(see!(c, Lift0(Omega).decode(&mut s), "Lift0(Omega) decodes")),
            _ => drop(see!(c, Lift0(DELTA).decode(&mut s), "Lift0(DELTA) decodes")),
        }
        see!(c, s.pos, "position");
    }
    Ok(())
}

fn buffer_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.below(3 * B::NB);
    let m = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    let mut v = BitVector::<B>::new();
    m.iter().for_each(|&b| v.push_bit(b));
    let mut b = if c.rng.coin() { BitBuffer::from(v) } else { BitBuffer::append(v) };
    for _ in 0..c.rng.range(3, 12) {
        let n = b.bit_len();
        let x = c.rng.next();
        let k = c.rng.below(17) as usize;
        match c.rng.below(12) {
            0 | 1 => {
                let p = pos(c, n + 1, B::NB);
                see!(c, b.seek(p), "seek({:?})", p);
            }
            2 => drop(see!(c, b.read_bit(), "read_bit")),
            3 => drop(see!(c, b.write_bit(x & 1 == 1), "write_bit")),
            4 => drop(see!(c, b.read_int::<u16>(k), "read_int::<u16>({:?})", k)),
            5 => drop(see!(c, b.read_int_be::<u64>(k), "read_int_be::<u64>({:?})", k)),
            6 => drop(see!(c, b.write_int::<u32>(k, x as u32), "write_int({:?}, {:?})", k, x as u32)),
            7 => drop(see!(c, b.write_int_be::<u64>(3 * k, x), "write_int_be({:?}, {:?})", 3 * k, x)),
            8 => drop(see!(c, b.write_int_be::<u16>(k, x as u16), "write_int_be::<u16>({:?}, {:?})", k, x as u16)),
            9 => drop(see!(c, b.read_int::<u64>(4 * k).map(|x| x), "read_int::<u64>({:?})", 4 * k)),
            10 => drop(see!(c, b.read_int::<u8>(k / 2), "read_int::<u8>({:?})", k / 2)),
            _ => request::<B>(c, &mut b),
        }
        see!(c, (b.position(), b.bit_len()), "position, length");
    }
    contents::<B>(c, &b.into_inner());
    Ok(())
}

fn iters_t<B: Blk>(c: &mut Case) -> R {
    let k = ivh::width(c, B::NB);
    let n = c.rng.below(30);
    let mut v = IntVector::<B>::new(k as usize);
    (0..n).for_each(|_| v.push(B::of(c.rng.next() & mask(k))));
    let mut w = BitVector::<B>::new();
    (0..n).for_each(|_| w.push_bit(c.rng.coin()));
    let (mut i, mut j) = (v.iter(), w.iter());
    c.mix(n ^ k << 32);
    for _ in 0..c.rng.range(3, 14) {
        let s = match c.rng.below(5) {
            0 => c.rng.below(n + 3),
            1 => 0xffff_fffe + c.rng.below(2),
            _ => c.rng.below(4),
        } as usize;
        match c.rng.below(6) {
            0 => drop(see!(c, i.next().map(|x| x.u()), "next")),
            1 => drop(see!(c, i.next_back().map(|x| x.u()), "next_back")),
            2 => drop(see!(c, i.nth(s).map(|x| x.u()), "nth({:?})", s)),
            3 => drop(see!(c, j.next(), "next bit")),
            4 => drop(see!(c, j.next_back(), "next_back bit")),
            _ => drop(see!(c, j.nth(s), "nth({:?}) bit", s)),
        }
        see!(c, (i.size_hint().0 as u64, j.size_hint().0 as u64), "lengths");
    }
    Ok(())
}

fn block_io_t<B: Blk>(c: &mut Case) -> R {
    let mut w: Vec<u8> = vec![];
    for _ in 0..6 {
        let x = B::of(c.rng.value());
        c.mix(x.u());
        if c.rng.coin() {
            see!(c, x.write_block::<_, BigEndian>(&mut w), "write {:?} big", x);
        } else {
            see!(c, x.write_block::<_, LittleEndian>(&mut w), "write {:?} little", x);
        }
    }
    c.rng.coin().then(|| w.truncate(w.len() - 1));
    see!(c, Seen::seen(&w[..]), "bytes");
    let mut r = &w[..];
    for _ in 0..7 {
        if c.rng.coin() {
            see!(c, B::read_block::<_, BigEndian>(&mut r).map(|x| x.u()), "read big");
        } else {
            see!(c, B::read_block::<_, LittleEndian>(&mut r).map(|x| x.u()), "read little");
        }
    }
    Ok(())
}

fn words_t<B: Blk>(c: &mut Case) -> R {
    for _ in 0..8 {
        let (x, y) = (c.rng.value(), c.rng.value());
        c.mix(x);
        let (b, d) = (B::of(x), B::of(y));
        let i = c.rng.below(B::NB + 2) as usize;
        let l = c.rng.below(B::NB + 2) as usize;
        // beyond the block, and wrapping on any word size
        let far = if c.rng.chance(1, 6) { 0xffff_ffff - c.rng.below(8) as usize } else { i };
        match c.rng.below(10) {
            0 => {
                see!(c, b.ceil_lg(), "{:?}.ceil_lg()", b);
                if b.u() > 0 {
                    see!(c, b.floor_lg(), "{:?}.floor_lg()", b);
                }
            }
            1 => drop(see!(c, b.ceil_div(d).u(), "{:?}.ceil_div({:?})", b, d)),
            2 => drop(see!(c, BlockType::get_bits(b, far, l).u(), "{:?}.get_bits({:?}, {:?})", b, far, l)),
            3 => {
                let f = B::of(y & mask((l as u64).min(B::NB)));
                see!(c, b.with_bits(far, l, f).u(), "{:?}.with_bits({:?}, {:?}, {:?})", b, far, l, f);
            }
            4 => drop(see!(c, BlockType::get_bit(b, far), "{:?}.get_bit({:?})", b, far)),
            5 => drop(see!(c, b.with_bit(far, y % 2 == 1).u(), "{:?}.with_bit({:?})", b, far)),
            6 => {
                if l as u64 <= B::NB {
                    see!(c, B::low_mask(l).u(), "low_mask({:?})", l);
                }
                if (i as u64) < B::NB {
                    see!(c, B::nth_mask(i).u(), "nth_mask({:?})", i);
                }
            }
            7 => {
                let p = x & 0xff_ffff_ff;
                see!(c, B::div_nbits(p), "div_nbits({:?})", p);
                see!(c, B::ceil_div_nbits(p), "ceil_div_nbits({:?})", p);
                see!(c, B::checked_ceil_div_nbits(p), "checked_ceil_div_nbits({:?})", p);
                see!(c, B::mod_nbits(x), "mod_nbits({:?})", x);
                see!(c, B::last_block_bits(x), "last_block_bits({:?})", x);
                let p = x & 0x7_ffff_ffff;
                see!(c, Address::new::<B>(p).bit_index::<B>(), "address of {:?} and back", p);
                see!(c, B::mul_nbits((y & 0xffff_ffff) as usize), "mul_nbits({:?})", y & 0xffff_ffff);
            }
            8 => {
                see!(c, broadword::count_ones(x), "count_ones({:?})", x);
                let r = c.rng.below(70) as usize;
                see!(c, broadword::select1(r, x), "select1({:?}, {:?})", r, x);
                let r = r + 0xffff_ff00;
                see!(c, broadword::select1(r, x), "select1({:?}, {:?})", r, x);
            }
            _ => {
                let z = mix64(x ^ y);
                see!(c, broadword::u_le8(z, y), "u_le8({:?}, {:?})", z, y);
                see!(c, broadword::le8(z, y), "le8({:?}, {:?})", z, y);
                see!(c, broadword::u_nz8(x), "u_nz8({:?})", x);
                see!(c, broadword::u_nz8(z & y), "u_nz8({:?})", z & y);
            }
        }
    }
    Ok(())
}

macro_rules! workload {
    ($($name:ident $t:ident),*) => { $(fn $name(c: &mut Case) -> R {
        c.nontrivial = true;
        by_block!(c, $t)?;
        c.mix(c.digest);
        Ok(())
    })* };
}
workload!(bit_vectors bits_t, int_vectors ints_t, windows window_t, ranks rank_t, buffers buffer_t, iterators iters_t, block_io block_io_t, words words_t);
fn coded(c: &mut Case) -> R {
    c.nontrivial = true;
    codes(c)?;
    c.mix(c.digest);
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("bit_vectors", 20_000, 400_000, bit_vectors),
        wl("int_vectors", 20_000, 400_000, int_vectors),
        wl("windows", 20_000, 400_000, windows),
        wl("ranks", 10_000, 200_000, ranks),
        wl("coded", 20_000, 400_000, coded),
        wl("buffers", 20_000, 400_000, buffers),
        wl("iterators", 10_000, 200_000, iterators),
        wl("block_io", 10_000, 200_000, block_io),
        wl("words", 20_000, 400_000, words),
    ]
}
