//! C16: bit-level integer reads and writes are exact in both bit orders.
use mon::stores::ByBit;
use mon::streams::{CountSink, Rec, Src};
use mon::{attempt, bvh, ck, ckeq, must, show, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::io::ErrorKind;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVector};

pub trait Int: num_traits::PrimInt + Debug {
    const NAME: &'static str;
    const W: usize;
    fn of(x: u128) -> Self;
    /// Its low W bits.
    fn raw(self) -> u128;
}
macro_rules! int {
    ($($t:ident),*) => { $(impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const W: usize = $t::BITS as usize;
        fn of(x: u128) -> Self { x as $t }
        fn raw(self) -> u128 { (self as u128) & low($t::BITS as usize) }
    })* };
}
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! with_int {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k % 12 {
            0 => $f::<u8>($($arg),*),
            1 => $f::<u16>($($arg),*),
            2 => $f::<u32>($($arg),*),
            3 => $f::<u64>($($arg),*),
            4 => $f::<u128>($($arg),*),
            5 => $f::<usize>($($arg),*),
            6 => $f::<i8>($($arg),*),
            7 => $f::<i16>($($arg),*),
            8 => $f::<i32>($($arg),*),
            9 => $f::<i64>($($arg),*),
            10 => $f::<i128>($($arg),*),
            _ => $f::<isize>($($arg),*),
        }
    };
}
macro_rules! with_int2 {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k % 12 {
            0 => $f::<u8, _>($($arg),*),
            1 => $f::<u16, _>($($arg),*),
            2 => $f::<u32, _>($($arg),*),
            3 => $f::<u64, _>($($arg),*),
            4 => $f::<u128, _>($($arg),*),
            5 => $f::<usize, _>($($arg),*),
            6 => $f::<i8, _>($($arg),*),
            7 => $f::<i16, _>($($arg),*),
            8 => $f::<i32, _>($($arg),*),
            9 => $f::<i64, _>($($arg),*),
            10 => $f::<i128, _>($($arg),*),
            _ => $f::<isize, _>($($arg),*),
        }
    };
}
fn low(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}
fn word(x: u128, n: usize, be: bool) -> Vec<bool> {
    let mut v: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
    if be {
        v.reverse();
    }
    v
}
fn order(be: bool) -> &'static str {
    if be {
        "_be"
    } else {
        ""
    }
}
fn wr<N: Int, W: BitWrite>(w: &mut W, n: usize, x: N, be: bool) -> Result<std::io::Result<()>, String> {
    attempt(|| if be { w.write_int_be(n, x) } else { w.write_int(n, x) })
}
fn rd<N: Int, S: BitRead>(r: &mut S, n: usize, be: bool) -> Result<std::io::Result<Option<N>>, String> {
    attempt(|| if be { r.read_int_be::<N>(n) } else { r.read_int::<N>(n) })
}

/// One value at one width, both orders: bits written, read back, cut short at every place.
fn one<N: Int>(c: &mut Case, x: u128, n: usize, cuts: bool) -> R {
    let v = N::of(x);
    let raw = v.raw();
    for be in [false, true] {
        let want = word(raw, n, be);
        let who = || format!("{} {:?}, {} bits{}", N::NAME, v, n, order(be));
        let mut w = Rec::default();
        let r = wr(&mut w, n, v, be);
        c.evals += 2;
        ck!(matches!(r, Ok(Ok(()))), "write", "writing {}: {:?}", who(), r);
        ck!(w.0 == want, "written", "writing {}: wrote {}, expected {}", who(), show(&w.0), show(&want));
        // read it back, with more bits behind it
        let mut more = want.clone();
        more.push(true);
        more.push(false);
        let mut s = Src::new(&more);
        let r = rd::<N, _>(&mut s, n, be);
        match r {
            Ok(Ok(Some(y))) => ck!(y.raw() == raw & low(n), "read", "reading back {}: got {:?}, expected low bits {:#x}", who(), y, raw & low(n)),
            r => ck!(false, "read", "reading back {}: {:?}", who(), r),
        }
        ckeq!((s.pos, s.past), (n, 0), "consumed", "reading back {}: bits consumed, reads past the end", who());
        if cuts {
            for k in 0..n {
                let mut s = Src::new(&want[..k]);
                let r = rd::<N, _>(&mut s, n, be);
                c.evals += 1;
                if k == 0 {
                    ck!(matches!(r, Ok(Ok(None))), "clean-end", "reading {} bits{} as {} from nothing: {:?}", n, order(be), N::NAME, r);
                } else {
                    ck!(matches!(&r, Ok(Err(e)) if e.kind() == ErrorKind::UnexpectedEof), "cut", "reading {} bits{} as {} from {}: {:?}", n, order(be), N::NAME, k, r);
                }
                ck!(s.past <= 8, "reads-on", "reading {} bits from {}: {} reads after the end", n, k, s.past);
            }
        }
        if n == 0 {
            let mut s = Src::new(&[]);
            let r = rd::<N, _>(&mut s, 0, be);
            ck!(matches!(r, Ok(Ok(Some(y))) if y == N::zero()), "zero", "reading 0 bits as {} at the end: {:?}", N::NAME, r);
            let mut w = CountSink::default();
            let r = wr(&mut w, 0, v, be);
            ck!(matches!(r, Ok(Ok(()))) && w.n == 0, "zero", "writing 0 bits of {:?}: {:?}, {} bits written", v, r, w.n);
            c.cov("zero-bit integers");
        }
    }
    Ok(())
}

/// Every value of every width for the 8-bit types; every 16-bit value at chosen widths.
fn bytes(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let n = c.index as usize;
    if n <= 8 {
        for x in 0..256u128 {
            one::<u8>(c, x, n, true)?;
            one::<i8>(c, x, n, true)?;
        }
    } else {
        let n = n - 9;
        for x in (0..65_536u128).step_by(if c.thorough { 1 } else { 7 }) {
            one::<u16>(c, x, n, false)?;
            one::<i16>(c, x, n, false)?;
        }
    }
    Ok(())
}
fn widths_t<N: Int>(c: &mut Case, x: u128) -> R {
    c.cov(N::NAME);
    for n in 0..=N::W {
        one::<N>(c, x, n, false)?;
    }
    let n = c.rng.below(N::W as u64 + 1) as usize;
    one::<N>(c, x, n, true)?;
    one::<N>(c, x, N::W, true)
}
/// Every width of every type, over boundary and random values.
fn widths(c: &mut Case) -> R {
    c.nontrivial = true;
    let x = match c.rng.below(6) {
        0 => u128::MAX,
        1 => {
            let k = c.rng.below(128);
            (1u128 << k).wrapping_sub(c.rng.below(2) as u128)
        }
        2 => {
            // negative small numbers
            (c.rng.below(100) as i128).wrapping_neg() as u128
        }
        3 => (c.rng.value() as u128) << 64 | c.rng.value() as u128,
        4 => c.rng.value() as u128 * ((1u128 << 64) + 1),
        _ => (c.rng.next() as u128) << 64 | c.rng.next() as u128,
    };
    let k = c.index;
    c.mix(x as u64 ^ (x >> 64) as u64);
    c.mix(k % 12);
    c.t(|| format!("type {} value {:#x}", k % 12, x));
    with_int!(k, widths_t, c, x)
}

struct Item {
    k: u64,
    n: usize,
    x: u128,
    be: bool,
}
fn write_item<N: Int, W: BitWrite>(w: &mut W, it: &Item) -> Result<std::io::Result<()>, String> {
    wr(w, it.n, N::of(it.x), it.be)
}
fn read_item<N: Int, S: BitRead>(r: &mut S, it: &Item) -> Result<std::io::Result<Option<u128>>, String> {
    rd::<N, _>(r, it.n, it.be).map(|r| r.map(|o| o.map(|y| y.raw())))
}
fn check_read(c: &mut Case, it: &Item, got: Result<std::io::Result<Option<u128>>, String>, who: &str) -> R {
    c.evals += 1;
    let want = it.x & low(it.n);
    ck!(matches!(got, Ok(Ok(Some(y))) if y == want), "mixed", "reading {} bits{} from {} (type {}): {:?}, expected {:#x}", it.n, order(it.be), who, it.k % 12, got, want);
    Ok(())
}
fn mixed_t<B: Blk>(c: &mut Case, items: &[Item], pre: &[bool]) -> R {
    let v: BitVector<B> = bvh::build_to(c, pre)?;
    let mut want = pre.to_vec();
    let mut b = BitBuffer::append(v);
    let mut bb = BitBuffer::append(ByBit::<B>::new(pre));
    let mut q: VecDeque<bool> = pre.iter().copied().collect();
    for it in items {
        for (who, r) in [
            ("BitBuffer<BitVector>", with_int2!(it.k, write_item, &mut b, it)),
            ("BitBuffer<ByBit>", with_int2!(it.k, write_item, &mut bb, it)),
            ("VecDeque", with_int2!(it.k, write_item, &mut q, it)),
        ] {
            ck!(matches!(r, Ok(Ok(()))), "write", "writing {} bits to {}: {:?}", it.n, who, r);
        }
        want.extend(word(it.x, it.n, it.be));
        ck!(b.bit_len() == want.len() as u64 && q.len() == want.len() && bb.bit_len() == want.len() as u64, "mixed", "lengths after writing {} bits: {} {} {}, expected {}", it.n, b.bit_len(), q.len(), bb.bit_len(), want.len());
    }
    for (p, &x) in want.iter().enumerate() {
        ck!(b.inner().get_bit(p as u64) == x && q[p] == x && bb.inner().bits[p] == x, "mixed", "bit {} of the written stream", p);
    }
    let p0 = pre.len() as u64;
    must("seek", &|| "seek".to_string(), || {
        b.seek(p0).unwrap();
        bb.seek(p0).unwrap();
    })?;
    for _ in 0..p0 {
        q.pop_front();
    }
    for it in items {
        let r = with_int2!(it.k, read_item, &mut b, it);
        check_read(c, it, r, "BitBuffer<BitVector>")?;
        let r = with_int2!(it.k, read_item, &mut bb, it);
        check_read(c, it, r, "BitBuffer<ByBit>")?;
        let r = with_int2!(it.k, read_item, &mut q, it);
        check_read(c, it, r, "VecDeque")?;
        ckeq!(b.position() + q.len() as u64, want.len() as u64, "consumed", "position after reading {} bits", it.n);
        c.cov("integers through real streams");
    }
    let end = Item { k: c.rng.below(12), n: 1 + c.rng.below(8) as usize, x: 0, be: c.rng.coin() };
    let r = with_int2!(end.k, read_item, &mut b, &end);
    ck!(matches!(r, Ok(Ok(None))), "clean-end", "reading {} bits at the end: {:?}", end.n, r);
    ckeq!(b.position(), want.len() as u64, "clean-end", "position after a clean end");
    Ok(())
}
/// Mixed sequences of types, widths and orders through the library's own streams.
fn mixed(c: &mut Case) -> R {
    let mut items = vec![];
    let w: [usize; 12] = [8, 16, 32, 64, 128, usize::BITS as usize, 8, 16, 32, 64, 128, usize::BITS as usize];
    let many = if !cfg!(miri) && c.rng.chance(1, 200) { c.rng.range(100, 1500) } else { c.rng.range(1, 20) };
    for _ in 0..many {
        let k = c.rng.below(12);
        let w = w[k as usize];
        let n = match c.rng.below(5) {
            0 => w,
            1 => 0,
            _ => c.rng.below(w as u64 + 1) as usize,
        };
        let x = (c.rng.value() as u128) << 64 | c.rng.value() as u128;
        c.mix(x as u64 ^ k << 40 ^ (n as u64) << 50);
        items.push(Item { k, n, x, be: c.rng.coin() });
    }
    c.nontrivial = true;
    c.t(|| items.iter().map(|i| format!("type {} {} bits{} {:#x}", i.k, i.n, order(i.be), i.x)).collect::<Vec<_>>().join(", "));
    let pre: Vec<bool> = (0..c.rng.below(70)).map(|_| c.rng.coin()).collect();
    let k = c.rng.next();
    with_blk!(k, mixed_t, c, &items, &pre)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl_fixed("bytes", 9 + 17, bytes),
        wl("widths", 12_000, 400_000, widths),
        wl("mixed", 12_000, 500_000, mixed),
    ]
}
