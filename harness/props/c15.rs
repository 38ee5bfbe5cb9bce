//! C15: a bit buffer is a cursor over its bits.
use mon::refcodes::*;
use mon::stores::{ByBit, ByBlock, Overlay};
use mon::{bits, bvh, ck, ckeq, field, ivh, mask, must, show, wl, wl_fixed, with_blk, Blk, Case, Viol, Workload, R};
use std::io::ErrorKind;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

#[derive(Clone)]
struct M {
    bits: Vec<bool>,
    pos: usize,
}

fn same<V: BitVec>(c: &mut Case, b: &BitBuffer<V>, m: &M, who: &str) -> R
where
    V::Block: Blk,
{
    c.evals += 3;
    ckeq!(b.position(), m.pos as u64, "position", "{}: position", who);
    ckeq!(b.bit_len(), m.bits.len() as u64, "length", "{}: length", who);
    ckeq!(b.inner().bit_len(), m.bits.len() as u64, "inner", "{}: length of the inner vector", who);
    let n = m.bits.len() as u64;
    if n > 0 {
        // around the cursor, and anywhere
        for p in [m.pos as u64, (m.pos as u64).saturating_sub(1), n - 1, c.rng.below(n), c.rng.below(n)] {
            if p < n {
                ckeq!(b.get_bit(p), m.bits[p as usize], "content", "{}: bit {}", who, p);
                ckeq!(b.inner().get_bit(p), m.bits[p as usize], "inner", "{}: bit {} of the inner vector", who, p);
                c.evals += 2;
            }
        }
    }
    Ok(())
}

/// One read-side operation.
fn read_op<V: BitVec>(c: &mut Case, b: &mut BitBuffer<V>, m: &mut M, who: &str) -> R
where
    V::Block: Blk,
{
    let n = m.bits.len();
    let left = n - m.pos;
    c.evals += 1;
    match c.rng.below(12) {
        0 | 1 => {
            // seek inside, to the end, or past it
            let p = match c.rng.below(6) {
                0 => n as u64,
                1 => n as u64 + 1,
                2 => n as u64 + c.rng.below(200),
                3 => c.rng.value(),
                _ => c.rng.below(n as u64 + 1),
            };
            c.t(|| format!("seek({})", p));
            let r = must("seek-panic", &|| format!("{}: seek({})", who, p), || b.seek(p))?;
            if p <= n as u64 {
                ck!(r.is_ok(), "seek", "{}: seek({}) of {} failed: {:?}", who, p, n, r);
                m.pos = p as usize;
                c.cov("op:seek");
            } else {
                ck!(r.is_err(), "seek", "{}: seek({}) of {} succeeded", who, p, n);
                c.cov("op:seek past the end");
            }
        }
        2..=5 => {
            c.t(|| "read_bit".into());
            let r = must("read-panic", &|| format!("{}: read_bit at {}", who, m.pos), || b.read_bit())?;
            let want = m.bits.get(m.pos).copied();
            ck!(matches!(&r, Ok(x) if *x == want), "read_bit", "{}: read_bit at {} of {} gave {:?}, expected {:?}", who, m.pos, n, r, want);
            c.cov(if want.is_some() { "op:read_bit" } else { "op:read_bit at the end" });
            m.pos = (m.pos + 1).min(n);
        }
        6..=8 => {
            let k = match c.rng.below(3) {
                0 => c.rng.below(65) as usize,
                1 => left.min(64),
                _ => c.rng.below(17) as usize,
            };
            let be = c.rng.coin();
            c.t(|| format!("read_int{}({})", if be { "_be" } else { "" }, k));
            let r = must("read-panic", &|| format!("{}: read_int({}) at {}", who, k, m.pos), || if be { b.read_int_be::<u64>(k) } else { b.read_int::<u64>(k) })?;
            if k == 0 {
                ck!(matches!(r, Ok(Some(0))), "read_int", "{}: reading 0 bits gave {:?}", who, r);
            } else if left == 0 {
                ck!(matches!(r, Ok(None)), "read_int", "{}: read_int({}) at the end gave {:?}", who, k, r);
                c.cov("op:read_int at the end");
            } else if left < k {
                ck!(matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "read_int", "{}: read_int({}) with {} left gave {:?}", who, k, left, r);
                let p = b.position() as usize;
                // where a failed read stops is not specified; it may not leave the vector
                ck!(p >= m.pos && p <= n, "position", "{}: position {} after a failed read from {} of {}", who, p, m.pos, n);
                m.pos = p;
                c.cov("op:read_int cut short");
            } else {
                let mut want = field(&m.bits, m.pos as u64, k as u64);
                if be {
                    want = want.reverse_bits() >> (64 - k);
                }
                ck!(matches!(r, Ok(Some(x)) if x == want), "read_int", "{}: read_int{}({}) at {} gave {:?}, expected {:#x}", who, if be { "_be" } else { "" }, k, m.pos, r, want);
                m.pos += k;
                c.cov("op:read_int");
            }
        }
        9 => {
            // a code word out of whatever is there
            let i = c.rng.below(NCODES as u64) as usize;
            c.t(|| format!("{}.decode", code_name(i)));
            let den = reference(i).denote(&m.bits[m.pos..]);
            let r = must("read-panic", &|| format!("{}: decode", who), || decode(i, b))?;
            match (den, r) {
                (Den::Val(v, k), Ok(Some(x))) | (Den::ValOrErr(v, k), Ok(Some(x))) => {
                    ck!(v == x as u128, "decode", "{}: {}.decode at {} gave {}, expected {}", who, code_name(i), m.pos, x, v);
                    m.pos += k;
                    c.cov("op:decode");
                }
                (Den::Clean, Ok(None)) => c.cov("op:decode at the end"),
                (Den::Cut, Err(_)) | (Den::Bad, Err(_)) | (Den::ValOrErr(..), Err(_)) => {
                    let p = b.position() as usize;
                    ck!(p >= m.pos && p <= n, "position", "{}: position {} after a failed decode from {} of {}", who, p, m.pos, n);
                    m.pos = p;
                    c.cov("op:decode failed");
                }
                (d, r) => ck!(false, "decode", "{}: {}.decode at {} of {} gave {:?}, expected {:?}", who, code_name(i), m.pos, n, r, d),
            }
        }
        _ => {
            // direct access
            let nb = <V::Block as Blk>::NB;
            if n > 0 {
                match c.rng.below(3) {
                    0 => {
                        let p = c.rng.below(n as u64);
                        ckeq!(b.get_bit(p), m.bits[p as usize], "get_bit", "{}: get_bit({})", who, p);
                    }
                    1 => {
                        let p = c.rng.below(n as u64 / nb + (n as u64 % nb != 0) as u64);
                        let live = (n as u64 - p * nb).min(nb);
                        ckeq!(b.get_block(p as usize).u() & mask(live), field(&m.bits, p * nb, live), "get_block", "{}: get_block({})", who, p);
                    }
                    _ => {
                        let s = c.rng.below(n as u64 + 1);
                        let k = c.rng.below(nb.min(n as u64 - s) + 1);
                        ckeq!(b.get_bits(s, k as usize).u(), field(&m.bits, s, k), "get_bits", "{}: get_bits({}, {})", who, s, k);
                    }
                }
                c.cov("op:direct read");
            }
        }
    }
    Ok(())
}

fn direct_write<V: BitVecMut>(c: &mut Case, b: &mut BitBuffer<V>, m: &mut M, who: &str) -> R
where
    V::Block: Blk,
{
    c.cov("op:direct write");
    bits::random_write(c, b, &mut m.bits, who)
}

fn put_model(m: &mut M, x: bool) {
    if m.pos < m.bits.len() {
        m.bits[m.pos] = x;
    } else {
        m.bits.push(x);
    }
    m.pos += 1;
}
fn write_op<V: BitVecPush>(c: &mut Case, b: &mut BitBuffer<V>, m: &mut M, who: &str) -> R
where
    V::Block: Blk,
{
    c.evals += 1;
    let at_end = m.pos == m.bits.len();
    match c.rng.below(4) {
        0 | 1 => {
            let x = c.rng.coin();
            c.t(|| format!("write_bit({})", x));
            let r = must("write-panic", &|| format!("{}: write_bit at {}", who, m.pos), || b.write_bit(x))?;
            ck!(r.is_ok(), "write", "{}: write_bit failed: {:?}", who, r);
            put_model(m, x);
            c.cov(if at_end { "op:write_bit at the end" } else { "op:write_bit over" });
        }
        2 => {
            let k = c.rng.below(65);
            let x = c.rng.value();
            let be = c.rng.coin();
            c.t(|| format!("write_int{}({}, {:#x})", if be { "_be" } else { "" }, k, x));
            let r = must("write-panic", &|| format!("{}: write_int({}) at {}", who, k, m.pos), || if be { b.write_int_be(k as usize, x) } else { b.write_int(k as usize, x) })?;
            ck!(r.is_ok(), "write", "{}: write_int failed: {:?}", who, r);
            for i in 0..k {
                put_model(m, (x >> if be { k - 1 - i } else { i }) & 1 == 1);
            }
            c.cov("op:write_int");
        }
        _ => {
            let i = c.rng.below(NCODES as u64) as usize;
            let v = value_for(&mut c.rng, i);
            let code = reference(i);
            if let Some(w) = code.word(v as u128) {
                if !code.may_refuse(v as u128) && w.len() < 400 {
                    c.t(|| format!("{}.encode({})", code_name(i), v));
                    let r = must("write-panic", &|| format!("{}: encode at {}", who, m.pos), || encode(i, b, v))?;
                    ck!(r.is_ok(), "write", "{}: encode failed: {:?}", who, r);
                    for x in w {
                        put_model(m, x);
                    }
                    c.cov("op:encode");
                }
            }
        }
    }
    Ok(())
}

fn finish<V: BitVec>(c: &mut Case, b: BitBuffer<V>, m: &M, who: &str) -> R
where
    V::Block: Blk,
{
    bits::check_bits(c, &b, &m.bits, who)?;
    bits::check_bits(c, b.inner(), &m.bits, who)?;
    let v = b.into_inner();
    bits::check_all(c, &v, &m.bits, who, false, 6)
}

/// Read, write, append, seek and direct access on a growable inner vector.
fn rw<V: BitVecPush + BitVecMut + Clone>(c: &mut Case, v: V, bits: Vec<bool>, who: &str, ops: u64) -> R
where
    V::Block: Blk,
{
    let append = c.rng.coin();
    let mut m = M { pos: if append { bits.len() } else { 0 }, bits };
    c.t(|| format!("{}::{} over {}", who, if append { "append" } else { "from" }, show(&m.bits)));
    let mut b = if append { BitBuffer::append(v) } else { BitBuffer::from(v) };
    same(c, &b, &m, who)?;
    let most = m.bits.len() + 3000;
    for _ in 0..ops {
        if m.bits.len() > most {
            break;
        }
        match c.rng.below(20) {
            0..=8 => read_op(c, &mut b, &mut m, who)?,
            9..=16 => write_op(c, &mut b, &mut m, who)?,
            17 | 18 => direct_write(c, &mut b, &mut m, who)?,
            _ => {
                // a clone is independent: change it, the original stays
                let mut d = b.clone();
                let mut dm = m.clone();
                for _ in 0..3 {
                    write_op(c, &mut d, &mut dm, who)?;
                }
                same(c, &d, &dm, who)?;
                if c.rng.coin() {
                    bits::check_bits(c, b.inner(), &m.bits, who)?;
                    std::mem::swap(&mut b, &mut d);
                    std::mem::swap(&mut m, &mut dm);
                    bits::check_bits(c, d.inner(), &dm.bits, who)?;
                }
                c.cov("op:clone");
            }
        }
        same(c, &b, &m, who)?;
    }
    if c.rng.coin() {
        // take the vector back and open it again
        let v = b.into_inner();
        let append = c.rng.coin();
        b = if append { BitBuffer::append(v) } else { BitBuffer::from(v) };
        m.pos = if append { m.bits.len() } else { 0 };
        same(c, &b, &m, who)?;
        for _ in 0..4 {
            write_op(c, &mut b, &mut m, who)?;
            read_op(c, &mut b, &mut m, who)?;
            same(c, &b, &m, who)?;
        }
    }
    finish(c, b, &m, who)
}
fn rw_t<B: Blk>(c: &mut Case) -> R {
    let n = c.rng.size(B::NB, 6 * B::NB);
    let bits = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &bits);
    let ops = c.rng.range(5, 60);
    match c.rng.below(4) {
        0 => {
            // new / with_capacity: empty, at zero
            let cap = c.rng.below(300);
            let b: BitBuffer<BitVector<B>> = if c.rng.coin() { BitBuffer::new() } else { BitBuffer::with_capacity(cap) };
            ck!(b.bit_len() == 0 && b.position() == 0 && b.inner().bit_len() == 0, "new", "a new bit buffer has {} bits and position {}", b.bit_len(), b.position());
            rw(c, b.into_inner(), vec![], &format!("BitBuffer<BitVector<{}>>", B::NAME), ops)
        }
        1 => {
            let v = ByBit::<B>::new(&bits);
            rw(c, v, bits, &format!("BitBuffer<ByBit<{}>>", B::NAME), ops)
        }
        _ => {
            let v: BitVector<B> = bvh::build_to(c, &bits)?;
            rw(c, v, bits, &format!("BitBuffer<BitVector<{}>>", B::NAME), ops)
        }
    }
}
fn read_write(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.next();
    c.mix(k);
    if c.rng.chance(1, 8) {
        let n = c.rng.below(200);
        let bits = bits::pattern(&mut c.rng, n, 8);
        let ops = c.rng.range(5, 60);
        return rw(c, bits.clone(), bits, "BitBuffer<Vec<bool>>", ops);
    }
    with_blk!(k, rw_t, c)
}

/// Read-only and fixed-length inner vectors.
fn ro<V: BitVec>(c: &mut Case, v: V, bits: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    c.cov("read-only inner vectors");
    let append = c.rng.chance(1, 4);
    let mut m = M { pos: if append { bits.len() } else { 0 }, bits: bits.to_vec() };
    let mut b = if append { BitBuffer::append(v) } else { BitBuffer::from(v) };
    c.t(|| format!("{} over {}", who, show(bits)));
    for _ in 0..c.rng.range(5, 50) {
        read_op(c, &mut b, &mut m, who)?;
        same(c, &b, &m, who)?;
    }
    // everything from a random start to the end
    let p = c.rng.below(bits.len() as u64 + 1);
    ck!(b.seek(p).is_ok(), "seek", "{}: seek({})", who, p);
    for q in p..bits.len() as u64 {
        ck!(matches!(b.read_bit(), Ok(Some(x)) if x == bits[q as usize]), "read_bit", "{}: bit {} in a sweep", who, q);
        c.evals += 1;
    }
    for _ in 0..3 {
        ck!(matches!(b.read_bit(), Ok(None)), "end", "{}: reading at the end", who);
        ckeq!(b.position(), bits.len() as u64, "end", "{}: position after reading at the end", who);
    }
    m.pos = bits.len();
    finish(c, b, &m, who)
}
fn ro_mut<V: BitVecMut>(c: &mut Case, v: V, bits: &[bool], who: &str) -> R
where
    V::Block: Blk,
{
    let mut m = M { pos: 0, bits: bits.to_vec() };
    let mut b = BitBuffer::from(v);
    for _ in 0..c.rng.range(3, 20) {
        direct_write(c, &mut b, &mut m, who)?;
        read_op(c, &mut b, &mut m, who)?;
        same(c, &b, &m, who)?;
    }
    finish(c, b, &m, who)
}
fn kinds_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let n = c.rng.size(nb, 5 * nb);
    let bits = bits::pattern(&mut c.rng, n, nb);
    mon::fp_bits(c, &bits);
    match c.rng.below(8) {
        0 => {
            let g = c.rng.next();
            ro(c, ByBlock::<B>::new(&bits, g), &bits, "BitBuffer<ByBlock>")
        }
        1 => {
            let v: BitVector<B> = bvh::build_to(c, &bits)?;
            let s = c.rng.below(n + 1);
            let l = c.rng.below(n - s + 1);
            ro(c, BitSlice::new(&v, s..s + l), &bits[s as usize..(s + l) as usize], "BitBuffer<BitSlice>")
        }
        2 => {
            let mut v: BitVector<B> = bvh::build_to(c, &bits)?;
            let s = c.rng.below(n + 1);
            let l = c.rng.below(n - s + 1);
            ro_mut(c, BitSliceMut::new(&mut v, s..s + l), &bits[s as usize..(s + l) as usize], "BitBuffer<BitSliceMut>")
        }
        3 => {
            let x = c.rng.value();
            let word = |n: u64| -> Vec<bool> { (0..n).map(|i| (x >> i) & 1 == 1).collect() };
            match c.rng.below(3) {
                0 => ro(c, x as u8, &word(8), "BitBuffer<u8>"),
                1 => ro_mut(c, x as u32, &word(32), "BitBuffer<u32>"),
                _ => ro(c, x, &word(64), "BitBuffer<u64>"),
            }
        }
        4 => {
            let bits = &bits[..(n / nb * nb) as usize];
            let v: Vec<B> = bits.chunks(nb as usize).map(|ch| B::of(field(ch, 0, nb))).collect();
            if c.rng.coin() {
                ro(c, &v[..], bits, "BitBuffer<&[Block]>")
            } else {
                ro_mut(c, v, bits, "BitBuffer<Vec<Block>>")
            }
        }
        5 => {
            let k = ivh::width(c, nb);
            let len = n / k;
            let want: Vec<u64> = (0..len).map(|i| field(&bits, i * k, k)).collect();
            let v = ivh::build_to::<B>(c, k, &want)?;
            let bits = &bits[..(len * k) as usize];
            if c.rng.coin() {
                ro(c, v, bits, "BitBuffer<IntVector>")
            } else {
                ro_mut(c, v, bits, "BitBuffer<IntVector>")
            }
        }
        6 => {
            let v: BitVector<B> = bvh::build_to(c, &bits)?;
            ro(c, v, &bits, "BitBuffer<BitVector> for reading")
        }
        _ => {
            // a buffer is itself a bit vector
            let v: BitVector<B> = bvh::build_to(c, &bits)?;
            ro(c, BitBuffer::append(v), &bits, "BitBuffer<BitBuffer>")
        }
    }
}
fn kinds(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.next();
    c.mix(k);
    with_blk!(k, kinds_t, c)
}

/// Every sequence of up to 6 operations out of a small set, from a 3-bit vector.
fn exhaustive(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    const OPS: u64 = 7;
    let first = c.index;
    for rest in 0..OPS.pow(5) {
        let code = first + OPS * rest;
        let mut m = M { bits: vec![true, false, true], pos: 0 };
        let mut v = BitVector::<u8>::new();
        for &b in &m.bits {
            v.push_bit(b);
        }
        let mut b = BitBuffer::from(v);
        let mut x = code;
        let bad = |what: &str| -> Result<(), Viol> { Err(Viol { sig: "exhaustive".into(), msg: format!("sequence {} (base {}): {}", code, OPS, what) }) };
        for _ in 0..6 {
            let op = x % OPS;
            x /= OPS;
            match op {
                0 | 1 => {
                    if b.write_bit(op == 1).is_err() {
                        bad("write_bit failed")?;
                    }
                    put_model(&mut m, op == 1);
                }
                2 => {
                    let want = m.bits.get(m.pos).copied();
                    if b.read_bit().ok() != Some(want) {
                        bad("read_bit")?;
                    }
                    m.pos = (m.pos + 1).min(m.bits.len());
                }
                3 => {
                    if b.seek(0).is_err() {
                        bad("seek(0)")?;
                    }
                    m.pos = 0;
                }
                4 => {
                    let p = m.pos.saturating_sub(1) as u64;
                    if b.seek(p).is_err() {
                        bad("seek back")?;
                    }
                    m.pos = p as usize;
                }
                5 => {
                    if b.seek(m.bits.len() as u64).is_err() {
                        bad("seek to the end")?;
                    }
                    m.pos = m.bits.len();
                }
                _ => {
                    if b.seek(m.bits.len() as u64 + 1).is_ok() {
                        bad("seek past the end succeeded")?;
                    }
                }
            }
            if b.position() != m.pos as u64 || b.bit_len() != m.bits.len() as u64 {
                bad("position or length")?;
            }
        }
        c.evals += 6;
        let v = b.into_inner();
        for (i, &x) in m.bits.iter().enumerate() {
            if v.get_bit(i as u64) != x {
                bad("content")?;
            }
        }
    }
    Ok(())
}

/// A cursor over more bits than memory holds.
fn far_t<B: Blk>(c: &mut Case) -> R {
    let table: Vec<B> = (0..c.rng.range(1, 9)).map(|_| B::of(c.rng.value())).collect();
    let top = if usize::BITS < 64 { 34 } else { 62 };
    let e = if c.rng.coin() { c.rng.range(16, top) } else { 32 };
    let n0 = (1u64 << e) + c.rng.below(300) - 150;
    let mut m = Overlay::new(table.clone(), n0);
    let append = c.rng.coin();
    let v = Overlay::new(table, n0);
    let mut b = if append { BitBuffer::append(v) } else { BitBuffer::from(v) };
    let mut pos = if append { n0 } else { 0 };
    c.mix(n0);
    let who = format!("BitBuffer over {} bits of {}", n0, B::NAME);
    c.t(|| format!("{}, position {}", who, pos));
    for _ in 0..c.rng.range(10, 50) {
        let n = m.base.n;
        match c.rng.below(9) {
            0 | 1 => {
                let p = match c.rng.below(8) {
                    0 => n,
                    1 => n + 1,
                    2 => c.rng.value(),
                    3 => 0,
                    4 => (1u64 << 32).min(n) - c.rng.below(70),
                    5 => n - c.rng.below(150),
                    6 => n.wrapping_add(1 << 32),
                    _ => c.rng.below(n + 1),
                };
                c.t(|| format!("seek({})", p));
                let r = must("seek-panic", &|| format!("{}: seek({})", who, p), || b.seek(p))?;
                ck!(r.is_ok() == (p <= n), "seek", "{}: seek({}) of {}: {:?}", who, p, n, r.map_err(|e| e.to_string()));
                if p <= n {
                    pos = p;
                }
                c.cov("far: seek");
            }
            2 | 3 => {
                let r = must("read-panic", &|| format!("{}: read_bit at {}", who, pos), || b.read_bit())?;
                let want = if pos < n { Some(m.bit(pos)) } else { None };
                ck!(matches!(&r, Ok(x) if *x == want), "read_bit", "{}: read_bit at {} of {} gave {:?}, expected {:?}", who, pos, n, r, want);
                pos = (pos + 1).min(n);
                c.cov("far: read_bit");
            }
            4 => {
                let k = c.rng.below(65).min(n - pos);
                if k > 0 {
                    let r = must("read-panic", &|| format!("{}: read_int({}) at {}", who, k, pos), || b.read_int::<u64>(k as usize))?;
                    let want = m.bits(pos, k);
                    ck!(matches!(r, Ok(Some(x)) if x == want), "read_int", "{}: read_int({}) at {} gave {:?}, expected {:#x}", who, k, pos, r, want);
                    pos += k;
                    c.cov("far: read_int");
                }
            }
            5 | 6 => {
                let k = c.rng.below(65);
                let x = c.rng.value();
                c.t(|| format!("write_int({}, {:#x}) at {}", k, x, pos));
                let r = must("write-panic", &|| format!("{}: write_int({}) at {}", who, k, pos), || b.write_int(k as usize, x))?;
                ck!(r.is_ok(), "write", "{}: write_int failed: {:?}", who, r);
                for i in 0..k {
                    let y = (x >> i) & 1 == 1;
                    if pos < m.base.n {
                        m.put(pos, y)
                    } else {
                        m.push_bit(y)
                    }
                    pos += 1;
                }
                c.cov("far: write_int");
            }
            7 => {
                let s = c.rng.below(n);
                let k = c.rng.below(B::NB.min(n - s) + 1);
                let x = c.rng.value();
                c.t(|| format!("set_bits({}, {}, {:#x})", s, k, x));
                must("set_bits-panic", &|| format!("{}: set_bits({}, {})", who, s, k), || b.set_bits(s, k as usize, B::of(x)))?;
                for i in 0..k {
                    m.put(s + i, (x >> i) & 1 == 1);
                }
                c.cov("far: set_bits");
            }
            _ => {
                let p = if c.rng.coin() { c.rng.below(n) } else { n - 1 - c.rng.below(100) };
                ckeq!(b.get_bit(p), m.bit(p), "get_bit", "{}: get_bit({})", who, p);
                ckeq!(b.inner().get_bit(p), m.bit(p), "get_bit", "{}: inner get_bit({})", who, p);
                let k = c.rng.below(B::NB.min(n - p) + 1);
                ckeq!(b.get_bits(p, k as usize).u(), m.bits(p, k), "get_bits", "{}: get_bits({}, {})", who, p, k);
            }
        }
        c.evals += 3;
        ckeq!(b.position(), pos, "position", "{}: position", who);
        ckeq!(b.bit_len(), m.base.n, "length", "{}: length", who);
        ckeq!(b.inner().bit_len(), m.base.n, "length", "{}: length of the inner vector", who);
    }
    let v = b.into_inner();
    for &i in m.written.keys().chain(v.written.keys()) {
        let s = i as u64 * B::NB;
        if s < m.base.n {
            let k = B::NB.min(m.base.n - s);
            ckeq!(v.bits(s, k), m.bits(s, k), "content", "{}: block {} at the end", who, i);
            c.evals += 1;
        }
    }
    Ok(())
}
fn far(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.next();
    c.mix(k);
    with_blk!(k, far_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("read_write", 20_000, 800_000, read_write),
        wl("kinds", 20_000, 800_000, kinds),
        wl("far", 10_000, 400_000, far),
        wl_fixed("exhaustive", 7, exhaustive),
    ]
}
