//! C11: encoding then decoding returns the same values and consumes exactly their bits.
use mon::refcodes::*;
use mon::stores::ByBit;
use mon::streams::{CountSink, Rec, Src, ZerosThenOne};
use mon::{attempt, ck, ckeq, must, wl, wl_fixed, Blk, Case, Viol, Workload, R};
use std::collections::VecDeque;
use succinct::bit_vec::BitVec;
use succinct::coding::{UniversalCode, Unary};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::BitVector;

/// Encodes one value. `true` if it was written, `false` if it was properly refused.
pub fn put<W: BitWrite>(c: &mut Case, w: &mut W, i: usize, v: u64) -> Result<bool, Viol> {
    let code = reference(i);
    let res = attempt(|| encode(i, w, v));
    c.evals += 1;
    let ok = matches!(res, Ok(Ok(())));
    if ok {
        ck_word(&code, i, v)?;
    } else if code.word(v as u128).is_some() && !code.may_refuse(v as u128) && !(matches!(code, Code::Lift(_)) && v == u64::MAX) {
        return Err(Viol { sig: "refused".into(), msg: format!("{}.encode({}) was refused: {:?}", code_name(i), v, res.map(|r| r.map_err(|e| e.to_string()))) });
    }
    Ok(ok)
}
fn ck_word(code: &Code, i: usize, v: u64) -> R {
    // a value outside the code's domain may not be accepted
    if !code.unary_like() {
        ck!(code.word(v as u128).is_some(), "accepted", "{}.encode({}) was accepted, but the code has no word for it", code_name(i), v);
    }
    Ok(())
}
fn get<S: BitRead>(c: &mut Case, r: &mut S, i: usize, v: u64, what: &dyn Fn() -> String) -> R {
    c.evals += 1;
    let got = must("decode-panic", &|| format!("{}.decode of the word of {} ({})", code_name(i), v, what()), || decode(i, r))?;
    match got {
        Ok(Some(x)) => ck!(x == v, "decoded-value", "{}.decode gave {} for the word of {} ({})", code_name(i), x, v, what()),
        other => ck!(false, "decode-failed", "{}.decode gave {:?} for the word of {} ({})", code_name(i), other.map_err(|e| e.to_string()), v, what()),
    }
    Ok(())
}
fn benign<S: BitRead>(c: &mut Case, r: &mut S) -> R {
    for i in 0..NCODES {
        c.evals += 1;
        let got = must("decode-panic", &|| format!("{}.decode at the end", code_name(i)), || decode(i, r))?;
        ck!(matches!(got, Ok(None)), "end", "{}.decode at the end gave {:?}", code_name(i), got.map_err(|e| e.to_string()));
    }
    Ok(())
}

/// Writes a mixed sequence to a sink and returns what was accepted with the sizes of the words.
fn write_all<W: BitWrite>(c: &mut Case, w: &mut W, seq: &[(usize, u64)], size: impl Fn(&W) -> u64) -> Result<Vec<(usize, u64, u64)>, Viol> {
    let mut done = vec![];
    for &(i, v) in seq {
        let before = size(w);
        if put(c, w, i, v)? {
            let n = size(w) - before;
            done.push((i, v, n));
            c.cov(code_name(i));
        } else {
            ck!(size(w) == before || refused_is_harmless(i), "refused-but-wrote", "{}.encode({}) refused after writing {} bits", code_name(i), v, size(w) - before);
            c.cov("values refused");
        }
    }
    Ok(done)
}
/// A refusal in the middle of a word would leave a partial word; the crate's codes refuse first.
fn refused_is_harmless(_i: usize) -> bool {
    false
}

fn sequence(c: &mut Case) -> Vec<(usize, u64)> {
    let n = if !cfg!(miri) && c.rng.chance(1, 200) { c.rng.range(200, 2500) } else { c.rng.range(1, 30) };
    let same = c.rng.chance(1, 3);
    let k = c.rng.below(NCODES as u64) as usize;
    let mut seq = vec![];
    for _ in 0..n {
        let i = if same { k } else { c.rng.below(NCODES as u64) as usize };
        let v = value_for(&mut c.rng, i);
        c.mix(v ^ (i as u64) << 58);
        c.t(|| format!("{}({})", code_name(i), v));
        seq.push((i, v));
    }
    c.nontrivial = true;
    seq
}

fn through_buffer<V: BitVec + Clone + succinct::BitVecPush>(c: &mut Case, seq: &[(usize, u64)], start: Vec<bool>, mk: impl Fn(&[bool]) -> V, who: &str) -> R {
    let s0 = start.len() as u64;
    let mut b = BitBuffer::append(mk(&start));
    let done = write_all(c, &mut b, seq, |b| b.bit_len())?;
    let total = b.bit_len();
    let mut r = b.clone();
    must("seek", &|| "seek".into(), || r.seek(s0).unwrap())?;
    for &(i, v, n) in &done {
        let p = r.position();
        get(c, &mut r, i, v, &|| format!("at {} in a {}", p, who))?;
        ckeq!(r.position() - p, n, "consumed", "{}.decode of the word of {}: bits consumed", code_name(i), v);
    }
    ckeq!(r.position(), total, "consumed", "bits consumed by the whole sequence");
    benign(c, &mut r)?;
    // the inner vector carries the same stream
    let inner = b.into_inner();
    let mut r = BitBuffer::from(inner);
    for (p, &x) in start.iter().enumerate() {
        ck!(matches!(r.read_bit(), Ok(Some(y)) if y == x), "prefix", "bit {} before the stream changed", p);
    }
    for &(i, v, _) in &done {
        get(c, &mut r, i, v, &|| format!("in a reopened {}", who))?;
    }
    benign(c, &mut r)
}
fn bufs_t<B: Blk>(c: &mut Case, seq: &[(usize, u64)], start: Vec<bool>) -> R {
    let mk = |s: &[bool]| {
        let mut v = BitVector::<B>::new();
        for &x in s {
            use succinct::BitVecPush;
            v.push_bit(x);
        }
        v
    };
    through_buffer(c, seq, start, mk, "BitBuffer<BitVector>")
}

fn mixed(c: &mut Case) -> R {
    let seq = sequence(c);
    let start: Vec<bool> = (0..c.rng.below(80)).map(|_| c.rng.coin()).collect();
    match c.rng.below(5) {
        0 => {
            let mut q = VecDeque::new();
            let done = write_all(c, &mut q, &seq, |q| q.len() as u64)?;
            for &(i, v, n) in &done {
                let before = q.len() as u64;
                get(c, &mut q, i, v, &|| "in a VecDeque".into())?;
                ckeq!(before - q.len() as u64, n, "consumed", "{}.decode of the word of {}: bits consumed", code_name(i), v);
            }
            ck!(q.is_empty(), "consumed", "{} bits left over", q.len());
            benign(c, &mut q)
        }
        1 => {
            let mut w = Rec::default();
            let done = write_all(c, &mut w, &seq, |w| w.0.len() as u64)?;
            let mut r = Src::new(&w.0);
            for &(i, v, n) in &done {
                let p = r.pos as u64;
                get(c, &mut r, i, v, &|| format!("at {}", p))?;
                ckeq!(r.pos as u64 - p, n, "consumed", "{}.decode of the word of {}: bits consumed", code_name(i), v);
                ck!(r.past == 0, "read-ahead", "{}.decode of the word of {} read past it", code_name(i), v);
            }
            ckeq!(r.pos, w.0.len(), "consumed", "bits consumed by the whole sequence");
            benign(c, &mut r)
        }
        2 => through_buffer(c, &seq, start, |s| s.to_vec(), "BitBuffer<Vec<bool>>"),
        3 => through_buffer(c, &seq, start, |s| ByBit::<u16>::new(s), "BitBuffer<ByBit>"),
        _ => {
            let k = c.rng.below(5);
            mon::with_blk!(k, bufs_t, c, &seq, start)
        }
    }
}

/// Every value up to 4096, and everything within two of a power of two, a Fibonacci number or a
/// power of the comma base.
fn edges(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    let code = reference(i);
    c.mix(c.index);
    c.nontrivial = true;
    let mut vs: Vec<u64> = (0..4096).collect();
    if !code.unary_like() {
        for k in 0..64 {
            for d in 0..5 {
                vs.push((1u64 << k).wrapping_add(d).wrapping_sub(2));
            }
        }
        for f in fibs() {
            if f < 1 << 64 {
                vs.extend([(f as u64).wrapping_sub(1), f as u64, (f as u64).wrapping_add(1)]);
            }
        }
        if let Code::Comma(n) = code {
            let base = (1u128 << n) - 1;
            let mut x = 1u128;
            while x < 1 << 64 {
                vs.extend([x as u64 - 1, x as u64, (x as u64).wrapping_add(1)]);
                x *= base;
            }
        }
        vs.extend([u64::MAX, u64::MAX - 1, 12200160415121876737, 12200160415121876738, 12200160415121876739]);
    }
    let mut w = Rec::default();
    for v in vs {
        w.0.clear();
        if !put(c, &mut w, i, v)? {
            // nothing decodable may have been left behind
            let mut r = Src::new(&w.0);
            let got = attempt(|| decode(i, &mut r));
            ck!(!matches!(got, Ok(Ok(Some(_)))), "refused-but-wrote", "{}.encode({}) refused, but left a word", code_name(i), v);
            c.cov("values refused");
            continue;
        }
        let n = w.0.len();
        // followed by other bits, which must be left alone
        let tail = c.rng.next();
        for k in 0..70 {
            w.0.push((tail >> (k % 64)) & 1 == 1);
        }
        let mut r = Src::new(&w.0);
        get(c, &mut r, i, v, &|| "followed by other bits".into())?;
        ckeq!(r.pos, n, "consumed", "{}.decode of the word of {}: bits consumed", code_name(i), v);
    }
    Ok(())
}

/// Unary words longer than 2^32 bits (written to and read from streams that only count).
fn long_unary(c: &mut Case) -> R {
    let v = if cfg!(debug_assertions) { (1u64 << 26) + c.rng.below(9) } else { (1u64 << 32) + 2 + c.rng.below(9) };
    c.mix(v);
    c.nontrivial = true;
    let mut w = CountSink::default();
    must("encode-panic", &|| format!("Unary.encode({})", v), || Unary.encode(&mut w, v).unwrap())?;
    ck!(w.n == v + 1 && w.ones == 1 && w.last, "long-unary", "Unary.encode({}) wrote {} bits, {} ones", v, w.n, w.ones);
    let mut r = ZerosThenOne { zeros: v, pos: 0 };
    let got = must("decode-panic", &|| format!("Unary.decode of {} zeros and a one", v), || Unary.decode(&mut r).unwrap())?;
    ckeq!(got, Some(v), "long-unary", "Unary.decode of {} zeros and a one", v);
    c.evals += 2;
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("mixed", 20_000, 1_000_000, mixed),
        wl_fixed("edges", NCODES as u64, edges),
        wl_fixed("long_unary", 1, long_unary),
    ]
}
