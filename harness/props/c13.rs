//! C13: every code writes its published code words.
use mon::refcodes::*;
use mon::streams::{CountSink, Rec};
use mon::{attempt, bvh, ck, ckeq, show, wl, wl_fixed, Case, Workload, R};
use std::collections::VecDeque;
use succinct::coding::{Comma, Elias, Lift0, Omega, Fibonacci, Unary, UniversalCode, COMMA, DELTA, GAMMA};
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecPush, BitVector};

/// The bits a code writes for a value, or None if it refuses it.
fn written(i: usize, v: u64) -> Option<Vec<bool>> {
    let mut w = Rec::default();
    match attempt(|| encode(i, &mut w, v)) {
        Ok(Ok(())) => Some(w.0),
        _ => None,
    }
}
fn one(c: &mut Case, i: usize, v: u64) -> R {
    c.evals += 1;
    let code = reference(i);
    let want = code.word(v as u128);
    match (written(i, v), want) {
        (Some(got), Some(want)) => {
            ck!(got == want, "word", "{}.encode({}) wrote {}, the published word is {}", code_name(i), v, show(&got), show(&want));
            c.cov(code_name(i));
        }
        (None, _) => {
            ck!(reference(i).word(v as u128).is_none() || code.may_refuse(v as u128), "no-word", "{}.encode({}) was refused", code_name(i), v);
            c.cov("values refused");
        }
        (Some(got), None) => ck!(false, "word", "{}.encode({}) wrote {}, but the code has no word for it", code_name(i), v, show(&got)),
    }
    Ok(())
}

/// Every small value with every code.
fn small(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    c.mix(c.index);
    c.nontrivial = true;
    let code = reference(i);
    let n = if code.unary_like() { 600 } else { 20_000 };
    for v in 0..n {
        one(c, i, v)?;
    }
    Ok(())
}

/// Boundaries: powers of two, of the comma bases, Fibonacci numbers, sums of two of them, and their neighbours.
fn edges(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    c.mix(c.index);
    c.nontrivial = true;
    let code = reference(i);
    if code.unary_like() {
        for v in [1000u64, 4095, 4096, 65_535, 65_536] {
            one(c, i, v)?;
        }
        return Ok(());
    }
    let mut vs: Vec<u128> = vec![];
    for k in 0..64 {
        vs.push(1 << k);
        for j in 0..k {
            vs.push((1 << k) + (1 << j));
        }
    }
    let f = fibs();
    for (a, &x) in f.iter().enumerate() {
        vs.push(x);
        for &y in &f[..a] {
            vs.push(x + y);
        }
    }
    for n in 2..64 {
        let base = (1u128 << n) - 1;
        let mut x = base;
        while x < 1 << 64 {
            vs.push(x);
            vs.push(x * (base - 1));
            x *= base;
        }
    }
    vs.push((1 << 64) - 1);
    vs.push((1 << 63) - 1);
    let mut all = std::collections::BTreeSet::new();
    for v in vs {
        for d in -2i128..=2 {
            let x = v as i128 + d;
            if x >= 0 && x < 1 << 64 {
                all.insert(x as u64);
            }
        }
    }
    for v in all {
        one(c, i, v)?;
    }
    Ok(())
}

fn random(c: &mut Case) -> R {
    c.nontrivial = true;
    for _ in 0..8 {
        let i = c.rng.below(NCODES as u64) as usize;
        let v = value_for(&mut c.rng, i);
        c.mix(v ^ (i as u64) << 58);
        c.t(|| format!("{}({})", code_name(i), v));
        one(c, i, v)?;
    }
    Ok(())
}

/// The words do not depend on the sink, on what was written before, or on its alignment.
fn anywhere(c: &mut Case) -> R {
    let pre: Vec<bool> = (0..c.rng.size(64, 140)).map(|_| c.rng.coin()).collect();
    c.nontrivial = true;
    let mut want = pre.clone();
    let mut q: VecDeque<bool> = pre.iter().copied().collect();
    let v8: BitVector<u8> = bvh::build_to(c, &pre)?;
    let v64: BitVector<u64> = bvh::build_to(c, &pre)?;
    let mut b8 = BitBuffer::append(v8);
    let mut b64 = BitBuffer::append(v64);
    let mut vb = BitBuffer::append(pre.clone());
    for _ in 0..c.rng.range(1, 12) {
        let i = c.rng.below(NCODES as u64) as usize;
        let v = value_for(&mut c.rng, i);
        let code = reference(i);
        let w = match code.word(v as u128) {
            Some(w) if !code.may_refuse(v as u128) && w.len() < 3000 => w,
            _ => continue,
        };
        c.mix(v ^ (i as u64) << 58);
        c.t(|| format!("{}({}) at bit {}", code_name(i), v, want.len()));
        want.extend(w);
        for (who, r) in [
            ("VecDeque", attempt(|| encode(i, &mut q, v))),
            ("BitBuffer<BitVector<u8>>", attempt(|| encode(i, &mut b8, v))),
            ("BitBuffer<BitVector<u64>>", attempt(|| encode(i, &mut b64, v))),
            ("BitBuffer<Vec<bool>>", attempt(|| encode(i, &mut vb, v))),
        ] {
            ck!(matches!(r, Ok(Ok(()))), "refused", "{}.encode({}) to {} failed: {:?}", code_name(i), v, who, r.map(|x| x.map_err(|e| e.to_string())));
        }
        c.evals += 4;
        ck!(q.iter().copied().eq(want.iter().copied()), "sink", "after {}.encode({}): VecDeque differs", code_name(i), v);
        ck!(b8.bit_len() == want.len() as u64 && (0..want.len()).all(|p| b8.inner().get_bit(p as u64) == want[p]), "sink", "after {}.encode({}): BitBuffer<BitVector<u8>> differs", code_name(i), v);
        ck!(b64.bit_len() == want.len() as u64 && (0..want.len()).all(|p| b64.inner().get_bit(p as u64) == want[p]), "sink", "after {}.encode({}): BitBuffer<BitVector<u64>> differs", code_name(i), v);
        ck!(*vb.inner() == want, "sink", "after {}.encode({}): BitBuffer<Vec<bool>> differs", code_name(i), v);
    }
    let mut tail = BitVector::<u16>::new();
    for &b in &want {
        tail.push_bit(b);
    }
    ck!(tail.bit_len() == want.len() as u64, "sink", "length");
    Ok(())
}

/// Words quoted from the literature (and so a check on the reference too).
fn published(c: &mut Case) -> R {
    c.nontrivial = true;
    fn bits(s: &str) -> Vec<bool> {
        s.chars().filter(|c| *c != ' ').map(|c| c == '1').collect()
    }
    fn word<U: UniversalCode>(u: &U, v: u64) -> Vec<bool> {
        let mut w = Rec::default();
        u.encode(&mut w, v).expect("encode");
        w.0
    }
    macro_rules! t {
        ($code:expr, $( $v:expr => $w:expr ),*) => { $({
            c.evals += 1;
            let got = word(&$code, $v);
            ck!(got == bits($w), "published", "{}.encode({}) wrote {}, published {}", stringify!($code), $v, show(&got), $w);
        })* };
    }
    t!(Unary, 0 => "1", 1 => "01", 2 => "001", 7 => "00000001");
    // Elias gamma: unary header, then the low bits, least significant first
    t!(GAMMA, 1 => "1", 2 => "01 0", 3 => "01 1", 4 => "001 00", 5 => "001 10", 6 => "001 01", 7 => "001 11", 8 => "0001 000", 9 => "0001 100", 17 => "00001 1000");
    t!(DELTA, 1 => "1", 2 => "010 0", 3 => "010 1", 4 => "011 00", 5 => "011 10", 8 => "00100 000", 17 => "00110 1000", 1000 => "0001010 000101111");
    t!(Omega, 1 => "0", 2 => "10 0", 3 => "11 0", 4 => "10 100 0", 7 => "10 111 0", 8 => "11 1000 0", 15 => "11 1111 0", 16 => "10 100 10000 0", 17 => "10 100 10001 0", 100 => "10 110 1100100 0", 1000 => "11 1001 1111101000 0");
    t!(Fibonacci, 1 => "11", 2 => "011", 3 => "0011", 4 => "1011", 5 => "00011", 6 => "10011", 7 => "01011", 8 => "000011", 11 => "001011", 12 => "101011", 13 => "0000011", 14 => "1000011", 65 => "0100100011");
    t!(COMMA, 0 => "11", 1 => "10 11", 2 => "01 11", 3 => "10 00 11", 4 => "10 10 11", 8 => "01 01 11", 9 => "10 00 00 11");
    t!(Comma(3), 6 => "011 111", 7 => "100 000 111");
    t!(Lift0(GAMMA), 0 => "1", 1 => "01 0");
    t!(Lift0(Fibonacci), 0 => "11", 10 => "001011");
    t!(Elias(COMMA), 1 => "11", 2 => "10 11 0", 9 => "10 00 11 100");
    Ok(())
}

/// Long unary words, counted rather than kept.
fn long(c: &mut Case) -> R {
    let mut v = c.rng.pick(&[1u64 << 16, 1 << 20, (1 << 24) - 1, 1 << 24]) + c.rng.below(3);
    if c.thorough && c.index == 0 {
        // a count that 32 bits cannot hold
        v = (1 << 32) + 5;
    }
    c.mix(v);
    c.nontrivial = true;
    let mut s = CountSink::default();
    ck!(Unary.encode(&mut s, v).is_ok(), "refused", "Unary.encode({}) failed", v);
    c.evals += 1;
    ckeq!((s.n, s.ones, s.last), (v + 1, 1, true), "word", "Unary.encode({}): bits, ones, last bit", v);
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl_fixed("published", 1, published),
        wl_fixed("small", NCODES as u64, small),
        wl_fixed("edges", NCODES as u64, edges),
        wl("random", 60_000, 3_000_000, random),
        wl("anywhere", 20_000, 600_000, anywhere),
        wl("long", 6, 60, long),
    ]
}
