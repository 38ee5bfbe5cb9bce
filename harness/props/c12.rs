//! C12: decoding arbitrary bits never panics, hangs or invents a value.
use mon::refcodes::*;
use mon::streams::{Src, ZerosThenOne};
use mon::stores::Periodic;
use mon::{bvh, ck, must, show, with_blk, wl, wl_fixed, Blk, Case, Workload, R};
use std::collections::VecDeque;
use std::io::ErrorKind;
use succinct::stream::BitBuffer;

/// Judges one answer against what the bits denote.
fn judge(c: &mut Case, i: usize, s: &[bool], got: std::io::Result<Option<u64>>, consumed: usize) -> R {
    c.evals += 1;
    let den = reference(i).denote(s);
    let name = code_name(i);
    match (&den, &got) {
        (Den::Val(v, k), Ok(Some(x))) | (Den::ValOrErr(v, k), Ok(Some(x))) => {
            ck!(*x as u128 == *v, "invented", "{}.decode({}) gave {}, but the bits denote {}", name, show(s), x, v);
            ck!(consumed == *k, "consumed", "{}.decode({}) consumed {} bits of a word of {}", name, show(s), consumed, k);
            c.cov("outcome: value");
        }
        (Den::ValOrErr(..), Err(_)) => c.cov("outcome: given up on"),
        (Den::Clean, Ok(None)) => c.cov("outcome: clean end"),
        (Den::Cut, Err(e)) => {
            ck!(e.kind() == ErrorKind::UnexpectedEof, "cut-kind", "{}.decode({}): cut short, but the error is {:?} ({})", name, show(s), e.kind(), e);
            c.cov("outcome: cut short");
        }
        (Den::Bad, Err(_)) => c.cov("outcome: too large"),
        _ => ck!(false, "wrong-outcome", "{}.decode({}) gave {:?}, but the bits denote {:?}", name, show(s), got.as_ref().map_err(|e| e.to_string()), den),
    }
    Ok(())
}
fn one(c: &mut Case, i: usize, s: &[bool]) -> R {
    let mut r = Src::new(s);
    let got = must("decode-panic", &|| format!("{}.decode({})", code_name(i), show(s)), || decode(i, &mut r))?;
    ck!(r.past <= 64, "reads-on", "{}.decode({}) went on reading {} times after the end", code_name(i), show(s), r.past);
    judge(c, i, s, got, r.pos)
}

/// A hostile bit string.
fn hostile(c: &mut Case, i: usize) -> Vec<bool> {
    let max = c.rng.pick(&[10, 40, 100, 200, 400]);
    let n = c.rng.below(max + 1);
    let kind = c.rng.below(10);
    let r = &mut c.rng;
    let mut s: Vec<bool> = match kind {
        0 => (0..n).map(|_| r.coin()).collect(),
        1 => {
            let q = r.range(2, 100);
            (0..n).map(|_| r.below(q) == 0).collect()
        }
        2 => {
            let q = r.range(2, 100);
            (0..n).map(|_| r.below(q) != 0).collect()
        }
        3 => {
            // alternating: Fibonacci words without an end
            let o = r.below(2);
            (0..n).map(|i| i % 2 == o).collect()
        }
        4 => {
            // zeros, then something
            let z = match r.below(3) {
                0 => r.range(58, 70),
                1 => r.range(88, 100),
                _ => r.below(n + 1),
            };
            let mut v = vec![false; z as usize];
            v.extend((0..r.below(80)).map(|_| r.coin()));
            v
        }
        5 => {
            // nested lengths: omega groups with large counts
            let mut v = vec![];
            for _ in 0..r.range(1, 6) {
                v.push(true);
                for _ in 0..r.below(70) {
                    v.push(!r.chance(1, 4));
                }
            }
            v
        }
        _ => {
            // real words, damaged: truncated, a bit flipped, inserted or removed, spliced
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                let j = if r.chance(3, 4) { i } else { r.below(NCODES as u64) as usize };
                let x = value_for(r, j);
                if let Some(w) = reference(j).word(x as u128) {
                    v.extend(w);
                }
                if v.len() > 600 {
                    break;
                }
            }
            for _ in 0..r.below(4) {
                if v.is_empty() {
                    break;
                }
                let p = r.below(v.len() as u64) as usize;
                match r.below(5) {
                    0 => v.truncate(p),
                    1 => v[p] = !v[p],
                    2 => v.insert(p, r.coin()),
                    3 => {
                        v.remove(p);
                    }
                    _ => {
                        let w: Vec<bool> = v[p..].to_vec();
                        v.extend(w);
                    }
                }
            }
            v
        }
    };
    s.truncate(2000);
    s
}

/// Decodes again and again until the stream ends or fails.
fn random(c: &mut Case) -> R {
    let i = c.rng.below(NCODES as u64) as usize;
    let s = hostile(c, i);
    c.mix(i as u64);
    mon::fp_bits(c, &s);
    c.nontrivial = !s.is_empty();
    c.t(|| format!("{} on {}", code_name(i), show(&s)));
    one(c, i, &s)?;
    // as one stream, with a code chosen anew for each word
    let mut r = Src::new(&s);
    for _ in 0..40 {
        let i = if c.rng.coin() { i } else { c.rng.below(NCODES as u64) as usize };
        let p = r.pos;
        let got = must("decode-panic", &|| format!("{}.decode({})", code_name(i), show(&s[p..])), || decode(i, &mut r))?;
        let go_on = matches!(got, Ok(Some(_)));
        judge(c, i, &s[p..], got, r.pos - p)?;
        if !go_on {
            break;
        }
    }
    // from the library's own sources
    match c.rng.below(2) {
        0 => {
            let mut q: VecDeque<bool> = s.iter().copied().collect();
            let n = q.len();
            let got = must("decode-panic", &|| format!("{}.decode(VecDeque {})", code_name(i), show(&s)), || decode(i, &mut q))?;
            judge(c, i, &s, got, n - q.len())
        }
        _ => {
            let v = bvh::build_to::<u32>(c, &s)?;
            let mut b = BitBuffer::from(v);
            let got = must("decode-panic", &|| format!("{}.decode(BitBuffer {})", code_name(i), show(&s)), || decode(i, &mut b))?;
            judge(c, i, &s, got, b.position() as usize)
        }
    }
}

/// Every bit string of up to 15 bits, for every code.
fn short(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    c.mix(c.index);
    c.nontrivial = true;
    let mut s = Vec::with_capacity(16);
    for n in 0..=15 {
        for x in 0..1u64 << n {
            s.clear();
            s.extend((0..n).map(|k| (x >> k) & 1 == 1));
            one(c, i, &s)?;
        }
    }
    Ok(())
}

/// Every prefix, and every single-bit change, of boundary words.
fn around(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    let code = reference(i);
    c.nontrivial = true;
    let v = if code.unary_like() { c.rng.below(120) } else { value_for(&mut c.rng, i) };
    let w = match code.word(v as u128) {
        Some(w) => w,
        None => return Ok(()),
    };
    c.mix(v ^ (i as u64) << 58);
    for k in 0..=w.len() {
        one(c, i, &w[..k])?;
    }
    for k in 0..w.len() {
        let mut x = w.clone();
        x[k] = !x[k];
        let extra = c.rng.below(80);
        x.extend((0..extra).map(|_| c.rng.coin()));
        one(c, i, &x)?;
        let mut x = w.clone();
        let b = c.rng.coin();
        x.insert(k, b);
        one(c, i, &x)?;
    }
    // words of numbers beyond 64 bits
    if !code.unary_like() {
        let big = (1u128 << 64) + match c.rng.below(3) {
            0 => c.rng.below(3) as u128,
            1 => c.rng.next() as u128,
            _ => (c.rng.next() as u128) << c.rng.below(30),
        };
        let fits = !matches!(code, Code::Fixed(_));
        if fits {
            if let Some(w) = code.word(big) {
                one(c, i, &w)?;
                c.cov("words of numbers beyond 64 bits");
            }
        }
    }
    Ok(())
}

/// Words far into streams longer than memory.
fn far_t<B: Blk>(c: &mut Case) -> R {
    let len = c.rng.range(300, 3000);
    let table: Vec<B> = (0..len / B::NB + 1)
        .map(|_| B::of(match len % 4 {
            0 => c.rng.next(),
            1 => c.rng.next() & c.rng.next() & c.rng.next() & c.rng.next(),
            _ => c.rng.value(),
        }))
        .collect();
    let at = (1u64 << c.rng.range(16, 33)) + c.rng.below(200) - 100;
    let n = at + c.rng.range(0, 1500);
    let v = Periodic::new(table, n);
    let s: Vec<bool> = (at..n).map(|p| v.bit(p)).collect();
    mon::fp_bits(c, &s);
    c.nontrivial = true;
    let mut b = BitBuffer::from(v);
    ck!(b.seek(at).is_ok(), "seek", "seek({}) of {}", at, n);
    for _ in 0..40 {
        let i = c.rng.below(NCODES as u64) as usize;
        let p = b.position();
        let rest = &s[(p - at) as usize..];
        let got = must("decode-panic", &|| format!("{}.decode at bit {}: {}", code_name(i), p, show(rest)), || decode(i, &mut b))?;
        let go_on = matches!(got, Ok(Some(_)));
        judge(c, i, rest, got, (b.position() - p) as usize)?;
        if !go_on {
            break;
        }
    }
    c.cov("decoding far into a stream");
    Ok(())
}
fn far(c: &mut Case) -> R {
    let k = c.rng.below(5);
    c.mix(k);
    with_blk!(k, far_t, c)
}

/// Endless zeros: the decoder must count them, not stop early or loop.
fn zeros(c: &mut Case) -> R {
    let n = c.rng.pick(&[100u64, 1000, 70_000, 1 << 20]) + c.rng.below(5);
    c.mix(n);
    c.nontrivial = true;
    for i in 0..NCODES {
        let mut r = ZerosThenOne { zeros: n, pos: 0 };
        let got = must("decode-panic", &|| format!("{}.decode({} zeros and a one)", code_name(i), n), || decode(i, &mut r))?;
        let mut s = vec![false; n as usize];
        s.push(true);
        judge(c, i, &s, got, r.pos as usize)?;
    }
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("random", 60_000, 3_000_000, random),
        wl_fixed("short", NCODES as u64, short),
        wl("around", 6_000, 200_000, around),
        wl("far", 4_000, 150_000, far),
        wl("zeros", 12, 60, zeros),
    ]
}
