//! C10: broadword operations equal their per-byte and per-bit definitions.
use mon::{ck, ckeq, must, wl, wl_fixed, Case, Workload, R};
use succinct::broadword::*;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::Select1Support;

fn rs(c: &mut Case) -> [u64; 12] {
    [63, 64, 65, 72, 127, 128, 255, 256, (1 << 32) + c.rng.below(64), 1 << 63, u64::MAX, c.rng.value()]
}

/// Population count and select of one word, for every r that matters.
fn word(c: &mut Case, x: u64) -> R {
    let n = (0..64).filter(|i| (x >> i) & 1 == 1).count();
    c.evals += 3;
    ckeq!(must("panic", &|| format!("count_ones({:#x})", x), || count_ones(x))?, n, "count_ones", "count_ones({:#x})", x);
    let mut left = x;
    let mut r = 0u64;
    let check = |c: &mut Case, r: u64, want: Option<u64>| -> R {
        c.evals += 3;
        if r <= usize::MAX as u64 {
            let got = must("panic", &|| format!("select1({}, {:#x})", r, x), || select1(r as usize, x))?;
            ckeq!(got.map(|p| p as u64), want, "select1", "select1({}, {:#x})", r, x);
            let got = must("panic", &|| format!("select1_raw({}, {:#x})", r, x), || select1_raw(r as usize, x))?;
            ckeq!(got as u64, want.unwrap_or(72), "select1_raw", "select1_raw({}, {:#x})", r, x);
        }
        let got = must("panic", &|| format!("Broadword({:#x}).select1({})", x, r), || Broadword(x).select1(r))?;
        ckeq!(got, want, "Broadword::select1", "Broadword({:#x}).select1({})", x, r);
        Ok(())
    };
    while left != 0 {
        let p = left.trailing_zeros() as u64;
        left &= left - 1;
        check(c, r, Some(p))?;
        r += 1;
    }
    for k in r..66 {
        check(c, k, None)?;
    }
    for k in rs(c) {
        if k >= r {
            check(c, k, None)?;
        }
    }
    let p = c.rng.below(64);
    let ones = (0..=p).filter(|i| (x >> i) & 1 == 1).count() as u64;
    ckeq!(Broadword(x).rank1(p), ones, "rank1", "Broadword({:#x}).rank1({})", x, p);
    ckeq!(Broadword(x).rank0(p), p + 1 - ones, "rank0", "Broadword({:#x}).rank0({})", x, p);
    ckeq!(Broadword(x).rank(p, true), ones, "rank", "Broadword({:#x}).rank({}, true)", x, p);
    ckeq!(Broadword(x).limit(), 64, "limit", "Broadword limit");
    Ok(())
}

fn bytes_of(x: u64, i: u32) -> u8 {
    (x >> (8 * i)) as u8
}
/// The parallel comparisons of one pair of words.
fn pair(c: &mut Case, x: u64, y: u64) -> R {
    let (mut le, mut ule, mut nz) = (0u64, 0u64, 0u64);
    for i in 0..8 {
        let (a, b) = (bytes_of(x, i), bytes_of(y, i));
        if (a as i8) <= (b as i8) {
            le |= 0x80 << (8 * i);
        }
        if a <= b {
            ule |= 0x80 << (8 * i);
        }
        if a != 0 {
            nz |= 0x80 << (8 * i);
        }
    }
    c.evals += 3;
    ckeq!(must("panic", &|| format!("le8({:#x}, {:#x})", x, y), || le8(x, y))?, le, "le8", "le8({:#x}, {:#x})", x, y);
    ckeq!(must("panic", &|| format!("u_le8({:#x}, {:#x})", x, y), || u_le8(x, y))?, ule, "u_le8", "u_le8({:#x}, {:#x})", x, y);
    ckeq!(must("panic", &|| format!("u_nz8({:#x})", x), || u_nz8(x))?, nz, "u_nz8", "u_nz8({:#x})", x);
    Ok(())
}

fn random(c: &mut Case) -> R {
    c.nontrivial = true;
    for _ in 0..100 {
        let x = c.rng.value();
        c.mix(x);
        word(c, x)?;
        // densities
        let y = match c.rng.below(4) {
            0 => c.rng.next() & c.rng.next() & c.rng.next(),
            1 => c.rng.next() | c.rng.next() | c.rng.next(),
            2 => !(1u64 << c.rng.below(64) | 1 << c.rng.below(64)),
            _ => 1u64 << c.rng.below(64) | 1 << c.rng.below(64),
        };
        word(c, y)?;
        for _ in 0..20 {
            // bytes that are equal, next to each other, extreme
            let mut a = c.rng.next();
            let mut b = c.rng.next();
            for i in 0..8 {
                let m = 0xffu64 << (8 * i);
                match c.rng.below(8) {
                    0 => b = b & !m | a & m,
                    1 => b = b & !m | (((a & m) >> (8 * i)).wrapping_add(1) & 0xff) << (8 * i),
                    2 => b = b & !m | (((a & m) >> (8 * i)).wrapping_sub(1) & 0xff) << (8 * i),
                    3 => a = a & !m | c.rng.pick(&[0u64, 1, 0x7f, 0x80, 0x81, 0xff]) << (8 * i),
                    4 => b = b & !m | c.rng.pick(&[0u64, 1, 0x7f, 0x80, 0x81, 0xff]) << (8 * i),
                    _ => {}
                }
            }
            pair(c, a, b)?;
        }
    }
    Ok(())
}
/// Every pair of bytes, in every lane, next to random neighbours.
fn lanes(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let a = c.index & 0xff;
    for b in 0..256u64 {
        for i in 0..8 {
            let m = 0xffu64 << (8 * i);
            let (x, y) = match c.rng.below(3) {
                0 => (c.rng.next(), c.rng.next()),
                1 => (0, u64::MAX),
                _ => (u64::MAX, 0),
            };
            pair(c, x & !m | a << (8 * i), y & !m | b << (8 * i))?;
        }
    }
    Ok(())
}
/// Words with one, two or three runs of ones: all of them for one run, a slice of the rest per case.
fn runs(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let s = c.index % 64;
    for e in s + 1..=64 {
        let x = mon::mask(e) & !mon::mask(s);
        word(c, x)?;
        word(c, !x)?;
        for t in 0..8 {
            let k = c.rng.below(64);
            word(c, x ^ (mon::mask(k) << t))?;
        }
    }
    // single bytes in each position
    for b in 0..256u64 {
        word(c, b << (s & !7))?;
        word(c, b.wrapping_mul(L8))?;
    }
    ck!(L8 == 0x0101010101010101 && H8 == 0x8080808080808080, "constants", "L8 {:#x} H8 {:#x}", L8, H8);
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![wl("random", 20_000, 800_000, random), wl_fixed("lanes", 256, lanes), wl_fixed("runs", 64, runs)]
}
