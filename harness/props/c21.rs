//! C21: word-level building blocks equal their arithmetic definitions.
use mon::{ck, ckeq, must, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use succinct::storage::{Address, BlockType};

fn p2(n: u32) -> u128 {
    1u128 << n
}
macro_rules! eq {
    ($c:expr, $B:ty, $got:expr, $want:expr, $sig:expr, $($a:tt)+) => {{
        $c.evals += 1;
        let what = || format!("{}::{}", <$B as Blk>::NAME, format!($($a)+));
        let g = must("panic", &what, || $got)?;
        let w = $want;
        ck!(g == w, $sig, "{}: got {:?}, expected {:?}", what(), g, w);
    }};
}

/// Index arithmetic on any u64.
fn index<B: Blk>(c: &mut Case, i: u64) -> R {
    let nb = B::NB as u128;
    let w = i as u128;
    let fits = |x: u128| if x <= usize::MAX as u128 { Some(x as usize) } else { None };
    let (q, r) = (w / nb, w % nb);
    let up = (w + nb - 1) / nb;
    eq!(c, B, B::checked_div_nbits(i), fits(q), "checked_div_nbits", "checked_div_nbits({})", i);
    eq!(c, B, B::checked_ceil_div_nbits(i), fits(up), "checked_ceil_div_nbits", "checked_ceil_div_nbits({})", i);
    if let Some(q) = fits(q) {
        eq!(c, B, B::div_nbits(i), q, "div_nbits", "div_nbits({})", i);
    }
    if let Some(u) = fits(up) {
        eq!(c, B, B::ceil_div_nbits(i), u, "ceil_div_nbits", "ceil_div_nbits({})", i);
    } else {
        c.cov("results that do not fit");
    }
    eq!(c, B, B::mod_nbits(i) as u128, r, "mod_nbits", "mod_nbits({})", i);
    eq!(c, B, B::last_block_bits(i) as u128, if r == 0 { nb } else { r }, "last_block_bits", "last_block_bits({})", i);
    // a block address and back
    if let Some(b) = fits(q) {
        let a = must("panic", &|| format!("Address::new::<{}>({})", B::NAME, i), || Address::new::<B>(i))?;
        c.evals += 2;
        ck!(a.block_index == b && a.bit_offset as u128 == r, "address", "Address::new::<{}>({}) is {:?}", B::NAME, i, a);
        eq!(c, B, a.bit_index::<B>(), i, "address", "bit_index of the address of {}", i);
        ck!(a == Address { block_index: b, bit_offset: r as usize }, "address", "equality of the address of {}", i);
    } else {
        c.evals += 1;
        let a = mon::attempt(|| Address::new::<B>(i));
        ck!(a.is_err(), "address", "Address::new::<{}>({}) gave {:?} although the block index does not fit", B::NAME, i, a);
    }
    // mul on any block index whose bit index fits
    let k = i as usize;
    if (k as u128) * nb < p2(64) {
        eq!(c, B, B::mul_nbits(k) as u128, k as u128 * nb, "mul_nbits", "mul_nbits({})", k);
    }
    let k = (i as usize) / B::NB as usize;
    eq!(c, B, B::mul_nbits(k) as u128, k as u128 * nb, "mul_nbits", "mul_nbits({})", k);
    Ok(())
}

/// Value arithmetic on any word.
fn word<B: Blk>(c: &mut Case, x: u64, spans: bool, fill: u64) -> R {
    let b = B::of(x);
    let x = b.u();
    let nb = B::NB;
    let w = x as u128;
    // logarithms, from the definition
    let mut up = 0;
    while p2(up) < w {
        up += 1;
    }
    eq!(c, B, b.ceil_lg(), up as usize, "ceil_lg", "ceil_lg of {}", x);
    if x > 0 {
        let mut down = 0;
        while p2(down + 1) <= w {
            down += 1;
        }
        eq!(c, B, b.floor_lg(), down as usize, "floor_lg", "floor_lg of {}", x);
    }
    // bits
    for i in 0..nb as usize {
        let bit = (x >> i) & 1 == 1;
        eq!(c, B, BlockType::get_bit(b, i), bit, "get_bit", "get_bit({:#x}, {})", x, i);
        eq!(c, B, b.with_bit(i, true).u(), x | 1 << i, "with_bit", "with_bit({:#x}, {}, true)", x, i);
        eq!(c, B, b.with_bit(i, false).u(), x & !(1 << i), "with_bit", "with_bit({:#x}, {}, false)", x, i);
    }
    if spans {
        let f = B::of(fill).u();
        for s in 0..=nb {
            for l in 0..=nb - s {
                let m = if l == 64 { u64::MAX } else { (1u64 << l) - 1 };
                let sh = |v: u64| if s == 64 { 0 } else { v << s };
                let want = if s == 64 { 0 } else { (x >> s) & m };
                eq!(c, B, BlockType::get_bits(b, s as usize, l as usize).u(), want, "get_bits", "get_bits({:#x}, {}, {})", x, s, l);
                let want = (x & !sh(m)) | sh(f & m);
                eq!(c, B, b.with_bits(s as usize, l as usize, B::of(f)).u(), want, "with_bits", "with_bits({:#x}, {}, {}, {:#x})", x, s, l, f);
            }
        }
    }
    Ok(())
}
fn div<B: Blk>(c: &mut Case, a: u64, d: u64) -> R {
    let (x, y) = (B::of(a), B::of(d));
    if y.u() == 0 {
        return Ok(());
    }
    let want = (x.u() as u128 + y.u() as u128 - 1) / y.u() as u128;
    eq!(c, B, BlockType::ceil_div(x, y).u() as u128, want, "ceil_div", "ceil_div({}, {})", x.u(), y.u());
    Ok(())
}

/// Everything that depends only on the type, or on a bit count.
fn constants_t<B: Blk>(c: &mut Case) -> R {
    eq!(c, B, B::nbits() as u64, B::NB, "nbits", "nbits()");
    eq!(c, B, 1u64 << B::lg_nbits(), B::NB, "lg_nbits", "2^lg_nbits()");
    eq!(c, B, B::lg_nbits_mask::<u64>(), B::NB - 1, "lg_nbits_mask", "lg_nbits_mask::<u64>()");
    eq!(c, B, B::lg_nbits_mask::<u8>() as u64, B::NB - 1, "lg_nbits_mask", "lg_nbits_mask::<u8>()");
    eq!(c, B, B::lg_nbits_mask::<u16>() as u64, B::NB - 1, "lg_nbits_mask", "lg_nbits_mask::<u16>()");
    eq!(c, B, B::lg_nbits_mask::<u32>() as u64, B::NB - 1, "lg_nbits_mask", "lg_nbits_mask::<u32>()");
    eq!(c, B, B::lg_nbits_mask::<usize>() as u64, B::NB - 1, "lg_nbits_mask", "lg_nbits_mask::<usize>()");
    for k in 0..=B::NB {
        eq!(c, B, B::low_mask(k as usize).u() as u128, p2(k as u32) - 1, "low_mask", "low_mask({})", k);
    }
    for k in 0..B::NB {
        eq!(c, B, B::nth_mask(k as usize).u() as u128, p2(k as u32), "nth_mask", "nth_mask({})", k);
    }
    for x in 0..=300u64 {
        index::<B>(c, x)?;
        index::<B>(c, u64::MAX - x)?;
        for s in [8, 16, 24, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 48, 62, 63] {
            index::<B>(c, (1u64 << s).wrapping_add(x))?;
            index::<B>(c, (1u64 << s).wrapping_sub(x))?;
            index::<B>(c, (u64::MAX << s).wrapping_sub(x))?;
        }
    }
    Ok(())
}
fn constants(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let k = c.index;
    with_blk!(k, constants_t, c)
}

/// Every word of the narrow types; every pair for 8-bit division.
fn exhaustive(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    if c.index < 16 {
        for x in c.index * 16..c.index * 16 + 16 {
            let f = c.rng.next();
            word::<u8>(c, x, true, f)?;
            word::<u8>(c, x, true, !f)?;
            for d in 1..256 {
                div::<u8>(c, x, d)?;
            }
        }
    } else {
        let part = c.index - 16;
        for x in part * 1024..part * 1024 + 1024 {
            word::<u16>(c, x, c.thorough || x % 61 == 0, x.rotate_left(5) ^ 0x5A5A)?;
            for d in [1u64, 2, 3, 5, 7, 255, 256, 32767, 32768, 65534, 65535] {
                div::<u16>(c, x, d)?;
                div::<u16>(c, d, x)?;
            }
        }
    }
    Ok(())
}

fn random_t<B: Blk>(c: &mut Case) -> R {
    let x = c.rng.value();
    let y = match c.rng.below(4) {
        0 => x.wrapping_add(c.rng.below(5)).wrapping_sub(2),
        1 => c.rng.range(1, 10),
        _ => c.rng.value(),
    };
    let top = mon::mask(B::NB);
    c.mix(x);
    c.mix(y);
    c.t(|| format!("{} {:#x} {:#x}", B::NAME, x, y));
    index::<B>(c, x)?;
    index::<B>(c, y)?;
    let s = c.rng.chance(1, 8);
    word::<B>(c, x, s, y)?;
    for (a, d) in [(x, y), (y, x), (top, x), (top - (x & 7), y), (x, top), (x, x), (top, top), (top, 1), (x, 1), (0, y)] {
        div::<B>(c, a, d)?;
    }
    Ok(())
}
fn random(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.below(5);
    c.mix(k);
    with_blk!(k, random_t, c)
}

/// A word is also a bit vector of its own bits: both views agree.
fn addresses_t<B: Blk>(c: &mut Case) -> R {
    // addresses order like the indices they stand for
    let a = c.rng.value() >> c.rng.below(32);
    let b = a.wrapping_add(c.rng.below(200)).wrapping_sub(100);
    c.mix(a ^ b.rotate_left(9));
    let lim = (usize::MAX as u128 * B::NB as u128).min(u64::MAX as u128) as u64;
    if a > lim || b > lim {
        return Ok(());
    }
    let (p, q) = (Address::new::<B>(a), Address::new::<B>(b));
    c.evals += 2;
    ckeq!(p.cmp(&q), a.cmp(&b), "address", "order of the addresses of {} and {} in {}", a, b, B::NAME);
    ckeq!(p == q, a == b, "address", "equality of the addresses of {} and {} in {}", a, b, B::NAME);
    Ok(())
}
fn addresses(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.below(5);
    with_blk!(k, addresses_t, c)
}

/// Words wider than any built-in type.
fn wide_words(c: &mut Case) -> R {
    use mon::userblk::W128;
    c.nontrivial = true;
    let low = |k: usize| if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
    let mut val = |c: &mut Case| match c.rng.below(4) {
        0 => low(c.rng.below(129) as usize),
        1 => 1u128 << c.rng.below(128),
        2 => (1u128 << c.rng.below(128)).wrapping_sub(c.rng.below(3) as u128).wrapping_add(1),
        _ => ((c.rng.value() as u128) << 64 | c.rng.value() as u128) >> c.rng.below(128),
    };
    let (x, f) = (val(c), val(c));
    c.mix(x as u64 ^ (x >> 64) as u64 ^ (f as u64).rotate_left(13));
    let b = W128(x);
    let up = if x <= 1 { 0 } else { 128 - (x - 1).leading_zeros() as usize };
    eq!(c, W128, b.ceil_lg(), up, "ceil_lg", "ceil_lg of {}", x);
    if x > 0 {
        eq!(c, W128, b.floor_lg(), 127 - x.leading_zeros() as usize, "floor_lg", "floor_lg of {}", x);
    }
    if f > 0 {
        eq!(c, W128, BlockType::ceil_div(b, W128(f)).0, x / f + (x % f != 0) as u128, "ceil_div", "ceil_div({}, {})", x, f);
    }
    eq!(c, W128, (W128::nbits(), W128::lg_nbits(), W128::lg_nbits_mask::<u8>()), (128, 7, 127), "nbits", "(nbits, lg_nbits, mask)");
    for i in 0..128usize {
        eq!(c, W128, BlockType::get_bit(b, i), x >> i & 1 == 1, "get_bit", "get_bit({:#x}, {})", x, i);
        eq!(c, W128, b.with_bit(i, true).0, x | 1 << i, "with_bit", "with_bit({:#x}, {}, true)", x, i);
        eq!(c, W128, b.with_bit(i, false).0, x & !(1 << i), "with_bit", "with_bit({:#x}, {}, false)", x, i);
        eq!(c, W128, W128::nth_mask(i).0, 1 << i, "nth_mask", "nth_mask({})", i);
        eq!(c, W128, W128::low_mask(i + 1).0, low(i + 1), "low_mask", "low_mask({})", i + 1);
    }
    for _ in 0..20 {
        let s = c.rng.below(129) as usize;
        let l = c.rng.below(129 - s as u64) as usize;
        let sh = |v: u128| if s == 128 { 0 } else { v << s };
        let want = if s == 128 { 0 } else { x >> s & low(l) };
        eq!(c, W128, BlockType::get_bits(b, s, l).0, want, "get_bits", "get_bits({:#x}, {}, {})", x, s, l);
        eq!(c, W128, b.with_bits(s, l, W128(f)).0, x & !sh(low(l)) | sh(f & low(l)), "with_bits", "with_bits({:#x}, {}, {}, {:#x})", x, s, l, f);
    }
    let i = c.rng.value();
    index::<W128>(c, i)
}
/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    c.nontrivial = true;
    match c.rng.below(4) {
        0 => random_t::<mon::userblk::W8>(c),
        1 => random_t::<mon::userblk::W16>(c),
        2 => random_t::<mon::userblk::W32>(c),
        _ => random_t::<mon::userblk::W64>(c),
    }
}
fn user_constants(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    match c.index {
        0 => constants_t::<mon::userblk::W8>(c),
        1 => constants_t::<mon::userblk::W16>(c),
        2 => constants_t::<mon::userblk::W32>(c),
        _ => constants_t::<mon::userblk::W64>(c),
    }
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl_fixed("constants", 5, constants),
        wl_fixed("exhaustive", 16 + 64, exhaustive),
        wl("random", 60_000, 3_000_000, random),
        wl("addresses", 40_000, 1_000_000, addresses),
        wl("wide_words", 10_000, 500_000, wide_words),
        wl("user_blocks", 10_000, 500_000, user_blocks),
        wl_fixed("user_constants", 4, user_constants),
    ]
}
