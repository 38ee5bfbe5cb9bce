//! Histories at the far end of very long vectors: everything before a block boundary `p` is left zero and only the
//! tail behind it is modelled, so lengths beyond 2^32 bits or blocks cost nothing.
use crate::run::{attempt, Case, Viol, R};
use crate::{bits::*, bvh, ck, ckeq, ivh, mask, Blk};
use succinct::{BitVec, BitVector, IntVec, IntVector};

/// Block counts whose bit, element or block numbers cross a power of two that some narrower type ends at.
pub fn prefix_blocks(c: &mut Case, nb: u64, kind: u64) -> u64 {
    let d = c.rng.below(4);
    let b = match kind % 6 {
        0 => (1u64 << 32) / nb,
        1 => (1u64 << 31) / nb,
        2 => 1 << 16,
        3 => (1 << 24) / nb,
        // block numbers
        4 => (1u64 << 31) / if nb > 8 { nb } else { 1 },
        _ => (1u64 << 32) / if nb > 8 { nb } else { 1 },
    };
    (b + 2 - d).min(isize::MAX as u64 / nb)
}

fn shift_bit_op(o: &bvh::Op, p: u64, nb: u64) -> bvh::Op {
    use bvh::Op::*;
    let pb = p / nb;
    match *o {
        Set(i, b) => Set(i + p, b),
        SetBits(i, k, x) => SetBits(i + p, k, x),
        SetBlock(i, x) => SetBlock(i + pb, x),
        Resize(n, b) => Resize(n + p, b),
        BlockResize(n, x) => BlockResize(n + pb, x),
        Truncate(n) => Truncate(n + p),
        BlockTruncate(n) => BlockTruncate(n + pb),
        ref o => o.clone(),
    }
}

pub fn bit_history<B: Blk>(c: &mut Case, pb: u64, steps: u64) -> R {
    use bvh::Op::*;
    let nb = B::NB;
    let p = pb * nb;
    let who = format!("BitVector<{}> of {} bits and more", B::NAME, p);
    let mut v: BitVector<B> = BitVector::block_with_fill(pb as usize, B::of(0));
    let mut m: Vec<bool> = vec![];
    c.nontrivial = true;
    c.mix(p);
    c.t(|| who.clone());
    for _ in 0..steps {
        let o = loop {
            let o = bvh::random_op(c, nb, m.len() as u64, 12 * nb);
            match o {
                Pop if m.is_empty() => continue,
                Clear | Clone | CloneFrom(_) | New | Default | WithCapacity(_) | BlockWithCapacity(_) | WithFill(..) | BlockWithFill(..) => continue,
                // moves the whole vector
                ReserveExact(_) | BlockReserveExact(_) | Shrink if c.rng.chance(9, 10) => continue,
                _ => break o,
            }
        };
        let far = shift_bit_op(&o, p, nb);
        c.t(|| format!("{:?} (at {} + {} bits)", far, p, m.len()));
        let want = bvh::model(&mut m, nb, &o);
        let got = attempt(|| bvh::real(&mut v, &far)).map_err(|e| Viol { sig: "far-panic".into(), msg: format!("{}: {:?} panicked: {}", who, far, e) })?;
        let n = m.len() as u64;
        ckeq!(got, want, "pop_bit", "{}: result of {:?}", who, far);
        ckeq!(v.bit_len(), p + n, "bit_len", "{}: after {:?}", who, far);
        ckeq!(v.block_len() as u64, pb + ceil_div(n, nb), "block_len", "{}: after {:?}", who, far);
        tail(c, &v, &m, p, &who)?;
        if c.rng.chance(1, 4) {
            // the end of the list, backwards and by skipping
            let mut it = v.iter();
            for back in 0..n.min(70) {
                ckeq!(it.next_back(), Some(m[(n - 1 - back) as usize]), "iter", "{}: {} from the end", who, back);
            }
            let mut it = v.iter();
            let (lo, hi) = it.size_hint();
            ck!(lo as u64 <= p + n && hi.map_or(true, |h| h as u64 >= p + n), "iter", "{}: size_hint is {:?}", who, (lo, hi));
            if n > 0 && p + n <= usize::MAX as u64 {
                let i = c.rng.below(n);
                ckeq!(it.nth((p + i) as usize), Some(m[i as usize]), "iter", "{}: nth({})", who, p + i);
                ckeq!(it.next(), m.get(i as usize + 1).copied(), "iter", "{}: next after nth({})", who, p + i);
                c.evals += 2;
            }
        }
    }
    c.cov("histories at the end of very long vectors");
    Ok(())
}

/// The tail, the border, and a few places before it.
fn tail<B: Blk>(c: &mut Case, v: &impl BitVec<Block = B>, m: &[bool], p: u64, who: &str) -> R {
    let nb = B::NB;
    let n = m.len() as u64;
    for b in 0..ceil_div(n, nb) {
        c.evals += 1;
        let live = (n - b * nb).min(nb);
        let got = v.get_block((p / nb + b) as usize).u();
        ckeq!(got, field(m, b * nb, live), "content", "{}: block {}", who, p / nb + b);
    }
    for _ in 0..3 {
        let q = match c.rng.below(3) {
            0 => c.rng.below(p),
            1 => p - 1 - c.rng.below(p.min(200)),
            _ => c.rng.below(p.min(200)),
        };
        c.evals += 1;
        ck!(!v.get_bit(q), "content", "{}: bit {} was never written but is set", who, q);
    }
    // a field across the border
    let k = c.rng.range(1, nb);
    let before = c.rng.below(k + 1).min(p);
    let after = (k - before).min(n);
    let got = v.get_bits(p - before, (before + after) as usize).u();
    let want = if after == 0 || before >= 64 { 0 } else { field(m, 0, after) << before };
    ckeq!(got, want & mask(nb), "get_bits", "{}: get_bits({}, {})", who, p - before, before + after);
    if n > 0 {
        let i = c.rng.below(n);
        ckeq!(v.get_bit(p + i), m[i as usize], "content", "{}: bit {}", who, p + i);
    }
    Ok(())
}

fn shift_int_op(o: &ivh::Op, e: u64, p: u64, nb: u64) -> ivh::Op {
    use ivh::Op::*;
    let pb = p / nb;
    match *o {
        Set(i, x) => Set(i + e, x),
        SetRandom(o, w, i, x) => SetRandom(o + p, w, i, x),
        SetBlock(b, x) => SetBlock(b + pb, x),
        SetBit(i, b) => SetBit(i + p, b),
        SetBits(s, w, x) => SetBits(s + p, w, x),
        Resize(n, x) => Resize(n + e, x),
        BlockResize(b, x) => BlockResize(b + pb, x),
        Truncate(n) => Truncate(n + e),
        BlockTruncate(b) => BlockTruncate(b + pb),
        ref o => o.clone(),
    }
}

pub fn int_history<B: Blk>(c: &mut Case, k: u64, pb: u64, steps: u64) -> R {
    use ivh::Op::*;
    let nb = B::NB;
    // whole elements end with a block
    let pb = pb / k * k + if pb / k == 0 { k } else { 0 };
    let p = pb * nb;
    let e = p / k;
    let who = format!("IntVector<{}>({} bits each) of {} elements and more", B::NAME, k, e);
    let mut v: IntVector<B> = IntVector::block_with_fill(k as usize, pb as usize, B::of(0));
    let mut m = ivh::Model::new(k, nb);
    c.nontrivial = true;
    c.mix(p ^ k << 50);
    c.t(|| who.clone());
    for _ in 0..steps {
        let o = loop {
            let o = ivh::random_op(c, &m, 10 * nb);
            match o {
                Pop if m.bits.is_empty() => continue,
                Clear | Clone | CloneFrom(_) | New | WithCapacity(_) | BlockWithCapacity(_) | WithFill(..) | BlockWithFill(..) => continue,
                ReserveExact(_) | BlockReserveExact(_) | Shrink if c.rng.chance(9, 10) => continue,
                _ => break o,
            }
        };
        let far = shift_int_op(&o, e, p, nb);
        c.t(|| format!("{:?} (at {} + {} elements)", far, e, m.len()));
        let want = m.apply(&o);
        let got = attempt(|| ivh::real(&mut v, &far)).map_err(|x| Viol { sig: "far-panic".into(), msg: format!("{}: {:?} panicked: {}", who, far, x) })?;
        ckeq!(got, want, "pop", "{}: result of {:?}", who, far);
        let n = m.len();
        ckeq!(v.len(), e + n, "len", "{}: after {:?}", who, far);
        ckeq!(v.bit_len(), p + n * k, "bit_len", "{}: after {:?}", who, far);
        ckeq!(v.block_len() as u64, pb + ceil_div(n * k, nb), "block_len", "{}: after {:?}", who, far);
        tail(c, &v, &m.bits, p, &who)?;
        for _ in 0..4 {
            if n > 0 {
                let i = c.rng.below(n);
                c.evals += 1;
                ckeq!(v.get(e + i).u(), m.get(i), "element", "{}: element {}", who, e + i);
            }
        }
        ckeq!(v.get(e - 1).u(), 0, "element", "{}: element {}", who, e - 1);
        if c.rng.chance(1, 4) {
            let mut it = v.iter();
            for back in 0..n.min(20) {
                ckeq!(it.next_back().map(|x| x.u()), Some(m.get(n - 1 - back)), "iter", "{}: {} from the end", who, back);
            }
            if n > 0 && e + n <= usize::MAX as u64 {
                let i = c.rng.below(n);
                ckeq!(v.iter().nth((e + i) as usize).map(|x| x.u()), Some(m.get(i)), "iter", "{}: nth({})", who, e + i);
            }
        }
    }
    c.cov("histories at the end of very long vectors");
    Ok(())
}
