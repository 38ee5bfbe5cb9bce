//! C01: a bit vector behaves as a plain list of booleans under every history.
use mon::bvh::{self, Bvh, Op};
use mon::{attempt, ck, ckeq, with_blk, wl, wl_fixed, wl_serial, Blk, Case, Viol, Workload, R};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

fn history_t<B: Blk>(c: &mut Case, max: u64, steps: u64, full: bool) -> R {
    let mut h: Bvh<B> = Bvh::empty();
    let o = bvh::random_ctor(c, B::NB, max);
    let mut grew = false;
    let mut shrank = false;
    h.apply(c, &o)?;
    h.quick_check(c)?;
    c.mix(B::NB);
    for i in 0..steps {
        let n = h.m.len() as u64;
        let o = bvh::random_op(c, B::NB, n, max);
        h.apply(c, &o)?;
        let n2 = h.m.len() as u64;
        grew |= n2 > n;
        shrank |= n2 < n;
        c.mix(n2 ^ (i << 40));
        h.quick_check(c)?;
        if full && c.rng.chance(1, 12) {
            h.full_check(c)?;
        }
    }
    c.nontrivial = grew && shrank;
    h.full_check(c)?;
    // iterating gives the same list
    let got: Vec<bool> = h.v.iter().collect();
    ck!(got == h.m, "content", "BitVector<{}>: collected bits differ from the list", B::NAME);
    if c.rng.chance(1, 3) {
        // drain through pop
        while let Some(b) = h.m.pop() {
            ckeq!(h.v.pop_bit(), Some(b), "pop_bit", "BitVector<{}> drain at {}", B::NAME, h.m.len());
            c.evals += 1;
        }
        ckeq!(h.v.pop_bit(), None, "pop_bit", "BitVector<{}> pop of empty", B::NAME);
        ckeq!(h.v.block_len(), 0, "block_len", "BitVector<{}> drained", B::NAME);
        c.cov("drained");
    }
    Ok(())
}

fn small(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let max = c.rng.pick(&[20, 70, 140, 300]);
    with_blk!(k, history_t, c, max, 60, true)
}
fn medium(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let max = c.rng.pick(&[1000, 3000, 9000]);
    with_blk!(k, history_t, c, max, 120, true)
}
fn large(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, history_t, c, 200_000, 60, false)
}

// Every sequence of 5 (thorough: 6) operations from this alphabet, from each start.
fn alphabet(i: u64) -> Op {
    match i {
        0 => Op::Push(true),
        1 => Op::Push(false),
        2 => Op::Pop,
        3 => Op::PushBlock(0xA7),
        4 => Op::Align(true),
        5 => Op::Resize(5, true),
        6 => Op::Resize(8, true),
        7 => Op::Resize(17, true),
        8 => Op::Resize(11, false),
        9 => Op::BlockResize(1, 0xFF),
        10 => Op::BlockResize(3, 0x5B),
        11 => Op::Truncate(3),
        12 => Op::Truncate(9),
        13 => Op::BlockTruncate(1),
        14 => Op::Clear,
        15 => Op::Shrink,
        _ => Op::Clone,
    }
}
const NOPS: u64 = 17;
const STARTS: u64 = 6;
fn start(i: u64) -> Op {
    match i {
        0 => Op::New,
        1 => Op::WithFill(3, true),
        2 => Op::WithFill(8, true),
        3 => Op::WithFill(13, true),
        4 => Op::BlockWithFill(2, 0xC3),
        _ => Op::WithFill(24, false),
    }
}
fn exhaustive(c: &mut Case) -> R {
    // one case fixes the start and the first two operations
    let mut i = c.index;
    let s = i % STARTS;
    i /= STARTS;
    let a = i % NOPS;
    let b = i / NOPS;
    c.nontrivial = true;
    c.mix(c.index);
    let depth = if c.thorough { 6 } else { 5 };
    for t in 0..NOPS.pow(depth - 2) {
        let mut h: Bvh<u8> = Bvh::empty();
        let mut ops = vec![start(s), alphabet(a), alphabet(b)];
        let mut x = t;
        for _ in 2..depth {
            ops.push(alphabet(x % NOPS));
            x /= NOPS;
        }
        for op in ops.clone() {
            let want = bvh::model(&mut h.m, 8, &op);
            let v = &mut h.v;
            let got = attempt(|| bvh::real(v, &op)).map_err(|e| Viol {
                sig: "exhaustive-panic".into(),
                msg: format!("{:?} panicked: {}", op, e),
            })?;
            ckeq!(got, want, "pop_bit", "BitVector<u8> history {:?}", ops);
            h.quick_check(c).map_err(|v| Viol {
                sig: v.sig,
                msg: format!("history {:?}: {}", ops, v.msg),
            })?;
        }
        c.cov("exhaustive histories");
    }
    Ok(())
}

/// More than 2^32 bits: only the changed neighbourhoods are looked at.
fn huge_t<B: Blk>(c: &mut Case) -> R {
    let big: u64 = 1 << 32;
    let base = big + c.rng.below(3 * B::NB);
    c.mix(base);
    c.nontrivial = true;
    let mut v: BitVector<B> = BitVector::with_fill(base, false);
    let mut extra: Vec<bool> = vec![];
    ckeq!(v.bit_len(), base, "bit_len", "BitVector<{}>::with_fill({})", B::NAME, base);
    let probe = [0u64, 1, big - 1, big - B::NB, big, base - 1, base / 2];
    for p in probe {
        v.set_bit(p, true);
        ck!(v.get_bit(p), "content", "BitVector<{}> of {} bits: bit {} not set", B::NAME, base, p);
        c.evals += 1;
    }
    for (p, q) in [(2u64, 2 + big - (big / 2)), (7, big + 1 - 8)] {
        if !probe.contains(&q) {
            ck!(!v.get_bit(p) && !v.get_bit(q), "content", "BitVector<{}>: stray bit at {} or {}", B::NAME, p, q);
        }
    }
    for i in 0..3 * B::NB {
        let b = c.rng.coin() || i == 0;
        v.push_bit(b);
        extra.push(b);
    }
    ckeq!(v.bit_len(), base + extra.len() as u64, "bit_len", "BitVector<{}> after pushes", B::NAME);
    ckeq!(v.block_len() as u64, mon::ceil_div(v.bit_len(), B::NB), "block_len", "BitVector<{}> huge", B::NAME);
    for (i, &b) in extra.iter().enumerate() {
        ckeq!(v.get_bit(base + i as u64), b, "content", "BitVector<{}> bit {} past {}", B::NAME, i, base);
        c.evals += 1;
    }
    while extra.len() as u64 > B::NB {
        ckeq!(v.pop_bit(), extra.pop(), "pop_bit", "BitVector<{}> huge pop", B::NAME);
    }
    v.resize(base + B::NB + 5, true);
    extra.resize(B::NB as usize + 5, true);
    for (i, &b) in extra.iter().enumerate() {
        ckeq!(v.get_bit(base + i as u64), b, "content", "BitVector<{}> bit {} past {} after resize", B::NAME, i, base);
    }
    v.truncate(base - 1);
    ckeq!(v.bit_len(), base - 1, "bit_len", "BitVector<{}> truncate", B::NAME);
    ckeq!(v.block_len() as u64, mon::ceil_div(base - 1, B::NB), "block_len", "BitVector<{}> truncate", B::NAME);
    v.resize(base + 3, false);
    for p in base - 1..base + 3 {
        ck!(!v.get_bit(p), "content", "BitVector<{}>: bit {} came back after truncate and resize", B::NAME, p);
    }
    ck!(v.get_bit(big - 1) && v.get_bit(0), "content", "BitVector<{}>: bits lost by truncate/resize", B::NAME);
    v.block_resize(3, B::of(0));
    ckeq!(v.bit_len(), 3 * B::NB, "bit_len", "BitVector<{}> block_resize(3)", B::NAME);
    ck!(v.get_bit(0) && v.get_bit(1) && !v.get_bit(2), "content", "BitVector<{}> after block_resize(3)", B::NAME);
    c.t(|| format!("BitVector<{}> of {} bits", B::NAME, base));
    c.cov("vectors beyond 2^32 bits");
    Ok(())
}
fn huge(c: &mut Case) -> R {
    let k = c.index;
    with_blk!(k, huge_t, c)
}

/// Histories at the end of vectors whose bit or block numbers cross 2^16, 2^31, 2^32.
fn tails(c: &mut Case) -> R {
    let k = c.index;
    let kind = c.index / 5;
    with_blk!(k, tails_t, c, kind)
}
fn tails_t<B: Blk>(c: &mut Case, kind: u64) -> R {
    let pb = mon::far::prefix_blocks(c, B::NB, kind);
    mon::far::bit_history::<B>(c, pb, 400)
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(2);
    let max = c.rng.pick(&[40, 140, 900]);
    mon::with_user_blk!(k, history_t, c, max, 60, true)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("small", 120_000, 6_000_000, small),
        wl("medium", 15_000, 600_000, medium),
        wl("large", 400, 20_000, large),
        wl_fixed("exhaustive", STARTS * NOPS * NOPS, exhaustive),
        wl_serial("huge", 5, 20, huge),
        wl_serial("tails", 240, 6000, tails),
        wl("user_blocks", 8_000, 400_000, user_blocks),
    ]
}
