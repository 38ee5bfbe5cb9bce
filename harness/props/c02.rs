//! C02: an integer vector behaves as a plain list of k-bit integers.
use mon::ivh::{self, Ivh, Op};
use mon::{attempt, ck, ckeq, field, mask, must, set_field, with_blk, wl, wl_fixed, wl_serial, Blk, Case, Viol, Workload, R};
use succinct::{BitVec, IntVec, IntVecMut, IntVector};

fn history_t<B: Blk>(c: &mut Case, k: u64, max: u64, steps: u64) -> R {
    let nb = B::NB;
    let mut h: Ivh<B> = Ivh::new(k);
    let o = ivh::random_ctor(c, k, nb, max);
    h.apply(c, &o)?;
    h.quick_check(c)?;
    c.mix(nb * 100 + k);
    c.cov(match nb {
        8 => "blocks of 8 bits",
        16 => "blocks of 16 bits",
        32 => "blocks of 32 bits",
        _ => "blocks of 64 bits",
    });
    let (mut grew, mut shrank) = (false, false);
    for i in 0..steps {
        let n = h.m.len();
        let o = ivh::random_op(c, &h.m, max);
        h.apply(c, &o)?;
        let n2 = h.m.len();
        grew |= n2 > n;
        shrank |= n2 < n;
        c.mix(n2 ^ (i << 40));
        h.quick_check(c)?;
        if c.rng.chance(1, 16) {
            h.full_check(c)?;
        }
    }
    c.nontrivial = grew && shrank;
    h.full_check(c)?;
    let got: Vec<u64> = h.v.iter().map(|x| x.u()).collect();
    let want: Vec<u64> = (0..h.m.len()).map(|i| h.m.get(i)).collect();
    ck!(got == want, "element", "{}: collected elements differ from the list", h.who());
    if c.rng.chance(1, 3) {
        for &x in want.iter().rev() {
            ckeq!(h.v.pop().map(|x| x.u()), Some(x), "pop", "IntVector<{}>({}) drain", B::NAME, k);
            c.evals += 1;
        }
        ckeq!(h.v.pop().map(|x| x.u()), None, "pop", "IntVector<{}>({}) pop of empty", B::NAME, k);
        c.cov("drained");
    }
    Ok(())
}
fn small(c: &mut Case) -> R {
    let t = c.rng.below(5);
    let nb = [8, 16, 32, 64, usize::BITS as u64][t as usize];
    let k = ivh::width(c, nb);
    let max = c.rng.pick(&[3, 6, 12]) * nb;
    with_blk!(t, history_t, c, k, max, 60)
}
fn medium(c: &mut Case) -> R {
    let t = c.rng.below(5);
    let nb = [8, 16, 32, 64, usize::BITS as u64][t as usize];
    let k = ivh::width(c, nb);
    with_blk!(t, history_t, c, k, 6000, 80)
}

/// Every width of every block type: fill, isolated writes at every index, neighbours unchanged.
fn widths_t<B: Blk>(c: &mut Case, k: u64) -> R {
    if k > B::NB {
        return Ok(());
    }
    let nb = B::NB;
    let n = 2 * nb / k + nb.min(20) + 3;
    c.nontrivial = true;
    c.mix(nb * 100 + k);
    for fill in [0, mask(k), 0x5555_5555_5555_5555 & mask(k)] {
        let mut v: IntVector<B> = IntVector::with_fill(k as usize, n, B::of(fill));
        let mut m = ivh::Model::new(k, nb);
        for _ in 0..n {
            m.push(fill);
        }
        ckeq!(v.len(), n, "len", "IntVector<{}>::with_fill({}, {})", B::NAME, k, n);
        for i in 0..n {
            let x = (c.rng.next() ^ !fill) & mask(k);
            attempt(|| v.set(i, B::of(x))).map_err(|e| Viol { sig: "set-panic".into(), msg: format!("IntVector<{}>({} bits) set({}): {}", B::NAME, k, i, e) })?;
            set_field(&mut m.bits, i * k, k, x);
            // the element and its neighbours
            for j in i.saturating_sub(2)..(i + 3).min(n) {
                c.evals += 1;
                ckeq!(v.get(j).u(), m.get(j), "element", "IntVector<{}>({} bits): element {} after set({}, {:#x})", B::NAME, k, j, i, x);
            }
        }
        for b in 0..v.block_len() as u64 {
            ckeq!(v.get_block(b as usize).u(), field(&m.bits, b * nb, nb), "layout", "IntVector<{}>({} bits): block {}", B::NAME, k, b);
        }
        // all offsets and widths around one spot, read and written
        let w = 1 + (k * 7 + fill % 61) % nb;
        for p in 0..(2 * nb).min(n * k - w) {
            let x = c.rng.next() & mask(w);
            c.evals += 2;
            ckeq!(v.get_random(p, w as usize, 0).u(), field(&m.bits, p, w), "get_random", "IntVector<{}>({} bits) get_random({}, {}, 0)", B::NAME, k, p, w);
            v.set_random(p, w as usize, 0, B::of(x));
            set_field(&mut m.bits, p, w, x);
            ckeq!(v.get_random(p, w as usize, 0).u(), x, "set_random", "IntVector<{}>({} bits) set_random({}, {}, 0)", B::NAME, k, p, w);
        }
        for j in 0..n {
            ckeq!(v.get(j).u(), m.get(j), "element", "IntVector<{}>({} bits): element {} after set_random sweep", B::NAME, k, j);
        }
    }
    c.cov("widths swept");
    Ok(())
}
fn widths(c: &mut Case) -> R {
    let t = c.index / 64;
    let k = c.index % 64 + 1;
    with_blk!(t, widths_t, c, k)
}

// Small scope: every sequence of operations from this alphabet over 3-bit and 5-bit elements in bytes.
fn alphabet(i: u64, k: u64) -> Op {
    let m = mask(k);
    match i {
        0 => Op::Push(m),
        1 => Op::Push(0),
        2 => Op::Push(5 & m),
        3 => Op::Pop,
        4 => Op::Resize(2, m),
        5 => Op::Resize(3, m),
        6 => Op::Resize(6, 2 & m),
        7 => Op::BlockResize(1, 0xB7),
        8 => Op::BlockResize(2, 0xFF),
        9 => Op::Truncate(1),
        10 => Op::Truncate(3),
        11 => Op::BlockTruncate(1),
        12 => Op::Clear,
        13 => Op::Clone,
        _ => Op::Shrink,
    }
}
const NOPS: u64 = 15;
fn exhaustive(c: &mut Case) -> R {
    let mut i = c.index;
    let k = [3, 5, 8, 1, 7, 4][(i % 6) as usize];
    i /= 6;
    let (a, b) = (i % NOPS, i / NOPS);
    c.nontrivial = true;
    c.mix(c.index);
    let depth = if c.thorough { 6 } else { 5 };
    for t in 0..NOPS.pow(depth - 2) {
        let mut h: Ivh<u8> = Ivh::new(k);
        let mut ops = vec![alphabet(a, k), alphabet(b, k)];
        let mut x = t;
        for _ in 2..depth {
            ops.push(alphabet(x % NOPS, k));
            x /= NOPS;
        }
        for op in &ops {
            let want = h.m.apply(op);
            let v = &mut h.v;
            let got = attempt(|| ivh::real(v, op)).map_err(|e| Viol { sig: "exhaustive-panic".into(), msg: format!("k={} {:?} of {:?} panicked: {}", k, op, ops, e) })?;
            ckeq!(got, want, "pop", "k={} history {:?}", k, ops);
            ckeq!(h.v.len(), h.m.len(), "len", "k={} history {:?}", k, ops);
        }
        for i in 0..h.m.len() {
            c.evals += 1;
            ckeq!(h.v.get(i).u(), h.m.get(i), "element", "k={} history {:?}: element {}", k, ops, i);
        }
        c.cov("exhaustive histories");
    }
    Ok(())
}

fn huge_t<B: Blk>(c: &mut Case) -> R {
    // more than 2^32 bits; and more than 2^32 elements when k = 1
    let nb = B::NB;
    let k = match c.rng.below(3) {
        0 => 1,
        1 => nb - 1,
        _ => c.rng.range(1, nb),
    };
    let blocks = (1u64 << 32) / nb + 5;
    let mut v: IntVector<B> = IntVector::block_with_fill(k as usize, blocks as usize, B::of(0));
    let n = blocks * nb / k;
    c.mix(k * 100 + nb);
    c.nontrivial = true;
    c.t(|| format!("IntVector<{}> of {} elements of {} bits", B::NAME, n, k));
    ckeq!(v.len(), n, "len", "IntVector<{}>::block_with_fill({}, {})", B::NAME, k, blocks);
    let mut ps = vec![0, 1, n - 1, n - 2, n / 2];
    let e = (1u64 << 32) / k;
    for d in 0..4 {
        if e + d < n + 2 && e + d >= 2 {
            ps.push((e + d - 2).min(n - 1));
        }
    }
    ps.sort();
    ps.dedup();
    let xs: Vec<u64> = ps.iter().map(|_| c.rng.next() & mask(k) | 1).collect();
    for (&p, &x) in ps.iter().zip(&xs) {
        v.set(p, B::of(x));
    }
    for (&p, &x) in ps.iter().zip(&xs) {
        c.evals += 1;
        ckeq!(v.get(p).u(), x, "element", "IntVector<{}>({} bits) of {}: element {}", B::NAME, k, n, p);
        for q in [p.wrapping_sub(1), p + 1] {
            if q < n && !ps.contains(&q) {
                ckeq!(v.get(q).u(), 0, "element", "IntVector<{}>({} bits) of {}: element {}", B::NAME, k, n, q);
            }
        }
    }
    let x = c.rng.next() & mask(k);
    for _ in 0..2 * nb {
        v.push(B::of(x));
    }
    ckeq!(v.len(), n + 2 * nb, "len", "IntVector<{}>({} bits) pushes", B::NAME, k);
    ckeq!(v.get(n + 2 * nb - 1).u(), x, "element", "IntVector<{}>({} bits) pushed", B::NAME, k);
    for _ in 0..2 * nb {
        ckeq!(v.pop().map(|x| x.u()), Some(x), "pop", "IntVector<{}>({} bits) huge", B::NAME, k);
    }
    ckeq!(v.pop().map(|x| x.u()), Some(xs[xs.len() - 1]), "pop", "IntVector<{}>({} bits) huge", B::NAME, k);
    v.truncate(n / 2 + 1);
    ckeq!(v.len(), n / 2 + 1, "len", "IntVector<{}>({} bits) truncate", B::NAME, k);
    ckeq!(v.get(n / 2).u(), xs[ps.iter().position(|&p| p == n / 2).unwrap()], "element", "IntVector<{}>({} bits) after truncate", B::NAME, k);
    c.cov("vectors beyond 2^32 bits");
    Ok(())
}
fn huge(c: &mut Case) -> R {
    let k = c.index;
    with_blk!(k, huge_t, c)
}

/// Histories at the end of vectors whose bit, element or block numbers cross 2^16, 2^31, 2^32.
fn tails(c: &mut Case) -> R {
    let k = c.index;
    let kind = c.index / 5;
    with_blk!(k, tails_t, c, kind)
}
fn tails_t<B: Blk>(c: &mut Case, kind: u64) -> R {
    let pb = mon::far::prefix_blocks(c, B::NB, kind);
    let k = ivh::width(c, B::NB);
    mon::far::int_history::<B>(c, k, pb, 300)
}

/// Blocks wider than any built-in type.
fn wide_blocks(c: &mut Case) -> R {
    use mon::userblk::W128;
    use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};
    let low = |k: u64| if k >= 128 { u128::MAX } else { (1u128 << k) - 1 };
    let k = match c.rng.below(3) {
        0 => c.rng.pick(&[1u64, 2, 63, 64, 65, 126, 127, 128]),
        _ => c.rng.range(1, 128),
    };
    let n = c.rng.below(40);
    let mut val = |c: &mut Case| {
        let x = (c.rng.value() as u128) << c.rng.below(65) ^ c.rng.value() as u128;
        if c.rng.chance(1, 5) { low(k) } else { x & low(k) }
    };
    c.nontrivial = n > 0;
    let f = val(c);
    c.mix(k ^ n << 8 ^ (f as u64).rotate_left(20));
    let who = format!("IntVector<128-bit block>({}) of {}", k, n);
    c.t(|| who.clone());
    let mut v = must("panic", &|| who.clone(), || IntVector::<W128>::with_fill(k as usize, n, W128(f)))?;
    let mut m = vec![f; n as usize];
    let mut b = BitVector::<W128>::new();
    let mut bm: Vec<bool> = Vec::new();
    for _ in 0..40 {
        let x = val(c);
        match c.rng.below(7) {
            0 | 1 => {
                must("panic", &|| format!("{} push", who), || v.push(W128(x)))?;
                m.push(x);
            }
            2 => ckeq!(must("panic", &|| format!("{} pop", who), || v.pop())?.map(|x| x.0), m.pop(), "pop", "{} pop", who),
            3 if !m.is_empty() => {
                let i = c.rng.below(m.len() as u64);
                must("panic", &|| format!("{} set({})", who, i), || v.set(i, W128(x)))?;
                m[i as usize] = x;
            }
            4 => {
                let l = c.rng.below(40);
                must("panic", &|| format!("{} resize({})", who, l), || v.resize(l, W128(x)))?;
                m.resize(l as usize, x);
            }
            5 => {
                let bit = c.rng.coin();
                b.push_bit(bit);
                bm.push(bit);
                let l = c.rng.below(400);
                if c.rng.chance(1, 6) {
                    must("panic", &|| format!("BitVector<128-bit block>::resize({}, {})", l, bit), || b.resize(l, bit))?;
                    bm.resize(l as usize, bit);
                }
            }
            _ if !bm.is_empty() => {
                let s = c.rng.below(bm.len() as u64);
                let l = c.rng.below(129.min(bm.len() as u64 - s + 1));
                must("panic", &|| format!("BitVector<128-bit block>::set_bits({}, {})", s, l), || b.set_bits(s, l as usize, W128(x)))?;
                for i in 0..l {
                    bm[(s + i) as usize] = x >> i & 1 == 1;
                }
                let s = c.rng.below(bm.len() as u64);
                let l = c.rng.below(129.min(bm.len() as u64 - s + 1));
                let want = (0..l).fold(0u128, |a, i| a | (bm[(s + i) as usize] as u128) << i);
                ckeq!(b.get_bits(s, l as usize).0, want, "field", "BitVector<128-bit block>::get_bits({}, {})", s, l);
            }
            _ => {}
        }
        c.evals += 3;
        ckeq!((v.len(), b.bit_len()), (m.len() as u64, bm.len() as u64), "len", "{}", who);
    }
    for (i, &x) in m.iter().enumerate() {
        ckeq!(v.get(i as u64).0, x, "element", "{} get({})", who, i);
        for j in 0..k {
            ckeq!(v.get_bit(i as u64 * k + j), x >> j & 1 == 1, "element", "{} bit {} of element {}", who, j, i);
        }
    }
    for (i, &x) in bm.iter().enumerate() {
        ckeq!(b.get_bit(i as u64), x, "bit", "BitVector<128-bit block>::get_bit({})", i);
    }
    c.evals += (m.len() as u64) * (k + 1) + bm.len() as u64;
    Ok(())
}
/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let t = c.rng.below(2);
    let nb = [16, 64][t as usize];
    let k = ivh::width(c, nb);
    let max = c.rng.pick(&[3, 12, 40]) * nb;
    mon::with_user_blk!(t, history_t, c, k, max, 60)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("small", 80_000, 4_000_000, small),
        wl("medium", 8_000, 400_000, medium),
        wl_fixed("widths", 5 * 64, widths),
        wl_fixed("exhaustive", 6 * NOPS * NOPS, exhaustive),
        wl_serial("huge", 10, 60, huge),
        wl_serial("tails", 240, 6000, tails),
        wl("wide_blocks", 6_000, 300_000, wide_blocks),
        wl("user_blocks", 8_000, 400_000, user_blocks),
    ]
}
