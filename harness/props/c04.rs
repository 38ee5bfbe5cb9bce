//! C04: bit, bit-field and block access agree for every bit-vector type.
use mon::stores::{ByBit, ByBlock};
use mon::{
    bvh, check_all, ck, ckeq, field, fp_bits, mask, must, pattern, random_write, set_field, with_blk, wl, wl_fixed, Blk, Case, Workload, R,
};
use succinct::stream::BitBuffer;
use succinct::bit_vec::BitSlice;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

fn words<B: Blk>(m: &[bool]) -> Vec<B> {
    m.chunks(B::NB as usize).map(|c| B::of(field(c, 0, c.len() as u64))).collect()
}

fn read_write<V: BitVec + BitVecMut>(c: &mut Case, v: &mut V, m: &mut Vec<bool>, who: &str, zero_tail: bool, writes: u64) -> R
where
    V::Block: Blk,
{
    check_all(c, v, m, who, zero_tail, 25)?;
    for _ in 0..writes {
        random_write(c, v, m, who)?;
        // the neighbourhood is covered: every block and many fields
        mon::check_blocks(c, v, m, who, zero_tail)?;
        c.mix(c.evals);
    }
    check_all(c, v, m, who, zero_tail, 25)
}

fn push_all<V: BitVecPush>(c: &mut Case, v: &mut V, m: &mut Vec<bool>, who: &str, zero_tail: bool) -> R
where
    V::Block: Blk,
{
    let nb = <V::Block as Blk>::NB;
    for _ in 0..c.rng.range(1, 12) {
        let before = m.len() as u64;
        match c.rng.below(5) {
            0 | 1 => {
                let b = c.rng.coin();
                c.t(|| format!("{}.push_bit({})", who, b));
                must("push_bit-panic", &|| format!("{} push_bit at {}", who, before), || v.push_bit(b))?;
                m.push(b);
            }
            2 => {
                let x = c.rng.value();
                c.t(|| format!("{}.push_block({:#x}) at {} bits", who, x, before));
                must("push_block-panic", &|| format!("{} push_block at {}", who, before), || v.push_block(<V::Block as Blk>::of(x)))?;
                bvh::push_block_model(m, nb, x);
                c.cov(if before % nb == 0 { "push_block aligned" } else { "push_block padding" });
            }
            3 => {
                let b = c.rng.coin();
                c.t(|| format!("{}.align_block({}) at {} bits", who, b, before));
                must("align_block-panic", &|| format!("{} align_block at {}", who, before), || v.align_block(b))?;
                while m.len() as u64 % nb != 0 {
                    m.push(b);
                }
            }
            _ => {
                c.t(|| format!("{}.pop_bit() at {} bits", who, before));
                let got = must("pop_bit-panic", &|| format!("{} pop_bit at {}", who, before), || v.pop_bit())?;
                ckeq!(got, m.pop(), "pop_bit", "{} pop_bit at {}", who, before);
            }
        }
        mon::check_blocks(c, v, m, who, zero_tail)?;
        ckeq!(v.bit_len(), m.len() as u64, "bit_len", "{} after a push or pop", who);
    }
    check_all(c, v, m, who, zero_tail, 10)
}

fn kinds_t<B: Blk>(c: &mut Case, size: u64) -> R {
    let nb = B::NB;
    let n = c.rng.size(nb, size * nb);
    let mut m = pattern(&mut c.rng, n, nb);
    fp_bits(c, &m);
    c.mix(nb);
    c.nontrivial = n > 0;
    let w = c.rng.range(1, 6);
    let kind = c.rng.below(11);
    c.t(|| format!("kind {} over {} with {} bits", kind, B::NAME, n));
    match kind {
        0 => {
            c.cov("BitVector");
            let mut v = bvh::build_to::<B>(c, &m)?;
            read_write(c, &mut v, &mut m, "BitVector", true, w)?;
            push_all(c, &mut v, &mut m, "BitVector", true)
        }
        1 => {
            c.cov("Vec<Block>");
            m.resize((mon::ceil_div(n, nb) * nb) as usize, false);
            let mut v: Vec<B> = words(&m);
            read_write(c, &mut v, &mut m, "Vec<Block>", true, w)?;
            ck!(v == words::<B>(&m), "content", "Vec<Block> differs");
            Ok(())
        }
        2 => {
            c.cov("slices of blocks");
            m.resize((mon::ceil_div(n, nb) * nb) as usize, false);
            let mut v: Vec<B> = words(&m);
            check_all(c, &v[..], &m, "[Block]", true, 20)?;
            check_all(c, &&v[..], &m, "&[Block]", true, 20)?;
            // unsized receiver
            {
                let s: &mut [B] = &mut v[..];
                for _ in 0..w {
                    random_write(c, s, &mut m, "[Block]")?;
                    mon::check_blocks(c, s, &m, "[Block]", true)?;
                }
            }
            let mut s: &mut [B] = &mut v[..];
            read_write(c, &mut s, &mut m, "&mut [Block]", true, w)?;
            ck!(v == words::<B>(&m), "content", "[Block] differs");
            Ok(())
        }
        3 => {
            c.cov("Vec<bool>");
            let mut v = m.clone();
            read_write(c, &mut v, &mut m, "Vec<bool>", true, w)?;
            push_all(c, &mut v, &mut m, "Vec<bool>", true)?;
            ck!(v == m, "content", "Vec<bool> differs");
            Ok(())
        }
        4 | 5 => {
            c.cov("IntVector");
            let k = mon::ivh::width(c, nb);
            let len = n / k;
            m.truncate((len * k) as usize);
            let mut v: IntVector<B> = IntVector::with_fill(k as usize, len, B::of(0));
            for i in 0..len {
                v.set(i, B::of(field(&m, i * k, k)));
            }
            read_write(c, &mut v, &mut m, "IntVector", true, w + 3)?;
            for i in 0..len {
                c.evals += 1;
                ckeq!(v.get(i).u(), field(&m, i * k, k), "element", "IntVector<{}>({} bits): element {} after bit writes", B::NAME, k, i);
            }
            Ok(())
        }
        6 => {
            c.cov("BitBuffer");
            let v = bvh::build_to::<B>(c, &m)?;
            let mut b = if c.rng.coin() { BitBuffer::from(v) } else { BitBuffer::append(v) };
            let pos = b.position();
            read_write(c, &mut b, &mut m, "BitBuffer", true, w)?;
            ckeq!(b.position(), pos, "position", "BitBuffer position after direct access");
            Ok(())
        }
        7 => {
            c.cov("user type by bit");
            let mut v: ByBit<B> = ByBit::new(&m);
            read_write(c, &mut v, &mut m, "ByBit", true, w)?;
            push_all(c, &mut v, &mut m, "ByBit", true)?;
            ck!(v.bits == m, "content", "ByBit differs");
            Ok(())
        }
        8 | 9 => {
            c.cov("user type by block");
            // unused bits of the last block hold garbage, which must stay and must not be seen
            let g = c.rng.value();
            let mut v: ByBlock<B> = ByBlock::new(&m, g);
            let tail = v.tail();
            read_write(c, &mut v, &mut m, "ByBlock", false, w)?;
            ckeq!(v.tail(), tail, "tail", "ByBlock unused bits");
            Ok(())
        }
        _ => {
            c.cov("BitSlice");
            let v = bvh::build_to::<B>(c, &m)?;
            let s = c.rng.below(n + 1);
            let e = c.rng.range(s, n);
            check_all(c, &BitSlice::new(&v, s..e), &m[s as usize..e as usize].to_vec(), "BitSlice", false, 25)
        }
    }
}
fn kinds(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let size = c.rng.pick(&[1, 2, 3, 5, 12]);
    with_blk!(k, kinds_t, c, size)
}
fn long(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, kinds_t, c, 300)
}

/// Primitive words: every (start, count) pair of every word, read and written; blocks and bits too.
fn prim_t<B: Blk + BitVec<Block = B> + BitVecMut>(c: &mut Case) -> R {
    let x = c.rng.value() & mask(B::NB);
    let y = c.rng.value();
    c.mix(x ^ B::NB);
    c.nontrivial = true;
    c.t(|| format!("{} {:#x} written with {:#x}", B::NAME, x, y));
    let v = B::of(x);
    let mut m: Vec<bool> = (0..B::NB).map(|i| (x >> i) & 1 == 1).collect();
    ckeq!(BitVec::bit_len(&v), B::NB, "bit_len", "{} bit_len", B::NAME);
    ckeq!(BitVec::block_len(&v), 1, "block_len", "{} block_len", B::NAME);
    ckeq!(BitVec::get_block(&v, 0).u(), x, "get_block", "{} get_block(0)", B::NAME);
    for s in 0..=B::NB {
        for k in 0..=B::NB - s {
            c.evals += 2;
            ckeq!(BitVec::get_bits(&v, s, k as usize).u(), field(&m, s, k), "get_bits", "{} {:#x} get_bits({}, {})", B::NAME, x, s, k);
            let mut w = v;
            w.set_bits(s, k as usize, B::of(y));
            let mut mm = m.clone();
            set_field(&mut mm, s, k, y);
            ckeq!(w.u(), field(&mm, 0, B::NB), "set_bits", "{} {:#x} set_bits({}, {}, {:#x})", B::NAME, x, s, k, y);
        }
    }
    for p in 0..B::NB {
        ckeq!(BitVec::get_bit(&v, p), m[p as usize], "get_bit", "{} {:#x} get_bit({})", B::NAME, x, p);
        for b in [false, true] {
            let mut w = v;
            w.set_bit(p, b);
            let mut mm = m.clone();
            mm[p as usize] = b;
            ckeq!(w.u(), field(&mm, 0, B::NB), "set_bit", "{} {:#x} set_bit({}, {})", B::NAME, x, p, b);
        }
    }
    let mut w = v;
    read_write(c, &mut w, &mut m, B::NAME, true, 4)
}
fn prim(c: &mut Case) -> R {
    let k = c.rng.below(5);
    with_blk!(k, prim_t, c)
}

/// Every (length, start, count) up to three blocks of every kind of bit vector, read and written.
fn spans_t<B: Blk>(c: &mut Case, kind: u64) -> R {
    let nb = B::NB;
    c.nontrivial = true;
    c.mix(kind * 100 + nb);
    let top = if nb == 8 { 26 } else { 2 * nb + 3 };
    let mut n = c.rng.below(2);
    while n <= top {
        let m: Vec<bool> = (0..n).map(|_| c.rng.coin()).collect();
        let step = if nb == 8 { 1 } else { 1 + c.rng.below(nb / 8 + 1) };
        let mut s = 0;
        while s <= n {
            let mut k = 0;
            while k <= nb.min(n - s) {
                let y = c.rng.next();
                let mut mm = m.clone();
                set_field(&mut mm, s, k, y);
                c.evals += 1;
                macro_rules! go {
                    ($v:expr, $m:expr, $mm:expr, $who:expr) => {{
                        let mut v = $v;
                        ckeq!(v.get_bits(s, k as usize).u(), field(&$m, s, k), "get_bits", "{}<{}> of {}: get_bits({}, {})", $who, B::NAME, n, s, k);
                        v.set_bits(s, k as usize, B::of(y));
                        for b in 0..v.block_len() as u64 {
                            let live = ($mm.len() as u64 - b * nb).min(nb);
                            ckeq!(v.get_block(b as usize).u() & mask(live), field(&$mm, b * nb, live), "set_bits", "{}<{}> of {}: block {} after set_bits({}, {}, {:#x})", $who, B::NAME, n, b, s, k, y);
                        }
                    }};
                }
                match kind {
                    0 => {
                        let mut v: BitVector<B> = BitVector::new();
                        for &b in &m {
                            v.push_bit(b);
                        }
                        go!(v, m, mm, "BitVector")
                    }
                    1 => go!(ByBit::<B>::new(&m), m, mm, "ByBit"),
                    2 => go!(ByBlock::<B>::new(&m, 0xA5A5_A5A5_A5A5_A5A5), m, mm, "ByBlock"),
                    _ => {
                        let mut v: IntVector<B> = IntVector::new(1);
                        for &b in &m {
                            v.push(B::of(b as u64));
                        }
                        go!(v, m, mm, "IntVector(1)")
                    }
                }
                k += if k + 1 == nb { 1 } else { step };
            }
            s += step;
        }
        n += if nb == 8 { 1 } else { 1 + c.rng.below(nb / 4) };
    }
    c.cov("span sweeps");
    Ok(())
}
fn spans(c: &mut Case) -> R {
    let t = c.index % 4;
    let kind = c.index / 4 % 4;
    with_blk!(t, spans_t, c, kind)
}

/// Blocks of a user's own, which leave to the library what `BlockType` provides.
fn user_blocks(c: &mut Case) -> R {
    let k = c.rng.below(2);
    let size = c.rng.pick(&[1, 2, 5]);
    mon::with_user_blk!(k, kinds_t, c, size)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("kinds", 60_000, 3_000_000, kinds),
        wl("long", 3_000, 200_000, long),
        wl("prim", 8_000, 300_000, prim),
        wl_fixed("spans", 32, spans),
        wl("user_blocks", 6_000, 300_000, user_blocks),
    ]
}
