//! Histories of a `BitVector<B>` run in lock step with a plain `Vec<bool>`.
use crate::run::{attempt, Case, Viol, R};
use crate::{bits::*, ck, ckeq, mask, Blk};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Push(bool),
    Pop,
    PushBlock(u64),
    Align(bool),
    Set(u64, bool),
    SetBits(u64, u64, u64),
    SetBlock(u64, u64),
    Resize(u64, bool),
    BlockResize(u64, u64),
    Truncate(u64),
    BlockTruncate(u64),
    Clear,
    Reserve(u64),
    ReserveExact(u64),
    BlockReserve(u64),
    BlockReserveExact(u64),
    Shrink,
    Clone,
    CloneFrom(u64),
    // constructors: replace the vector
    New,
    Default,
    WithCapacity(u64),
    BlockWithCapacity(u64),
    WithFill(u64, bool),
    BlockWithFill(u64, u64),
}

pub struct Bvh<B: Blk> {
    pub v: BitVector<B>,
    pub m: Vec<bool>,
    /// Set by every constructor-like or growing op; used by space checks.
    pub ops: u64,
}

pub fn push_block_model(m: &mut Vec<bool>, nb: u64, x: u64) {
    while m.len() as u64 % nb != 0 {
        m.push(false);
    }
    for i in 0..nb {
        m.push((x >> i) & 1 == 1);
    }
}

/// The plain list put through one operation; the result is what `pop` gives.
pub fn model(m: &mut Vec<bool>, nb: u64, op: &Op) -> Option<bool> {
    match *op {
        Op::Push(b) => m.push(b),
        Op::Pop => return m.pop(),
        Op::PushBlock(x) => push_block_model(m, nb, x),
        Op::Align(b) => {
            while m.len() as u64 % nb != 0 {
                m.push(b)
            }
        }
        Op::Set(p, b) => m[p as usize] = b,
        Op::SetBits(s, k, x) => set_field(m, s, k, x),
        Op::SetBlock(b, x) => set_field(m, b * nb, nb, x),
        Op::Resize(n, b) => m.resize(n as usize, b),
        Op::BlockResize(n, x) => {
            if n * nb <= m.len() as u64 {
                m.truncate((n * nb) as usize);
            } else {
                // the partial last block is completed with zeros, then whole blocks follow
                while m.len() as u64 % nb != 0 {
                    m.push(false);
                }
                while (m.len() as u64) < n * nb {
                    push_block_model(m, nb, x);
                }
            }
        }
        Op::Truncate(n) => m.truncate(n as usize),
        Op::BlockTruncate(n) => {
            if n < ceil_div(m.len() as u64, nb) {
                m.truncate((n * nb) as usize)
            }
        }
        Op::Clear => m.clear(),
        Op::Reserve(_)
        | Op::ReserveExact(_)
        | Op::BlockReserve(_)
        | Op::BlockReserveExact(_)
        | Op::Shrink
        | Op::Clone
        | Op::CloneFrom(_) => {}
        Op::New | Op::Default | Op::WithCapacity(_) | Op::BlockWithCapacity(_) => m.clear(),
        Op::WithFill(n, b) => {
            m.clear();
            m.resize(n as usize, b)
        }
        Op::BlockWithFill(n, x) => {
            m.clear();
            for _ in 0..n {
                push_block_model(m, nb, x);
            }
        }
    }
    None
}

pub fn real<B: Blk>(v: &mut BitVector<B>, op: &Op) -> Option<bool> {
    match *op {
        Op::Push(b) => v.push_bit(b),
        Op::Pop => return v.pop_bit(),
        Op::PushBlock(x) => v.push_block(B::of(x)),
        Op::Align(b) => v.align_block(b),
        Op::Set(p, b) => v.set_bit(p, b),
        Op::SetBits(s, k, x) => v.set_bits(s, k as usize, B::of(x)),
        Op::SetBlock(b, x) => v.set_block(b as usize, B::of(x)),
        Op::Resize(n, b) => v.resize(n, b),
        Op::BlockResize(n, x) => v.block_resize(n as usize, B::of(x)),
        Op::Truncate(n) => v.truncate(n),
        Op::BlockTruncate(n) => v.block_truncate(n as usize),
        Op::Clear => v.clear(),
        Op::Reserve(n) => v.reserve(n),
        Op::ReserveExact(n) => v.reserve_exact(n),
        Op::BlockReserve(n) => v.block_reserve(n as usize),
        Op::BlockReserveExact(n) => v.block_reserve_exact(n as usize),
        Op::Shrink => v.shrink_to_fit(),
        Op::Clone => {
            let w = v.clone();
            *v = w;
        }
        Op::CloneFrom(n) => {
            let mut w: BitVector<B> = BitVector::with_fill(n, true);
            w.clone_from(v);
            *v = w;
        }
        Op::New => *v = BitVector::new(),
        Op::Default => *v = Default::default(),
        Op::WithCapacity(n) => *v = BitVector::with_capacity(n),
        Op::BlockWithCapacity(n) => *v = BitVector::block_with_capacity(n as usize),
        Op::WithFill(n, b) => *v = BitVector::with_fill(n, b),
        Op::BlockWithFill(n, x) => *v = BitVector::block_with_fill(n as usize, B::of(x)),
    }
    None
}

pub fn name(op: &Op) -> &'static str {
    match op {
        Op::Push(_) => "op:push_bit",
        Op::Pop => "op:pop_bit",
        Op::PushBlock(_) => "op:push_block",
        Op::Align(_) => "op:align_block",
        Op::Set(..) => "op:set_bit",
        Op::SetBits(..) => "op:set_bits",
        Op::SetBlock(..) => "op:set_block",
        Op::Resize(..) => "op:resize",
        Op::BlockResize(..) => "op:block_resize",
        Op::Truncate(_) => "op:truncate",
        Op::BlockTruncate(_) => "op:block_truncate",
        Op::Clear => "op:clear",
        Op::Reserve(_) => "op:reserve",
        Op::ReserveExact(_) => "op:reserve_exact",
        Op::BlockReserve(_) => "op:block_reserve",
        Op::BlockReserveExact(_) => "op:block_reserve_exact",
        Op::Shrink => "op:shrink_to_fit",
        Op::Clone => "op:clone",
        Op::CloneFrom(_) => "op:clone_from",
        Op::New => "op:new",
        Op::Default => "op:default",
        Op::WithCapacity(_) => "op:with_capacity",
        Op::BlockWithCapacity(_) => "op:block_with_capacity",
        Op::WithFill(..) => "op:with_fill",
        Op::BlockWithFill(..) => "op:block_with_fill",
    }
}

pub fn random_ctor(c: &mut Case, nb: u64, max: u64) -> Op {
    let r = &mut c.rng;
    match r.below(8) {
        0 => Op::New,
        1 => Op::Default,
        2 => Op::WithCapacity(r.len(nb, max)),
        3 => Op::BlockWithCapacity(r.below(max / nb + 1)),
        4 | 5 => Op::WithFill(r.len(nb, max), r.coin()),
        _ => Op::BlockWithFill(r.below(max / nb + 1), r.value()),
    }
}

/// A random operation valid for a vector of `n` bits; `max` bounds the length reached.
pub fn random_op(c: &mut Case, nb: u64, n: u64, max: u64) -> Op {
    let r = &mut c.rng;
    loop {
        let op = match r.below(40) {
            0..=5 => Op::Push(r.coin()),
            6..=9 => Op::Pop,
            10 | 11 => Op::PushBlock(r.value()),
            12 => Op::Align(r.coin()),
            13 | 14 if n > 0 => Op::Set(r.below(n), r.coin()),
            15 if n > 0 => Op::Set(n - 1, r.coin()),
            16 | 17 => {
                let s = if r.coin() { r.below(n + 1) } else { n - r.below(n.min(nb) + 1) };
                let k = r.below(nb.min(n - s) + 1);
                Op::SetBits(s, k, r.value())
            }
            18 if n > 0 => {
                let b = ceil_div(n, nb);
                let i = if r.coin() { r.below(b) } else { b - 1 };
                Op::SetBlock(i, r.value())
            }
            19..=22 => Op::Resize(r.len(nb, max), r.coin()),
            // close to the present length
            23 | 24 => Op::Resize((n + r.below(2 * nb + 1)).saturating_sub(nb).min(max), r.coin()),
            25 => Op::BlockResize(r.below(max / nb + 1), r.value()),
            26 => Op::BlockResize(ceil_div(n, nb) + r.below(2), r.value()),
            27 | 28 => Op::Truncate(r.len(nb, max)),
            29 => Op::Truncate(n.saturating_sub(r.below(nb + 2))),
            30 => Op::BlockTruncate(r.below(ceil_div(n, nb) + 2)),
            31 if r.chance(1, 3) => Op::Clear,
            32 => Op::Reserve(r.len(nb, max)),
            33 => Op::ReserveExact(r.len(nb, max)),
            34 => Op::BlockReserve(r.below(max / nb + 2)),
            35 => Op::BlockReserveExact(r.below(max / nb + 2)),
            36 => Op::Shrink,
            37 => Op::Clone,
            38 => Op::CloneFrom(r.len(nb, 3 * nb)),
            39 if r.chance(1, 4) => return random_ctor(c, nb, max),
            _ => continue,
        };
        let grows = match op {
            Op::Push(_) => 1,
            Op::PushBlock(_) | Op::Align(_) => 2 * nb,
            Op::BlockResize(b, _) => (b * nb).saturating_sub(n),
            _ => 0,
        };
        if n + grows > max + nb {
            continue;
        }
        return op;
    }
}

impl<B: Blk> Bvh<B> {
    pub fn empty() -> Self {
        Bvh { v: BitVector::new(), m: vec![], ops: 0 }
    }
    /// Runs one operation on both; a panic on a valid operation or a different pop is a violation.
    pub fn apply(&mut self, c: &mut Case, op: &Op) -> R {
        let before = self.m.len();
        c.t(|| format!("{:?} (at {} bits)", op, before));
        c.cov(name(op));
        self.ops += 1;
        let v = &mut self.v;
        let got = attempt(|| real(v, op)).map_err(|e| Viol {
            sig: format!("{}-panic", name(op)),
            msg: format!("BitVector<{}> of {} bits: {:?} panicked: {}", B::NAME, before, op, e),
        })?;
        let want = model(&mut self.m, B::NB, op);
        ckeq!(got, want, "pop_bit", "BitVector<{}> of {} bits: result of {:?}", B::NAME, before, op);
        Ok(())
    }
    pub fn quick_check(&self, c: &mut Case) -> R {
        let n = self.m.len() as u64;
        ckeq!(self.v.bit_len(), n, "bit_len", "BitVector<{}> bit_len", B::NAME);
        ckeq!(self.v.block_len() as u64, ceil_div(n, B::NB), "block_len", "BitVector<{}> block_len of {} bits", B::NAME, n);
        c.evals += 2;
        if n > 0 {
            // every block of a short vector; otherwise the last two and three random ones
            let nbl = ceil_div(n, B::NB);
            let mut bs = vec![];
            if nbl <= 12 {
                bs.extend(0..nbl);
            } else {
                bs.extend([nbl - 1, nbl - 2, 0, c.rng.below(nbl), c.rng.below(nbl), c.rng.below(nbl)]);
            }
            for b in bs {
                c.evals += 1;
                let live = (n - b * B::NB).min(B::NB);
                let got = self.v.get_block(b as usize).u();
                let want = field(&self.m, b * B::NB, live);
                ckeq!(got & mask(live), want, "content", "BitVector<{}> of {} bits: block {}", B::NAME, n, b);
                ck!(got & !mask(live) == 0, "tail-not-zero", "BitVector<{}> of {} bits: unused bits of block {} are {:#x}", B::NAME, n, b, got);
            }
            let p = c.rng.below(n);
            ckeq!(self.v.get_bit(p), self.m[p as usize], "content", "BitVector<{}> of {} bits: bit {}", B::NAME, n, p);
        }
        Ok(())
    }
    pub fn full_check(&self, c: &mut Case) -> R {
        check_all(c, &self.v, &self.m, B::NAME, true, 30)
    }
}

/// Brings a vector to exactly these contents through some randomly chosen route.
pub fn build_to<B: Blk>(c: &mut Case, m: &[bool]) -> Result<BitVector<B>, Viol> {
    let nb = B::NB;
    let n = m.len() as u64;
    let mut h: Bvh<B> = Bvh::empty();
    let route = c.rng.below(6);
    let sz = n.max(nb);
    match route {
        0 => {}
        1 => {
            let o = random_ctor(c, nb, sz + 2 * nb);
            h.apply(c, &o)?;
        }
        _ => {
            let o = random_ctor(c, nb, sz + 2 * nb);
            h.apply(c, &o)?;
            let k = c.rng.below(12);
            for _ in 0..k {
                let l = h.m.len() as u64;
                let o = random_op(c, nb, l, sz + 3 * nb);
                h.apply(c, &o)?;
            }
        }
    }
    // now make the contents equal
    match c.rng.below(4) {
        0 => {
            h.apply(c, &Op::Truncate(0))?;
            for &b in m {
                real(&mut h.v, &Op::Push(b));
            }
        }
        1 => {
            let b = c.rng.coin();
            h.apply(c, &Op::Resize(n, b))?;
            for (i, &b) in m.iter().enumerate() {
                real(&mut h.v, &Op::Set(i as u64, b));
            }
        }
        2 => {
            h.apply(c, &Op::Clear)?;
            for i in 0..ceil_div(n, nb) {
                // beyond the end the block has arbitrary bits, forgotten by truncate
                let live = (n - i * nb).min(nb);
                let x = field(m, i * nb, live) | (c.rng.next() & !mask(live));
                real(&mut h.v, &Op::PushBlock(x));
            }
            real(&mut h.v, &Op::Truncate(n));
        }
        _ => {
            let b = c.rng.coin();
            let e = c.rng.below(nb + 2);
            h.apply(c, &Op::WithFill(n + e, b))?;
            while h.v.bit_len() > n {
                h.v.pop_bit();
            }
            for i in 0..ceil_div(n, nb) {
                let live = (n - i * nb).min(nb);
                let x = field(m, i * nb, live) | (c.rng.next() & !mask(live));
                real(&mut h.v, &Op::SetBlock(i, x));
            }
        }
    }
    Ok(h.v)
}
