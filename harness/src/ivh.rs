//! Histories of an `IntVector<B>` run in lock step with a plain list of integers.
use crate::run::{attempt, Case, Viol, R};
use crate::{bits::*, ck, ckeq, mask, Blk};
use succinct::{BitVec, BitVecMut, IntVec, IntVecMut, IntVector};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Push(u64),
    Pop,
    Set(u64, u64),
    /// bit offset, element width, element index, value
    SetRandom(u64, u64, u64, u64),
    SetBlock(u64, u64),
    SetBit(u64, bool),
    SetBits(u64, u64, u64),
    Resize(u64, u64),
    BlockResize(u64, u64),
    Truncate(u64),
    BlockTruncate(u64),
    Clear,
    Reserve(u64),
    ReserveExact(u64),
    BlockReserve(u64),
    BlockReserveExact(u64),
    Shrink,
    Clone,
    CloneFrom(u64),
    New,
    WithCapacity(u64),
    BlockWithCapacity(u64),
    WithFill(u64, u64),
    BlockWithFill(u64, u64),
}

pub fn name(op: &Op) -> &'static str {
    match op {
        Op::Push(_) => "op:push",
        Op::Pop => "op:pop",
        Op::Set(..) => "op:set",
        Op::SetRandom(..) => "op:set_random",
        Op::SetBlock(..) => "op:set_block",
        Op::SetBit(..) => "op:set_bit",
        Op::SetBits(..) => "op:set_bits",
        Op::Resize(..) => "op:resize",
        Op::BlockResize(..) => "op:block_resize",
        Op::Truncate(_) => "op:truncate",
        Op::BlockTruncate(_) => "op:block_truncate",
        Op::Clear => "op:clear",
        Op::Reserve(_) => "op:reserve",
        Op::ReserveExact(_) => "op:reserve_exact",
        Op::BlockReserve(_) => "op:block_reserve",
        Op::BlockReserveExact(_) => "op:block_reserve_exact",
        Op::Shrink => "op:shrink_to_fit",
        Op::Clone => "op:clone",
        Op::CloneFrom(_) => "op:clone_from",
        Op::New => "op:new",
        Op::WithCapacity(_) => "op:with_capacity",
        Op::BlockWithCapacity(_) => "op:block_with_capacity",
        Op::WithFill(..) => "op:with_fill",
        Op::BlockWithFill(..) => "op:block_with_fill",
    }
}

/// The elements, as a list of their bits laid end to end (element 0 first, low bit first).
#[derive(Clone, Debug)]
pub struct Model {
    pub k: u64,
    pub nb: u64,
    pub bits: Vec<bool>,
}

impl Model {
    pub fn new(k: u64, nb: u64) -> Self {
        Model { k, nb, bits: vec![] }
    }
    pub fn len(&self) -> u64 {
        self.bits.len() as u64 / self.k
    }
    pub fn get(&self, i: u64) -> u64 {
        field(&self.bits, i * self.k, self.k)
    }
    pub fn push(&mut self, x: u64) {
        for i in 0..self.k {
            self.bits.push((x >> i) & 1 == 1);
        }
    }
    /// To `b` whole blocks of raw bits, keeping as many whole elements as fit.
    fn whole_blocks(&mut self, b: u64, fill: u64) {
        let nb = self.nb;
        if b * nb <= self.bits.len() as u64 {
            self.bits.truncate((b * nb) as usize);
        } else {
            while self.bits.len() as u64 % nb != 0 {
                self.bits.push(false);
            }
            while (self.bits.len() as u64) < b * nb {
                for i in 0..nb {
                    self.bits.push((fill >> i) & 1 == 1);
                }
            }
        }
        let n = b * nb / self.k;
        self.bits.truncate((n * self.k) as usize);
    }
    pub fn apply(&mut self, op: &Op) -> Option<u64> {
        let k = self.k;
        match *op {
            Op::Push(x) => self.push(x),
            Op::Pop => {
                if self.bits.is_empty() {
                    return None;
                }
                let x = self.get(self.len() - 1);
                let n = self.bits.len() - k as usize;
                self.bits.truncate(n);
                return Some(x);
            }
            Op::Set(i, x) => set_field(&mut self.bits, i * k, k, x),
            Op::SetRandom(o, w, i, x) => set_field(&mut self.bits, o + w * i, w, x),
            Op::SetBlock(b, x) => {
                let nb = self.nb;
                set_field(&mut self.bits, b * nb, nb, x)
            }
            Op::SetBit(p, b) => self.bits[p as usize] = b,
            Op::SetBits(s, w, x) => set_field(&mut self.bits, s, w, x),
            Op::Resize(n, x) => {
                self.bits.truncate((n * k) as usize);
                while self.len() < n {
                    self.push(x);
                }
            }
            Op::BlockResize(b, x) => self.whole_blocks(b, x),
            Op::Truncate(n) => self.bits.truncate((n * k) as usize),
            Op::BlockTruncate(b) => {
                if b < ceil_div(self.bits.len() as u64, self.nb) {
                    self.whole_blocks(b, 0)
                }
            }
            Op::Clear | Op::New | Op::WithCapacity(_) | Op::BlockWithCapacity(_) => self.bits.clear(),
            Op::Reserve(_)
            | Op::ReserveExact(_)
            | Op::BlockReserve(_)
            | Op::BlockReserveExact(_)
            | Op::Shrink
            | Op::Clone
            | Op::CloneFrom(_) => {}
            Op::WithFill(n, x) => {
                self.bits.clear();
                for _ in 0..n {
                    self.push(x);
                }
            }
            Op::BlockWithFill(b, x) => {
                self.bits.clear();
                self.whole_blocks(b, x)
            }
        }
        None
    }
}

pub fn real<B: Blk>(v: &mut IntVector<B>, op: &Op) -> Option<u64> {
    let k = v.element_bits();
    match *op {
        Op::Push(x) => v.push(B::of(x)),
        Op::Pop => return v.pop().map(|x| x.u()),
        Op::Set(i, x) => v.set(i, B::of(x)),
        Op::SetRandom(o, w, i, x) => v.set_random(o, w as usize, i, B::of(x)),
        Op::SetBlock(b, x) => v.set_block(b as usize, B::of(x)),
        Op::SetBit(p, b) => v.set_bit(p, b),
        Op::SetBits(s, w, x) => v.set_bits(s, w as usize, B::of(x)),
        Op::Resize(n, x) => v.resize(n, B::of(x)),
        Op::BlockResize(b, x) => v.block_resize(b as usize, B::of(x)),
        Op::Truncate(n) => v.truncate(n),
        Op::BlockTruncate(b) => v.block_truncate(b as usize),
        Op::Clear => v.clear(),
        Op::Reserve(n) => v.reserve(n),
        Op::ReserveExact(n) => v.reserve_exact(n),
        Op::BlockReserve(n) => v.block_reserve(n as usize),
        Op::BlockReserveExact(n) => v.block_reserve_exact(n as usize),
        Op::Shrink => v.shrink_to_fit(),
        Op::Clone => {
            let w = v.clone();
            *v = w;
        }
        Op::CloneFrom(n) => {
            let mut w: IntVector<B> = IntVector::with_fill(k, n, B::of(1));
            w.clone_from(v);
            *v = w;
        }
        Op::New => *v = IntVector::new(k),
        Op::WithCapacity(n) => *v = IntVector::with_capacity(k, n),
        Op::BlockWithCapacity(b) => *v = IntVector::block_with_capacity(k, b as usize),
        Op::WithFill(n, x) => *v = IntVector::with_fill(k, n, B::of(x)),
        Op::BlockWithFill(b, x) => *v = IntVector::block_with_fill(k, b as usize, B::of(x)),
    }
    None
}

pub fn elem(c: &mut Case, k: u64) -> u64 {
    match c.rng.below(4) {
        0 => mask(k),
        1 => 0,
        _ => c.rng.value() & mask(k),
    }
}

pub fn random_ctor(c: &mut Case, k: u64, nb: u64, max: u64) -> Op {
    let x = elem(c, k);
    let r = &mut c.rng;
    let n = r.len(nb, max) / k;
    match r.below(7) {
        0 => Op::New,
        1 => Op::WithCapacity(n),
        2 => Op::BlockWithCapacity(r.below(max / nb + 1)),
        3 | 4 => Op::WithFill(n, x),
        _ => Op::BlockWithFill(r.below(max / nb + 1), r.value()),
    }
}

/// A random valid operation for these contents; `max` bounds the bits reached.
pub fn random_op(c: &mut Case, m: &Model, max: u64) -> Op {
    let (k, nb, n) = (m.k, m.nb, m.len());
    let bits = m.bits.len() as u64;
    let x = elem(c, k);
    let r = &mut c.rng;
    let cap = (max / k).max(2);
    loop {
        let op = match r.below(42) {
            0..=7 => Op::Push(x),
            8..=11 => Op::Pop,
            12..=14 if n > 0 => Op::Set(r.below(n), x),
            15 if n > 0 => Op::Set(n - 1, x),
            16..=18 if bits > 0 => {
                // any width and offset whose span stays inside the elements
                let w = r.range(1, nb.min(bits));
                let p = if r.coin() { r.below(bits - w + 1) } else { bits - w - r.below((bits - w).min(nb) + 1) };
                let i = r.below(p / w + 1);
                Op::SetRandom(p - i * w, w, i, r.value() & mask(w))
            }
            19 if bits > 0 => {
                let b = ceil_div(bits, nb);
                Op::SetBlock(if r.coin() { r.below(b) } else { b - 1 }, r.value())
            }
            20 if bits > 0 => Op::SetBit(r.below(bits), r.coin()),
            21 => {
                let s = r.below(bits + 1);
                Op::SetBits(s, r.below(nb.min(bits - s) + 1), r.value())
            }
            22..=24 => Op::Resize(r.below(cap + 1), x),
            25 | 26 => Op::Resize((n + r.below(2 * nb / k + 3)).saturating_sub(nb / k + 1), x),
            27 => Op::BlockResize(r.below(max / nb + 1), r.value()),
            28 => Op::BlockResize((ceil_div(bits, nb) + r.below(3)).saturating_sub(1), r.value()),
            29 => Op::Truncate(r.below(cap + 1)),
            30 => Op::Truncate(n.saturating_sub(r.below(nb / k + 3))),
            31 => Op::BlockTruncate(r.below(ceil_div(bits, nb) + 2)),
            32 if r.chance(1, 3) => Op::Clear,
            33 => Op::Reserve(r.below(cap + 1)),
            34 => Op::ReserveExact(r.below(cap + 1)),
            35 => Op::BlockReserve(r.below(max / nb + 2)),
            36 => Op::BlockReserveExact(r.below(max / nb + 2)),
            37 => Op::Shrink,
            38 => Op::Clone,
            39 => Op::CloneFrom(r.below(8)),
            40 | 41 if r.chance(1, 6) => return random_ctor(c, k, nb, max),
            _ => continue,
        };
        let ok = match op {
            Op::Push(_) => bits + k <= max + nb,
            Op::Resize(n, _) => n * k <= max + 2 * nb,
            _ => true,
        };
        if ok {
            return op;
        }
    }
}

pub struct Ivh<B: Blk> {
    pub v: IntVector<B>,
    pub m: Model,
}

impl<B: Blk> Ivh<B> {
    pub fn new(k: u64) -> Self {
        Ivh { v: IntVector::new(k as usize), m: Model::new(k, B::NB) }
    }
    pub fn who(&self) -> String {
        format!("IntVector<{}>({} bits each, {} elements)", B::NAME, self.m.k, self.m.len())
    }
    pub fn apply(&mut self, c: &mut Case, op: &Op) -> R {
        let who = self.who();
        c.t(|| format!("{:?} on {}", op, who));
        c.cov(name(op));
        let v = &mut self.v;
        let got = attempt(|| real(v, op))
            .map_err(|e| Viol { sig: format!("{}-panic", name(op)), msg: format!("{}: {:?} panicked: {}", who, op, e) })?;
        let want = self.m.apply(op);
        ckeq!(got, want, "pop", "{}: result of {:?}", who, op);
        Ok(())
    }
    fn one(&self, c: &mut Case, i: u64) -> R {
        c.evals += 1;
        let got = attempt(|| self.v.get(i))
            .map_err(|e| Viol { sig: "get-panic".into(), msg: format!("{}: get({}) panicked: {}", self.who(), i, e) })?;
        ckeq!(got.u(), self.m.get(i), "element", "{}: element {}", self.who(), i);
        Ok(())
    }
    pub fn quick_check(&self, c: &mut Case) -> R {
        let n = self.m.len();
        c.evals += 3;
        ckeq!(self.v.len(), n, "len", "{}: len", self.who());
        ckeq!(self.v.is_empty(), n == 0, "is_empty", "{}: is_empty", self.who());
        ckeq!(self.v.element_bits() as u64, self.m.k, "element_bits", "{}: element_bits", self.who());
        ckeq!((self.v.is_block_sized(), self.v.is_aligned()), (self.m.k == B::NB, B::NB % self.m.k == 0), "alignment", "{}: (is_block_sized, is_aligned)", self.who());
        if n > 0 {
            if n <= 24 {
                for i in 0..n {
                    self.one(c, i)?;
                }
            } else {
                for i in [0, n - 1, n - 2, c.rng.below(n), c.rng.below(n), c.rng.below(n)] {
                    self.one(c, i)?;
                }
            }
        }
        Ok(())
    }
    pub fn full_check(&self, c: &mut Case) -> R {
        self.quick_check(c)?;
        let n = self.m.len();
        let ps = positions(&mut c.rng, n, B::NB, 300, 60);
        for i in ps {
            self.one(c, i)?;
        }
        // elements at arbitrary width and offset
        let bits = self.m.bits.len() as u64;
        if bits > 0 {
            for _ in 0..12 {
                let w = c.rng.range(1, B::NB.min(bits));
                let p = c.rng.below(bits - w + 1);
                let i = c.rng.below(p / w + 1);
                let o = p - i * w;
                c.evals += 1;
                let got = attempt(|| self.v.get_random(o, w as usize, i)).map_err(|e| Viol {
                    sig: "get_random-panic".into(),
                    msg: format!("{}: get_random({}, {}, {}) panicked: {}", self.who(), o, w, i, e),
                })?;
                ckeq!(got.u(), field(&self.m.bits, p, w), "get_random", "{}: get_random({}, {}, {})", self.who(), o, w, i);
            }
        }
        // the same bits through the bit-vector view
        let who = self.who();
        ck!(self.v.bit_len() == bits, "bit_len", "{}: bit_len {} expected {}", who, self.v.bit_len(), bits);
        check_all(c, &self.v, &self.m.bits, &who, true, 12)
    }
}

/// An element width for block type of nb bits.
pub fn width(c: &mut Case, nb: u64) -> u64 {
    match c.rng.below(6) {
        0 => nb,
        1 => nb - 1,
        2 => 1,
        3 => {
            let p = c.rng.below(nb.trailing_zeros() as u64 + 1);
            1 << p
        }
        _ => c.rng.range(1, nb),
    }
}

/// Brings a vector of width k to exactly these elements through a random route.
pub fn build_to<B: Blk>(c: &mut Case, k: u64, want: &[u64]) -> Result<IntVector<B>, Viol> {
    let nb = B::NB;
    let mut h: Ivh<B> = Ivh::new(k);
    let n = want.len() as u64;
    let max = n * k + 2 * nb;
    let o = random_ctor(c, k, nb, max);
    h.apply(c, &o)?;
    for _ in 0..c.rng.below(12) {
        let o = random_op(c, &h.m, max);
        h.apply(c, &o)?;
    }
    match c.rng.below(3) {
        0 => {
            h.apply(c, &Op::Truncate(0))?;
            for &x in want {
                h.v.push(B::of(x));
            }
        }
        1 => {
            let x = elem(c, k);
            h.apply(c, &Op::Resize(n, x))?;
            for (i, &x) in want.iter().enumerate() {
                h.v.set(i as u64, B::of(x));
            }
        }
        _ => {
            let x = elem(c, k);
            let extra = c.rng.below(nb / k + 3);
            h.apply(c, &Op::WithFill(n + extra, x))?;
            for i in (0..want.len()).rev() {
                h.v.set(i as u64, B::of(want[i]));
            }
            for _ in 0..extra {
                h.v.pop();
            }
        }
    }
    Ok(h.v)
}
