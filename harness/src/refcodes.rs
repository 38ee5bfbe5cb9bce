//! Reference codes: written from the published definitions, over u128, sharing nothing with the crate.
use crate::Rng;
use succinct::coding::*;
use succinct::stream::{BitRead, BitWrite};

/// A user-supplied code: a fixed number of bits, most significant first.
pub struct Fixed(pub usize);

impl UniversalCode for Fixed {
    fn encode<W: BitWrite>(&self, sink: &mut W, value: u64) -> std::io::Result<()> {
        if self.0 < 64 && value >> self.0 != 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Fixed: too wide"));
        }
        for i in (0..self.0).rev() {
            sink.write_bit((value >> i) & 1 == 1)?;
        }
        Ok(())
    }
    fn decode<R: BitRead>(&self, source: &mut R) -> std::io::Result<Option<u64>> {
        let mut x = 0u64;
        for i in 0..self.0 {
            match source.read_bit()? {
                Some(b) => x = (x << 1) | b as u64,
                None if i == 0 => return Ok(None),
                None => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "Fixed: cut short")),
            }
        }
        Ok(Some(x))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Code {
    Unary,
    Omega,
    Fib,
    Comma(u8),
    Fixed(usize),
    Lift(Box<Code>),
    Elias(Box<Code>),
}

pub fn lift(c: Code) -> Code {
    Code::Lift(Box::new(c))
}
pub fn elias(c: Code) -> Code {
    Code::Elias(Box::new(c))
}
pub fn gamma() -> Code {
    elias(Code::Unary)
}
pub fn delta() -> Code {
    elias(lift(gamma()))
}

/// Every code exercised against the crate: index, reference, crate value.
macro_rules! codes {
    ($( $i:literal => $r:expr, $real:expr; )*) => {
        pub const NCODES: usize = [$($i),*].len();
        pub fn reference(i: usize) -> Code {
            match i { $( $i => $r, )* _ => unreachable!() }
        }
        pub fn encode<W: BitWrite>(i: usize, w: &mut W, v: u64) -> std::io::Result<()> {
            match i { $( $i => $real.encode(w, v), )* _ => unreachable!() }
        }
        pub fn decode<R: BitRead>(i: usize, r: &mut R) -> std::io::Result<Option<u64>> {
            match i { $( $i => $real.decode(r), )* _ => unreachable!() }
        }
        pub fn code_name(i: usize) -> &'static str {
            match i { $( $i => stringify!($real), )* _ => unreachable!() }
        }
    };
}
codes! {
    0 => Code::Unary, Unary;
    1 => gamma(), GAMMA;
    2 => delta(), DELTA;
    3 => Code::Omega, Omega;
    4 => Code::Fib, Fibonacci;
    5 => Code::Comma(2), COMMA;
    6 => Code::Comma(3), Comma(3);
    7 => Code::Comma(8), Comma(8);
    8 => Code::Comma(33), Comma(33);
    9 => Code::Comma(63), Comma(63);
    10 => lift(gamma()), Lift0(GAMMA);
    11 => lift(delta()), Lift0(DELTA);
    12 => lift(Code::Omega), Lift0(Omega);
    13 => lift(Code::Fib), Lift0(Fibonacci);
    14 => lift(Code::Unary), Lift0(Unary);
    15 => lift(Code::Comma(2)), Lift0(COMMA);
    16 => elias(Code::Comma(2)), Elias(COMMA);
    17 => elias(lift(delta())), Elias(Lift0(DELTA));
    18 => elias(lift(Code::Omega)), Elias(Lift0(Omega));
    19 => elias(lift(Code::Fib)), Elias(Lift0(Fibonacci));
    20 => elias(Code::Fixed(6)), Elias(Fixed(6));
    21 => lift(lift(gamma())), Lift0(Lift0(GAMMA));
    22 => elias(gamma()), Elias(GAMMA);
    23 => Code::Comma(4), Comma(4);
    24 => lift(Code::Fixed(64)), Lift0(Fixed(64));
    25 => Code::Comma(32), Comma(32);
    26 => elias(Code::Omega), Elias(Omega);
    27 => Code::Comma(5), Comma(5);
}

/// F(2) = 1, F(3) = 2, 3, 5, ... as u128, as far as they go below 2^120.
pub fn fibs() -> Vec<u128> {
    let mut v = vec![1u128, 2];
    while *v.last().unwrap() < 1 << 120 {
        let n = v.len();
        v.push(v[n - 1] + v[n - 2]);
    }
    v
}

fn lg(v: u128) -> u32 {
    // floor of log2
    let mut n = 0;
    let mut x = v;
    while x > 1 {
        x /= 2;
        n += 1;
    }
    n
}

impl Code {
    pub fn unary_like(&self) -> bool {
        match self {
            Code::Unary => true,
            Code::Lift(c) => c.unary_like(),
            _ => false,
        }
    }

    /// The published code word of `v`, or None where the code is not defined.
    pub fn word(&self, v: u128) -> Option<Vec<bool>> {
        match self {
            Code::Unary => {
                let mut w = vec![false; v as usize];
                w.push(true);
                Some(w)
            }
            Code::Fixed(n) => {
                if v >> n != 0 {
                    return None;
                }
                Some((0..*n).rev().map(|i| (v >> i) & 1 == 1).collect())
            }
            Code::Lift(c) => c.word(v + 1),
            Code::Elias(h) => {
                if v == 0 {
                    return None;
                }
                let n = lg(v);
                let mut w = h.word(n as u128)?;
                for i in 0..n {
                    w.push((v >> i) & 1 == 1);
                }
                Some(w)
            }
            Code::Omega => {
                if v == 0 {
                    return None;
                }
                let mut w = vec![false];
                let mut x = v;
                while x > 1 {
                    let n = lg(x) + 1;
                    let mut g: Vec<bool> = (0..n).rev().map(|i| (x >> i) & 1 == 1).collect();
                    g.extend(w);
                    w = g;
                    x = n as u128 - 1;
                }
                Some(w)
            }
            Code::Fib => {
                if v == 0 {
                    return None;
                }
                let f = fibs();
                let mut x = v;
                let mut top = 0;
                while top + 1 < f.len() && f[top + 1] <= x {
                    top += 1;
                }
                let mut w = vec![false; top + 2];
                for i in (0..=top).rev() {
                    if f[i] <= x {
                        x -= f[i];
                        w[i] = true;
                    }
                }
                w[top + 1] = true;
                Some(w)
            }
            Code::Comma(n) => {
                let base = (1u128 << n) - 1;
                let mut ds = vec![];
                let mut x = v;
                while x > 0 {
                    ds.push(x % base);
                    x /= base;
                }
                ds.reverse();
                ds.push(base);
                let mut w = vec![];
                for d in ds {
                    for i in 0..*n {
                        w.push((d >> i) & 1 == 1);
                    }
                }
                Some(w)
            }
        }
    }

    /// Values the crate may legitimately refuse with an error although they fit 64 bits.
    /// (The Fibonacci coder documents that it gives up early.)
    pub fn may_refuse(&self, v: u128) -> bool {
        match self {
            Code::Fib => v >= 12_200_160_415_121_876_738,
            Code::Lift(c) => v + 1 > u64::MAX as u128 || c.may_refuse(v + 1),
            Code::Elias(h) => v > 0 && h.may_refuse(lg(v) as u128),
            _ => false,
        }
    }
}

/// What a bit string denotes at its start.
#[derive(Clone, Debug, PartialEq)]
pub enum Den {
    /// value and bits consumed
    Val(u128, usize),
    Clean,
    Cut,
    /// too large for 64 bits (or not a code word at all): any error will do
    Bad,
    /// a code word that fits but the code may give up on: the value or an error
    ValOrErr(u128, usize),
}

const BIG: u128 = 1 << 64;

impl Code {
    pub fn denote(&self, s: &[bool]) -> Den {
        match self {
            Code::Unary => match s.iter().position(|&b| b) {
                Some(n) => Den::Val(n as u128, n + 1),
                None if s.is_empty() => Den::Clean,
                None => Den::Cut,
            },
            Code::Fixed(n) => {
                if s.is_empty() && *n > 0 {
                    Den::Clean
                } else if s.len() < *n {
                    Den::Cut
                } else {
                    Den::Val(s[..*n].iter().fold(0, |a, &b| a * 2 + b as u128), *n)
                }
            }
            Code::Lift(c) => match c.denote(s) {
                Den::Val(0, _) | Den::ValOrErr(0, _) => Den::Bad,
                Den::Val(v, k) => Den::Val(v - 1, k),
                Den::ValOrErr(v, k) => Den::ValOrErr(v - 1, k),
                d => d,
            },
            Code::Elias(h) => match h.denote(s) {
                Den::Val(n, k) => {
                    if n > 63 {
                        return Den::Bad;
                    }
                    let n = n as usize;
                    if s.len() < k + n {
                        return Den::Cut;
                    }
                    let mut v = 1u128 << n;
                    for i in 0..n {
                        if s[k + i] {
                            v |= 1 << i;
                        }
                    }
                    Den::Val(v, k + n)
                }
                Den::ValOrErr(..) => Den::Bad,
                d => d,
            },
            Code::Omega => {
                if s.is_empty() {
                    return Den::Clean;
                }
                let mut n: u128 = 1;
                let mut p = 0;
                loop {
                    if p >= s.len() {
                        return Den::Cut;
                    }
                    if !s[p] {
                        return Den::Val(n, p + 1);
                    }
                    // a group of n + 1 bits starting here
                    if n > 63 {
                        return Den::Bad;
                    }
                    let w = n as usize + 1;
                    if p + w > s.len() {
                        return Den::Cut;
                    }
                    n = s[p..p + w].iter().fold(0, |a, &b| a * 2 + b as u128);
                    p += w;
                }
            }
            Code::Fib => {
                let f = fibs();
                let mut v = 0u128;
                let mut prev = false;
                for (i, &b) in s.iter().enumerate() {
                    if b && prev {
                        return if v >= BIG {
                            Den::Bad
                        } else if v >= 12_200_160_415_121_876_738 {
                            Den::ValOrErr(v, i + 1)
                        } else {
                            Den::Val(v, i + 1)
                        };
                    }
                    if i >= 92 {
                        // every continuation is at least F(94): beyond 64 bits or given up on
                        if b {
                            if i >= 94 || v + f[i] >= BIG {
                                return Den::Bad;
                            }
                        } else {
                            return Den::Bad;
                        }
                    }
                    if b {
                        v += f[i];
                    }
                    prev = b;
                }
                if s.is_empty() {
                    Den::Clean
                } else if s.len() >= 92 || (s.len() == 91 && !prev) {
                    // whatever follows, the number is at least F(93): beyond 64 bits or given up on
                    Den::Bad
                } else {
                    Den::Cut
                }
            }
            Code::Comma(n) => {
                let w = *n as usize;
                let base = (1u128 << n) - 1;
                if s.is_empty() {
                    return Den::Clean;
                }
                let mut v = 0u128;
                let mut p = 0;
                loop {
                    if p + w > s.len() {
                        return Den::Cut;
                    }
                    let d = (0..w).fold(0u128, |a, i| a | (s[p + i] as u128) << i);
                    p += w;
                    if d == base {
                        return Den::Val(v, p);
                    }
                    v = v * base + d;
                    if v >= BIG {
                        return Den::Bad;
                    }
                }
            }
        }
    }
}

/// A value for code i, biased to its boundaries and small enough to write out.
pub fn value_for(r: &mut Rng, i: usize) -> u64 {
    let c = reference(i);
    if c.unary_like() {
        return match r.below(6) {
            0 => r.below(3),
            1 => r.below(20),
            2 => r.below(300),
            3 => 63 + r.below(3),
            4 if r.chance(1, 20) => r.below(70_000),
            _ => r.below(80),
        };
    }
    if let Code::Comma(n) = c {
        if r.chance(1, 3) {
            // powers of the base
            let base = (1u128 << n) - 1;
            let mut x = 1u128;
            let k = r.below(64 / n as u64 + 1);
            for _ in 0..k {
                x *= base;
            }
            let y = (x * r.range(1, 4) as u128 + r.below(3) as u128).saturating_sub(1);
            if y < BIG {
                return y as u64;
            }
        }
    }
    r.value()
}
