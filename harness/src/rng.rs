//! Deterministic generator (splitmix64) with boundary-biased helpers.
#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
}

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix64(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix64(seed ^ 0x9E37_79B9_7F4A_7C15) }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix64(self.s)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if a == 0 && b == u64::MAX {
            return self.next();
        }
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.below(q) < p
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// A 64-bit value biased to boundaries.
    pub fn value(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(20),
            1 => u64::MAX - self.below(20),
            2 => {
                let k = self.below(64);
                (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2)
            }
            3 => fib_near(self),
            4 => self.next(),
            5 => {
                // long runs of equal bits
                let a = self.below(64);
                let b = self.below(64);
                (u64::MAX << a) ^ (u64::MAX >> b)
            }
            _ => {
                let b = self.below(64);
                self.next() >> b
            }
        }
    }
    /// A length biased to multiples of `nb` plus or minus one, at most `max`.
    pub fn len(&mut self, nb: u64, max: u64) -> u64 {
        let x = match self.below(6) {
            0 => self.below(4),
            1 | 2 => {
                let m = self.below(max / nb + 1);
                (m * nb + self.below(3)).saturating_sub(1)
            }
            3 => {
                let cap = max.min(3 * nb);
                self.below(cap + 1)
            }
            _ => self.below(max + 1),
        };
        x.min(max)
    }
    /// Like `len`; now and then long, around a power of two up to 2^16 (not in an interpreter).
    pub fn size(&mut self, nb: u64, max: u64) -> u64 {
        if self.below(160) == 0 && !cfg!(miri) {
            let e = self.range(9, 16);
            let n = (1 << e) + self.below(5) - 2;
            if self.coin() {
                n
            } else {
                n + self.below(1 << e)
            }
        } else {
            self.len(nb, max)
        }
    }
    /// A bound on lengths out of `of`; now and then far above all of them.
    pub fn bound(&mut self, of: &[u64]) -> u64 {
        if self.below(160) == 0 && !cfg!(miri) {
            (1 << self.range(10, 16)) + 64
        } else {
            self.pick(of)
        }
    }
}

fn fib_near(r: &mut Rng) -> u64 {
    let n = r.below(92);
    let (mut a, mut b) = (1u64, 1u64);
    for _ in 0..n {
        let c = a.wrapping_add(b);
        a = b;
        b = c;
    }
    b.wrapping_add(r.below(3)).wrapping_sub(1)
}
