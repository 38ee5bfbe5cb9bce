//! C26: printed forms render exactly the contents.
use mon::{bits, bvh, ck, ckeq, ivh, must, wl, wl_fixed, with_blk, Blk, Case, Workload, R};
use std::fmt::{self, Write};
use succinct::{BitVecPush, BitVector, IntVector};

fn show(m: &[bool]) -> String {
    m.iter().map(|&b| if b { '1' } else { '0' }).collect()
}

/// A writer that fails at a point, and remembers what it got.
struct Short {
    got: String,
    room: usize,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn binary<B: Blk>(c: &mut Case, v: &BitVector<B>, m: &[bool]) -> R {
    let want = show(m);
    let n = m.len();
    c.evals += n as u64 + 1;
    let got = must("binary-panic", &|| format!("{{:b}} of {} bits in {}", n, B::NAME), || format!("{:b}", v))?;
    if got != want {
        let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        ck!(false, "binary", "{{:b}} of {} bits in {} differs at {}: {} characters, got ...{:?}, expected ...{:?}", n, B::NAME, at, got.len(), &got[at..(at + 20).min(got.len())], &want[at..(at + 20).min(want.len())]);
    }
    // in the middle of something else
    let got = format!("<{:b}|{:b}>", v, v);
    ckeq!(got, format!("<{}|{}>", want, want), "binary", "{{:b}} of {} bits twice in a text", n);
    // asking for a width, a precision, a sign or a prefix changes no digit
    let p = c.rng.below((n as u64 + 2).min(2000)) as usize;
    let (how, got) = match c.rng.below(7) {
        0 => ("{:.*b}", format!("{:.*b}", p, v)),
        1 => ("{:#b}", format!("{:#b}", v)),
        2 => ("{:+b}", format!("{:+b}", v)),
        3 => ("{:0w$b}", format!("{:0w$b}", v, w = p)),
        4 => ("{:*>w$b}", format!("{:*>w$b}", v, w = n.min(30_000) + p)),
        5 => ("{:_^w$.q$b}", format!("{:_^w$.q$b}", v, w = p, q = p / 2)),
        _ => ("{:<w$b}", format!("{:<w$b}", v, w = n.min(30_000) + 3)),
    };
    c.evals += 1;
    c.cov("flags on {:b}");
    ckeq!(got, want.clone(), "binary-flags", "{} (with {}) of {} bits", how, p, n);
    if n > 0 {
        // a failing writer's error comes back, after a prefix
        let room = c.rng.below(n as u64) as usize;
        let mut w = Short { got: String::new(), room };
        let r = write!(w, "{:b}", v);
        ck!(r.is_err(), "binary-error", "{{:b}} of {} bits into a writer with room for {}: reported success", n, room);
        ck!(want.starts_with(&w.got), "binary-error", "{{:b}} of {} bits into a failing writer: wrote {:?}", n, w.got);
        c.evals += 2;
    }
    Ok(())
}
fn binary_t<B: Blk>(c: &mut Case) -> R {
    let n = match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => c.rng.below(3 * B::NB + 3),
        2 => c.rng.below(12) * B::NB,
        _ => c.rng.below(2000),
    };
    binary_n::<B>(c, n)
}
fn binary_n<B: Blk>(c: &mut Case, n: u64) -> R {
    let m = bits::pattern(&mut c.rng, n, B::NB);
    mon::fp_bits(c, &m);
    c.t(|| format!("{} bits of {}: {}", n, B::NAME, show(&m[..m.len().min(60)])));
    let v: BitVector<B> = bvh::build_to(c, &m)?;
    binary(c, &v, &m)
}
fn bit_vectors(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, binary_t, c)
}
/// Every vector of up to ten bits.
fn short_t<B: Blk>(c: &mut Case) -> R {
    for n in 0..=10u64 {
        for x in 0..1u64 << n {
            let m: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
            let mut v: BitVector<B> = BitVector::new();
            for &b in &m {
                v.push_bit(b)
            }
            binary(c, &v, &m)?;
        }
    }
    Ok(())
}
fn short(c: &mut Case) -> R {
    c.mix(c.index);
    c.nontrivial = true;
    with_blk!(c.index, short_t, c)
}

/// The numbers in a text, in order.
fn numbers(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut run = false;
    for ch in s.chars() {
        if ch.is_ascii_digit() {
            if run {
                v.last_mut().unwrap().push(ch);
            } else {
                v.push(ch.to_string());
            }
            run = true;
        } else {
            run = false;
        }
    }
    v
}
fn debug<B: Blk>(c: &mut Case, v: &IntVector<B>, k: u64, vals: &[u64]) -> R {
    let n = vals.len();
    let got = must("debug-panic", &|| format!("{{:?}} of {} elements of {} bits in {}", n, k, B::NAME), || format!("{:?}", v))?;
    let nums = numbers(&got);
    c.evals += n as u64 + 1;
    ck!(nums.len() == n + 1, "debug", "{{:?}} of {} elements of {} bits shows {} numbers: {:.200}", n, k, nums.len(), got);
    ckeq!(nums[0].clone(), k.to_string(), "debug-width", "{{:?}} of {} elements of {} bits: width", n, k);
    for (i, x) in vals.iter().enumerate() {
        ck!(nums[i + 1] == x.to_string(), "debug", "{{:?}} of {} elements of {} bits in {}: element {} is shown as {}, it is {}", n, k, B::NAME, i, nums[i + 1], x);
    }
    // nothing else that could be taken for contents
    ck!(!got.contains('-'), "debug", "{{:?}} of {} elements of {} bits shows a sign: {:.200}", n, k, got);
    // as part of something else
    let pair = format!("{:?}", (v, 7u8));
    let nums2 = numbers(&pair);
    ck!(nums2.len() == n + 2 && nums2[..n + 1] == nums[..] && nums2[n + 1] == "7", "debug", "{{:?}} inside a tuple: {:.200}", pair);
    // with flags, the elements are the same numbers
    let p = c.rng.below(8) as usize;
    let (how, flagged) = match c.rng.below(7) {
        0 => ("{:#?}", format!("{:#?}", v)),
        1 => ("{:x?}", format!("{:x?}", v)),
        2 => ("{:X?}", format!("{:X?}", v)),
        3 => ("{:.*?}", format!("{:.*?}", p, v)),
        4 => ("{:w$?}", format!("{:w$?}", v, w = p)),
        5 => ("{:*<w$?}", format!("{:*<w$?}", v, w = p)),
        _ => ("{:w$.q$?}", format!("{:w$.q$?}", v, w = 3 * p, q = p / 2)),
    };
    c.cov("flags on {:?}");
    ckeq!(numbers(&flagged), nums.clone(), "debug-flags", "{} (with {}) of {} elements of {} bits", how, p, n, k);
    // a failing writer's error comes back, after a prefix
    let room = c.rng.below(got.len() as u64) as usize;
    let mut w = Short { got: String::new(), room };
    let r = write!(w, "{:?}", v);
    ck!(r.is_err(), "debug-error", "{{:?}} of {} elements into a writer with room for {} of {}: reported success", n, room, got.len());
    ck!(got.starts_with(&w.got), "debug-error", "{{:?}} of {} elements into a failing writer: wrote {:?}", n, w.got);
    c.evals += 4;
    Ok(())
}
fn ints_t<B: Blk>(c: &mut Case) -> R {
    let nb = B::NB;
    let k = ivh::width(c, nb);
    let n = match c.rng.below(3) {
        0 => c.rng.below(4),
        1 => c.rng.below(2 * nb / k + 4),
        _ => c.rng.below(300),
    };
    ints_n::<B>(c, k, n)
}
fn ints_n<B: Blk>(c: &mut Case, k: u64, n: u64) -> R {
    let vals: Vec<u64> = (0..n).map(|_| ivh::elem(c, k)).collect();
    c.mix(k);
    for &x in &vals {
        c.mix(x);
    }
    c.t(|| format!("{} elements of {} bits in {}: {:?}", n, k, B::NAME, &vals[..vals.len().min(6)]));
    let v: IntVector<B> = ivh::build_to(c, k, &vals)?;
    debug(c, &v, k, &vals)
}
fn int_vectors(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, ints_t, c)
}
/// Long vectors, around every power of two up to 2^18.
fn long_t<B: Blk>(c: &mut Case) -> R {
    let e = c.rng.range(10, 18);
    let n = ((1u64 << e) + c.rng.below(5)).saturating_sub(2) + if c.rng.coin() { c.rng.below(1 << e) } else { 0 };
    if c.rng.coin() {
        c.cov("long bit vectors printed");
        binary_n::<B>(c, n)
    } else {
        let k = ivh::width(c, B::NB);
        c.cov("long integer vectors printed");
        ints_n::<B>(c, k, n.min(70_000))
    }
}
fn long(c: &mut Case) -> R {
    let k = c.rng.next();
    c.mix(k % 5);
    c.nontrivial = true;
    with_blk!(k, long_t, c)
}
/// Every width, a few lengths.
fn widths_t<B: Blk>(c: &mut Case, k: u64) -> R {
    for n in (0..40u64).chain([64, 65, 127, 128, 200]) {
        let vals: Vec<u64> = (0..n)
            .map(|i| match i % 4 {
                0 => mon::mask(k),
                1 => 0,
                2 => 1u64 << (k - 1),
                _ => c.rng.next() & mon::mask(k),
            })
            .collect();
        let mut v: IntVector<B> = IntVector::new(k as usize);
        for &x in &vals {
            v.push(B::of(x));
        }
        debug(c, &v, k, &vals)?;
    }
    Ok(())
}
fn widths(c: &mut Case) -> R {
    let t = c.index % 5;
    let k = c.index / 5 + 1;
    let nb = [8, 16, 32, 64, usize::BITS as u64][t as usize];
    c.mix(c.index);
    if k > nb {
        return Ok(());
    }
    c.nontrivial = true;
    with_blk!(t, widths_t, c, k)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("bit_vectors", 10_000, 400_000, bit_vectors),
        wl_fixed("short", 5, short),
        wl("long", 400, 10_000, long),
        wl("int_vectors", 10_000, 300_000, int_vectors),
        wl_fixed("widths", 320, widths),
    ]
}
