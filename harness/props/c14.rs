//! C14: I/O faults surface as that error, with no panic and no false success.
use byteorder::{BigEndian, ByteOrder, LittleEndian};
use mon::refcodes::*;
use mon::streams::*;
use mon::{attempt, ck, ckeq, must, show, wl, with_blk, Blk, Case, Workload, R};
use std::cell::RefCell;
use std::io::{ErrorKind, Result as IoResult};
use std::rc::Rc;
use succinct::stream::{BitRead, BitWrite};

type AnyKind = Fault;
fn kind(c: &mut Case) -> AnyKind {
    bit_fault(&mut c.rng)
}

fn judge_write(c: &mut Case, who: &str, want: &[bool], at: usize, s: FaultSink, got: Result<IoResult<()>, String>, kind: AnyKind) -> R {
    c.evals += 1;
    let got = match got {
        Ok(r) => r,
        Err(e) => {
            ck!(false, "panic", "{} with a {:?} fault at bit {} panicked: {}", who, kind, at, e);
            unreachable!()
        }
    };
    if at >= want.len() {
        ck!(got.is_ok(), "false-failure", "{} failed although its {} bits were all accepted: {:?}", who, want.len(), got);
        ck!(s.got == want, "written", "{} wrote {}, expected {}", who, show(&s.got), show(want));
        c.cov("fault after the end of the operation");
        return Ok(());
    }
    ck!(got.is_err(), "false-success", "{} with a {:?} fault at bit {} of {} reported success", who, kind, at, want.len());
    let e = got.unwrap_err();
    ck!(is_fault(&e, kind), "other-error", "{} with a {:?} fault at bit {} returned a different error: {:?}", who, kind, at, e);
    ck!(s.after == 0, "went-on", "{} made {} more writes after a fault at bit {}", who, s.after, at);
    ck!(s.got == want[..at], "prefix", "{} wrote {} before the fault, expected {}", who, show(&s.got), show(&want[..at]));
    c.cov("faulted writes");
    Ok(())
}
fn judge_read(c: &mut Case, who: &str, needs: usize, at: usize, s: FaultSrc, got: Result<IoResult<Option<u64>>, String>, kind: AnyKind, want: u64) -> R {
    c.evals += 1;
    let got = match got {
        Ok(r) => r,
        Err(e) => {
            ck!(false, "panic", "{} with a {:?} fault at bit {} panicked: {}", who, kind, at, e);
            unreachable!()
        }
    };
    if at >= needs {
        ck!(matches!(got, Ok(Some(x)) if x == want), "false-failure", "{} gave {:?} although all its {} bits could be read (fault after bit {})", who, got, needs, at);
        ck!(s.pos == needs && !s.failed, "read-ahead", "{} read {} bits (failed: {}), needs {}", who, s.pos, s.failed, needs);
        c.cov("fault after the end of the operation");
        return Ok(());
    }
    match got {
        Ok(x) => ck!(false, "false-success", "{} with a {:?} fault at bit {} of {} gave {:?}", who, kind, at, needs, x),
        Err(e) => ck!(is_fault(&e, kind), "other-error", "{} with a {:?} fault at bit {} of {} returned a different error: {:?}", who, kind, at, needs, e),
    }
    ck!(s.after == 0, "went-on", "{} made {} more reads after a fault at bit {}", who, s.after, at);
    ckeq!(s.pos, at, "reads", "{}: bits read before the fault", who);
    c.cov("faulted reads");
    Ok(())
}

/// A fault at every bit position of one code word, encoding and decoding.
fn codes(c: &mut Case) -> R {
    let i = c.index as usize % NCODES;
    let v = value_for(&mut c.rng, i);
    let code = reference(i);
    let w = match code.word(v as u128) {
        Some(w) if !code.may_refuse(v as u128) && w.len() <= 800 => w,
        _ => return Ok(()),
    };
    c.mix(v ^ (i as u64) << 58);
    c.nontrivial = true;
    c.t(|| format!("{}({}): {}", code_name(i), v, show(&w)));
    let mut more = w.clone();
    for _ in 0..c.rng.below(20) {
        more.push(c.rng.coin());
    }
    let step = if w.len() > 200 { 7 } else { 1 };
    for at in (0..=w.len() + 1).step_by(step) {
        let k = kind(c);
        let mut s = FaultSink::new(at, k);
        let got = attempt(|| encode(i, &mut s, v));
        judge_write(c, &format!("{}.encode({})", code_name(i), v), &w, at, s, got, k)?;
        let mut s = FaultSrc::new(&more, at, k);
        let got = attempt(|| decode(i, &mut s));
        judge_read(c, &format!("{}.decode of the word of {}", code_name(i), v), w.len(), at, s, got, k, v)?;
        // the source ends here instead: unexpected end, or a clean end before the first bit
        if at < w.len() {
            let mut s = Src::new(&w[..at]);
            let got = must("panic", &|| format!("{}.decode of {} bits of the word of {}", code_name(i), at, v), || decode(i, &mut s))?;
            c.evals += 1;
            match got {
                Ok(None) if at == 0 => c.cov("clean ends"),
                Err(ref e) if at > 0 && e.kind() == ErrorKind::UnexpectedEof => c.cov("unexpected ends"),
                _ => ck!(false, "cut", "{}.decode of {} of {} bits of the word of {} gave {:?}", code_name(i), at, w.len(), v, got),
            }
        }
    }
    Ok(())
}

/// Long words: faults early, late, and around round positions.
fn deep(c: &mut Case) -> R {
    let unary: Vec<usize> = (0..NCODES).filter(|&i| reference(i).unary_like()).collect();
    let i = c.rng.pick(&unary);
    let e = c.rng.range(8, 17);
    let v = ((1u64 << e) + c.rng.below(5) - 2 + if c.rng.coin() { c.rng.below(1 << e) } else { 0 }).min(150_000);
    let w = match reference(i).word(v as u128) {
        Some(w) => w,
        _ => return Ok(()),
    };
    c.mix(v ^ (i as u64) << 58);
    c.nontrivial = true;
    c.t(|| format!("{}({}), a word of {} bits", code_name(i), v, w.len()));
    let n = w.len() as u64;
    let mut ats = vec![0, 1, n - 2, n - 1, n, n + 1];
    for _ in 0..4 {
        ats.push(c.rng.below(n));
        let k = c.rng.below(e + 1);
        ats.push(((1u64 << k) + c.rng.below(3) - 1).min(n));
    }
    for at in ats {
        let at = at as usize;
        let k = kind(c);
        let mut s = FaultSink::new(at, k);
        let got = attempt(|| encode(i, &mut s, v));
        judge_write(c, &format!("{}.encode({})", code_name(i), v), &w, at, s, got, k)?;
        let mut s = FaultSrc::new(&w, at, k);
        let got = attempt(|| decode(i, &mut s));
        judge_read(c, &format!("{}.decode of the word of {}", code_name(i), v), w.len(), at, s, got, k, v)?;
        if at < w.len() {
            let mut s = Src::new(&w[..at]);
            let got = must("panic", &|| format!("{}.decode of {} bits of the word of {}", code_name(i), at, v), || decode(i, &mut s))?;
            c.evals += 1;
            match got {
                Ok(None) if at == 0 => {}
                Err(ref e) if at > 0 && e.kind() == ErrorKind::UnexpectedEof => c.cov("unexpected ends of long words"),
                _ => ck!(false, "cut", "{}.decode of {} of {} bits of the word of {} gave {:?}", code_name(i), at, w.len(), v, got),
            }
        }
    }
    Ok(())
}

/// Faults inside arbitrary (hostile) input: the fault, or an earlier error of the decoder's own, and never a panic.
fn hostile(c: &mut Case) -> R {
    let i = c.rng.below(NCODES as u64) as usize;
    let n = c.rng.below(150);
    let q = c.rng.range(1, 8);
    let s: Vec<bool> = (0..n).map(|_| c.rng.below(q) != 0).collect();
    let at = c.rng.below(n + 1) as usize;
    mon::fp_bits(c, &s);
    c.mix(at as u64);
    c.nontrivial = true;
    let k = kind(c);
    let mut f = FaultSrc::new(&s, at, k);
    let got = must("panic", &|| format!("{}.decode({}) failing at {}", code_name(i), show(&s), at), || decode(i, &mut f))?;
    c.evals += 1;
    if f.failed {
        match got {
            Err(ref e) if is_fault(e, k) => c.cov("faulted reads"),
            _ => ck!(false, "false-success", "{}.decode({}) with a {:?} fault at {} gave {:?}", code_name(i), show(&s), k, at, got),
        }
        ck!(f.after == 0, "went-on", "{}.decode({}) read on after the fault at {}", code_name(i), show(&s), at);
    } else {
        // it stopped before the fault: the same answer as without it
        let mut r = Src::new(&s);
        let free = must("panic", &|| "decode".to_string(), || decode(i, &mut r))?;
        let same = match (&got, &free) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.kind() == b.kind(),
            _ => false,
        };
        ck!(same, "depends", "{}.decode({}): {:?} with a fault waiting at {}, {:?} without", code_name(i), show(&s), got, at, free);
        c.cov("stopped before the fault");
    }
    Ok(())
}

fn ints_t<N: num_traits::PrimInt + std::fmt::Debug>(c: &mut Case, width: usize, x: N, want: u128) -> R {
    let n = c.rng.below(width as u64 + 1) as usize;
    let be = c.rng.coin();
    let mut bits: Vec<bool> = (0..n).map(|i| (want >> i) & 1 == 1).collect();
    if be {
        bits.reverse();
    }
    let who = if be { "int_be" } else { "int" };
    let mut more = bits.clone();
    more.extend((0..c.rng.below(9)).map(|_| c.rng.coin()));
    for at in 0..=n + 1 {
        let k = kind(c);
        let mut s = FaultSink::new(at, k);
        let got = attempt(|| if be { s.write_int_be(n, x) } else { s.write_int(n, x) });
        judge_write(c, &format!("write_{}({}, {:?})", who, n, x), &bits, at, s, got, k)?;
        let mut s = FaultSrc::new(&more, at, k);
        let got = attempt(|| if be { s.read_int_be::<N>(n) } else { s.read_int::<N>(n) });
        c.evals += 1;
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                ck!(false, "panic", "read_{}({}) with a fault at {} panicked: {}", who, n, at, e);
                unreachable!()
            }
        };
        if at >= n {
            ck!(matches!(got, Ok(Some(_))), "false-failure", "read_{}({}) failed although all bits could be read: {:?}", who, n, got);
            ck!(s.pos == n && !s.failed, "read-ahead", "read_{}({}) read {} bits", who, n, s.pos);
        } else {
            match got {
                Err(ref e) if is_fault(e, k) => c.cov("faulted integer reads"),
                _ => ck!(false, "false-success", "read_{}({}) with a {:?} fault at {} gave {:?}", who, n, k, at, got),
            }
            ck!(s.after == 0 && s.pos == at, "went-on", "read_{}({}) read on after a fault at {}", who, n, at);
        }
    }
    Ok(())
}
fn ints(c: &mut Case) -> R {
    let x = (c.rng.value() as u128) << 64 | c.rng.value() as u128;
    let k = c.rng.below(12);
    c.mix(x as u64);
    c.mix(k);
    c.nontrivial = true;
    match k {
        0 => ints_t::<u8>(c, 8, x as u8, x),
        1 => ints_t::<u16>(c, 16, x as u16, x),
        2 => ints_t::<u32>(c, 32, x as u32, x),
        3 => ints_t::<u64>(c, 64, x as u64, x),
        4 => ints_t::<u128>(c, 128, x, x),
        5 => ints_t::<usize>(c, usize::BITS as usize, x as usize, x),
        6 => ints_t::<i8>(c, 8, x as i8, x),
        7 => ints_t::<i16>(c, 16, x as i16, x),
        8 => ints_t::<i32>(c, 32, x as i32, x),
        9 => ints_t::<i64>(c, 64, x as i64, x),
        10 => ints_t::<i128>(c, 128, x as i128, x),
        _ => ints_t::<isize>(c, usize::BITS as usize, x as isize, x),
    }
}

fn script(c: &mut Case) -> Vec<Step> {
    let n = c.rng.below(24);
    let hard = c.rng.chance(1, 2);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match c.rng.below(8) {
            0 | 1 => Step::Interrupt,
            2..=5 => Step::Take(c.rng.range(1, 5) as usize),
            6 if hard => Step::Fail(byte_fault(&mut c.rng)),
            7 if hard && c.rng.coin() => Step::Zero,
            _ => Step::Take(1),
        });
    }
    v
}
/// What a script does to one request for `need` bytes: bytes moved, and how it ends.
#[derive(Debug, PartialEq)]
enum End {
    Done,
    Fault(AnyKind),
    Zero,
}
/// Only the failure of a request matters for the verdict; how many calls it takes is the implementation's business.
/// So the oracle watches the script's log: which failing step was reached.
fn reached(script: &[Step], from: u64, to: u64) -> End {
    for i in from..to {
        match script.get(i as usize) {
            Some(Step::Fail(k)) => return End::Fault(*k),
            Some(Step::Zero) => return End::Zero,
            _ => {}
        }
    }
    End::Done
}

fn bytes_of<B: Blk>(x: u64, big: bool) -> Vec<u8> {
    let n = B::NB / 8;
    let mut v: Vec<u8> = (0..n).map(|i| (x >> (8 * i)) as u8).collect();
    if big {
        v.reverse();
    }
    v
}

fn block_read_t<B: Blk>(c: &mut Case, data: &[u8], pos: &mut usize, src: &mut ScriptRead, big: bool) -> Result<bool, mon::Viol> {
    fn go<B: Blk, T: ByteOrder>(s: &mut ScriptRead) -> IoResult<B> {
        B::read_block::<_, T>(s)
    }
    let n = (B::NB / 8) as usize;
    let from = src.log.borrow().calls;
    let had = src.pos;
    let got = attempt(|| if big { go::<B, BigEndian>(src) } else { go::<B, LittleEndian>(src) });
    let to = src.log.borrow().calls;
    c.evals += 1;
    let got = match got {
        Ok(g) => g.map(|b| b.u()),
        Err(e) => return Err(mon::Viol { sig: "panic".into(), msg: format!("{}::read_block panicked: {} (script {:?})", B::NAME, e, src.script) }),
    };
    let end = reached(&src.script, from, to);
    let left = data.len() - had;
    match (&end, &got) {
        (End::Fault(k), Err(e)) => {
            ck!(is_fault(e, *k), "other-error", "{}::read_block: a {:?} fault came back as {:?}", B::NAME, k, e);
            ck!(src.log.borrow().after == 0, "went-on", "{}::read_block read on after a fault", B::NAME);
            c.cov("block reads that failed");
        }
        (End::Zero, Err(e)) => {
            ck!(e.kind() == ErrorKind::UnexpectedEof, "cut", "{}::read_block at an early end gave {:?}", B::NAME, e);
            c.cov("block reads cut short");
        }
        (End::Done, Err(e)) => {
            ck!(left < n && e.kind() == ErrorKind::UnexpectedEof, "false-failure", "{}::read_block failed with {:?}, {} bytes left, script {:?}, calls {}..{}", B::NAME, e, left, src.script, from, to);
            c.cov("block reads cut short");
        }
        (End::Done, Ok(x)) => {
            ck!(left >= n, "false-success", "{}::read_block gave {:#x} from {} bytes", B::NAME, x, left);
            let mut want = 0u64;
            for i in 0..n {
                let b = data[had + if big { n - 1 - i } else { i }];
                want |= (b as u64) << (8 * i);
            }
            ckeq!(*x, want, "value", "{}::read_block", B::NAME);
            ckeq!(src.pos - had, n, "consumed", "{}::read_block: bytes consumed", B::NAME);
            c.cov("block reads completed");
            *pos = src.pos;
            return Ok(true);
        }
        (e, g) => ck!(false, "false-success", "{}::read_block gave {:?} although its source {:?}", B::NAME, g, e),
    }
    Ok(false)
}

fn block_read(c: &mut Case) -> R {
    let n = c.rng.below(40) as usize;
    let data: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
    let sc = script(c);
    c.mix(mon::rng::hash_str(&format!("{:?}{:?}", data, sc)));
    c.nontrivial = true;
    c.t(|| format!("script {:?} over {} bytes", sc, n));
    let log = Rc::new(RefCell::new(Log::default()));
    let mut src = ScriptRead { data: &data, pos: 0, script: sc, log: log.clone() };
    let mut pos = 0;
    for _ in 0..12 {
        let big = c.rng.coin();
        let k = c.rng.below(5);
        let ok = with_blk!(k, block_read_t, c, &data, &mut pos, &mut src, big)?;
        if !ok {
            break;
        }
    }
    c.covn("interrupted byte calls", log.borrow().interrupts);
    c.covn("short byte calls", log.borrow().shorts);
    Ok(())
}

fn block_write_t<B: Blk>(c: &mut Case, dst: &mut ScriptWrite, x: u64, big: bool) -> Result<bool, mon::Viol> {
    fn go<B: Blk, T: ByteOrder>(b: B, s: &mut ScriptWrite) -> IoResult<()> {
        b.write_block::<_, T>(s)
    }
    let from = dst.log.borrow().calls;
    let had = dst.data.len();
    let b = B::of(x);
    let bytes = bytes_of::<B>(b.u(), big);
    let got = attempt(|| if big { go::<B, BigEndian>(b, dst) } else { go::<B, LittleEndian>(b, dst) });
    let to = dst.log.borrow().calls;
    c.evals += 1;
    let got = match got {
        Ok(g) => g,
        Err(e) => return Err(mon::Viol { sig: "panic".into(), msg: format!("{}::write_block panicked: {} (script {:?})", B::NAME, e, dst.script) }),
    };
    let w = dst.data[had..].to_vec();
    match (reached(&dst.script, from, to), &got) {
        (End::Fault(k), Err(e)) => {
            ck!(is_fault(e, k), "other-error", "{}::write_block: a {:?} fault came back as {:?}", B::NAME, k, e);
            ck!(dst.log.borrow().after == 0, "went-on", "{}::write_block wrote on after a fault", B::NAME);
            ck!(bytes.starts_with(&w), "prefix", "{}::write_block({:#x}) wrote {:?} before the fault, expected a prefix of {:?}", B::NAME, b.u(), w, bytes);
            c.cov("block writes that failed");
            return Ok(false);
        }
        (End::Zero, Err(_)) => {
            ck!(bytes.starts_with(&w), "prefix", "{}::write_block({:#x}) wrote {:?} before the sink was full, expected a prefix of {:?}", B::NAME, b.u(), w, bytes);
            c.cov("block writes to a full sink");
            return Ok(false);
        }
        (End::Done, Ok(())) => {
            ck!(w == bytes, "bytes", "{}::write_block({:#x}) wrote {:?}, expected {:?}", B::NAME, b.u(), w, bytes);
            c.cov("block writes completed");
        }
        (e, g) => ck!(false, if g.is_ok() { "false-success" } else { "false-failure" }, "{}::write_block gave {:?} although its sink {:?}", B::NAME, g, e),
    }
    Ok(true)
}
fn block_write(c: &mut Case) -> R {
    let sc = script(c);
    c.mix(mon::rng::hash_str(&format!("{:?}", sc)));
    c.nontrivial = true;
    c.t(|| format!("script {:?}", sc));
    let log = Rc::new(RefCell::new(Log::default()));
    let mut dst = ScriptWrite { data: vec![], script: sc, log: log.clone(), flushes: 0 };
    for _ in 0..12 {
        let big = c.rng.coin();
        let x = c.rng.value();
        c.mix(x);
        let k = c.rng.below(5);
        let ok = with_blk!(k, block_write_t, c, &mut dst, x, big)?;
        if !ok {
            break;
        }
    }
    c.covn("interrupted byte calls", log.borrow().interrupts);
    c.covn("short byte calls", log.borrow().shorts);
    Ok(())
}

/// A long mixed session on one stream with one fault somewhere in it: everything before succeeds,
/// the operation in progress returns the fault.
fn session(c: &mut Case) -> R {
    let mut ops: Vec<(usize, u64, Vec<bool>)> = vec![];
    let many = if !cfg!(miri) && c.rng.chance(1, 150) { c.rng.range(100, 1500) } else { c.rng.range(2, 14) };
    for _ in 0..many {
        let i = c.rng.below(NCODES as u64) as usize;
        let v = value_for(&mut c.rng, i);
        let code = reference(i);
        if let Some(w) = code.word(v as u128) {
            if !code.may_refuse(v as u128) && w.len() < 400 {
                c.mix(v ^ (i as u64) << 58);
                ops.push((i, v, w));
            }
        }
    }
    let total: usize = ops.iter().map(|o| o.2.len()).sum();
    let all: Vec<bool> = ops.iter().flat_map(|o| o.2.iter().copied()).collect();
    let at = c.rng.below(total as u64 + 1) as usize;
    c.nontrivial = !ops.is_empty();
    let k = kind(c);
    c.t(|| format!("{:?}, {:?} fault at bit {}", ops.iter().map(|o| (code_name(o.0), o.1)).collect::<Vec<_>>(), k, at));
    let mut s = FaultSink::new(at, k);
    let mut r = FaultSrc::new(&all, at, k);
    let mut end = 0;
    let (mut wdone, mut rdone) = (false, false);
    for (i, v, w) in &ops {
        end += w.len();
        if !wdone {
            let got = must("panic", &|| format!("{}.encode({})", code_name(*i), v), || encode(*i, &mut s, *v))?;
            c.evals += 1;
            if end <= at {
                ck!(got.is_ok(), "false-failure", "{}.encode({}) failed before the fault: {:?}", code_name(*i), v, got);
            } else {
                ck!(matches!(&got, Err(e) if is_fault(e, k)), "false-success", "{}.encode({}) hit a {:?} fault but gave {:?}", code_name(*i), v, k, got);
                ck!(s.after == 0 && s.got == all[..at], "prefix", "{}.encode({}): what was written is not the prefix of {} bits", code_name(*i), v, at);
                wdone = true;
            }
        }
        if !rdone {
            let got = must("panic", &|| format!("{}.decode", code_name(*i)), || decode(*i, &mut r))?;
            c.evals += 1;
            if end <= at {
                ck!(matches!(got, Ok(Some(x)) if x == *v), "false-failure", "{}.decode of the word of {} before the fault gave {:?}", code_name(*i), v, got);
            } else {
                ck!(matches!(&got, Err(e) if is_fault(e, k)), "false-success", "{}.decode of the word of {} hit a {:?} fault but gave {:?}", code_name(*i), v, k, got);
                ck!(r.after == 0, "went-on", "{}.decode read on after the fault", code_name(*i));
                rdone = true;
            }
        }
    }
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("codes", 8_000, 300_000, codes),
        wl("deep", 120, 6_000, deep),
        wl("hostile", 60_000, 2_000_000, hostile),
        wl("ints", 12_000, 400_000, ints),
        wl("block_read", 40_000, 1_500_000, block_read),
        wl("block_write", 40_000, 1_500_000, block_write),
        wl("session", 12_000, 400_000, session),
    ]
}
