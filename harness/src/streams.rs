//! Instrumented bit and byte streams: recorders, sources with a step budget, and injected faults.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;
use succinct::stream::{BitRead, BitWrite};

/// The payload of a fault: the very same error must come back, not one that looks alike.
#[derive(Debug)]
struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("injected fault 7b1e")
    }
}
impl std::error::Error for Injected {}
/// The forms an I/O error takes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Custom(ErrorKind),
    Bare(ErrorKind),
    Os(i32),
}
pub fn fault(k: Fault) -> Error {
    match k {
        Fault::Custom(k) => Error::new(k, Injected),
        Fault::Bare(k) => Error::from(k),
        Fault::Os(n) => Error::from_raw_os_error(n),
    }
}
pub fn is_fault(e: &Error, k: Fault) -> bool {
    match k {
        Fault::Custom(k) => e.kind() == k && e.get_ref().map_or(false, |r| r.is::<Injected>()),
        Fault::Bare(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        Fault::Os(n) => e.raw_os_error() == Some(n),
    }
}
const KINDS: [ErrorKind; 20] = [
    ErrorKind::Interrupted,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::WriteZero,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];
/// A fault of a bit stream: of any kind, as bit streams have none that is meant to be tried again.
pub fn bit_fault(r: &mut crate::rng::Rng) -> Fault {
    match r.below(8) {
        0 => Fault::Os(r.pick(&[4, 5, 11, 28, 32, 9999])),
        1 | 2 => Fault::Bare(if r.chance(1, 4) { ErrorKind::Interrupted } else { r.pick(&KINDS) }),
        3 => Fault::Custom(ErrorKind::Interrupted),
        _ => Fault::Custom(r.pick(&KINDS)),
    }
}
/// A fault of a byte stream: an interruption is none.
pub fn byte_fault(r: &mut crate::rng::Rng) -> Fault {
    match r.below(8) {
        0 => Fault::Os(r.pick(&[5, 11, 28, 32, 9999])),
        1 | 2 => Fault::Bare(r.pick(&KINDS[1..])),
        _ => Fault::Custom(r.pick(&KINDS[1..])),
    }
}

/// Records the bits written.
#[derive(Default, Debug, Clone)]
pub struct Rec(pub Vec<bool>);
impl BitWrite for Rec {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        self.0.push(b);
        Ok(())
    }
}

/// Only counts the bits written (and remembers the last).
#[derive(Default, Debug, Clone)]
pub struct CountSink {
    pub n: u64,
    pub ones: u64,
    pub last: bool,
}
impl BitWrite for CountSink {
    #[inline]
    fn write_bit(&mut self, b: bool) -> Result<()> {
        self.n += 1;
        self.ones += b as u64;
        self.last = b;
        Ok(())
    }
}
/// `zeros` zero bits, then a one, then the end.
pub struct ZerosThenOne {
    pub zeros: u64,
    pub pos: u64,
}
impl BitRead for ZerosThenOne {
    #[inline]
    fn read_bit(&mut self) -> Result<Option<bool>> {
        let p = self.pos;
        if p > self.zeros {
            return Ok(None);
        }
        self.pos = p + 1;
        Ok(Some(p == self.zeros))
    }
}

/// A source over a bit string. Reading past the end is allowed a few times only.
#[derive(Debug, Clone)]
pub struct Src<'a> {
    pub s: &'a [bool],
    pub pos: usize,
    pub past: u64,
}
impl<'a> Src<'a> {
    pub fn new(s: &'a [bool]) -> Self {
        Src { s, pos: 0, past: 0 }
    }
}
impl<'a> BitRead for Src<'a> {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.pos < self.s.len() {
            self.pos += 1;
            Ok(Some(self.s[self.pos - 1]))
        } else {
            self.past += 1;
            if self.past > 10_000 {
                self.past = 0;
                panic!("STEP-BUDGET exceeded: 10000 reads after the end of the source");
            }
            Ok(None)
        }
    }
}

/// Fails once, at operation `at`; anything asked of it afterwards is remembered.
#[derive(Debug)]
pub struct FaultSink {
    pub got: Vec<bool>,
    pub at: usize,
    pub kind: Fault,
    pub failed: bool,
    pub after: u64,
}
impl FaultSink {
    pub fn new(at: usize, kind: Fault) -> Self {
        FaultSink { got: vec![], at, kind, failed: false, after: 0 }
    }
}
impl BitWrite for FaultSink {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        if self.failed {
            self.after += 1;
            if self.after > 10_000 {
                panic!("STEP-BUDGET exceeded: 10000 writes after a fault");
            }
        }
        if !self.failed && self.got.len() == self.at {
            self.failed = true;
            return Err(fault(self.kind));
        }
        self.got.push(b);
        Ok(())
    }
}
#[derive(Debug)]
pub struct FaultSrc<'a> {
    pub s: &'a [bool],
    pub pos: usize,
    pub at: usize,
    pub kind: Fault,
    pub failed: bool,
    pub after: u64,
}
impl<'a> FaultSrc<'a> {
    pub fn new(s: &'a [bool], at: usize, kind: Fault) -> Self {
        FaultSrc { s, pos: 0, at, kind, failed: false, after: 0 }
    }
}
impl<'a> BitRead for FaultSrc<'a> {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.failed {
            self.after += 1;
            if self.after > 10_000 {
                panic!("STEP-BUDGET exceeded: 10000 reads after a fault");
            }
        }
        if !self.failed && self.pos == self.at {
            self.failed = true;
            return Err(fault(self.kind));
        }
        if self.pos < self.s.len() {
            self.pos += 1;
            Ok(Some(self.s[self.pos - 1]))
        } else {
            Ok(None)
        }
    }
}

/// What a byte stream does at each call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// at most this many bytes
    Take(usize),
    Interrupt,
    Fail(Fault),
    /// as if at the end / sink full
    Zero,
}
#[derive(Debug, Default)]
pub struct Log {
    pub calls: u64,
    pub failed: bool,
    pub after: u64,
    pub interrupts: u64,
    pub shorts: u64,
}
/// A byte reader following a script (then unrestricted).
pub struct ScriptRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub script: Vec<Step>,
    pub log: Rc<RefCell<Log>>,
}
impl<'a> Read for ScriptRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        if l.calls > 100_000 {
            panic!("STEP-BUDGET exceeded: 100000 byte reads");
        }
        if l.failed {
            l.after += 1;
        }
        let k = l.calls as usize - 1;
        let step = self.script.get(k).copied().unwrap_or(Step::Take(usize::MAX));
        match step {
            Step::Interrupt => {
                l.interrupts += 1;
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            Step::Fail(kind) => {
                l.failed = true;
                Err(fault(kind))
            }
            Step::Zero => Ok(0),
            Step::Take(m) => {
                let n = m.min(buf.len()).min(self.data.len() - self.pos);
                if n < buf.len() {
                    l.shorts += 1;
                }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}
pub struct ScriptWrite {
    pub data: Vec<u8>,
    pub script: Vec<Step>,
    pub log: Rc<RefCell<Log>>,
    pub flushes: u64,
}
impl Write for ScriptWrite {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        if l.calls > 100_000 {
            panic!("STEP-BUDGET exceeded: 100000 byte writes");
        }
        if l.failed {
            l.after += 1;
        }
        let k = l.calls as usize - 1;
        let step = self.script.get(k).copied().unwrap_or(Step::Take(usize::MAX));
        match step {
            Step::Interrupt => {
                l.interrupts += 1;
                Err(Error::new(ErrorKind::Interrupted, "interrupted"))
            }
            Step::Fail(kind) => {
                l.failed = true;
                Err(fault(kind))
            }
            Step::Zero => Ok(0),
            Step::Take(m) => {
                let n = m.min(buf.len());
                if n < buf.len() {
                    l.shorts += 1;
                }
                self.data.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        Ok(())
    }
}
