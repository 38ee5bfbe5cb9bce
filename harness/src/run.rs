//! The runner: executes cases on worker threads, turns oracle failures, panics and crashes
//! into reports. Verdicts are three-valued (exit 0 held, 1 violated, 2/3 no verdict).
use crate::rng::{hash_str, mix64, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Viol {
    /// Short stable name of what failed.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;

#[macro_export]
macro_rules! ck {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err($crate::run::Viol { sig: ($sig).to_string(), msg: format!($($fmt)+) });
        }
    };
}
#[macro_export]
macro_rules! ckeq {
    ($got:expr, $want:expr, $sig:expr, $($fmt:tt)+) => {{
        let g = $got;
        let w = $want;
        if g != w {
            return Err($crate::run::Viol {
                sig: ($sig).to_string(),
                msg: format!("{}: got {:?}, expected {:?}", format!($($fmt)+), g, w),
            });
        }
    }};
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub cases: u64,
    pub thorough: bool,
    /// Oracle comparisons made.
    pub evals: u64,
    /// Fingerprint of the generated input.
    pub fp: u64,
    /// Of everything the case recorded (C24).
    pub digest: u64,
    /// Not carried out on this leg: nothing to compare.
    pub void: bool,
    pub nontrivial: bool,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub cov: BTreeMap<&'static str, u64>,
}

impl Case {
    /// Records one event of the history (only kept when this case is being written out).
    #[inline]
    pub fn t<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace_on && self.trace.len() < 4000 {
            let s = f();
            self.trace.push(s);
        }
    }
    #[inline]
    pub fn mix(&mut self, x: u64) {
        self.fp = mix64(self.fp ^ x).wrapping_add(0x9E37_79B9);
    }
    #[inline]
    pub fn cov(&mut self, k: &'static str) {
        *self.cov.entry(k).or_insert(0) += 1;
    }
    #[inline]
    pub fn covn(&mut self, k: &'static str, n: u64) {
        *self.cov.entry(k).or_insert(0) += n;
    }
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
    /// Fixed number of cases whatever the scale (exhaustive enumerations).
    pub fixed: bool,
    /// Run by one thread at a time (memory-hungry cases).
    pub serial: bool,
}

pub fn wl(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Workload {
    Workload { name, quick, thorough, run, fixed: false, serial: false }
}
pub fn wl_fixed(name: &'static str, n: u64, run: fn(&mut Case) -> R) -> Workload {
    Workload { name, quick: n, thorough: n, run, fixed: true, serial: false }
}
pub fn wl_serial(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Workload {
    Workload { name, quick, thorough, run, fixed: true, serial: true }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
    static CASE_ID: Cell<(&'static str, u64)> = const { Cell::new(("-", 0)) };
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    #[cfg(not(miri))]
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    #[cfg(not(miri))]
    fn _exit(code: i32) -> !;
}
/// The C library's `struct sigaction` on Linux.
#[cfg(not(miri))]
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u8; 128],
    flags: i32,
    restorer: usize,
}
pub fn quit(code: i32) -> ! {
    #[cfg(not(miri))]
    unsafe {
        _exit(code)
    }
    #[cfg(miri)]
    std::process::exit(code)
}
pub fn raw_stderr(b: &[u8]) {
    unsafe {
        let _ = write(2, b.as_ptr(), b.len());
    }
}
pub fn raw_case_id() {
    let (w, i) = CASE_ID.try_with(|c| c.get()).unwrap_or(("?", 0));
    raw_stderr(w.as_bytes());
    raw_stderr(b" ");
    let mut buf = [0u8; 20];
    let mut k = 20;
    let mut x = i;
    loop {
        k -= 1;
        buf[k] = b'0' + (x % 10) as u8;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    raw_stderr(&buf[k..]);
}

#[cfg(not(miri))]
extern "C" fn on_signal(sig: i32) {
    raw_stderr(b"\nMON-CRASH ");
    raw_case_id();
    raw_stderr(b" signal ");
    raw_stderr(&[b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8, b'\n']);
    unsafe { _exit(70) }
}

fn install(signals: bool) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            let s = format!("\nMON-UB {} at {}\n", msg.replace('\n', " "), loc);
            raw_stderr(s.as_bytes());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
    let _ = signals;
    #[cfg(not(miri))]
    if signals {
        unsafe {
            // on the thread's alternate stack, which the standard library sets up: a stack overflow is reported too
            let a = SigAction { handler: on_signal as extern "C" fn(i32) as usize, mask: [0; 128], flags: 0x0800_0000, restorer: 0 };
            for s in [4, 6, 7, 8, 11] {
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
    }
}

/// For child processes: panics are kept, not printed.
pub fn quiet() {
    install(false)
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`; a panic of the code under test becomes `Err(message)`.
#[inline]
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (m, _) = last_panic();
            if m.starts_with("STEP-BUDGET") {
                // not an answer of the code under test: pass it on
                std::panic::resume_unwind(Box::new(m));
            }
            Err(m)
        }
    }
}

/// As `attempt`, but a panic is a violation with this signature.
pub fn must<T>(sig: &str, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Viol> {
    match attempt(f) {
        Ok(x) => Ok(x),
        Err(m) => {
            let (_, loc) = last_panic();
            Err(Viol { sig: sig.to_string(), msg: format!("{}: panicked with \"{}\" at {}", what(), m, loc) })
        }
    }
}

enum Outcome {
    Ok,
    Viol(Viol),
    Harness(String),
}

fn exec(w: &Workload, c: &mut Case) -> Outcome {
    CASE_ID.with(|x| x.set((w.name, c.index)));
    crate::alloc::set_budget(if w.serial { 20 << 30 } else { 1 << 30 });
    let r = catch_unwind(AssertUnwindSafe(|| (w.run)(c)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Viol(v),
        Err(_) => {
            let (m, loc) = last_panic();
            if m.starts_with("STEP-BUDGET") {
                Outcome::Viol(Viol { sig: "no-progress".into(), msg: m })
            } else if loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("mon/src/") {
                Outcome::Harness(format!("harness panic: {} at {}", m, loc))
            } else {
                Outcome::Viol(Viol {
                    sig: "unexpected-panic".into(),
                    msg: format!("unexpected panic \"{}\" at {}", m, loc),
                })
            }
        }
    }
}

/// Everything a case allocated is gone once it is over; a difference that shows twice is a leak.
fn leak_check(before: i64, seed: u64, w: &Workload, i: u64, n: u64, thorough: bool) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = Default::default());
    if crate::alloc::live() <= before {
        return Outcome::Ok;
    }
    let l = crate::alloc::live();
    let r = exec(w, &mut mk_case(seed, w, i, n, thorough, false));
    let ok = matches!(r, Outcome::Ok);
    drop(r);
    LAST_PANIC.with(|p| *p.borrow_mut() = Default::default());
    let d = crate::alloc::live() - l;
    if d > 0 && ok {
        Outcome::Viol(Viol { sig: "leak".into(), msg: format!("{} bytes are still allocated after everything was dropped", d) })
    } else {
        Outcome::Ok
    }
}

fn mk_case(seed: u64, w: &Workload, index: u64, cases: u64, thorough: bool, trace_on: bool) -> Case {
    Case {
        rng: Rng::new(seed ^ hash_str(w.name) ^ mix64(index.wrapping_mul(0x9E37_79B9_7F4A_7C15))),
        index,
        cases,
        thorough,
        evals: 0,
        fp: 0,
        digest: 0,
        void: false,
        nontrivial: false,
        trace_on,
        trace: Vec::new(),
        cov: BTreeMap::new(),
    }
}

/// A case of its own for work inside another (on another thread).
pub fn sub_case(c: &Case, seed: u64) -> Case {
    Case { thorough: c.thorough, ..bare_case(seed) }
}
pub fn bare_case(seed: u64) -> Case {
    Case {
        rng: Rng::new(seed),
        index: 0,
        cases: 1,
        thorough: false,
        evals: 0,
        fp: 0,
        digest: 0,
        void: false,
        nontrivial: false,
        trace_on: false,
        trace: Vec::new(),
        cov: BTreeMap::new(),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    workload: &'static str,
    index: u64,
    v: Viol,
    trace: Vec<String>,
    confirmed: bool,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub out: Option<String>,
    pub only: Option<(String, Option<u64>)>,
    pub scale: f64,
    pub threads: usize,
    pub cap_s: u64,
    pub extra: Vec<String>,
    pub skip: Vec<String>,
    pub signals: bool,
    /// Only memory is judged here: wrong answers are counted, not reported.
    pub mem: bool,
    /// Scale applies to enumerations as well (a sample of them is run).
    pub sample: bool,
    pub serial: bool,
    /// Workloads whose index is .0 modulo .1.
    pub shard: (usize, usize),
    /// Only workloads whose names start with one of these.
    pub take: Vec<String>,
    /// Seconds after which a workload gives way to the next.
    pub wcap_s: f64,
    /// Report a digest per case.
    pub digests: bool,
    /// Only cases whose index is .0 modulo .1.
    pub stride: (u64, u64),
    /// What fresh memory holds (256: whatever it held).
    pub junk: u16,
}

pub fn parse() -> Opts {
    let mut o = Opts {
        seed: 1,
        thorough: false,
        out: None,
        only: None,
        scale: 1.0,
        threads: 8,
        cap_s: 300,
        extra: vec![],
        skip: vec![],
        signals: true,
        mem: false,
        sample: false,
        serial: true,
        shard: (0, 1),
        take: vec![],
        wcap_s: 1e9,
        digests: false,
        stride: (0, 1),
        junk: 0xA7,
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--seed" => o.seed = a.next().unwrap().parse().unwrap(),
            "--tier" => o.thorough = a.next().unwrap() == "thorough",
            "--out" => o.out = a.next(),
            "--scale" => o.scale = a.next().unwrap().parse().unwrap(),
            "--threads" => o.threads = a.next().unwrap().parse().unwrap(),
            "--cap" => o.cap_s = a.next().unwrap().parse().unwrap(),
            "--no-signals" => o.signals = false,
            "--take" => o.take.extend(a.next().unwrap().split(',').map(String::from)),
            "--wcap" => o.wcap_s = a.next().unwrap().parse().unwrap(),
            "--mem" => o.mem = true,
            "--junk" => o.junk = a.next().unwrap().parse().unwrap(),
            "--digests" => o.digests = true,
            "--stride" => {
                let s = a.next().unwrap();
                let mut p = s.split('/').map(|x| x.parse().unwrap());
                o.stride = (p.next().unwrap(), p.next().unwrap());
            }
            "--sample" => o.sample = true,
            "--no-serial" => o.serial = false,
            "--shard" => {
                let s = a.next().unwrap();
                let mut p = s.split('/').map(|x| x.parse().unwrap());
                o.shard = (p.next().unwrap(), p.next().unwrap());
            }
            "--skip" => o.skip.push(a.next().unwrap()),
            "--case" => {
                let s = a.next().unwrap();
                let mut p = s.split(':');
                let w = p.next().unwrap().to_string();
                let i = p.next().map(|i| i.parse().unwrap());
                o.only = Some((w, i));
            }
            _ => o.extra.push(x),
        }
    }
    o
}

pub fn main(prop: &str, ws: Vec<Workload>) {
    let o = parse();
    std::process::exit(run_all(prop, &ws, &o));
}

pub fn run_all(prop: &str, ws: &[Workload], o: &Opts) -> i32 {
    let t0 = Instant::now();
    install(o.signals);
    crate::alloc::set_junk(o.junk);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let history: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut report = String::new();
    let _ = write!(report, "{{\"property\":{},\"seed\":{},\"workloads\":[", json_str(prop), o.seed);
    let mut cov_all: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut complete = true;
    let mut first = true;
    // per thread: start second (0: idle), case, workload
    let stuck: Vec<[AtomicU64; 3]> = (0..o.threads.max(1)).map(|_| Default::default()).collect();

    std::thread::scope(|outer| {
        // Watchdog: a stuck case gives no verdict (exit 3), never a violation.
        if !cfg!(miri) {
            let (stuck, done) = (&stuck, &done);
            outer.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    let now = t0.elapsed().as_secs();
                    for [s, i, wi] in stuck {
                        let st = s.load(Ordering::Relaxed);
                        let w = &ws[wi.load(Ordering::Relaxed) as usize];
                        if st != 0 && now > st + if w.serial { 300 } else { 80 } {
                            eprintln!("MON-STUCK {}:{} running for {} s", w.name, i.load(Ordering::Relaxed), now - st);
                            std::process::exit(3);
                        }
                    }
                }
            });
        }
        for (wi, w) in ws.iter().enumerate() {
            if let Some((n, _)) = &o.only {
                if n != w.name {
                    continue;
                }
            } else if wi % o.shard.1 != o.shard.0 || (w.serial && !o.serial)
                || !(o.take.is_empty() || o.take.iter().any(|t| w.name.starts_with(t.as_str())))
            {
                continue;
            }
            if o.skip.iter().any(|s| s == w.name) {
                continue;
            }
            let base = if o.thorough { w.thorough } else { w.quick };
            let sampled = o.sample && w.fixed && o.scale < 1.0;
            let n = if w.fixed && !sampled { base } else { ((base as f64 * o.scale).ceil() as u64).max(1) };
            let (lo, hi) = match &o.only {
                Some((_, Some(i))) => (*i, *i + 1),
                _ => (0, n),
            };
            let next = AtomicU64::new(lo);
            let tw = Instant::now();
            let acc: Mutex<(u64, u64, u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<String>)> =
                Mutex::new((0, 0, 0, HashSet::new(), BTreeMap::new(), vec![]));
            let digest_acc: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
            let threads = if w.serial { 1 } else { o.threads.max(1) };
            let worker = |tid: usize| {
                let mut cases = 0u64;
                let mut evals = 0u64;
                let mut nontriv = 0u64;
                let mut fps: Vec<u64> = vec![];
                let mut cov: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut samples: Vec<String> = vec![];
                let mut digests: Vec<(u64, u64)> = vec![];
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() > o.cap_s || tw.elapsed().as_secs_f64() > o.wcap_s {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= hi {
                        break;
                    }
                    if i % o.stride.1 != o.stride.0 && o.only.is_none() {
                        continue;
                    }
                    let all_of = if sampled { base } else { n };
                    let i = if sampled && o.only.is_none() { mix64(o.seed ^ mix64(i)) % base } else { i };
                    let sample = i < 2 || o.only.as_ref().map_or(false, |x| x.1.is_some());
                    stuck[tid][1].store(i, Ordering::Relaxed);
                    stuck[tid][2].store(wi as u64, Ordering::Relaxed);
                    stuck[tid][0].store(t0.elapsed().as_secs().max(1), Ordering::Relaxed);
                    let before = crate::alloc::live();
                    let mut c = mk_case(o.seed, w, i, all_of, o.thorough, sample);
                    let out = exec(w, &mut c);
                    stuck[tid][0].store(0, Ordering::Relaxed);
                    cases += 1;
                    evals += c.evals;
                    if c.nontrivial {
                        nontriv += 1;
                        fps.push(c.fp);
                    }
                    for (k, v) in &c.cov {
                        *cov.entry(k).or_insert(0) += v;
                    }
                    if o.digests && !c.void {
                        digests.push((i, c.digest));
                    }
                    if let (Some((_, Some(_))), Outcome::Ok) = (&o.only, &out) {
                        *history.lock().unwrap() = c.trace.clone();
                    }
                    if o.mem {
                        let mut out = out;
                        if sample && matches!(out, Outcome::Ok) {
                            let s = c.trace.iter().take(6).cloned().collect::<Vec<_>>().join("; ");
                            samples.push(format!("{}:{} {}", w.name, i, s.chars().take(400).collect::<String>()));
                        } else {
                            drop(c);
                            if matches!(out, Outcome::Ok) {
                                out = leak_check(before, o.seed, w, i, all_of, o.thorough);
                            }
                        }
                        match out {
                            Outcome::Ok => {}
                            Outcome::Viol(v) if v.sig == "leak" => {
                                let mut f = found.lock().unwrap();
                                if f.is_empty() {
                                    f.push(Found { workload: w.name, index: i, v, trace: vec![], confirmed: true });
                                }
                            }
                            _ => *cov.entry("cases with a wrong answer (not judged here)").or_insert(0) += 1,
                        }
                        continue;
                    }
                    match out {
                        Outcome::Ok => {
                            if sample {
                                let mut s = c.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; ");
                                if s.len() > 700 {
                                    let mut k = 700;
                                    while !s.is_char_boundary(k) {
                                        k -= 1;
                                    }
                                    s.truncate(k);
                                    s.push_str("...");
                                }
                                samples.push(format!("{}:{} {}", w.name, i, s));
                            }
                        }
                        Outcome::Viol(v) => {
                            // confirm by running the case again, writing its history down
                            let mut c2 = mk_case(o.seed, w, i, all_of, o.thorough, true);
                            let again = exec(w, &mut c2);
                            let confirmed = matches!(again, Outcome::Viol(_));
                            let mut f = found.lock().unwrap();
                            // one per signature; do not stop: different defects are reported separately
                            if f.iter().filter(|x| x.v.sig == v.sig).count() == 0 {
                                f.push(Found { workload: w.name, index: i, v, trace: c2.trace, confirmed });
                            }
                            if f.len() >= 12 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Outcome::Harness(m) => {
                            // an oracle that panics on the answers it gets, and does so again, has been given answers
                            // outside what the property allows; anything else is no verdict
                            let mut c2 = mk_case(o.seed, w, i, all_of, o.thorough, true);
                            match exec(w, &mut c2) {
                                Outcome::Harness(n) if n == m => {
                                    let mut f = found.lock().unwrap();
                                    if !f.iter().any(|x| x.v.sig == "oracle-panic") {
                                        let v = Viol { sig: "oracle-panic".into(), msg: format!("the answers are outside what the oracle can process, twice: {}", m) };
                                        f.push(Found { workload: w.name, index: i, v, trace: c2.trace, confirmed: true });
                                    }
                                }
                                _ => {
                                    harness.lock().unwrap().push(format!("{}:{} {}", w.name, i, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                }
                let mut a = acc.lock().unwrap();
                a.0 += cases;
                a.1 += evals;
                a.2 += nontriv;
                a.3.extend(fps);
                for (k, v) in cov {
                    *a.4.entry(k).or_insert(0) += v;
                }
                a.5.extend(samples);
                digest_acc.lock().unwrap().extend(digests);
            };
            if threads == 1 {
                worker(0);
            } else {
                std::thread::scope(|s| {
                    let worker = &worker;
                    for t in 0..threads {
                        s.spawn(move || worker(t));
                    }
                });
            }
            let a = acc.into_inner().unwrap();
            let planned = (hi - lo + o.stride.1 - 1 - o.stride.0.min(hi - lo)) / o.stride.1;
            if a.0 < planned {
                complete = false;
            }
            for (k, v) in &a.4 {
                *cov_all.entry(k).or_insert(0) += v;
            }
            if !first {
                report.push(',');
            }
            first = false;
            let mut samples = a.5;
            samples.sort();
            let _ = write!(
                report,
                "{{\"name\":{},\"fixed\":{},\"planned\":{},\"cases\":{},\"evals\":{},\"nontrivial\":{},\"distinct\":{},\"wall_s\":{:.3},\"samples\":[{}],\"digests\":{{{}}}}}",
                json_str(w.name),
                w.fixed,
                hi - lo,
                a.0,
                a.1,
                a.2,
                a.3.len(),
                tw.elapsed().as_secs_f64(),
                samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
                digest_acc.into_inner().unwrap().iter().map(|(i, d)| format!("\"{}\":\"{:x}\"", i, d)).collect::<Vec<_>>().join(",")
            );
        }
        done.store(true, Ordering::Relaxed);
    });

    report.push_str("],\"observed\":{");
    report.push_str(
        &cov_all.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
    );
    report.push_str("},\"violations\":[");
    let found = found.into_inner().unwrap();
    report.push_str(
        &found
            .iter()
            .map(|f| {
                format!(
                    "{{\"workload\":{},\"case\":{},\"sig\":{},\"msg\":{},\"confirmed\":{},\"history\":[{}]}}",
                    json_str(f.workload),
                    f.index,
                    json_str(&f.v.sig),
                    json_str(&f.v.msg),
                    f.confirmed,
                    f.trace.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    let harness = harness.into_inner().unwrap();
    let _ = write!(
        report,
        "],\"history\":[{}],\"harness_errors\":[{}],\"complete\":{},\"wall_s\":{:.3}}}\n",
        history.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        harness.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        complete,
        t0.elapsed().as_secs_f64()
    );
    match &o.out {
        Some(p) => std::fs::write(p, &report).expect("write report"),
        None => println!("{}", report),
    }
    for f in &found {
        eprintln!("MON-VIOLATION {}:{} [{}] {}", f.workload, f.index, f.v.sig, f.v.msg);
    }
    for h in &harness {
        eprintln!("MON-HARNESS {}", h);
    }
    if !found.is_empty() {
        1
    } else if !harness.is_empty() {
        2
    } else {
        0
    }
}
