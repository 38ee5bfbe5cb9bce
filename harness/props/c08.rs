//! C08: select finds exactly the k-th occurrence, or reports that there is none.
use mon::stores::{ByBlock, Formula, FormulaBits, Periodic};
use mon::{bvh, ck, ckeq, must, pattern, with_blk, wl, wl_fixed, wl_serial, Blk, Case, Workload, R};
use std::fmt::Debug;
use succinct::broadword::{self, Broadword};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};

fn call(who: &str, what: &str, k: u64, f: impl FnOnce() -> Option<u64>) -> Result<Option<u64>, mon::Viol> {
    must("select-panic", &|| format!("{}: {}({})", who, what, k), f)
}

/// All answers of a bit select structure about k.
fn one<S>(c: &mut Case, s: &S, k: u64, want1: Option<u64>, want0: Option<u64>, who: &str) -> R
where
    S: Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    c.evals += 4;
    ckeq!(call(who, "select1", k, || s.select1(k))?, want1, "select1", "{}: select1({})", who, k);
    ckeq!(call(who, "select0", k, || s.select0(k))?, want0, "select0", "{}: select0({})", who, k);
    ckeq!(call(who, "select(true)", k, || s.select(k, true))?, want1, "select", "{}: select({}, true)", who, k);
    ckeq!(call(who, "select(false)", k, || s.select(k, false))?, want0, "select", "{}: select({}, false)", who, k);
    Ok(())
}
fn past_end(c: &mut Case, n: u64) -> [u64; 9] {
    [n, n + 1, n + c.rng.below(70), (1 << 32) - 1, 1 << 32, (1 << 32) + c.rng.below(n + 1), 1 << 63, u64::MAX - 1, u64::MAX]
}

/// The k-th of a list, whatever the size of usize.
fn nth(v: &[u64], k: u64) -> Option<u64> {
    if k < v.len() as u64 {
        Some(v[k as usize])
    } else {
        None
    }
}

fn check<R1>(c: &mut Case, r: R1, m: &[bool], who: &str) -> R
where
    R1: BitRankSupport,
{
    let ones: Vec<u64> = (0..m.len() as u64).filter(|&p| m[p as usize]).collect();
    let zeros: Vec<u64> = (0..m.len() as u64).filter(|&p| !m[p as usize]).collect();
    let s = BinSearchSelect::new(r);
    let n = m.len() as u64;
    let look = |k: u64| (nth(&ones, k), nth(&zeros, k));
    if n <= 1500 {
        for k in 0..n + 2 {
            let (a, b) = look(k);
            one(c, &s, k, a, b, who)?;
        }
    } else {
        for _ in 0..150 {
            let k = match c.rng.below(5) {
                0 => ones.len() as u64 - c.rng.below(4).min(ones.len() as u64),
                1 => zeros.len() as u64 - c.rng.below(4).min(zeros.len() as u64),
                2 => c.rng.below(ones.len() as u64 + 1),
                3 => c.rng.below(zeros.len() as u64 + 1),
                _ => c.rng.below(5),
            };
            let (a, b) = look(k);
            one(c, &s, k, a, b, who)?;
        }
    }
    for k in past_end(c, n) {
        one(c, &s, k, None, None, who)?;
    }
    // inverse of rank
    for _ in 0..20 {
        if n == 0 {
            break;
        }
        let p = c.rng.below(n);
        let b = m[p as usize];
        let k = s.rank(p, b) - 1;
        ckeq!(s.select(k, b), Some(p), "inverse", "{}: select(rank({}) - 1, {})", who, p, b);
        c.evals += 1;
    }
    c.covn("answers present", ones.len() as u64);
    Ok(())
}

fn structures_t<B: Blk>(c: &mut Case, m: &[bool]) -> R {
    let g = c.rng.value();
    match c.rng.below(2) {
        0 => {
            let v = bvh::build_to::<B>(c, m)?;
            check(c, JacobsonRank::new(v), m, "BinSearchSelect(JacobsonRank(BitVector))")
        }
        _ => check(c, JacobsonRank::new(ByBlock::<B>::new(m, g)), m, "BinSearchSelect(JacobsonRank(ByBlock))"),
    }
}
fn both(c: &mut Case, m: &[bool]) -> R {
    mon::fp_bits(c, m);
    c.nontrivial = !m.is_empty();
    c.t(|| format!("{} bits {}", m.len(), mon::show(m)));
    let k = c.rng.below(5);
    with_blk!(k, structures_t, c, m)?;
    let v = bvh::build_to::<u64>(c, m)?;
    if c.rng.coin() {
        check(c, Rank9::new(v), m, "BinSearchSelect(Rank9)")
    } else {
        // a select structure is itself a rank support
        check(c, BinSearchSelect::new(Rank9::new(v)), m, "BinSearchSelect(BinSearchSelect(Rank9))")
    }
}
fn random(c: &mut Case) -> R {
    let max = c.rng.pick(&[100, 600, 1500, 12_000]);
    let n = c.rng.len(64, max);
    let m = pattern(&mut c.rng, n, 64);
    both(c, &m)
}
fn lengths(c: &mut Case) -> R {
    let n = c.index;
    let m = pattern(&mut c.rng, n, 64);
    both(c, &m)
}
fn exhaustive(c: &mut Case) -> R {
    let n = c.index % 11;
    c.mix(c.index);
    c.nontrivial = true;
    for x in 0..1u64 << n {
        let m: Vec<bool> = (0..n).map(|i| (x >> i) & 1 == 1).collect();
        match c.index / 11 {
            0 => check(c, JacobsonRank::new(ByBlock::<u8>::new(&m, !0)), &m, "BinSearchSelect(JacobsonRank<u8>)")?,
            _ => check(c, Rank9::new(ByBlock::<u64>::new(&m, !0)), &m, "BinSearchSelect(Rank9)")?,
        }
    }
    Ok(())
}

/// Words through binary search, and broadword select.
fn prim_t<B: Blk>(c: &mut Case) -> R {
    let x = c.rng.value() & mon::mask(B::NB);
    let m: Vec<bool> = (0..B::NB).map(|i| (x >> i) & 1 == 1).collect();
    check(c, B::of(x), &m, B::NAME)
}
fn prim(c: &mut Case) -> R {
    c.nontrivial = true;
    for _ in 0..8 {
        let k = c.rng.below(5);
        with_blk!(k, prim_t, c)?;
        let x = c.rng.value();
        c.mix(x);
        let m: Vec<bool> = (0..64).map(|i| (x >> i) & 1 == 1).collect();
        check(c, Broadword(x), &m, "BinSearchSelect(Broadword)")?;
        let ones: Vec<u64> = (0..64u64).filter(|&p| m[p as usize]).collect();
        for k in (0..70).chain(past_end(c, 64)).chain([255, 256, 257, 511, 512, (1 << 32) + 3]) {
            c.evals += 2;
            let want = nth(&ones, k);
            ckeq!(call("Broadword", "select1", k, || Broadword(x).select1(k))?, want, "broadword-select1", "Broadword({:#x}): select1({})", x, k);
            if k > usize::MAX as u64 {
                continue;
            }
            let got = must("select-panic", &|| format!("broadword::select1({}, {:#x})", k, x), || broadword::select1(k as usize, x))?;
            ckeq!(got.map(|p| p as u64), want, "broadword-select1", "broadword::select1({}, {:#x})", k, x);
        }
    }
    Ok(())
}

/// Symbols over limits up to 2^64 - 1, through user-defined rank supports.
fn formula(c: &mut Case) -> R {
    let r = &mut c.rng;
    let syms = r.range(1, 5);
    let table: Vec<u8> = (0..r.range(1, 24)).map(|_| r.below(syms) as u8).collect();
    let limit = match r.below(5) {
        0 => r.below(40),
        1 => u64::MAX - r.below(3),
        2 => (1u64 << r.range(30, 63)).wrapping_add(r.below(3)).wrapping_sub(1),
        _ => r.value(),
    };
    let skip = match r.below(4) {
        0 => 0,
        1 => limit.saturating_sub(r.below(40)),
        _ => r.next() % limit.max(1),
    };
    let f = Formula { table, skip, first: r.below(syms) as u8, limit };
    c.mix(limit);
    c.mix(skip ^ f.table.len() as u64);
    c.nontrivial = limit > 0;
    c.t(|| format!("{:?}", f));
    if limit > 1 << 63 {
        c.cov("limits beyond 2^63");
    }
    let s = BinSearchSelect::new(f.clone());
    ckeq!(s.limit(), limit, "limit", "limit of {:?}", f);
    for sym in 0..syms as u8 + 1 {
        let total = f.total(sym);
        for _ in 0..12 {
            let k = match c.rng.below(4) {
                0 => total.saturating_sub(c.rng.below(3)),
                1 => c.rng.below(4),
                2 if total > 0 => c.rng.next() % total,
                _ => c.rng.value(),
            };
            check_symbol(c, &s, &f, sym, k, total)?;
        }
        for k in [total, total.saturating_add(1), u64::MAX, u64::MAX - 1] {
            check_symbol(c, &s, &f, sym, k, total)?;
        }
    }
    // the same over bits
    let mut fb = f.clone();
    for t in &mut fb.table {
        *t &= 1;
    }
    fb.first &= 1;
    let s = BinSearchSelect::new(FormulaBits(fb.clone()));
    for _ in 0..10 {
        let (t1, t0) = (fb.total(1), fb.total(0));
        let k = match c.rng.below(3) {
            0 => t1.saturating_sub(c.rng.below(3)),
            1 => t0.saturating_sub(c.rng.below(3)),
            _ => c.rng.value(),
        };
        let got1 = call("bits", "select1", k, || s.select1(k))?;
        let got0 = call("bits", "select0", k, || s.select0(k))?;
        judge(c, &fb, 1, k, t1, got1, "select1")?;
        judge(c, &fb, 0, k, t0, got0, "select0")?;
    }
    Ok(())
}
fn judge(c: &mut Case, f: &Formula, sym: u8, k: u64, total: u64, got: Option<u64>, what: &str) -> R {
    c.evals += 1;
    match got {
        None => ck!(k >= total, "absent", "{} of {} for symbol {} in {:?}: nothing, but there are {}", what, k, sym, f, total),
        Some(p) => {
            ck!(p < f.limit && f.at(p) == sym && f.before(p, sym) == k, "wrong-position", "{} of {} for symbol {} in {:?}: position {}", what, k, sym, f, p);
            c.cov("answers present");
        }
    }
    Ok(())
}
fn check_symbol<S: SelectSupport<Over = u8>>(c: &mut Case, s: &S, f: &Formula, sym: u8, k: u64, total: u64) -> R {
    let got = call("formula", "select", k, || s.select(k, sym))?;
    judge(c, f, sym, k, total, got, "select")
}

/// A rank support over something that is neither bits nor small: symbols are chars.
#[derive(Clone)]
struct Text(Vec<char>);
impl RankSupport for Text {
    type Over = char;
    fn rank(&self, p: u64, v: char) -> u64 {
        self.0[..=p as usize].iter().filter(|&&x| x == v).count() as u64
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}
fn text(c: &mut Case) -> R {
    let n = c.rng.below(60);
    let t: Vec<char> = (0..n).map(|_| c.rng.pick(&['a', 'ß', '√', '\u{0}'])).collect();
    for &x in &t {
        c.mix(x as u64);
    }
    c.nontrivial = n > 0;
    let s = BinSearchSelect::new(Text(t.clone()));
    for sym in ['a', 'ß', '√', '\u{0}', 'z'] {
        let want: Vec<u64> = (0..n).filter(|&p| t[p as usize] == sym).collect();
        for k in (0..n + 2).chain(past_end(c, n)) {
            c.evals += 1;
            ckeq!(call("text", "select", k, || s.select(k, sym))?, nth(&want, k), "select", "select({}, {:?}) in {:?}", k, sym, t);
        }
    }
    Ok(())
}

/// Long vectors that exist only as a formula, under the real rank structures.
fn long_t<B: Blk + Debug>(c: &mut Case, lg: u64) -> R {
    let n = if lg >= 33 { c.rng.range(3 << 31, 1 << 33) } else { c.rng.range(1 << (lg - 1), 1 << lg) };
    let table: Vec<B> = (0..c.rng.range(1, 60)).map(|_| B::of(if lg >= 33 { c.rng.next() | c.rng.next() } else { c.rng.value() })).collect();
    c.mix(n);
    c.nontrivial = true;
    let p = Periodic::new(table, n);
    if B::NB == 64 && c.rng.coin() {
        let q = Periodic::new(p.table.iter().map(|b| b.u()).collect(), n);
        let s = BinSearchSelect::new(Rank9::new(q));
        return far(c, &s, &p, n, "BinSearchSelect(Rank9)");
    }
    let s = BinSearchSelect::new(JacobsonRank::new(p.clone()));
    far(c, &s, &p, n, "BinSearchSelect(JacobsonRank)")
}
fn far<B: Blk, S>(c: &mut Case, s: &S, p: &Periodic<B>, n: u64, who: &str) -> R
where
    S: Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    let t1 = p.ones_before(n);
    let t0 = n - t1;
    for i in 0..120 {
        let one = c.rng.coin();
        let total = if one { t1 } else { t0 };
        let k = match c.rng.below(4) {
            0 => total.saturating_sub(c.rng.below(4)),
            1 if total > 0 => c.rng.below(total),
            2 => (1u64 << c.rng.range(0, 34)) - 1 + c.rng.below(2),
            _ => c.rng.value(),
        };
        let got = match (one, i % 2) {
            (true, 0) => call(who, "select1", k, || s.select1(k))?,
            (false, 0) => call(who, "select0", k, || s.select0(k))?,
            _ => call(who, "select", k, || s.select(k, one))?,
        };
        c.evals += 1;
        match got {
            None => ck!(k >= total, "absent", "{} of {} bits: select({}, {}): nothing, but there are {}", who, n, k, one, total),
            Some(q) => {
                let before = if q < n { p.ones_before(q) } else { 0 };
                let before = if one { before } else { q - before };
                ck!(q < n && p.bit(q) == one && before == k, "wrong-position", "{} of {} bits: select({}, {}): position {}", who, n, k, one, q);
                c.cov("answers present");
            }
        }
    }
    Ok(())
}
fn long(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let hi = if c.thorough { 24 } else { 20 };
    let lg = c.rng.range(10, hi);
    with_blk!(k, long_t, c, lg)
}
fn huge(c: &mut Case) -> R {
    with_blk!(3, long_t, c, 33)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("random", 5_000, 150_000, random),
        wl("lengths", 1_700, 8_000, lengths),
        wl_fixed("exhaustive", 22, exhaustive),
        wl("prim", 3_000, 100_000, prim),
        wl("formula", 10_000, 400_000, formula),
        wl("text", 3_000, 100_000, text),
        wl("long", 100, 1_000, long),
        wl_serial("huge", 1, 4, huge),
    ]
}
