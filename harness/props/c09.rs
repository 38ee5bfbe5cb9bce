//! C09: queries stay constant-time (rank) and logarithmic (select).
use mon::steps::steps;
use mon::stores::{reads, reset_reads, CountingBits, CountingRank, Formula, FormulaBits, Periodic};
use mon::{alloc, ceil_div, ck, must, pattern, with_blk, wl, wl_serial, Blk, Case, Workload, R};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};
use succinct::{BitVec, BitVecPush, BitVector};

/// Reads of the bit vector one rank query may make.
const RANK_READS: u64 = 8;
/// Executed edges one rank query may take, on top of twice what a short vector takes.
const RANK_STEPS: u64 = 30;
/// Rank queries of one select: this many per bit of the length, plus a few.
const PER_BIT: u64 = 4;
const FEW: u64 = 8;

struct Cost {
    reads: u64,
    steps: Option<u64>,
    allocs: u64,
}
fn measure<T>(limit: u64, f: impl FnOnce() -> T) -> (T, Cost) {
    reset_reads(limit);
    let a = alloc::allocs();
    let s = steps();
    let x = f();
    let e = steps();
    let cost = Cost { reads: reads(), steps: s.map(|s| e.unwrap() - s), allocs: alloc::allocs() - a };
    reset_reads(u64::MAX);
    (x, cost)
}

/// Most steps any of many rank queries took; every query is held to the read and allocation limits.
fn rank_costs<R1: BitRankSupport>(c: &mut Case, r: &R1, n: u64, g: u64, who: &str) -> Result<u64, mon::Viol> {
    let mut most = 0;
    for i in 0..if n < 2000 { n } else { 1500 } {
        let p = match c.rng.below(4) {
            _ if n < 2000 => i,
            0 => c.rng.below(n),
            1 => n - 1 - c.rng.below(600),
            _ => (c.rng.below(n / g + 1) * g + c.rng.below(3)).saturating_sub(1).min(n - 1),
        };
        let which = c.rng.below(4);
        let (_, cost) = measure(10_000 + RANK_READS, || match which {
            0 => r.rank1(p),
            1 => r.rank0(p),
            2 => r.rank(p, true),
            _ => r.rank(p, false),
        });
        c.evals += 2;
        c.covn("rank queries measured", 1);
        ck!(cost.reads <= RANK_READS, "rank-reads", "{} of {} bits: rank at {} read the bit vector {} times", who, n, p, cost.reads);
        ck!(cost.allocs == 0, "rank-allocates", "{} of {} bits: rank at {} made {} allocations", who, n, p, cost.allocs);
        most = most.max(cost.steps.unwrap_or(0));
    }
    Ok(most)
}
fn build_costs<T>(c: &mut Case, blocks: u64, who: &str, f: impl FnOnce() -> T) -> Result<(T, Option<u64>), mon::Viol> {
    let (x, cost) = must("build-panic", &|| who.to_string(), || measure(1000 + 64 * blocks, f))?;
    c.evals += 1;
    ck!(cost.reads <= 4 * blocks + 16, "build-reads", "building {} over {} blocks read the bit vector {} times", who, blocks, cost.reads);
    Ok((x, cost.steps))
}

fn table<B: Blk>(c: &mut Case) -> Vec<B> {
    let shape = c.rng.below(4);
    (0..c.rng.range(1, 60))
        .map(|_| {
            B::of(match shape {
                0 => u64::MAX,
                1 => 0,
                2 => c.rng.next() & c.rng.next() & c.rng.next(),
                _ => c.rng.next(),
            })
        })
        .collect()
}

/// The same queries on a short and on a long vector of the same kind.
fn growth_t<B: Blk>(c: &mut Case, lg: u64) -> R {
    let t = table::<B>(c);
    let short = c.rng.range(600, 1500);
    let long = c.rng.range(1 << (lg - 1), 1 << lg);
    c.mix(short);
    c.mix(long);
    c.nontrivial = true;
    c.t(|| format!("{} {} bits against {} bits", B::NAME, short, long));
    let mut seen: Vec<[u64; 4]> = vec![];
    for n in [short, long] {
        let blocks = ceil_div(n, B::NB);
        let lgn = 64 - n.leading_zeros() as u64;
        let g = ceil_div(lgn * lgn, B::NB) * B::NB;
        let (j, b1) = build_costs(c, blocks, "JacobsonRank", || JacobsonRank::new(CountingBits(Periodic::new(t.clone(), n))))?;
        let q1 = rank_costs(c, &j, n, g, "JacobsonRank")?;
        drop(j);
        let t64: Vec<u64> = t.iter().map(|b| b.u()).collect();
        let blocks = ceil_div(n, 64);
        let (r, b2) = build_costs(c, blocks, "Rank9", || Rank9::new(CountingBits(Periodic::new(t64, n))))?;
        let q2 = rank_costs(c, &r, n, 512, "Rank9")?;
        seen.push([q1, q2, b1.unwrap_or(0) / ceil_div(n, B::NB), b2.unwrap_or(0) / blocks]);
    }
    if steps().is_some() {
        c.cov("lengths compared by executed steps");
        let (a, b) = (seen[0], seen[1]);
        c.t(|| format!("steps {:?} against {:?}", a, b));
        for (k, what) in [(0, "JacobsonRank"), (1, "Rank9")] {
            ck!(b[k] <= 2 * a[k] + RANK_STEPS, "rank-steps", "{}<{}>: a rank query takes up to {} steps in {} bits, but {} in {} bits", what, B::NAME, a[k], short, b[k], long);
            ck!(b[k + 2] <= 3 * a[k + 2] + 200, "build-steps", "{}<{}>: building takes {} steps per block in {} bits, but {} in {} bits", what, B::NAME, a[k + 2], short, b[k + 2], long);
            c.evals += 2;
        }
    }
    Ok(())
}
fn growth(c: &mut Case) -> R {
    let k = c.rng.below(5);
    let hi = if c.thorough { 24 } else { 21 };
    let lg = c.rng.range(14, hi);
    with_blk!(k, growth_t, c, lg)
}
fn huge(c: &mut Case) -> R {
    let lg = if c.thorough { 33 } else { 28 };
    with_blk!(3, growth_t, c, lg)
}

fn lg_ceil(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}
fn select_cost(c: &mut Case, n: u64, who: &str, k: u64, f: impl FnOnce() -> Option<u64>) -> R {
    let bound = PER_BIT * lg_ceil(n) + FEW;
    let (_, cost) = measure(1_000_000, f);
    c.evals += 2;
    c.covn("select queries measured", 1);
    ck!(cost.reads <= bound, "select-ranks", "{} of {} bits: select of {} asked for {} ranks", who, n, k, cost.reads);
    ck!(cost.allocs == 0, "select-allocates", "{} of {} bits: select of {} made {} allocations", who, n, k, cost.allocs);
    if let Some(s) = cost.steps {
        // each rank query of the formula or structure is itself constant
        ck!(s <= 400 * bound + 400, "select-steps", "{} of {} bits: select of {} took {} steps", who, n, k, s);
    }
    Ok(())
}

fn selects(c: &mut Case) -> R {
    // real structures over real contents
    let max = c.rng.pick(&[64, 3_000, 100_000]);
    let n = c.rng.len(64, max);
    let m = pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = n > 0;
    let mut v = BitVector::<u64>::new();
    for &b in &m {
        v.push_bit(b);
    }
    let s = BinSearchSelect::new(CountingRank(Rank9::new(v.clone())));
    let j = BinSearchSelect::new(CountingRank(JacobsonRank::new(v)));
    let ones = m.iter().filter(|&&b| b).count() as u64;
    for _ in 0..40 {
        let k = match c.rng.below(5) {
            0 => ones.saturating_sub(c.rng.below(3)),
            1 => (n - ones).saturating_sub(c.rng.below(3)),
            2 => c.rng.below(3),
            3 => c.rng.below(n + 1),
            _ => c.rng.value(),
        };
        let b = c.rng.coin();
        select_cost(c, n, "select1 over Rank9", k, || s.select1(k))?;
        select_cost(c, n, "select0 over Rank9", k, || s.select0(k))?;
        select_cost(c, n, "select over Rank9", k, || s.select(k, b))?;
        select_cost(c, n, "select1 over JacobsonRank", k, || j.select1(k))?;
        select_cost(c, n, "select0 over JacobsonRank", k, || j.select0(k))?;
        select_cost(c, n, "select over JacobsonRank", k, || j.select(k, b))?;
    }
    Ok(())
}
/// Symbols and bits over limits up to 2^64 - 1.
fn formula(c: &mut Case) -> R {
    let r = &mut c.rng;
    let syms = r.range(1, 4);
    let limit = match r.below(3) {
        0 => u64::MAX - r.below(3),
        1 => r.below(1000),
        _ => r.value(),
    };
    let skip = match r.below(4) {
        0 => 0,
        1 => limit.saturating_sub(r.below(3)),
        2 => limit,
        _ => r.next() % limit.max(1),
    };
    let f = Formula { table: (0..r.range(1, 9)).map(|_| r.below(syms) as u8).collect(), skip, first: r.below(syms) as u8, limit };
    c.mix(limit);
    c.mix(skip);
    c.nontrivial = true;
    let s = BinSearchSelect::new(CountingRank(f.clone()));
    let mut fb = f.clone();
    for x in &mut fb.table {
        *x &= 1;
    }
    fb.first &= 1;
    let sb = BinSearchSelect::new(CountingRank(FormulaBits(fb)));
    for _ in 0..20 {
        let sym = c.rng.below(syms + 1) as u8;
        let t = f.total(sym);
        let k = match c.rng.below(4) {
            0 => t.saturating_sub(c.rng.below(3)),
            1 if t > 0 => c.rng.next() % t,
            2 => c.rng.below(3),
            _ => c.rng.value(),
        };
        select_cost(c, limit, "select over symbols", k, || s.select(k, sym))?;
        select_cost(c, limit, "select1 over bits", k, || sb.select1(k))?;
        select_cost(c, limit, "select0 over bits", k, || sb.select0(k))?;
    }
    ck!(s.limit() == limit, "limit", "limit");
    Ok(())
}
/// Small vectors, every query; the store's own blocks are what is counted.
fn small(c: &mut Case) -> R {
    let n = c.rng.len(64, 3000);
    let m = pattern(&mut c.rng, n, 64);
    mon::fp_bits(c, &m);
    c.nontrivial = n > 0;
    let mut v = BitVector::<u64>::new();
    for &b in &m {
        v.push_bit(b);
    }
    let blocks = v.block_len() as u64;
    let (j, _) = build_costs(c, blocks, "JacobsonRank", || JacobsonRank::new(CountingBits(v.clone())))?;
    rank_costs(c, &j, n, 64, "JacobsonRank")?;
    let (r, _) = build_costs(c, blocks, "Rank9", || Rank9::new(CountingBits(v.clone())))?;
    rank_costs(c, &r, n, 512, "Rank9")?;
    let s = BinSearchSelect::new(r);
    rank_costs(c, &s, n, 512, "BinSearchSelect(Rank9)")?;
    Ok(())
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl("small", 1_500, 60_000, small),
        wl("growth", 160, 3_000, growth),
        wl("selects", 2_500, 80_000, selects),
        wl("formula", 10_000, 400_000, formula),
        wl_serial("huge", 1, 1, huge),
    ]
}
