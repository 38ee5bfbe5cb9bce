//! C20: blocks are stored in the requested byte order and read back exactly.
use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, NetworkEndian};
use mon::streams::{Log, ScriptRead, ScriptWrite, Step};
use mon::{ck, ckeq, must, wl, wl_fixed, with_blk, Blk, Case, Viol, Workload, R};
use std::cell::RefCell;
use std::io::{Cursor, Read, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ord {
    Big,
    Little,
    Net,
    Native,
}
const ORDS: [Ord; 4] = [Ord::Big, Ord::Little, Ord::Net, Ord::Native];

fn wr<B: Blk, W: Write>(b: B, w: &mut W, o: Ord) -> std::io::Result<()> {
    match o {
        Ord::Big => b.write_block::<_, BigEndian>(w),
        Ord::Little => b.write_block::<_, LittleEndian>(w),
        Ord::Net => b.write_block::<_, NetworkEndian>(w),
        Ord::Native => b.write_block::<_, NativeEndian>(w),
    }
}
fn rd<B: Blk, S: Read>(s: &mut S, o: Ord) -> std::io::Result<B> {
    match o {
        Ord::Big => B::read_block::<_, BigEndian>(s),
        Ord::Little => B::read_block::<_, LittleEndian>(s),
        Ord::Net => B::read_block::<_, NetworkEndian>(s),
        Ord::Native => B::read_block::<_, NativeEndian>(s),
    }
}
/// The bytes by arithmetic.
fn image<B: Blk>(x: u64, o: Ord) -> Vec<u8> {
    let n = B::NB / 8;
    let big = match o {
        Ord::Big | Ord::Net => true,
        Ord::Little => false,
        Ord::Native => cfg!(target_endian = "big"),
    };
    (0..n).map(|i| (x >> (8 * if big { n - 1 - i } else { i })) as u8).collect()
}

fn one<B: Blk>(c: &mut Case, x: u64, o: Ord) -> R {
    let b = B::of(x);
    let x = b.u();
    let want = image::<B>(x, o);
    c.evals += 3;
    let mut w = vec![];
    let r = must("panic", &|| format!("{}::write_block({:#x}, {:?})", B::NAME, x, o), || wr(b, &mut w, o))?;
    ck!(r.is_ok() && w == want, "bytes", "{}::write_block({:#x}, {:?}) wrote {:?} ({:?}), expected {:?}", B::NAME, x, o, w, r, want);
    // into a slice of exactly the right size
    let mut room = vec![0u8; want.len()];
    {
        let mut s = &mut room[..];
        let r = wr(b, &mut s, o);
        ck!(r.is_ok() && s.is_empty(), "bytes", "{}::write_block into {} bytes: {:?}, {} left", B::NAME, want.len(), r, s.len());
    }
    ckeq!(&room, &want, "bytes", "{}::write_block({:#x}, {:?}) into a slice", B::NAME, x, o);
    // back, with more behind it
    w.extend([0xA5, 0x5A, 0xFF]);
    let mut cur = Cursor::new(&w);
    let r = must("panic", &|| format!("{}::read_block", B::NAME), || rd::<B, _>(&mut cur, o))?;
    match r {
        Ok(y) => ckeq!(y.u(), x, "value", "{}::read_block({:?}) of {:?}", B::NAME, o, want),
        Err(e) => ck!(false, "value", "{}::read_block({:?}) of {:?} failed: {}", B::NAME, o, want, e),
    }
    ckeq!(cur.position(), B::NB / 8, "consumed", "{}::read_block: bytes consumed", B::NAME);
    c.cov(B::NAME);
    Ok(())
}
/// Every value of the small blocks, one byte anywhere in the large ones.
fn table_t<B: Blk>(c: &mut Case) -> R {
    for o in ORDS {
        if B::NB <= 16 {
            for x in 0..1u64 << B::NB {
                one::<B>(c, x, o)?;
            }
        }
        for i in 0..B::NB / 8 {
            for v in 0..256 {
                one::<B>(c, v << (8 * i), o)?;
                one::<B>(c, !(v << (8 * i)), o)?;
            }
        }
    }
    Ok(())
}
fn table(c: &mut Case) -> R {
    c.nontrivial = true;
    c.mix(c.index);
    let k = c.index;
    with_blk!(k, table_t, c)
}
fn random(c: &mut Case) -> R {
    c.nontrivial = true;
    let x = c.rng.value();
    let k = c.rng.below(5);
    let o = c.rng.pick(&ORDS);
    c.mix(x);
    c.mix(k);
    with_blk!(k, one, c, x, o)
}

fn put<B: Blk>(w: &mut ScriptWrite, x: u64, o: Ord) -> std::io::Result<Vec<u8>> {
    let b = B::of(x);
    wr(b, w, o)?;
    Ok(image::<B>(b.u(), o))
}
fn get<B: Blk>(r: &mut ScriptRead, x: u64, o: Ord) -> Result<(), Viol> {
    let want = B::of(x).u();
    let had = r.pos;
    let got = must("panic", &|| "read_block".to_string(), || rd::<B, _>(r, o))?;
    match got {
        Ok(y) => ckeq!(y.u(), want, "value", "{}::read_block({:?}) at byte {}", B::NAME, o, had),
        Err(e) => ck!(false, "value", "{}::read_block({:?}) at byte {} failed: {}", B::NAME, o, had, e),
    }
    ckeq!(r.pos - had, (B::NB / 8) as usize, "consumed", "{}::read_block: bytes consumed", B::NAME);
    Ok(())
}
/// Mixed sizes and orders through streams that give and take a few bytes at a time.
fn mixed(c: &mut Case) -> R {
    c.nontrivial = true;
    let mut items = vec![];
    for _ in 0..c.rng.range(1, 30) {
        let it = (c.rng.below(5), c.rng.value(), c.rng.pick(&ORDS));
        c.mix(it.0 ^ it.1.rotate_left(7));
        items.push(it);
    }
    c.t(|| format!("{:?}", items));
    let script = |c: &mut Case| -> Vec<Step> {
        if c.rng.coin() {
            return vec![];
        }
        (0..c.rng.below(120)).map(|_| if c.rng.chance(1, 5) { Step::Interrupt } else { Step::Take(c.rng.range(1, 9) as usize) }).collect()
    };
    let log = Rc::new(RefCell::new(Log::default()));
    let sc = script(c);
    let mut w = ScriptWrite { data: vec![], script: sc, log: log.clone(), flushes: 0 };
    let mut want = vec![];
    for &(k, x, o) in &items {
        let r = must("panic", &|| "write_block".to_string(), || with_blk!(k, put, &mut w, x, o))?;
        c.evals += 1;
        match r {
            Ok(img) => want.extend(img),
            Err(e) => ck!(false, "bytes", "write_block failed: {}", e),
        }
        ck!(w.data == want, "bytes", "after writing block type {} value {:#x} {:?}: {:?}, expected {:?}", k, x, o, w.data, want);
    }
    let log2 = Rc::new(RefCell::new(Log::default()));
    let sc = script(c);
    let mut r = ScriptRead { data: &want, pos: 0, script: sc, log: log2.clone() };
    for &(k, x, o) in &items {
        c.evals += 1;
        with_blk!(k, get, &mut r, x, o)?;
    }
    ckeq!(r.pos, want.len(), "consumed", "bytes consumed by the whole sequence");
    c.covn("short byte calls", log.borrow().shorts + log2.borrow().shorts);
    c.cov("mixed sequences");
    Ok(())
}

/// What is written in one order read in the other is the value with its bytes reversed.
fn swapped_t<B: Blk>(c: &mut Case) -> R {
    let x = B::of(c.rng.value()).u();
    c.mix(x);
    let mut w = vec![];
    let _ = wr(B::of(x), &mut w, Ord::Big);
    let y = must("panic", &|| "read_block".to_string(), || rd::<B, _>(&mut &w[..], Ord::Little))?;
    let want = x.swap_bytes() >> (64 - B::NB);
    c.evals += 1;
    ck!(matches!(y, Ok(y) if y.u() == want), "swap", "{}: {:#x} written big endian, read little endian: {:?}", B::NAME, x, y);
    Ok(())
}
fn swapped(c: &mut Case) -> R {
    c.nontrivial = true;
    let k = c.rng.below(5);
    with_blk!(k, swapped_t, c)
}

pub fn workloads() -> Vec<Workload> {
    vec![
        wl_fixed("table", 5, table),
        wl("random", 100_000, 5_000_000, random),
        wl("mixed", 20_000, 1_000_000, mixed),
        wl("swapped", 20_000, 500_000, swapped),
    ]
}
#[allow(dead_code)]
fn _t<T: ByteOrder>() {}
