//! Block types under test.
use std::fmt::Debug;
use std::hash::Hash;
use succinct::storage::BlockType;

pub trait Blk: BlockType + Hash + Send + Sync + Debug + 'static {
    const NAME: &'static str;
    const NB: u64;
    fn of(x: u64) -> Self;
    fn u(self) -> u64;
}
macro_rules! blk {
    ($($t:ident),*) => { $(impl Blk for $t {
        const NAME: &'static str = stringify!($t);
        const NB: u64 = $t::BITS as u64;
        #[inline] fn of(x: u64) -> Self { x as $t }
        #[inline] fn u(self) -> u64 { self as u64 }
    })* };
}
blk!(u8, u16, u32, u64, usize);

/// Dispatch on a block type index 0..5.
#[macro_export]
macro_rules! with_blk {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k % 5 {
            0 => $f::<u8>($($arg),*),
            1 => $f::<u16>($($arg),*),
            2 => $f::<u32>($($arg),*),
            3 => $f::<u64>($($arg),*),
            _ => $f::<usize>($($arg),*),
        }
    };
}

/// Mask of the low n bits, n in 0..=64.
#[inline]
pub fn mask(n: u64) -> u64 {
    if n >= 64 {
        u64::MAX
    } else {
        (1u64 << n) - 1
    }
}
