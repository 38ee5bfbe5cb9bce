//! Block types of a user's own: newtypes that implement what `BlockType` requires and nothing it provides,
//! so that the library's provided methods run.
use crate::Blk;
use byteorder::ByteOrder;
use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, NumCast, One, PrimInt, Saturating, ToPrimitive, Zero};
use std::io;
use std::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Not, Rem, Shl, Shr, Sub};
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::SpaceUsage;
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut};

macro_rules! bin {
    ($W:ident: $($Tr:ident $f:ident),*) => { $(impl $Tr for $W {
        type Output = $W;
        #[inline] fn $f(self, o: $W) -> $W { $W($Tr::$f(self.0, o.0)) }
    })* };
}
macro_rules! checked {
    ($W:ident: $($Tr:ident $f:ident),*) => { $(impl $Tr for $W {
        #[inline] fn $f(&self, o: &$W) -> Option<$W> { self.0.$f(o.0).map($W) }
    })* };
}
macro_rules! delegate {
    ($W:ident: $($f:ident($($a:ident: $A:ty),*) -> $R:ty => $wrap:expr),*) => {
        $(#[inline] fn $f(self $(, $a: $A)*) -> $R { $wrap(PrimInt::$f(self.0 $(, $a)*)) })*
    };
}
macro_rules! user_blk {
    ($W:ident, $t:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $W(pub $t);
        bin!($W: Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);
        checked!($W: CheckedAdd checked_add, CheckedSub checked_sub, CheckedMul checked_mul, CheckedDiv checked_div);
        impl Not for $W { type Output = $W; #[inline] fn not(self) -> $W { $W(!self.0) } }
        impl Shl<usize> for $W { type Output = $W; #[inline] fn shl(self, n: usize) -> $W { $W(self.0 << n) } }
        impl Shr<usize> for $W { type Output = $W; #[inline] fn shr(self, n: usize) -> $W { $W(self.0 >> n) } }
        impl Zero for $W { #[inline] fn zero() -> $W { $W(0) } #[inline] fn is_zero(&self) -> bool { self.0 == 0 } }
        impl One for $W { #[inline] fn one() -> $W { $W(1) } }
        impl Num for $W {
            type FromStrRadixErr = <$t as Num>::FromStrRadixErr;
            fn from_str_radix(s: &str, r: u32) -> Result<$W, Self::FromStrRadixErr> { <$t as Num>::from_str_radix(s, r).map($W) }
        }
        impl ToPrimitive for $W {
            fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
            fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
            fn to_i128(&self) -> Option<i128> { self.0.to_i128() }
            fn to_u128(&self) -> Option<u128> { self.0.to_u128() }
        }
        impl NumCast for $W { fn from<T: ToPrimitive>(x: T) -> Option<$W> { <$t as NumCast>::from(x).map($W) } }
        impl Bounded for $W { fn min_value() -> $W { $W($t::MIN) } fn max_value() -> $W { $W($t::MAX) } }
        impl Saturating for $W {
            fn saturating_add(self, o: $W) -> $W { $W(self.0.saturating_add(o.0)) }
            fn saturating_sub(self, o: $W) -> $W { $W(self.0.saturating_sub(o.0)) }
        }
        impl PrimInt for $W {
            delegate!($W: count_ones() -> u32 => |x| x, count_zeros() -> u32 => |x| x, leading_zeros() -> u32 => |x| x, trailing_zeros() -> u32 => |x| x,
                rotate_left(n: u32) -> $W => $W, rotate_right(n: u32) -> $W => $W, signed_shl(n: u32) -> $W => $W, signed_shr(n: u32) -> $W => $W,
                unsigned_shl(n: u32) -> $W => $W, unsigned_shr(n: u32) -> $W => $W, swap_bytes() -> $W => $W, to_be() -> $W => $W, to_le() -> $W => $W, pow(n: u32) -> $W => $W);
            fn from_be(x: $W) -> $W { $W($t::from_be(x.0)) }
            fn from_le(x: $W) -> $W { $W($t::from_le(x.0)) }
        }
        impl SpaceUsage for $W { fn is_stack_only() -> bool { true } fn heap_bytes(&self) -> usize { 0 } }
        impl BitVec for $W {
            type Block = $W;
            fn bit_len(&self) -> u64 { $t::BITS as u64 }
            fn get_block(&self, i: usize) -> $W { assert!(i == 0); *self }
        }
        impl BitVecMut for $W {
            fn set_block(&mut self, i: usize, x: $W) { assert!(i == 0); *self = x; }
        }
        impl RankSupport for $W {
            type Over = bool;
            fn rank(&self, p: u64, v: bool) -> u64 { if v { self.rank1(p) } else { self.rank0(p) } }
            fn limit(&self) -> u64 { $t::BITS as u64 }
        }
        impl BitRankSupport for $W {
            fn rank1(&self, p: u64) -> u64 { assert!(p < $t::BITS as u64); (self.0 << ($t::BITS as u64 - 1 - p)).count_ones() as u64 }
        }
        impl BlockType for $W {
            fn read_block<R: io::Read, T: ByteOrder>(r: &mut R) -> io::Result<$W> {
                let mut b = [0; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                let n = b.len();
                Ok($W(T::read_uint128(&b, n) as $t))
            }
            fn write_block<S: io::Write, T: ByteOrder>(&self, s: &mut S) -> io::Result<()> {
                let mut b = [0; std::mem::size_of::<$t>()];
                let n = b.len();
                T::write_uint128(&mut b, self.0 as u128, n);
                s.write_all(&b)
            }
        }
        impl Blk for $W {
            const NAME: &'static str = stringify!($W);
            const NB: u64 = $t::BITS as u64;
            #[inline] fn of(x: u64) -> $W { $W(x as $t) }
            #[inline] fn u(self) -> u64 { self.0 as u64 }
        }
    };
}
user_blk!(W8, u8);
user_blk!(W16, u16);
user_blk!(W32, u32);
user_blk!(W64, u64);
// Wider than any built-in block. `Blk::u` gives its low half only.
user_blk!(W128, u128);

/// Dispatch on a user's block type.
#[macro_export]
macro_rules! with_user_blk {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k % 2 {
            0 => $f::<$crate::userblk::W16>($($arg),*),
            _ => $f::<$crate::userblk::W64>($($arg),*),
        }
    };
}
