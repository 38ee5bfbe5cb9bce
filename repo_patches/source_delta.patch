From 1eff9d959bb61d847f485aa43198318e8155fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 01/24] fix: ceil_div_nbits near u64::MAX

Rounding up by adding nbits - 1 overflowed for indices close to u64::MAX:
with overflow checks that was a panic of the checked version too, and without
them it wrapped, so BitVector::with_fill(u64::MAX, b) made an empty vector.
---
 src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..3b0abea 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = (Self::mod_nbits(index) != 0) as usize;
+        Self::div_nbits(index) + extra
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +70,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = (Self::mod_nbits(index) != 0) as usize;
+        Self::checked_div_nbits(index).and_then(|blocks| blocks.checked_add(extra))
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From 02b167da30f9314f43d60cfdb002582e30d4d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 02/24] fix: ceil_div overflowing near the type's maximum

self + divisor - 1 overflowed although the quotient is representable.
---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 3b0abea..2983774 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -225,7 +225,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        if self == Self::zero() { return Self::zero() / divisor; }
+        (self - Self::one()) / divisor + Self::one()
     }
 
     // I/O methods
-- 
2.43.0


From 058d2fb7a37ad03878da5f623dfd91fc39bc7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/24] fix: bounds check of BlockType::get_bits and with_bits

start + len wrapped without overflow checks, so that spans such as
(usize::MAX, 1) passed the bounds check and gave an arbitrary result.
---
 src/storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2983774..7adfa02 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -180,8 +180,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
-                "Block::get_bits: out of bounds");;
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
+                "Block::get_bits: out of bounds");
 
         if len == 0 { return Self::zero(); }
 
@@ -195,7 +195,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From ad78a33d204a2ac093aa7358011f19e6a29f6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/24] fix: empty bit spans at the end of a bit vector

get_bits(len, 0) and set_bits(len, 0, x) are in bounds, but indexed the
block after the last when len is a multiple of the block size.

IntVector::with_fill relied on that panic to refuse a width of 0 before
looping over its elements; it now checks the width first.
---
 src/bit_vec/traits.rs     | 4 ++++
 src/int_vec/int_vector.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..1e16fb2 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,8 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +162,8 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index 998aec3..d0be83d 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -92,6 +92,7 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Creates a new integer vector containing `len` copies of `value`.
     pub fn with_fill(element_bits: usize, len: u64, value: Block) -> Self {
+        Self::check_element_bits(element_bits);
         Self::create(element_bits,
                      VectorBase::with_fill(element_bits, len, value))
     }
-- 
2.43.0


From acb9a7ed680bfe5e0b5587f0e70e48f90d14adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 05/24] fix: bounds check of the default BitVecMut::set_block

A position whose bit address wraps around u64, such as 1 << 61 for u8
blocks, overwrote the first block instead of panicking.
---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1e16fb2..d626177 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -138,6 +138,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 4456ef9dbff79a58a9726eff5b43e99664408aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 06/24] fix: block access to bit slices

Getting or setting the partial last block of a slice panicked, and a block
position whose bit address wraps around u64 accessed the first block.
---
 src/bit_vec/bit_slice.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..471dbdd 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -20,6 +20,18 @@ pub struct BitSliceMut<'a, Base: 'a + BitVecMut + ?Sized> {
     len: u64,
 }
 
+/// The number of bits in the block at `position`, which is less than
+/// `nbits` for a partial last block.
+fn block_bits<Bits: BitVec>(bits: &Bits, position: usize) -> usize {
+    assert!(position < bits.block_len(), "BitSlice: block out of bounds");
+
+    if position + 1 == bits.block_len() {
+        Bits::Block::last_block_bits(bits.bit_len())
+    } else {
+        Bits::Block::nbits()
+    }
+}
+
 impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
     /// Slices base to the specified range.
     pub fn new<R: IntoRange<u64>>(base: &'a Base, range: R) -> Self {
@@ -108,7 +120,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        self.get_bits(Self::Block::mul_nbits(position),
+                      block_bits(self, position))
     }
 }
 
@@ -134,7 +147,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        self.get_bits(Self::Block::mul_nbits(position),
+                      block_bits(self, position))
     }
 }
 
@@ -153,8 +167,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        let count = block_bits(self, position);
+        self.set_bits(Self::Block::mul_nbits(position), count, value);
     }
 }
 
-- 
2.43.0


From 91919e685bc014a7bbbfc24121225c65e8cc0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 07/24] fix: reserve and reserve_exact reserving too little

Vec::reserve counts from the vector's length, not from its capacity, so
with some capacity in hand the promised capacity was not reached.
---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From 8af5087e47e8587d30055c2950f79e14622c58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 08/24] fix: nth past the end of an iterator

It moved start beyond limit, so that len and size_hint underflowed.
---
 src/internal/vector_base.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..aaac685 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -390,7 +390,8 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        self.start = self.start.saturating_add(n as u64);
+        if self.start > self.limit { self.start = self.limit; }
         self.next()
     }
 }
-- 
2.43.0


From 3f0e34c8b6667932ae3846c28e3d3f907cfd0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 09/24] fix: JacobsonRank of empty and one-bit vectors

lg n is 0 for them, so that construction divided by zero or asked for
zero-width integers.
---
 src/rank/jacobson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..056ce32 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -26,12 +26,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = lg2_n.ceil_div(small_block_size).max(1);
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = (n + 1).ceil_lg().max(1);
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 5ba75ea417712d5de942a039c357b0d5482ce539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 10/24] fix: JacobsonRank counting extra bits of the last block

BitVec::get_block may return extra bits in the last block. They were counted
into the final ranks, which then could exceed the width of their fields and
make construction panic.
---
 src/rank/jacobson.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 056ce32..3984cdf 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -52,7 +52,13 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == bits.block_len() {
+                // The last block may contain extra bits.
+                block = block & Store::Block::low_mask(
+                    Store::Block::last_block_bits(n));
+            }
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From 9d7b5ffb609628220281aee48321ecbf99d1de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 11/24] fix: bounds check of Rank9::rank1

Positions past the end but inside the last block gave an answer.
---
 src/rank/rank9.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..d8a6ca8 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,8 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(), "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From fbfa6015b85d5099f1812aa190f985eb56af2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/24] fix: bounds checks of rank on primitive words and
 Broadword

Without debug assertions, ranks past the end gave an arbitrary answer
instead of the documented panic.
---
 src/broadword.rs | 2 +-
 src/rank/prim.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..6855660 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From e6fb946a16ffa3822aad342fcf0b1c33932d64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/24] fix: select of u64::MAX

index + 1 overflowed: a panic with overflow checks, and without them the
answer was position 0 instead of none.
---
 src/select/bin_search.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..ad82f19 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,9 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|count|
+                    binary_search_function(0, self.limit(), count,
+                                           |i| self.$rank(i)))
             }
         }
     }
@@ -67,8 +68,9 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|count|
+            binary_search_function(0, self.limit(), count,
+                                   |i| self.rank(i, value)))
     }
 }
 
-- 
2.43.0


From 49499d4f18e50378b02254b7aea5c74dcfb7ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 14/24] fix: broadword select for large ranks

select1 is a comparison of bytes, so for ranks of 128 and more it found
bits that don't exist. Broadword::select1 also truncated its index on
32-bit platforms.
---
 src/broadword.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 6855660..10cd343 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -46,6 +46,7 @@ impl RankSupport for Broadword {
 
 impl Select1Support for Broadword {
     fn select1(&self, index: u64) -> Option<u64> {
+        if index >= 64 { return None; }
         select1(index as usize, self.0).map(|u| u as u64)
     }
 }
@@ -78,6 +79,9 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    // Beyond this, r doesn't fit the bytes it is compared in.
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From 065b5a678a5fa92abbf9ea34e7946b63c60a6c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 15/24] fix: write_int_be for zero bits and for signed integers

With nbits == 0 it underflowed. The full width of a signed type started from
a negative mask, whose arithmetic shift tested several bits at once.
---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..8c041b8 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit(value >> i & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 9fff076c379dd187dcbf9fb15f756ed7eb87e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 16/24] fix: Omega silently encoding 0 as 1

Like the other Elias codes it doesn't handle 0, and now says so.
---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..a0c38bf 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From f5fe08f3df96b813e0e7961ff7f3c9eaacdf0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 17/24] fix: Omega::decode of numbers that don't fit 64 bits

It panicked shifting by the group's width, or without overflow checks
returned some other number.
---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index a0c38bf..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -81,6 +81,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From 8e73897d5d38ebbbd8cdc0abf2716271539c39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 18/24] fix: Fibonacci::decode of truncated and overlong input

The sum of the terms could overflow, and a code word cut short within its
leading zeros was reported as a benign end of file.
---
 src/coding/fib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..1ce83fc 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,21 +72,27 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
+            consumed = true;
+
             if bit && previous {
                 return Ok(Some(result));
             }
 
             if bit {
-                result += fib.i;
+                result = match fib.i.checked_add(result) {
+                    Some(sum) => sum,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
             previous = bit;
         }
 
-        if result == 0 {
+        if !consumed {
             Ok(None)
         } else {
             out_of_bits("Fibonacci::decode")
-- 
2.43.0


From 1f33e329fb6062b7b69f2a8ca3b7a63c59c839cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 19/24] fix: Comma::decode of numbers that don't fit 64 bits

It panicked on overflow, or without overflow checks returned some other
number.
---
 src/coding/comma.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..fdd4ae0 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -28,7 +28,7 @@ impl UniversalCode for Comma {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let base = (1 << self.0) - 1;
+        let base = (1u64 << self.0) - 1;
         let mut result = 0;
         let mut consumed = false;
 
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match base.checked_mul(result)
+                                   .and_then(|n| n.checked_add(digit)) {
+                    Some(next) => next,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From 2308fe7020756f44e908d1f83cbfaf498def37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 20/24] fix: Lift0::decode of a code word for 0

Lift0 never writes one, but over codes that can represent 0 it may be read;
subtracting one then panicked, or without overflow checks gave u64::MAX.
---
 src/coding/trans.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..a859d21 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -1,3 +1,5 @@
+use std::io::{Error, ErrorKind};
+
 use super::*;
 use internal::errors::*;
 use stream::*;
@@ -19,6 +21,8 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => Err(Error::new(ErrorKind::InvalidData,
+                                          "Lift0::decode: invalid code")),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
-- 
2.43.0


From 8fe2c28a00cd1c5adc85f20539cab5ee55d80fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 21/24] fix: IntVector indices truncated on 32-bit platforms

With block-sized elements an index of 1 << 32 and more accessed the element
at its low 32 bits instead of panicking.
---
 src/int_vec/int_vector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index d0be83d..6c7fa08 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -1,5 +1,7 @@
 use std::fmt;
 
+use num_traits::ToPrimitive;
+
 use super::*;
 use bit_vec::{BitVec, BitVecMut};
 use internal::vector_base::{VectorBase, self};
@@ -61,6 +63,12 @@ impl<Block: BlockType> IntVector<Block> {
         .expect("IntVector: index overflow")
     }
 
+    /// The index of the block holding a block-sized element.
+    #[inline]
+    fn block_index(element_index: u64) -> usize {
+        element_index.to_usize().expect("IntVector: index overflow")
+    }
+
     /// Creates a new integer vector.
     ///
     /// # Arguments
@@ -305,7 +313,7 @@ impl<Block: BlockType> IntVec for IntVector<Block> {
 
     fn get(&self, element_index: u64) -> Block {
         if self.is_block_sized() {
-            return self.base.get_block(element_index as usize);
+            return self.base.get_block(Self::block_index(element_index));
         }
 
         let address = self.compute_address(element_index);
@@ -321,7 +329,7 @@ impl<Block: BlockType> IntVecMut for IntVector<Block> {
     fn set(&mut self, element_index: u64, element_value: Block) {
         if self.is_block_sized() {
             self.base.set_block(self.element_bits,
-                                element_index as usize,
+                                Self::block_index(element_index),
                                 element_value);
             return;
         }
-- 
2.43.0


From 93aaa638e8ecea592c3e3f2b8ca7287eccdfd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 22/24] fix: le8 compares bytes of different sign correctly

---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 10cd343..1b96f03 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -101,7 +101,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) | (x ^ y)) ^ (y & !x)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 792ae8a7fed53b81b5aa0455a44c2764015a26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 23/24] fix: JacobsonRank index allocated twice the space it
 needs

The capacity asked for was one count short of what is pushed whenever the
length is not a whole number of blocks, so the last push could double the
allocation.
---
 src/rank/jacobson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 3984cdf..d413470 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -28,8 +28,8 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let small_block_size  = Store::Block::nbits();
         let small_per_large   = lg2_n.ceil_div(small_block_size).max(1);
         let large_block_size  = small_block_size * small_per_large;
-        let large_block_count = n / large_block_size as u64 + 1;
-        let small_block_count = n / small_block_size as u64 + 1;
+        let large_block_count = bits.block_len().ceil_div(small_per_large) as u64 + 1;
+        let small_block_count = bits.block_len() as u64 + 1;
 
         let large_meta_size   = (n + 1).ceil_lg().max(1);
         let small_meta_size   = (large_block_size + 1).ceil_lg();
-- 
2.43.0


From 4c91f5436b34143d7e60f4a9949051b4aded2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 24/24] fix: BitVector::resize to an impossible size completed
 the last block before failing

---
 src/bit_vec/bit_vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/bit_vector.rs b/src/bit_vec/bit_vector.rs
index 48944dd..b145728 100644
--- a/src/bit_vec/bit_vector.rs
+++ b/src/bit_vec/bit_vector.rs
@@ -82,6 +82,10 @@ impl<Block: BlockType> BitVector<Block> {
         if new_len < self.bit_len() || !value {
             self.block_resize(new_block_len, Block::zero());
         } else {
+            // Refuses an impossible size before anything is changed.
+            let additional = new_block_len - self.block_len();
+            self.block_reserve(additional);
+
             let trailing = Block::last_block_bits(self.bit_len());
             let remaining = Block::nbits() - trailing;
             for _ in 0 .. remaining {
-- 
2.43.0

