//! Narrow bit blocks, as a user of the crate may write them: a tree of width 2 or 4 is small enough
//! to enumerate *all* its contents, not only subsets of a universe of keys.
use hibit_tree::bit_queue::PrimitiveBitQueue;
use hibit_tree::BitBlock;
use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign};

#[derive(Clone, PartialEq, Eq)]
pub struct Tiny<const W: usize>([u64; 1]);

impl<const W: usize> BitAnd for Tiny<W> {
    type Output = Self;
    fn bitand(self, o: Self) -> Self {
        Tiny([self.0[0] & o.0[0]])
    }
}
impl<const W: usize> BitOr for Tiny<W> {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        Tiny([self.0[0] | o.0[0]])
    }
}
impl<const W: usize> BitAndAssign for Tiny<W> {
    fn bitand_assign(&mut self, o: Self) {
        self.0[0] &= o.0[0]
    }
}
impl<const W: usize> BitOrAssign for Tiny<W> {
    fn bitor_assign(&mut self, o: Self) {
        self.0[0] |= o.0[0]
    }
}
impl<'a, const W: usize> BitAndAssign<&'a Self> for Tiny<W> {
    fn bitand_assign(&mut self, o: &'a Self) {
        self.0[0] &= o.0[0]
    }
}
impl<'a, const W: usize> BitOrAssign<&'a Self> for Tiny<W> {
    fn bitor_assign(&mut self, o: &'a Self) {
        self.0[0] |= o.0[0]
    }
}
impl<const W: usize> BitBlock for Tiny<W> {
    const SIZE: usize = W;
    fn zero() -> Self {
        Tiny([0])
    }
    type BitsIter = PrimitiveBitQueue<u64>;
    fn into_bits_iter(self) -> Self::BitsIter {
        PrimitiveBitQueue::new(self.0[0])
    }
    type Array = [u64; 1];
    fn as_array(&self) -> &[u64; 1] {
        &self.0
    }
    fn as_array_mut(&mut self) -> &mut [u64; 1] {
        &mut self.0
    }
    fn count_ones(&self) -> usize {
        self.0[0].count_ones() as usize
    }
}
