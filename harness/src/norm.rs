//! Normal form of whatever a tree yields, and generic walkers over the public tree interface.

use crate::arena::tracked;
use crate::val::TVal;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::ops::{multi_intersection, multi_union};
use hibit_tree::utils::{Array, Ref};
use hibit_tree::{BitBlock, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes};
use std::ops::ControlFlow;

/// Structural token of a yielded item.
pub type Tok = u64;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}
pub const PAIR: u64 = 0x11;
pub const NONE: u64 = 0x22;
pub const SOME: u64 = 0x33;
pub const LIST: u64 = 0x44;

pub fn t_pair(a: Tok, b: Tok) -> Tok {
    mix(mix(PAIR, a), b)
}
pub fn t_opt(a: Option<Tok>) -> Tok {
    match a {
        None => NONE,
        Some(a) => mix(SOME, a),
    }
}
pub fn t_list(it: impl Iterator<Item = Tok>) -> Tok {
    let mut h = LIST;
    let mut n = 0;
    for x in it {
        h = mix(h, x);
        n += 1;
    }
    mix(h, n)
}

pub trait Norm {
    fn norm(self) -> Tok;
}
impl<T: TVal> Norm for &T {
    fn norm(self) -> Tok {
        self.id()
    }
}
impl Norm for u64 {
    fn norm(self) -> Tok {
        self
    }
}
impl Norm for crate::val::Own {
    fn norm(self) -> Tok {
        self.id()
    }
}
impl<A: Norm, B: Norm> Norm for (A, B) {
    fn norm(self) -> Tok {
        t_pair(self.0.norm(), self.1.norm())
    }
}
impl<A: Norm> Norm for Option<A> {
    fn norm(self) -> Tok {
        t_opt(self.map(|a| a.norm()))
    }
}
impl<T: Norm, const N: usize> Norm for arrayvec::IntoIter<T, N> {
    fn norm(self) -> Tok {
        t_list(self.map(|x| x.norm()))
    }
}
macro_rules! norm_iter {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> Norm for $t where $t: Iterator<Item: Norm>, I: Iterator<Item: Ref<Type: HibitTree>> {
            fn norm(self) -> Tok { t_list(self.map(|x| x.norm())) }
        }
    )*};
}
norm_iter!(
    [I] multi_intersection::DataUnchecked<I>,
    [I] multi_union::DataUnchecked<I>,
    ['c, 'i, I] multi_intersection::CursorData<'c, 'i, I>,
    ['c, 'i, I] multi_union::CursorData<'c, 'i, I>,
);

pub fn words<M: BitBlock>(m: &M) -> [u64; 4] {
    let mut w = [0u64; 4];
    for i in 0..M::SIZE {
        if m.get_bit(i) {
            w[i / 64] |= 1 << (i % 64)
        }
    }
    w
}
pub fn bit(w: &[u64; 4], i: usize) -> bool {
    w[i / 64] >> (i % 64) & 1 == 1
}
pub fn bits(w: &[u64; 4]) -> impl Iterator<Item = usize> + '_ {
    (0..256).filter(|i| bit(w, *i))
}

/// Key distance between two neighbour children of a node at `level`.
pub fn stride(width: usize, depth: usize, level: usize) -> usize {
    1usize << (width.trailing_zeros() as usize * (depth - 1 - level))
}
pub fn digit(width: usize, depth: usize, level: usize, key: usize) -> usize {
    (key / stride(width, depth, level)) % width
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mode {
    /// use select_level_node_unchecked where the node exists
    pub sel_unchecked: bool,
    pub data_unchecked: bool,
}
pub const MODES: [Mode; 4] = [
    Mode { sel_unchecked: false, data_unchecked: false },
    Mode { sel_unchecked: true, data_unchecked: true },
    Mode { sel_unchecked: true, data_unchecked: false },
    Mode { sel_unchecked: false, data_unchecked: true },
];

/// Visit the whole hierarchy through the cursor.
pub trait Sink {
    /// (level, first key of the node, mask)
    fn node(&mut self, level: usize, start: usize, mask: &[u64; 4]);
    fn item(&mut self, key: usize, tok: Option<Tok>);
}

pub fn walk<'s, T>(t: &'s T, mode: Mode, sink: &mut dyn Sink)
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let mut c = tracked(|| <T as HibitTreeTypes<'s>>::Cursor::new(t));
    walk_in::<T, ConstUsize<0>>(t, &mut c, mode, ConstUsize::<0>, 0, 0, sink)
}
fn walk_in<'s, T, N: ConstInteger>(
    t: &'s T,
    c: &mut <T as HibitTreeTypes<'s>>::Cursor,
    mode: Mode,
    n: N,
    idx: usize,
    start: usize,
    sink: &mut dyn Sink,
) where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let mask = tracked(|| unsafe {
        if mode.sel_unchecked {
            c.select_level_node_unchecked(t, n, idx)
        } else {
            c.select_level_node(t, n, idx)
        }
    });
    let w = words(&mask);
    sink.node(N::VALUE, start, &w);
    let st = stride(T::LevelMask::SIZE, T::LevelCount::VALUE, N::VALUE);
    if N::VALUE == T::LevelCount::VALUE - 1 {
        for b in bits(&w) {
            let d = tracked(|| unsafe {
                if mode.data_unchecked {
                    Some(c.data_unchecked(t, b).norm())
                } else {
                    c.data(t, b).map(|d| d.norm())
                }
            });
            sink.item(start.wrapping_add(b), d);
        }
    } else {
        for b in bits(&w) {
            walk_in::<T, N::Inc>(t, c, mode, n.inc(), b, start.wrapping_add(st * b), sink);
        }
    }
}

/// Select one node at a runtime level.
pub unsafe fn select<'s, T: HibitTree>(
    t: &'s T,
    c: &mut <T as HibitTreeTypes<'s>>::Cursor,
    level: usize,
    idx: usize,
    unchecked: bool,
) -> [u64; 4] {
    struct V<'a, 's, T: HibitTree> {
        t: &'s T,
        c: &'a mut <T as HibitTreeTypes<'s>>::Cursor,
        level: usize,
        idx: usize,
        unchecked: bool,
    }
    // not the crate's const_for: it is code under test
    fn go<'s, T: HibitTree, N: ConstInteger>(v: V<'_, 's, T>, n: N) -> [u64; 4] {
        if N::VALUE == v.level {
            let m = tracked(|| unsafe {
                if v.unchecked {
                    v.c.select_level_node_unchecked(v.t, n, v.idx)
                } else {
                    v.c.select_level_node(v.t, n, v.idx)
                }
            });
            words(&m)
        } else if N::VALUE + 1 < T::LevelCount::VALUE {
            go::<T, N::Inc>(v, n.inc())
        } else {
            unreachable!()
        }
    }
    go::<T, ConstUsize<0>>(V { t, c, level, idx, unchecked }, ConstUsize::<0>)
}

#[allow(dead_code)]
fn _t(_: ControlFlow<()>) {}
#[allow(dead_code)]
fn _u<A: Array>(_: A) {}
