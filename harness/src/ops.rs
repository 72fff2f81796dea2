//! Lazy operations: every assignment of contents to the operand trees, every way of reading.

use crate::arena::{tracked, untracked};
use crate::norm::{self, bit, mix, t_list, t_opt, t_pair, Norm, Sink, Tok, MODES};
use crate::run::{Out, Task};
use crate::task::prod;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::{BinaryFunction, LendingIterator, NullaryFunction, UnaryFunction};
use hibit_tree::{BitBlock, DenseTree, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes, SparseTree};
use std::cell::{Cell, RefCell};

pub const MAXU: usize = 16;

/// Key universe of a task: at most 16 keys, ascending, and keys near them that stay absent.
#[derive(Clone)]
pub struct U {
    pub tag: String,
    pub width: usize,
    pub depth: usize,
    pub keys: Vec<usize>,
    pub absent: Vec<usize>,
}

pub fn universe(tag: &str, width: usize, depth: usize, keys: &[usize]) -> U {
    let cap = width.saturating_pow(depth as u32);
    let mut k: Vec<usize> = keys.iter().copied().filter(|x| *x < cap).collect();
    k.sort_unstable();
    k.dedup();
    assert!(k.len() <= MAXU);
    let caps = crate::sut::Caps { get_mut: false, get_or_default: false, dense: false, width, depth, id_mask: !0 };
    let absent = crate::hist::probes(&caps, &k, 8).into_iter().filter(|x| !k.contains(x)).collect();
    U { tag: format!("{tag}{}", k.len()), width, depth, keys: k, absent }
}

/// Every key of a tree small enough for that (see tiny.rs).
pub fn whole<L: Leaf>() -> U {
    let (w, d) = (L::width(), L::depth());
    universe(&format!("whole-w{w}d{d}-"), w, d, &(0..w.pow(d as u32)).collect::<Vec<_>>())
}
/// Trees of users of the crate, exact (`X`) or with stale mask bits (`G`): width, depth.
pub type X22 = crate::spy::Spy<crate::tiny::Tiny<2>, 2, true>;
pub type X23 = crate::spy::Spy<crate::tiny::Tiny<2>, 3, true>;
pub type X24 = crate::spy::Spy<crate::tiny::Tiny<2>, 4, true>;
pub type X41 = crate::spy::Spy<crate::tiny::Tiny<4>, 1, true>;
pub type X81 = crate::spy::Spy<crate::tiny::Tiny<8>, 1, true>;
pub type X42 = crate::spy::Spy<crate::tiny::Tiny<4>, 2, true>;
pub type G22 = crate::spy::Spy<crate::tiny::Tiny<2>, 2, false>;
pub type G23 = crate::spy::Spy<crate::tiny::Tiny<2>, 3, false>;
pub type G24 = crate::spy::Spy<crate::tiny::Tiny<2>, 4, false>;
pub type G42 = crate::spy::Spy<crate::tiny::Tiny<4>, 2, false>;

/// Standard universes with `n` keys (fewer when the shape has fewer).
pub fn universes(w: usize, d: usize, n: usize) -> Vec<U> {
    let c = w.saturating_pow(d as u32);
    let last = if c == usize::MAX { c - 1 } else { c - 1 };
    let last = if last == usize::MAX { last - 1 } else { last };
    let s0 = norm::stride(w, d, 0);
    let mut v = vec![];
    let mut add = |t: &str, k: Vec<usize>| {
        let mut o: Vec<usize> = vec![];
        for x in k {
            if x < c && !o.contains(&x) {
                o.push(x)
            }
        }
        o.truncate(n);
        v.push(universe(t, w, d, &o));
    };
    if d == 1 {
        add("node", vec![0, w - 1, 1, 63, w / 2, w / 2 - 1, 5, 64, 127, 2, 30, 31]);
    } else {
        // two in one terminal node, one in its sibling, one at the far end
        add("mix", vec![0, w, 1, last, w + 1, last - 1, s0, s0 + 1, 2 * w, 5 * w, last - w]);
        // different children of the root, with cousins that share lower digits
        add("branches", vec![0, s0, s0 * (w - 1), s0 + w % s0.max(1), 2 * s0, s0 + 1, 1, w, 3 * s0]);
        // one terminal node
        add("terminal", vec![0, w - 1, 1, 63, w / 2, 2, 5, 6, 7]);
        if d >= 3 {
            let s1 = norm::stride(w, d, 1);
            add("middle", vec![0, s1, 2 * s1, s1 + 1, s1 * (w - 1), s0, s0 + s1, s0 + s1 + 1, s0 + 2 * s1]);
        }
        if d >= 5 {
            // keys that part further down, before and after each other
            let (m, q) = (norm::stride(w, d, d / 2), norm::stride(w, d, d - 3));
            add("inner", vec![2 * m, m, 3 * m, 2 * m + 2 * q, 2 * m + q, m + 1, 2 * m + w, m + q]);
        }
    }
    v
}

/// Contents of a (lazy) tree over a universe.
#[derive(Clone, Copy)]
pub struct R {
    pub n: usize,
    pub v: [Option<Tok>; MAXU],
}
/// Same before the items of a multi operation are folded or listed.
pub struct RM(pub R, pub Vec<Vec<Tok>>);

impl R {
    pub fn empty(n: usize) -> R {
        R { n, v: [None; MAXU] }
    }
    pub fn from(n: usize, f: impl Fn(usize) -> Option<Tok>) -> R {
        let mut r = R::empty(n);
        for i in 0..n {
            r.v[i] = f(i)
        }
        r
    }
    pub fn len(&self) -> usize {
        self.v[..self.n].iter().flatten().count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn bits(&self) -> u32 {
        (0..self.n).map(|i| (self.v[i].is_some() as u32) << i).sum()
    }
}
pub fn r_leaf(n: usize, tree: usize, subset: u32) -> R {
    R::from(n, |i| (subset >> i & 1 == 1).then(|| leaf_id(tree, i)))
}
pub fn leaf_id(tree: usize, i: usize) -> u64 {
    (tree as u64 + 1) * 1000 + i as u64 + 1
}
pub fn r_inter(a: &R, b: &R) -> R {
    R::from(a.n, |i| match (a.v[i], b.v[i]) {
        (Some(x), Some(y)) => Some(t_pair(x, y)),
        _ => None,
    })
}
pub fn r_union(a: &R, b: &R) -> R {
    R::from(a.n, |i| match (a.v[i], b.v[i]) {
        (None, None) => None,
        (x, y) => Some(t_pair(t_opt(x), t_opt(y))),
    })
}
pub fn r_map(a: &R, tag: u64) -> R {
    R::from(a.n, |i| a.v[i].map(|x| mix(tag, x)))
}
/// Items of a multi operation at universe index `i`: `None` = key absent.
fn multi(v: &[R], i: usize, all: bool) -> Option<Vec<Tok>> {
    let items: Vec<Tok> = v.iter().filter_map(|r| r.v[i]).collect();
    if items.is_empty() || all && items.len() != v.len() {
        None
    } else {
        Some(items)
    }
}
pub fn r_mi(n: usize, v: &[R]) -> R {
    R::from(n, |i| multi(v, i, true).map(|x| t_list(x.into_iter())))
}
pub fn r_mu(n: usize, v: &[R]) -> R {
    R::from(n, |i| multi(v, i, false).map(|x| t_list(x.into_iter())))
}
pub const INIT: u64 = 0x1717;
pub fn r_fmi(n: usize, v: &[R]) -> R {
    R::from(n, |i| multi(v, i, true).map(|x| x.into_iter().fold(INIT, mix)))
}
pub fn r_fmu(n: usize, v: &[R]) -> R {
    R::from(n, |i| multi(v, i, false).map(|x| x.into_iter().fold(INIT, mix)))
}

// ------------------------------------------------------------------ function objects

thread_local! {
    pub static MAP_CALLS: Cell<u64> = const { Cell::new(0) };
    pub static FOLD_CALLS: Cell<u64> = const { Cell::new(0) };
    pub static INIT_CALLS: Cell<u64> = const { Cell::new(0) };
}
pub fn calls() -> (u64, u64, u64) {
    (MAP_CALLS.get(), FOLD_CALLS.get(), INIT_CALLS.get())
}

/// Works for every item type.
#[derive(Clone, Copy)]
pub struct Tag(pub u64);
impl<T: Norm> UnaryFunction<T> for Tag {
    type Output = u64;
    fn exec(&self, arg: T) -> u64 {
        MAP_CALLS.set(MAP_CALLS.get() + 1);
        mix(self.0, arg.norm())
    }
}
#[derive(Clone, Copy)]
pub struct Acc;
impl<T: Norm> BinaryFunction<u64, T> for Acc {
    type Output = u64;
    fn exec(&self, a: u64, arg: T) -> u64 {
        FOLD_CALLS.set(FOLD_CALLS.get() + 1);
        mix(a, arg.norm())
    }
}
#[derive(Clone, Copy)]
pub struct Start;
impl NullaryFunction for Start {
    type Output = u64;
    fn exec(&self) -> u64 {
        INIT_CALLS.set(INIT_CALLS.get() + 1);
        INIT
    }
}

/// The same, with results that own memory.
#[derive(Clone, Copy)]
pub struct OwnTag(pub u64);
impl<T: Norm> UnaryFunction<T> for OwnTag {
    type Output = crate::val::Own;
    fn exec(&self, arg: T) -> crate::val::Own {
        crate::val::Own::new(mix(self.0, arg.norm()))
    }
}
#[derive(Clone, Copy)]
pub struct OwnAcc;
impl<T: Norm> BinaryFunction<crate::val::Own, T> for OwnAcc {
    type Output = crate::val::Own;
    fn exec(&self, a: crate::val::Own, arg: T) -> crate::val::Own {
        crate::val::Own::new(mix(crate::val::TVal::id(&a), arg.norm()))
    }
}
#[derive(Clone, Copy)]
pub struct OwnStart;
impl NullaryFunction for OwnStart {
    type Output = crate::val::Own;
    fn exec(&self) -> crate::val::Own {
        crate::val::Own::new(INIT)
    }
}

// ------------------------------------------------------------------ the probe

/// Compare every way of reading `t` with the expected content.
pub fn probe<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    probe_access(t, want, u)?;
    probe_iter(t, want, u)?;
    probe_walk(t, want, u)
}

pub fn probe_access<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
{
    let n = u.keys.len();
    for i in 0..n {
        let g = tracked(|| t.get(u.keys[i])).map(|d| d.norm());
        ensure!(
            g == want.v[i],
            "get({}) gives {}, expected {}",
            u.keys[i],
            if g.is_some() { "an item" } else { "nothing" },
            if want.v[i].is_none() { "nothing" } else if g.is_some() { "other content" } else { "an item" }
        );
        if want.v[i].is_some() {
            let g = tracked(|| unsafe { t.get_unchecked(u.keys[i]) }).norm();
            ensure!(Some(g) == want.v[i], "get_unchecked({}) gives wrong content", u.keys[i]);
        }
    }
    for &k in &u.absent {
        let g = tracked(|| t.get(k));
        ensure!(g.is_none(), "get({k}) gives an item, expected nothing");
    }
    Ok(())
}

pub fn probe_iter<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let n = u.keys.len();
    let mut it = tracked(|| t.iter());
    for i in 0..n {
        if let Some(w) = want.v[i] {
            match tracked(|| LendingIterator::next(&mut it)) {
                None => fail!("iteration ends before key {}", u.keys[i]),
                Some((k, d)) => {
                    ensure!(k == u.keys[i], "iteration yields key {k}, expected {}", u.keys[i]);
                    ensure!(d.norm() == w, "iteration yields wrong content for key {k}");
                }
            }
        }
    }
    for _ in 0..2 {
        if let Some((k, _)) = tracked(|| LendingIterator::next(&mut it)) {
            fail!("iteration yields key {k} after the last key");
        }
    }
    Ok(())
}

pub fn probe_walk<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    struct S<'a> {
        want: &'a R,
        u: &'a U,
        exact: bool,
        items: usize,
        err: Option<String>,
    }
    impl Sink for S<'_> {
        fn node(&mut self, level: usize, start: usize, mask: &[u64; 4]) {
            if self.err.is_some() {
                return;
            }
            let keys = (0..self.want.n).filter(|i| self.want.v[*i].is_some()).map(|i| self.u.keys[i]);
            let e = crate::hist::expect_mask(self.u.width, self.u.depth, keys, level, start);
            let must_eq = self.exact || level + 1 == self.u.depth;
            let ok = if must_eq { e == *mask } else { (0..4).all(|i| e[i] & !mask[i] == 0) };
            if !ok {
                self.err = untracked(|| {
                    Some(format!(
                        "mask of the level {level} node at key {start} is {:?}, expected {}{:?}",
                        norm::bits(mask).collect::<Vec<_>>(),
                        if must_eq { "" } else { "at least " },
                        norm::bits(&e).collect::<Vec<_>>()
                    ))
                });
            }
        }
        fn item(&mut self, key: usize, tok: Option<Tok>) {
            self.items += 1;
            let i = self.u.keys.iter().position(|k| *k == key);
            if tok.is_none() || i.is_none() || self.want.v[i.unwrap()] != tok {
                self.err = untracked(|| Some(format!("cursor gives wrong content at key {key}")));
            }
        }
    }
    for mode in MODES {
        let mut s = S { want, u, exact: T::EXACT_HIERARCHY, items: 0, err: None };
        norm::walk(t, mode, &mut s);
        if let Some(e) = s.err {
            fail!("{e} ({mode:?})");
        }
        ensure!(s.items == want.len(), "cursor visits {} items, expected {} ({mode:?})", s.items, want.len());
    }
    // straight down to every key, present or not, with a cursor that is used again and again
    let mut c = tracked(|| <T as HibitTreeTypes<'s>>::Cursor::new(t));
    let n = u.keys.len();
    for j in 0..n + u.absent.len() {
        let (k, w) = if j < n { (u.keys[j], want.v[j]) } else { (u.absent[j - n], None) };
        let g = descend(t, &mut c, k, u);
        ensure!(
            g == w,
            "cursor led straight to key {k} gives {}, expected {}",
            if g.is_some() { "an item" } else { "nothing" },
            if w.is_none() { "nothing" } else if g.is_some() { "other content" } else { "an item" }
        );
    }
    Ok(())
}

/// Select the nodes on the way to `k` one level after the other, then ask for the data.
pub fn descend<'s, T>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, k: usize, u: &U) -> Option<Tok>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    fn go<'s, T: HibitTree, N: ConstInteger>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, n: N, k: usize) {
        let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
        let i = if N::VALUE == 0 { 0 } else { norm::digit(w, d, N::VALUE - 1, k) };
        unsafe { c.select_level_node(t, n, i) };
        if N::VALUE + 1 < d {
            go::<T, N::Inc>(t, c, n.inc(), k)
        }
    }
    tracked(|| {
        go::<T, ConstUsize<0>>(t, c, ConstUsize::<0>, k);
        unsafe { c.data(t, norm::digit(u.width, u.depth, u.depth - 1, k)).map(|d| d.norm()) }
    })
}

// ------------------------------------------------------------------ leaves

pub trait Leaf: Sized + 'static {
    const NAME: &'static str;
    fn width() -> usize;
    fn depth() -> usize;
    fn mk() -> Self;
    fn ins(&mut self, k: usize, v: u64);
    fn rem(&mut self, k: usize);
}
macro_rules! leaf {
    ($t:ty, $n:literal) => {
        impl Leaf for $t {
            const NAME: &'static str = $n;
            fn width() -> usize {
                <$t as HibitTree>::LevelMask::SIZE
            }
            fn depth() -> usize {
                <$t as HibitTree>::LevelCount::VALUE
            }
            fn mk() -> Self {
                Default::default()
            }
            fn ins(&mut self, k: usize, v: u64) {
                self.insert(k, v);
            }
            fn rem(&mut self, k: usize) {
                self.remove(k);
            }
        }
    };
}
use hibit_tree::config::width_64 as w64;
pub type D1 = DenseTree<u64, 1>;
pub type D2 = DenseTree<u64, 2>;
pub type D3 = DenseTree<u64, 3>;
pub type D4 = DenseTree<u64, 4>;
pub type D6 = DenseTree<u64, 6>;
pub type D8 = DenseTree<u64, 8>;
pub type D9 = DenseTree<u64, 9>;
pub type S1 = SparseTree<w64::depth_1, u64>;
pub type S2 = SparseTree<w64::depth_2, u64>;
pub type S3 = SparseTree<w64::depth_3, u64>;
pub type S4 = SparseTree<w64::depth_4, u64>;
pub type S8 = SparseTree<w64::depth_8, u64>;
leaf!(D1, "dense/d1");
leaf!(D2, "dense/d2");
leaf!(D3, "dense/d3");
leaf!(D4, "dense/d4");
leaf!(D6, "dense/d6");
leaf!(D8, "dense/d8");
leaf!(D9, "dense/d9");
leaf!(S1, "sparse64/d1");
leaf!(S2, "sparse64/d2");
leaf!(S3, "sparse64/d3");
leaf!(S4, "sparse64/d4");
leaf!(S8, "sparse64/d8");
#[cfg(feature = "simd")]
mod wide_leaves {
    use super::*;
    use hibit_tree::config::{width_128 as w128, width_256 as w256};
    pub type M1 = SparseTree<w128::depth_1, u64>;
    pub type M2 = SparseTree<w128::depth_2, u64>;
    pub type M3 = SparseTree<w128::depth_3, u64>;
    pub type L1 = SparseTree<w256::depth_1, u64>;
    pub type L2 = SparseTree<w256::depth_2, u64>;
    pub type L3 = SparseTree<w256::depth_3, u64>;
    pub type L8 = SparseTree<w256::depth_8, u64>;
    pub type M8 = SparseTree<w128::depth_8, u64>;
    leaf!(M1, "sparse128/d1");
    leaf!(M2, "sparse128/d2");
    leaf!(M3, "sparse128/d3");
    leaf!(L1, "sparse256/d1");
    leaf!(L2, "sparse256/d2");
    leaf!(L3, "sparse256/d3");
    leaf!(L8, "sparse256/d8");
    leaf!(M8, "sparse128/d8");
}
#[cfg(feature = "simd")]
pub use wide_leaves::*;

/// All trees a task may need, built once per process and kept.
/// Trees of odd number have a past: everything was inserted in another order, the rest removed.
pub struct Leaves<L: 'static> {
    keys: Vec<usize>,
    made: RefCell<Vec<Vec<Option<&'static L>>>>,
}
impl<L: Leaf> Leaves<L> {
    pub fn new(u: &U) -> Self {
        Leaves { keys: u.keys.clone(), made: RefCell::new(vec![]) }
    }
    pub fn get(&self, tree: usize, subset: u32) -> &'static L {
        untracked(|| {
            let mut m = self.made.borrow_mut();
            while m.len() <= tree {
                m.push(vec![None; 1 << self.keys.len()]);
            }
            if let Some(t) = m[tree][subset as usize] {
                return t;
            }
            let t = build::<L>(&self.keys, tree, subset);
            let t: &'static L = Box::leak(Box::new(t));
            m[tree][subset as usize] = Some(t);
            t
        })
    }
}
pub fn build<L: Leaf>(keys: &[usize], tree: usize, subset: u32) -> L {
    let mut t = L::mk();
    let n = keys.len();
    if tree % 2 == 1 {
        for i in (0..n).rev() {
            t.ins(keys[i], 999);
        }
        for i in 0..n {
            if subset >> i & 1 == 0 {
                t.rem(keys[i]);
            }
        }
    }
    for i in 0..n {
        if subset >> i & 1 == 1 {
            t.ins(keys[i], leaf_id(tree, i));
        }
    }
    t
}

pub fn descr(u: &U, p: &[u32]) -> String {
    p.iter()
        .map(|s| format!("{:?}", (0..u.keys.len()).filter(|i| s >> i & 1 == 1).map(|i| u.keys[i]).collect::<Vec<_>>()))
        .collect::<Vec<_>>()
        .join(" ")
}

/// One task: `n` operand trees, every assignment of subsets of the universe to them.
pub fn over<L: Leaf>(
    name: &str,
    u: U,
    n: usize,
    f: impl Fn(&[&'static L], &[R], &U) -> Result<R, String> + 'static,
    v: &mut Vec<Box<dyn Task>>,
) {
    let leaves = Leaves::<L>::new(&u);
    let k = u.keys.len();
    let u2 = u.clone();
    v.push(prod(
        format!("{name}/{}/{}", L::NAME, u.tag),
        &vec![1 << k; n],
        move |p| {
            let mut t: [Option<&'static L>; 8] = [None; 8];
            let mut r = [R::empty(k); 8];
            for i in 0..n {
                t[i] = Some(leaves.get(i, p[i]));
                r[i] = r_leaf(k, i, p[i]);
            }
            let ts: [&'static L; 8] = if n == 0 {
                [leaves.get(0, 0); 8]
            } else {
                std::array::from_fn(|i| t[i].unwrap_or_else(|| t[0].unwrap()))
            };
            let out = f(&ts[..n], &r[..n], &u)?;
            let canon = p.iter().fold(out.bits() as u128 + 1, |a, x| (a << 20) ^ (a >> 100) ^ *x as u128);
            Ok(Out { canon, nontrivial: !out.is_empty() })
        },
        move |p| format!("keys of the operands: {}", descr(&u2, p)),
    ));
}

/// Two operands of different types (same width and depth).
pub fn over2<A: Leaf, B: Leaf>(
    name: &str,
    u: U,
    f: impl Fn(&'static A, &'static B, &R, &R, &U) -> Result<R, String> + 'static,
    v: &mut Vec<Box<dyn Task>>,
) {
    assert!(A::width() == B::width() && A::depth() == B::depth());
    let la = Leaves::<A>::new(&u);
    let lb = Leaves::<B>::new(&u);
    let k = u.keys.len();
    let u2 = u.clone();
    v.push(prod(
        format!("{name}/{}+{}/{}", A::NAME, B::NAME, u.tag),
        &[1 << k; 2],
        move |p| {
            let out = f(la.get(0, p[0]), lb.get(1, p[1]), &r_leaf(k, 0, p[0]), &r_leaf(k, 1, p[1]), &u)?;
            Ok(Out { canon: (out.bits() as u128) << 64 | (p[0] as u128) << 32 | p[1] as u128, nontrivial: !out.is_empty() })
        },
        move |p| format!("keys of the operands: {}", descr(&u2, p)),
    ));
}

pub fn has(w: &[u64; 4], i: usize) -> bool {
    bit(w, i)
}
