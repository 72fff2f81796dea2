//! A tree implemented by a user of the crate: answers from an explicit list of nodes and keys, and
//! watches how it is used. Every breach of the documented traversal contract is recorded, and (when
//! asked) every node selection.
//!
//! `EX = false`: a removed key leaves its nodes behind, so masks above the terminal level have bits
//! whose branch is empty.

use crate::arena::untracked;
use crate::norm::stride;
use crate::ops::Leaf;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::Borrowable;
use hibit_tree::{BitBlock, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

thread_local! {
    static BREACH: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOG_ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<(usize, usize, usize)>> = const { RefCell::new(vec![]) };
    static CURSORS: Cell<usize> = const { Cell::new(0) };
    static ASKED: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
fn breach(f: impl FnOnce() -> String) {
    untracked(|| {
        BREACH.with_borrow_mut(|b| {
            if b.is_none() {
                *b = Some(f())
            }
        })
    })
}
/// First breach since the last call.
pub fn take_breach() -> Option<String> {
    BREACH.take()
}
/// Start recording selections (cursor, level, first key) and looked-up keys.
pub fn log_start() {
    untracked(|| {
        LOG.with_borrow_mut(|l| l.clear());
        ASKED.with_borrow_mut(|l| l.clear());
    });
    CURSORS.set(0);
    LOG_ON.set(true)
}
/// Cursors made since, their selections, looked-up keys.
pub fn log_stop() -> (usize, Vec<(usize, usize, usize)>, Vec<usize>) {
    LOG_ON.set(false);
    (CURSORS.get(), LOG.take(), ASKED.take())
}

pub struct Spy<M, const D: usize, const EX: bool> {
    keys: Vec<(usize, u64)>,
    nodes: Vec<(usize, usize)>,
    _m: PhantomData<M>,
}
impl<M: BitBlock, const D: usize, const EX: bool> Spy<M, D, EX> {
    pub fn new() -> Self {
        Spy { keys: vec![], nodes: vec![], _m: PhantomData }
    }
    pub fn starts(key: usize) -> impl Iterator<Item = (usize, usize)> {
        (1..D).map(move |l| (l, key & !(stride(M::SIZE, D, l - 1) - 1)))
    }
    /// Nodes on the way to `key`, but no key.
    pub fn ghost(&mut self, key: usize) {
        for n in Self::starts(key) {
            if !self.nodes.contains(&n) {
                self.nodes.push(n)
            }
        }
    }
    pub fn put(&mut self, key: usize, v: u64) {
        self.take(key);
        self.ghost(key);
        self.keys.push((key, v));
    }
    pub fn take(&mut self, key: usize) {
        self.keys.retain(|k| k.0 != key);
        if EX {
            self.nodes.clear();
            for i in 0..self.keys.len() {
                self.ghost(self.keys[i].0)
            }
        }
    }
    fn find(&self, key: usize) -> Option<&u64> {
        self.keys.iter().find(|k| k.0 == key).map(|k| &k.1)
    }
    pub fn has_node(&self, level: usize, start: usize) -> bool {
        level == 0 || self.nodes.contains(&(level, start))
    }
    fn mask(&self, level: usize, start: usize) -> M {
        let mut m = M::zero();
        let st = stride(M::SIZE, D, level);
        for i in 0..M::SIZE {
            let s = start.wrapping_add(i * st);
            if if level + 1 == D { self.find(s).is_some() } else { self.has_node(level + 1, s) } {
                m.set_bit::<true>(i);
            }
        }
        m
    }
    fn check_lookup(index: usize, li: &[usize], what: &str) -> bool {
        if LOG_ON.get() {
            untracked(|| ASKED.with_borrow_mut(|a| a.push(index)))
        }
        let ok = li.len() == D
            && (0..D).all(|l| li[l] == (index / stride(M::SIZE, D, l)) & (M::SIZE - 1))
            && index < M::SIZE.saturating_pow(D as u32);
        if !ok {
            breach(|| format!("{what} of key {index} with level indices {li:?}"))
        }
        ok
    }
}
impl<M: BitBlock, const D: usize, const EX: bool> Borrowable for Spy<M, D, EX> {
    type Borrowed = Self;
}
impl<'t, M: BitBlock, const D: usize, const EX: bool> HibitTreeTypes<'t> for Spy<M, D, EX>
where
    ConstUsize<D>: ConstInteger,
{
    type Data = &'t u64;
    type DataUnchecked = &'t u64;
    type Cursor = SpyCursor<'t, M, D, EX>;
}
static NOTHING: u64 = u64::MAX;
impl<M: BitBlock, const D: usize, const EX: bool> HibitTree for Spy<M, D, EX>
where
    ConstUsize<D>: ConstInteger,
{
    const EXACT_HIERARCHY: bool = EX;
    type LevelCount = ConstUsize<D>;
    type LevelMask = M;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<&u64> {
        Self::check_lookup(index, li, "lookup");
        self.find(index)
    }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> &u64 {
        Self::check_lookup(index, li, "unchecked lookup");
        self.find(index).unwrap_or_else(|| {
            breach(|| format!("unchecked lookup of the absent key {index}"));
            &NOTHING
        })
    }
}
pub struct SpyCursor<'s, M, const D: usize, const EX: bool> {
    id: usize,
    /// selected nodes; `valid` of them are current
    start: [usize; 16],
    exists: [bool; 16],
    valid: usize,
    src: *const Spy<M, D, EX>,
    _p: PhantomData<&'s M>,
}
impl<'a, 's, M: BitBlock, const D: usize, const EX: bool> HibitTreeCursorTypes<'a> for SpyCursor<'s, M, D, EX> {
    type Data = &'s u64;
}
impl<'s, M: BitBlock, const D: usize, const EX: bool> SpyCursor<'s, M, D, EX> {
    fn select(&mut self, src: &'s Spy<M, D, EX>, level: usize, idx: usize, unchecked: bool) -> M {
        if !std::ptr::eq(self.src, src) {
            breach(|| format!("cursor used with another tree than it was made for"));
        }
        if level >= D || level > self.valid {
            breach(|| format!("level {level} selected while only {} levels are", self.valid));
            return M::zero();
        }
        if idx >= if level == 0 { 1 } else { M::SIZE } {
            breach(|| format!("child {idx} selected at level {level}"));
            return M::zero();
        }
        let start = if level == 0 { 0 } else { self.start[level - 1].wrapping_add(idx * stride(M::SIZE, D, level - 1)) };
        let exists = level == 0 || self.exists[level - 1] && src.has_node(level, start);
        if unchecked && !exists {
            breach(|| format!("unchecked selection of the absent level {level} node at key {start}"));
        }
        self.start[level] = start;
        self.exists[level] = exists;
        self.valid = level + 1;
        if LOG_ON.get() {
            untracked(|| LOG.with_borrow_mut(|l| l.push((self.id, level, start))))
        }
        if exists {
            src.mask(level, start)
        } else {
            M::zero()
        }
    }
    fn item(&self, src: &'s Spy<M, D, EX>, idx: usize, unchecked: bool) -> Option<&'s u64> {
        if !std::ptr::eq(self.src, src) {
            breach(|| format!("cursor used with another tree than it was made for"));
        }
        if self.valid != D || idx >= M::SIZE {
            breach(|| format!("data {idx} asked while {} of {D} levels are selected", self.valid));
            return unchecked.then_some(&NOTHING);
        }
        let key = self.start[D - 1].wrapping_add(idx);
        let r = if self.exists[D - 1] { src.find(key) } else { None };
        if unchecked && r.is_none() {
            breach(|| format!("unchecked access to data of the absent key {key}"));
            return Some(&NOTHING);
        }
        r
    }
}
impl<'s, M: BitBlock, const D: usize, const EX: bool> HibitTreeCursor<'s> for SpyCursor<'s, M, D, EX>
where
    ConstUsize<D>: ConstInteger,
{
    type Src = Spy<M, D, EX>;
    fn new(src: &'s Self::Src) -> Self {
        if LOG_ON.get() {
            CURSORS.set(CURSORS.get() + 1)
        }
        SpyCursor { id: CURSORS.get(), start: [0; 16], exists: [false; 16], valid: 0, src, _p: PhantomData }
    }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'s Self::Src, _: N, i: usize) -> M {
        self.select(src, N::VALUE, i, false)
    }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'s Self::Src, _: N, i: usize) -> M {
        self.select(src, N::VALUE, i, true)
    }
    unsafe fn data<'a>(&'a self, src: &'s Self::Src, i: usize) -> Option<&'s u64> {
        self.item(src, i, false)
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'s Self::Src, i: usize) -> &'s u64 {
        self.item(src, i, true).unwrap()
    }
}

impl<M: BitBlock, const D: usize, const EX: bool> Leaf for Spy<M, D, EX> {
    const NAME: &'static str = if EX { "user-exact" } else { "user-stale" };
    fn width() -> usize {
        M::SIZE
    }
    fn depth() -> usize {
        D
    }
    fn mk() -> Self {
        Spy::new()
    }
    fn ins(&mut self, k: usize, v: u64) {
        self.put(k, v)
    }
    fn rem(&mut self, k: usize) {
        self.take(k)
    }
}
