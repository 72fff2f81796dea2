//! Object-safe view of the containers, so that the engine is compiled once.

use crate::arena::{self, tracked, untracked, Mask};
use crate::norm::{self, Mode, Sink};
use crate::val::TVal;
use hibit_tree::config::{self, SparseTreeLevels};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;
use hibit_tree::{BitBlock, DenseTree, HibitTree, HibitTreeCursor, HibitTreeTypes, ReqDefault, SparseTree};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Caps {
    pub get_mut: bool,
    pub get_or_default: bool,
    pub dense: bool,
    pub width: usize,
    pub depth: usize,
    /// which bits of an id the value type can hold
    pub id_mask: u64,
}
impl Caps {
    pub fn capacity(&self) -> usize {
        self.width.saturating_pow(self.depth as u32)
    }
}

/// One step of a cursor script.
#[derive(Clone, Copy, Debug)]
pub enum Cur {
    /// level, index, unchecked
    Sel(usize, usize, bool),
    /// index, unchecked
    Data(usize, bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CurOut {
    Mask([u64; 4]),
    Data(Option<u64>),
}

pub trait DynTree {
    fn caps(&self) -> Caps;
    fn insert(&mut self, k: usize, id: u64);
    fn remove(&mut self, k: usize) -> Option<u64>;
    fn get(&self, k: usize) -> Option<u64>;
    /// key passed as a range-checked `Index`
    fn get_index(&self, k: usize) -> Option<u64>;
    unsafe fn get_unchecked(&self, k: usize) -> u64;
    /// (items, number of Nones observed on 3 further calls)
    fn iter(&self, limit: usize) -> (Vec<(usize, u64)>, usize);
    fn iter_lending(&self, limit: usize) -> (Vec<(usize, u64)>, usize);
    /// Every way of consuming the iterator.
    fn iter_forms(&self, want: &[(usize, u64)]) -> Result<(), String>;
    /// Two iterators advanced in the order given by the bits of `sched` (cyclic over 10 bits), then to the end.
    fn two_iters(&self, sched: u32, limit: usize) -> (Vec<(usize, u64)>, Vec<(usize, u64)>);
    /// Take `n` items then drop the iterator.
    fn iter_partial(&self, n: usize);
    fn kv(&self) -> (Vec<usize>, Vec<u64>);
    /// write `f(key, old)` into every slot where it is Some; returns keys seen
    fn kv_mut(&mut self, f: &mut dyn FnMut(usize, u64) -> Option<u64>) -> (Vec<usize>, usize);
    /// get_or_insert: returns the value seen, then stores id through the reference
    fn get_or_insert(&mut self, k: usize, id: u64) -> u64;
    fn get_mut(&mut self, k: usize, id: u64, unchecked: bool) -> Option<u64>;
    fn get_or_default(&self, k: usize) -> u64;
    fn range_end(&self) -> usize;
    fn exact(&self) -> bool;
    fn walk(&self, mode: Mode, sink: &mut dyn Sink);
    fn cursor(&self, script: &[Cur]) -> Vec<CurOut>;
    /// byte ranges of values and of key spare capacity, for the canonical form
    fn masks(&self) -> Vec<Mask>;
    fn addr(&self) -> usize;
}

pub struct Dn<T: TVal, const D: usize>(pub DenseTree<T, D>)
where
    ConstUsize<D>: ConstInteger;
pub struct Sp<L: SparseTreeLevels, T: TVal>(pub SparseTree<L, T>);
pub struct SpD<L: SparseTreeLevels, T: TVal>(pub SparseTree<L, T, ReqDefault>);

macro_rules! body {
    ($t:ty, $dense:expr) => {
        fn caps(&self) -> Caps {
            Caps {
                get_mut: !$dense,
                get_or_default: Self::GOD,
                dense: $dense,
                width: <$t as HibitTree>::LevelMask::SIZE,
                depth: <$t as HibitTree>::LevelCount::VALUE,
                id_mask: T::ID_MASK,
            }
        }
        fn insert(&mut self, k: usize, id: u64) {
            let v = T::mk(id);
            tracked(|| self.0.insert(k, v));
        }
        fn remove(&mut self, k: usize) -> Option<u64> {
            let r = tracked(|| self.0.remove(k));
            r.map(|v| v.id())
        }
        fn get(&self, k: usize) -> Option<u64> {
            tracked(|| self.0.get(k)).map(|v| v.id())
        }
        fn get_index(&self, k: usize) -> Option<u64> {
            tracked(|| {
                let i = hibit_tree::Index::<<$t as HibitTree>::LevelMask, <$t as HibitTree>::LevelCount>::from(k);
                self.0.get(i)
            })
            .map(|v| v.id())
        }
        unsafe fn get_unchecked(&self, k: usize) -> u64 {
            tracked(|| HibitTree::get_unchecked(&self.0, k)).id()
        }
        fn iter(&self, limit: usize) -> (Vec<(usize, u64)>, usize) {
            let mut it = tracked(|| self.0.iter());
            let mut v = vec![];
            let mut nones = 0;
            while let Some((k, x)) = tracked(|| Iterator::next(&mut it)) {
                v.push((k, x.id()));
                if v.len() > limit {
                    return (v, 0);
                }
            }
            for _ in 0..3 {
                nones += tracked(|| Iterator::next(&mut it)).is_none() as usize;
            }
            (v, nones)
        }
        fn iter_lending(&self, limit: usize) -> (Vec<(usize, u64)>, usize) {
            let mut it = tracked(|| self.0.iter());
            let mut v = vec![];
            let mut nones = 0;
            while let Some((k, x)) = tracked(|| LendingIterator::next(&mut it)) {
                v.push((k, x.id()));
                if v.len() > limit {
                    return (v, 0);
                }
            }
            for _ in 0..3 {
                nones += tracked(|| LendingIterator::next(&mut it)).is_none() as usize;
            }
            (v, nones)
        }
        fn iter_forms(&self, want: &[(usize, u64)]) -> Result<(), String> {
            crate::forms::forms(|| self.0.iter(), |(k, x)| (k, x.id()), want)
        }
        fn two_iters(&self, sched: u32, limit: usize) -> (Vec<(usize, u64)>, Vec<(usize, u64)>) {
            let mut a = tracked(|| self.0.iter());
            let mut b = tracked(|| self.0.iter());
            let (mut va, mut vb) = (vec![], vec![]);
            let (mut ea, mut eb) = (false, false);
            for s in 0..limit {
                if sched >> (s % 10) & 1 == 0 || eb {
                    match tracked(|| Iterator::next(&mut a)) {
                        Some((k, x)) => va.push((k, x.id())),
                        None => ea = true,
                    }
                }
                if sched >> (s % 10) & 1 == 1 || ea {
                    match tracked(|| Iterator::next(&mut b)) {
                        Some((k, x)) => vb.push((k, x.id())),
                        None => eb = true,
                    }
                }
            }
            while let Some((k, x)) = tracked(|| Iterator::next(&mut a)) {
                va.push((k, x.id()))
            }
            while let Some((k, x)) = tracked(|| Iterator::next(&mut b)) {
                vb.push((k, x.id()))
            }
            (va, vb)
        }
        fn iter_partial(&self, n: usize) {
            let mut it = tracked(|| self.0.iter());
            for _ in 0..n {
                if tracked(|| Iterator::next(&mut it)).is_none() {
                    break;
                }
            }
        }
        fn kv(&self) -> (Vec<usize>, Vec<u64>) {
            let (k, v) = tracked(|| self.0.key_values());
            (k.to_vec(), v.iter().map(|v| v.id()).collect())
        }
        fn kv_mut(&mut self, f: &mut dyn FnMut(usize, u64) -> Option<u64>) -> (Vec<usize>, usize) {
            let (k, v) = tracked(|| self.0.key_values_mut());
            let n = v.len();
            let k = k.to_vec();
            for (k, v) in k.iter().zip(v.iter_mut()) {
                if let Some(x) = f(*k, v.id()) {
                    v.set(x)
                }
            }
            (k, n)
        }
        fn get_or_insert(&mut self, k: usize, id: u64) -> u64 {
            let r = tracked(|| self.0.get_or_insert(k));
            let o = r.id();
            r.set(id);
            o
        }
        fn range_end(&self) -> usize {
            <$t as HibitTree>::index_range().end
        }
        fn exact(&self) -> bool {
            <$t as HibitTree>::EXACT_HIERARCHY
        }
        fn walk(&self, mode: Mode, sink: &mut dyn Sink) {
            norm::walk(&self.0, mode, sink)
        }
        fn cursor(&self, script: &[Cur]) -> Vec<CurOut> {
            let t = &self.0;
            let mut c = tracked(|| <<$t as HibitTreeTypes<'_>>::Cursor as HibitTreeCursor>::new(t));
            let mut out = vec![];
            for s in script {
                out.push(match *s {
                    Cur::Sel(l, i, u) => CurOut::Mask(unsafe { norm::select(t, &mut c, l, i, u) }),
                    Cur::Data(i, u) => CurOut::Data(tracked(|| unsafe {
                        if u {
                            Some(c.data_unchecked(t, i).id())
                        } else {
                            c.data(t, i).map(|d| d.id())
                        }
                    })),
                });
            }
            out
        }
        fn masks(&self) -> Vec<Mask> {
            untracked(|| {
                let (k, v) = self.0.key_values();
                let mut m = vec![];
                let vs = v.as_ptr() as usize;
                let sz = std::mem::size_of::<T>();
                if sz != 0 {
                    // the slot before the first value is the placeholder
                    let b = vs - sz;
                    m.push((b, arena::alloc_end(b).unwrap_or(vs + v.len() * sz)));
                }
                let ke = k.as_ptr() as usize + k.len() * 8;
                m.push((ke, arena::alloc_end(k.as_ptr() as usize - 8).unwrap_or(ke)));
                m
            })
        }
        fn addr(&self) -> usize {
            self as *const Self as usize
        }
    };
}

impl<T: TVal, const D: usize> Dn<T, D>
where
    ConstUsize<D>: ConstInteger,
{
    const GOD: bool = false;
}
impl<L: SparseTreeLevels, T: TVal> Sp<L, T> {
    const GOD: bool = false;
}
impl<L: SparseTreeLevels, T: TVal> SpD<L, T> {
    const GOD: bool = true;
}

macro_rules! gm {
    () => {
        fn get_mut(&mut self, k: usize, id: u64, unchecked: bool) -> Option<u64> {
            let r = tracked(|| if unchecked { Some(unsafe { self.0.get_mut_unchecked(k) }) } else { self.0.get_mut(k) });
            r.map(|v| {
                let o = v.id();
                if o != id {
                    v.set(id);
                }
                o
            })
        }
    };
}

impl<T: TVal, const D: usize> DynTree for Dn<T, D>
where
    ConstUsize<D>: ConstInteger,
{
    body!(DenseTree<T, D>, true);
    fn get_mut(&mut self, _: usize, _: u64, _: bool) -> Option<u64> {
        unreachable!()
    }
    fn get_or_default(&self, _: usize) -> u64 {
        unreachable!()
    }
}
impl<L: SparseTreeLevels + 'static, T: TVal> DynTree for Sp<L, T> {
    body!(SparseTree<L, T>, false);
    gm!();
    fn get_or_default(&self, _: usize) -> u64 {
        unreachable!()
    }
}
impl<L: SparseTreeLevels + 'static, T: TVal> DynTree for SpD<L, T> {
    body!(SparseTree<L, T, ReqDefault>, false);
    gm!();
    fn get_or_default(&self, k: usize) -> u64 {
        tracked(|| self.0.get_or_default(k)).id()
    }
}

pub type Mk = fn() -> Box<dyn DynTree>;

pub fn mk_dense<T: TVal, const D: usize>() -> Box<dyn DynTree>
where
    ConstUsize<D>: ConstInteger,
{
    tracked(|| Box::new(Dn::<T, D>(DenseTree::default())))
}
pub fn mk_sparse<L: SparseTreeLevels + 'static, T: TVal>() -> Box<dyn DynTree> {
    tracked(|| Box::new(Sp::<L, T>(SparseTree::default())))
}
pub fn mk_sparse_d<L: SparseTreeLevels + 'static, T: TVal>() -> Box<dyn DynTree> {
    tracked(|| Box::new(SpD::<L, T>(SparseTree::default())))
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub name: &'static str,
    pub mk: Mk,
}

pub fn dense_cfgs<T: TVal>() -> Vec<Cfg> {
    vec![
        Cfg { name: "dense/d1", mk: mk_dense::<T, 1> },
        Cfg { name: "dense/d2", mk: mk_dense::<T, 2> },
        Cfg { name: "dense/d3", mk: mk_dense::<T, 3> },
        Cfg { name: "dense/d4", mk: mk_dense::<T, 4> },
        Cfg { name: "dense/d5", mk: mk_dense::<T, 5> },
        Cfg { name: "dense/d6", mk: mk_dense::<T, 6> },
        Cfg { name: "dense/d7", mk: mk_dense::<T, 7> },
        Cfg { name: "dense/d8", mk: mk_dense::<T, 8> },
        Cfg { name: "dense/d9", mk: mk_dense::<T, 9> },
    ]
}
macro_rules! sparse_list {
    ($mk:ident, $T:ty, $w:ident, $ws:literal) => {
        vec![
            Cfg { name: concat!("sparse", $ws, "/d1"), mk: $mk::<config::$w::depth_1, $T> },
            Cfg { name: concat!("sparse", $ws, "/d2"), mk: $mk::<config::$w::depth_2, $T> },
            Cfg { name: concat!("sparse", $ws, "/d3"), mk: $mk::<config::$w::depth_3, $T> },
            Cfg { name: concat!("sparse", $ws, "/d4"), mk: $mk::<config::$w::depth_4, $T> },
            Cfg { name: concat!("sparse", $ws, "/d5"), mk: $mk::<config::$w::depth_5, $T> },
            Cfg { name: concat!("sparse", $ws, "/d6"), mk: $mk::<config::$w::depth_6, $T> },
            Cfg { name: concat!("sparse", $ws, "/d7"), mk: $mk::<config::$w::depth_7, $T> },
            Cfg { name: concat!("sparse", $ws, "/d8"), mk: $mk::<config::$w::depth_8, $T> },
        ]
    };
}
pub fn sparse64_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse, T, width_64, "64")
}
#[cfg(feature = "simd")]
pub fn sparse128_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse, T, width_128, "128")
}
#[cfg(feature = "simd")]
pub fn sparse256_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse, T, width_256, "256")
}
pub fn sparse64_default_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse_d, T, width_64, "64def")
}
#[cfg(feature = "simd")]
pub fn sparse128_default_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse_d, T, width_128, "128def")
}
#[cfg(feature = "simd")]
pub fn sparse256_default_cfgs<T: TVal>() -> Vec<Cfg> {
    sparse_list!(mk_sparse_d, T, width_256, "256def")
}
pub fn sparse_all<T: TVal>() -> Vec<Cfg> {
    #[allow(unused_mut)]
    let mut v = sparse64_cfgs::<T>();
    #[cfg(feature = "simd")]
    {
        v.extend(sparse128_cfgs::<T>());
        v.extend(sparse256_cfgs::<T>());
    }
    v
}
pub fn sparse_default_all<T: TVal>() -> Vec<Cfg> {
    #[allow(unused_mut)]
    let mut v = sparse64_default_cfgs::<T>();
    #[cfg(feature = "simd")]
    {
        v.extend(sparse128_default_cfgs::<T>());
        v.extend(sparse256_default_cfgs::<T>());
    }
    v
}
