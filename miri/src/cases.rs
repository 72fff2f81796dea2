use crate::val::*;
use crate::Family;
use hibit_tree::bit_queue::BitQueue;
use hibit_tree::config::SparseTreeLevels;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::{BinaryFunction, LendingIterator, NullaryFunction, UnaryFunction};
use hibit_tree::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } };
}
type Res = Result<(), String>;
type Model = BTreeMap<usize, u64>;

/// What the two containers share.
pub trait Tree: Sized + Default + 'static {
    type V: Val;
    fn ins(&mut self, k: usize, v: Self::V);
    fn goi(&mut self, k: usize) -> &mut Self::V;
    fn rem(&mut self, k: usize) -> Option<Self::V>;
    fn at(&self, k: usize) -> Option<&Self::V>;
    unsafe fn at_unchecked(&self, k: usize) -> &Self::V;
    fn kv(&self) -> (&[usize], &[Self::V]);
    fn kv_mut(&mut self) -> (&[usize], &mut [Self::V]);
    /// Mutable access to a present and an absent key, where there is any.
    fn muts(&mut self, k: usize, new: Self::V) -> bool;
    fn or_default(&self, k: usize) -> Option<u64>;
    fn width() -> usize;
    fn depth() -> usize;
}
macro_rules! common {
    () => {
        fn ins(&mut self, k: usize, v: T) {
            self.insert(k, v)
        }
        fn rem(&mut self, k: usize) -> Option<T> {
            self.remove(k)
        }
        fn at(&self, k: usize) -> Option<&T> {
            self.get(k)
        }
        unsafe fn at_unchecked(&self, k: usize) -> &T {
            HibitTree::get_unchecked(self, k)
        }
        fn kv(&self) -> (&[usize], &[T]) {
            self.key_values()
        }
        fn kv_mut(&mut self) -> (&[usize], &mut [T]) {
            self.key_values_mut()
        }
        fn width() -> usize {
            <Self as HibitTree>::LevelMask::SIZE
        }
        fn depth() -> usize {
            <Self as HibitTree>::LevelCount::VALUE
        }
    };
}
impl<T: Val, const D: usize> Tree for DenseTree<T, D>
where
    ConstUsize<D>: ConstInteger,
{
    type V = T;
    common!();
    fn goi(&mut self, k: usize) -> &mut T {
        self.get_or_insert(k)
    }
    fn muts(&mut self, _: usize, _: T) -> bool {
        false
    }
    fn or_default(&self, _: usize) -> Option<u64> {
        None
    }
}
impl<L: SparseTreeLevels + 'static, T: Val> Tree for SparseTree<L, T> {
    type V = T;
    common!();
    fn goi(&mut self, k: usize) -> &mut T {
        self.get_or_insert(k)
    }
    fn muts(&mut self, k: usize, new: T) -> bool {
        if let Some(v) = self.get_mut(k) {
            *v = new;
            true
        } else {
            false
        }
    }
    fn or_default(&self, _: usize) -> Option<u64> {
        None
    }
}
impl<L: SparseTreeLevels + 'static, T: Val> Tree for SparseTree<L, T, ReqDefault> {
    type V = T;
    common!();
    fn goi(&mut self, k: usize) -> &mut T {
        self.get_or_insert(k)
    }
    fn muts(&mut self, k: usize, new: T) -> bool {
        if self.get(k).is_some() {
            *unsafe { self.get_mut_unchecked(k) } = new;
            true
        } else {
            false
        }
    }
    fn or_default(&self, k: usize) -> Option<u64> {
        Some(self.get_or_default(k).id())
    }
}

fn keys(w: usize, d: usize, n: usize) -> Vec<usize> {
    let c = w.saturating_pow(d as u32);
    let last = if c == usize::MAX { c - 1 } else { c - 1 };
    let mut k = match d {
        1 => vec![0, w - 1, 1, w / 2],
        2 => vec![1, last, w + 1, 0],
        _ => vec![w + 1, last, 1, w * w],
    };
    k.truncate(n);
    k
}

fn same<T: Tree>(t: &T, m: &Model, ks: &[usize]) -> Res
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    for &k in ks {
        let g = t.at(k).map(|v| v.id());
        ck!(g == m.get(&k).copied(), "get({k}) gives {g:?}, expected {:?}", m.get(&k));
        if g.is_some() {
            ck!(unsafe { t.at_unchecked(k) }.id() == m[&k], "get_unchecked({k})");
        }
        if let Some(x) = t.or_default(k) {
            ck!(x == m.get(&k).copied().unwrap_or(0), "get_or_default({k}) gives {x}");
        }
    }
    let (a, b) = t.kv();
    ck!(a.len() == m.len() && b.len() == m.len(), "{} keys and {} values, expected {}", a.len(), b.len(), m.len());
    for (k, v) in a.iter().zip(b) {
        ck!(m.get(k) == Some(&v.id()), "views list {k} {}", v.id());
    }
    let mut it = t.iter();
    for (k, v) in m {
        let x = Iterator::next(&mut it).map(|(k, v)| (k, v.id()));
        ck!(x == Some((*k, *v)), "iteration gives {x:?}, expected {k} {v}");
    }
    ck!(Iterator::next(&mut it).is_none(), "iteration goes on");
    Ok(())
}

/// All histories of up to `len` operations over `n` keys.
pub fn hist<T: Tree>(v: &mut Vec<Family>, name: &str, n: usize, len: u32)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    let ks = keys(T::width(), T::depth(), n);
    let per = ks.len() * 4;
    let count: usize = (1..=len).map(|l| per.pow(l)).sum();
    v.push(Family {
        name: format!("hist/{name}/{}/{n}x{len}", T::V::NAME),
        count,
        block: 100,
        run: Box::new(move |i| {
            let (mut i, mut l) = (i, 1);
            while i >= per.pow(l) {
                i -= per.pow(l);
                l += 1;
            }
            let mut t = T::default();
            let mut m = Model::new();
            for s in 0..l {
                let o = i % per;
                i /= per;
                let (k, id) = (ks[o / 4], (s as u64 + 5) & T::V::MASK);
                match o % 4 {
                    0 => {
                        t.ins(k, T::V::mk(id));
                        m.insert(k, id);
                    }
                    1 => {
                        let x = t.goi(k);
                        ck!(x.id() == m.get(&k).copied().unwrap_or(0), "get_or_insert({k}) gives {}", x.id());
                        *x = T::V::mk(id);
                        m.insert(k, id);
                    }
                    2 => {
                        let r = t.rem(k).map(|x| x.id());
                        ck!(r == m.remove(&k), "remove({k}) gives {r:?}");
                    }
                    _ => {
                        if t.muts(k, T::V::mk(id)) {
                            ck!(m.insert(k, id).is_some(), "mutable access to the absent key {k}");
                        } else {
                            let (a, b) = t.kv_mut();
                            if let Some(p) = a.iter().position(|x| *x == k) {
                                b[p] = T::V::mk(id);
                                m.insert(k, id);
                            }
                        }
                    }
                }
            }
            let (a, b) = t.kv_mut();
            for (k, v) in a.iter().zip(b) {
                let id = (v.id() + 1) & T::V::MASK;
                *v = T::V::mk(id);
                m.insert(*k, id);
            }
            same(&t, &m, &ks)?;
            // a reference stays good while the tree is only read
            if let Some(k) = m.keys().next() {
                let r = t.at(*k).unwrap();
                same(&t, &m, &ks)?;
                ck!(r.id() == m[k], "reference");
            }
            drop(t);
            Ok(())
        }),
    });
}

/// A node with every number of children; filled and emptied in three orders.
pub fn fill<T: Tree>(v: &mut Vec<Family>, name: &str, w: usize, deep: bool)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    v.push(Family {
        name: format!("fill/{name}"),
        count: if !deep { if w > 64 { 1 } else { 3 } } else if w > 64 { 3 } else { 9 },
        block: 1,
        run: Box::new(move |i| {
            let order = |k: usize, o: usize| match o {
                0 => k,
                1 => w - 1 - k,
                _ => (k * 37 + 11) % w,
            };
            let st = if T::depth() == 1 { 1 } else { w };
            let mut t = T::default();
            let mut m = Model::new();
            for j in 0..w {
                // the first cases of the nine differ in both orders
                let k = order(j, i % 3) * st;
                t.ins(k, T::V::mk(k as u64));
                m.insert(k, k as u64 & T::V::MASK);
                if j % (w / 4) == 0 {
                    same(&t, &m, &[0, k])?;
                }
            }
            for j in 0..w {
                let k = order(j, (i / 3 + i) % 3) * st;
                let r = t.rem(k).map(|x| x.id());
                ck!(r == m.remove(&k), "remove({k})");
                if j % (w / 4) == 0 {
                    same(&t, &m, &[0, k])?;
                }
            }
            t.ins(5, T::V::mk(1));
            drop(t);
            Ok(())
        }),
    });
}

// ------------------------------------------------------------------ operators

struct Sum;
trait Num {
    fn num(self) -> u64;
}
impl<T: Val> Num for &T {
    fn num(self) -> u64 {
        self.id()
    }
}
impl Num for u64 {
    fn num(self) -> u64 {
        self
    }
}
impl<A: Num> Num for Option<A> {
    fn num(self) -> u64 {
        self.map_or(7, |a| a.num())
    }
}
impl<A: Num, B: Num> Num for (A, B) {
    fn num(self) -> u64 {
        self.0.num() * 1000 + self.1.num()
    }
}
impl<A: Num> UnaryFunction<A> for Sum {
    type Output = u64;
    fn exec(&self, a: A) -> u64 {
        a.num()
    }
}
impl<A: Num> BinaryFunction<u64, A> for Sum {
    type Output = u64;
    fn exec(&self, x: u64, a: A) -> u64 {
        x * 31 + a.num()
    }
}
impl NullaryFunction for Sum {
    type Output = u64;
    fn exec(&self) -> u64 {
        1
    }
}
struct Boxed;
impl<A: Num> UnaryFunction<A> for Boxed {
    type Output = Box<u64>;
    fn exec(&self, a: A) -> Box<u64> {
        Box::new(a.num())
    }
}

/// Through the cursor, checked and unchecked, down every key, then everything the masks show.
fn walk<'s, T: HibitTree>(t: &'s T, ks: &[usize], f: &mut dyn FnMut(usize, bool)) {
    fn down<'s, T: HibitTree, N: ConstInteger>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, n: N, k: usize) -> usize {
        let (b, d) = (T::LevelMask::SIZE.ilog2() as usize, T::LevelCount::VALUE);
        let i = if N::VALUE == 0 { 0 } else { k >> (b * (d - N::VALUE)) & (T::LevelMask::SIZE - 1) };
        unsafe { c.select_level_node(t, n, i) };
        if N::VALUE + 1 < d {
            down::<T, N::Inc>(t, c, n.inc(), k)
        } else {
            k & (T::LevelMask::SIZE - 1)
        }
    }
    fn all<'s, T: HibitTree, N: ConstInteger>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, n: N, i: usize) {
        let m = unsafe { c.select_level_node_unchecked(t, n, i) };
        let mut b = vec![];
        let _ = m.traverse_bits(|x| -> ControlFlow<()> {
            b.push(x);
            ControlFlow::Continue(())
        });
        for x in b {
            if N::VALUE + 1 < T::LevelCount::VALUE {
                all::<T, N::Inc>(t, c, n.inc(), x)
            } else {
                unsafe {
                    let _ = c.data_unchecked(t, x);
                    let _ = c.data(t, x);
                }
            }
        }
    }
    let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
    for &k in ks {
        let i = down::<T, ConstUsize<0>>(t, &mut c, ConstUsize, k);
        f(k, unsafe { c.data(t, i) }.is_some());
    }
    all::<T, ConstUsize<0>>(t, &mut c, ConstUsize, 0);
}
fn reg<T: RegularHibitTree>(t: &T, ks: &[usize], want: &dyn Fn(usize) -> Option<u64>) -> Res
where
    T: for<'a> HibitTreeTypes<'a, Data: Num, DataUnchecked: Num>,
{
    for &k in ks {
        let g = t.get(k).map(|v| v.num());
        ck!(g == want(k), "get({k}) gives {g:?}, expected {:?}", want(k));
        if g.is_some() {
            ck!(Some(unsafe { t.get_unchecked(k) }.num()) == g, "get_unchecked({k})");
        }
    }
    let mut it = t.iter();
    let mut s = ks.to_vec();
    s.sort_unstable();
    for k in s {
        if let Some(w) = want(k) {
            let x = Iterator::next(&mut it).map(|(k, v)| (k, v.num()));
            ck!(x == Some((k, w)), "iteration gives {x:?}, expected {k} {w}");
        }
    }
    ck!(Iterator::next(&mut it).is_none(), "iteration goes on");
    drop(it);
    let mut bad = None;
    walk(t, ks, &mut |k, p| {
        if p != want(k).is_some() {
            bad = Some(k)
        }
    });
    ck!(bad.is_none(), "cursor is wrong at key {bad:?}");
    Ok(())
}
macro_rules! mul {
    ($t:expr, $ks:expr, $want:expr) => {{
        let t = $t;
        let want: &dyn Fn(usize) -> Option<Vec<u64>> = &$want;
        for &k in $ks.iter() {
            let g = t.get(k).map(|v| v.map(|x| x.num()).collect::<Vec<u64>>());
            ck!(g == want(k), "get({k}) gives {g:?}, expected {:?}", want(k));
            if g.is_some() {
                let mut i = unsafe { t.get_unchecked(k) };
                let first = i.next().map(|x| x.num());
                ck!(first == g.as_ref().unwrap().first().copied(), "first item of {k}");
                let rest = i.fold(0, |a, x| a * 3 + x.num());
                ck!(rest == g.unwrap()[1..].iter().fold(0, |a, x| a * 3 + x), "rest of the items of {k}");
            }
        }
        for style in 0..2 {
            let mut it = t.iter();
            let mut s = $ks.to_vec();
            s.sort_unstable();
            for k in s {
                if let Some(w) = want(k) {
                    let Some((k2, mut v)) = LendingIterator::next(&mut it) else { return Err(format!("iteration ends before {k}")) };
                    ck!(k == k2, "iteration gives {k2}, expected {k}");
                    let got: Vec<u64> = if style == 0 {
                        let mut g = vec![];
                        while let Some(x) = v.next() { g.push(x.num()) }
                        g
                    } else {
                        let mut g: Vec<u64> = v.next().into_iter().map(|x| x.num()).collect();
                        v.for_each(|x| g.push(x.num()));
                        g
                    };
                    ck!(got == w, "items of {k} are {got:?}, expected {w:?}");
                }
            }
            ck!(LendingIterator::next(&mut it).is_none(), "iteration goes on");
        }
        let mut bad = None;
        walk(&t, &$ks, &mut |k, p| if p != want(k).is_some() { bad = Some(k) });
        ck!(bad.is_none(), "cursor is wrong at key {bad:?}");
    }};
}
fn sub<T: Tree>(ks: &[usize], n: u64, bits: usize) -> (T, Vec<Option<u64>>) {
    let mut t = T::default();
    let mut v = vec![None; ks.len()];
    for (i, k) in ks.iter().enumerate() {
        if bits >> i & 1 == 1 {
            let id = n * 100 + i as u64 + 1;
            t.ins(*k, T::V::mk(id));
            v[i] = Some(id);
        }
    }
    (t, v)
}
fn fold(l: &[u64]) -> u64 {
    l.iter().fold(1, |x, a| x * 31 + a)
}

/// Every pair of contents, under every operator.
pub fn lazy_pairs<T: Tree>(v: &mut Vec<Family>, name: &str, n: usize)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    let ks = keys(T::width(), T::depth(), n);
    let s = 1usize << ks.len();
    v.push(Family {
        name: format!("lazy/{name}/{n}"),
        count: s * s,
        block: 4,
        run: Box::new(move |i| {
            let (a, ra) = sub::<T>(&ks, 1, i % s);
            let (b, rb) = sub::<T>(&ks, 2, i / s);
            let ix = |k: usize| ks.iter().position(|x| *x == k).unwrap();
            let inter = |k: usize| ra[ix(k)].zip(rb[ix(k)]);
            let uni = |k: usize| {
                let (x, y) = (ra[ix(k)], rb[ix(k)]);
                (x.is_some() || y.is_some()).then(|| x.unwrap_or(7) * 1000 + y.unwrap_or(7))
            };
            let list = |k: usize| [ra[ix(k)], rb[ix(k)], ra[ix(k)]].into_iter().flatten().collect::<Vec<u64>>();
            let l = [&a, &b, &a];
            reg(&intersection(&a, &b), &ks, &|k| inter(k).map(|(x, y)| x * 1000 + y))?;
            reg(&union(&a, &b), &ks, &uni)?;
            reg(&map(intersection(&a, &b), Sum), &ks, &|k| inter(k).map(|(x, y)| x * 1000 + y))?;
            reg(&map(union(&a, &b), Sum), &ks, &uni)?;
            mul!(multi_intersection(l.iter().copied()), ks, |k| Some(list(k)).filter(|l| l.len() == 3));
            mul!(multi_union(l.iter().copied()), ks, |k| Some(list(k)).filter(|l| l.len() > 0));
            reg(&multi_intersection(l.iter().copied()).map_fold(Sum, Sum), &ks, &|k| Some(list(k)).filter(|l| l.len() == 3).map(|l| fold(&l)))?;
            reg(&multi_union(l.iter().copied()).map_fold(Sum, Sum), &ks, &|k| Some(list(k)).filter(|l| l.len() > 0).map(|l| fold(&l)))?;
            mul!(multi_intersection(l[..0].iter().copied()), ks, |_| None);
            mul!(multi_union(l[..0].iter().copied()), ks, |_| None);
            Ok(())
        }),
    });
}
/// Operators over operators, three operands.
pub fn lazy_deep<T: Tree>(v: &mut Vec<Family>, name: &str, n: usize)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    let ks = keys(T::width(), T::depth(), n);
    let s = 1usize << ks.len();
    v.push(Family {
        name: format!("deep/{name}/{n}"),
        count: s * s * s,
        block: 2,
        run: Box::new(move |i| {
            let (a, ra) = sub::<T>(&ks, 1, i % s);
            let (b, rb) = sub::<T>(&ks, 2, i / s % s);
            let (c, rc) = sub::<T>(&ks, 3, i / s / s);
            let ix = |k: usize| ks.iter().position(|x| *x == k).unwrap();
            let inter = |x: Option<u64>, y: Option<u64>| x.zip(y).map(|(x, y)| x * 1000 + y);
            let uni = |x: Option<u64>, y: Option<u64>| (x.is_some() || y.is_some()).then(|| x.unwrap_or(7) * 1000 + y.unwrap_or(7));
            reg(&intersection(union(&a, &b), &c), &ks, &|k| inter(uni(ra[ix(k)], rb[ix(k)]), rc[ix(k)]))?;
            reg(&union(intersection(&a, &b), &c), &ks, &|k| uni(inter(ra[ix(k)], rb[ix(k)]), rc[ix(k)]))?;
            let (x, y) = (intersection(&a, &b), intersection(&b, &c));
            let at = |k: usize| [inter(ra[ix(k)], rb[ix(k)]), inter(rb[ix(k)], rc[ix(k)])].into_iter().flatten().collect::<Vec<u64>>();
            mul!(multi_union([&x, &y].into_iter()), ks, |k| Some(at(k)).filter(|l| l.len() > 0));
            mul!(multi_intersection([&x, &y].into_iter()), ks, |k| Some(at(k)).filter(|l| l.len() == 2));
            let (x, y) = (union(&a, &b), union(&b, &c));
            let at = |k: usize| [uni(ra[ix(k)], rb[ix(k)]), uni(rb[ix(k)], rc[ix(k)])].into_iter().flatten().collect::<Vec<u64>>();
            mul!(multi_union([&x, &y].into_iter()), ks, |k| Some(at(k)).filter(|l| l.len() > 0));
            mul!(multi_intersection([&x, &y].into_iter()), ks, |k| Some(at(k)).filter(|l| l.len() == 2));
            let (x, y) = ([&a, &b], [&b, &c]);
            let (x, y) = (multi_union(x.iter().copied()).map_fold(Sum, Sum), multi_intersection(y.iter().copied()).map_fold(Sum, Sum));
            let fu = |k: usize| Some([ra[ix(k)], rb[ix(k)]].into_iter().flatten().collect::<Vec<_>>()).filter(|l| l.len() > 0).map(|l| fold(&l));
            let fi = |k: usize| rb[ix(k)].zip(rc[ix(k)]).map(|(x, y)| fold(&[x, y]));
            reg(&union(&x, &y), &ks, &|k| uni(fu(k), fi(k)))?;
            reg(&intersection(&x, &y), &ks, &|k| inter(fu(k), fi(k)))?;
            // operands by value
            drop((x, y));
            reg(&intersection(a, union(b, c)), &ks, &|k| inter(ra[ix(k)], uni(rb[ix(k)], rc[ix(k)])))?;
            Ok(())
        }),
    });
}
/// Up to 32 operands.
pub fn many(v: &mut Vec<Family>, deep: bool) {
    v.push(Family {
        name: "many/dense2".into(),
        count: if deep { 12 } else { 8 },
        block: 2,
        run: Box::new(|i| {
            let n = [1, 2, 17, 32, 16, 31][i / 2];
            let ks = [1usize, 4095, 65];
            let t: Vec<_> = (0..n).map(|j| sub::<DenseTree<Box<u64>, 2>>(&ks, j as u64, if i % 2 == 0 { 7 } else { 1 << (j % 3) })).collect();
            let at = |k: usize| {
                let p = ks.iter().position(|x| *x == k).unwrap();
                t.iter().filter_map(|x| x.1[p]).collect::<Vec<u64>>()
            };
            mul!(multi_union(t.iter().map(|x| &x.0)), ks, |k| Some(at(k)).filter(|l| l.len() > 0));
            mul!(multi_intersection(t.iter().map(|x| &x.0)), ks, |k| Some(at(k)).filter(|l| l.len() == n));
            Ok(())
        }),
    });
}
/// A source of operands whose copies do not give the same trees: safe code may do so, and whatever it
/// is told the answer, memory has to stay intact. (A panic is allowed.)
struct Moving<'a, T> {
    trees: &'a [T],
    plan: &'a Cell<&'static [usize]>,
    rest: &'static [usize],
}
impl<'a, T> Clone for Moving<'a, T> {
    fn clone(&self) -> Self {
        Moving { trees: self.trees, plan: self.plan, rest: self.plan.get() }
    }
}
impl<'a, T> Iterator for Moving<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let (i, rest) = self.rest.split_first()?;
        self.rest = rest;
        Some(&self.trees[*i])
    }
}
const PLANS: [&[usize]; 7] = [&[0, 1], &[], &[2], &[2, 1, 0], &[0, 1, 2], &[2, 2, 1, 0], &[3]];
pub fn moving<T: Tree>(v: &mut Vec<Family>, name: &str, n: usize)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    let ks = keys(T::width(), T::depth(), 3);
    v.push(Family {
        name: format!("moving/{name}/{n}"),
        count: n * n * n,
        block: 8,
        run: Box::new(move |i| {
            let plans = [PLANS[i % n], PLANS[i / n % n], PLANS[i / n / n]];
            // a full tree, two with holes, an empty one
            let trees: Vec<T> = [7, 3, 5, 0].into_iter().enumerate().map(|(j, b)| sub::<T>(&ks, j as u64, b).0).collect();
            macro_rules! run {
                ($op:ident) => {
                    for by_fold in [false, true] {
                        let plan = Cell::new(plans[0]);
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            let t = $op(Moving { trees: &trees, plan: &plan, rest: plans[0] });
                            let mut it = t.iter();
                            for step in 0..4 {
                                plan.set(plans[[1, 1, 2, 0][step]]);
                                let Some((_, item)) = it.next() else { break };
                                plan.set(plans[[2, 0, 1, 1][step]]);
                                if by_fold {
                                    item.for_each(|x| drop(x.id()));
                                } else {
                                    for x in item {
                                        plan.set(plans[step % 3]);
                                        x.id();
                                    }
                                }
                            }
                            plan.set(plans[1]);
                            for k in &ks {
                                if let Some(item) = t.get(*k) {
                                    plan.set(plans[2]);
                                    item.for_each(|x| drop(x.id()));
                                }
                            }
                            let m = t.map_fold(Sum, Sum);
                            let mut it = m.iter();
                            while let Some(_) = LendingIterator::next(&mut it) {
                                plan.set(plans[0]);
                            }
                        }));
                    }
                };
            }
            run!(multi_intersection);
            run!(multi_union);
            Ok(())
        }),
    });
}
/// Materialised results, changed afterwards.
pub fn materialise<const D: usize>(v: &mut Vec<Family>, n: usize)
where
    ConstUsize<D>: ConstInteger,
{
    let ks = keys(64, D, n);
    let s = 1usize << ks.len();
    v.push(Family {
        name: format!("materialise/dense{D}/{n}"),
        count: s * s,
        block: 4,
        run: Box::new(move |i| {
            type T<const D: usize> = DenseTree<Box<u64>, D>;
            let (a, ra) = sub::<T<D>>(&ks, 1, i % s);
            let (b, rb) = sub::<T<D>>(&ks, 2, i / s);
            let mut ms: Vec<(T<D>, Model)> = vec![];
            let pick = |f: &dyn Fn(Option<u64>, Option<u64>) -> Option<u64>| -> Model {
                (0..ks.len()).filter_map(|j| f(ra[j], rb[j]).map(|x| (ks[j], x))).collect()
            };
            ms.push((map(intersection(&a, &b), Boxed).materialize(), pick(&|x, y| x.zip(y).map(|(x, y)| x * 1000 + y))));
            ms.push((
                map(union(&a, &b), Boxed).materialize(),
                pick(&|x, y| (x.is_some() || y.is_some()).then(|| x.unwrap_or(7) * 1000 + y.unwrap_or(7))),
            ));
            ms.push((map(&a, Boxed).materialize(), pick(&|x, _| x)));
            let l = [&a, &b];
            ms.push((
                map(multi_union(l.iter().copied()).map_fold(Sum, Sum), Boxed).materialize(),
                pick(&|x, y| Some(x.into_iter().chain(y).collect::<Vec<_>>()).filter(|l| l.len() > 0).map(|l| fold(&l))),
            ));
            for (t, m) in &mut ms {
                same(t, m, &ks)?;
                for (j, &k) in ks.iter().enumerate() {
                    if j % 2 == i % 2 {
                        let r = t.rem(k).map(|x| *x);
                        ck!(r == m.remove(&k), "remove({k})");
                    } else {
                        t.ins(k, Box::new(3));
                        m.insert(k, 3);
                    }
                }
                let far = ks[0] ^ 2;
                **t.goi(far) += 1;
                m.insert(far, 1);
                same(t, m, &ks)?;
            }
            Ok(())
        }),
    });
}

// ------------------------------------------------------------------ panics

/// All histories, all calls of user code panic once; then the tree is used and dropped.
pub fn panics<T: Tree<V = Bomb>>(v: &mut Vec<Family>, name: &str, n: usize, len: u32)
where
    T: HibitTree,
    T: for<'a> HibitTreeTypes<'a, Data = &'a <T as Tree>::V>,
    T: RegularHibitTree,
{
    let ks = keys(T::width(), T::depth(), n);
    let per = ks.len() * 3;
    const FUSES: usize = 4;
    v.push(Family {
        name: format!("panic/{name}/{n}x{len}"),
        count: per.pow(len) * FUSES,
        block: 60,
        run: Box::new(move |i| {
            FUSE.set(0);
            let mut t = T::default();
            let mut p = i / FUSES;
            FUSE.set((i % FUSES) as u32 + 1);
            for s in 0..len {
                let o = p % per;
                p /= per;
                let k = ks[o / 3];
                let _ = catch_unwind(AssertUnwindSafe(|| match o % 3 {
                    0 => t.ins(k, Bomb::mk(s as u64 + 1)),
                    1 => {
                        t.goi(k);
                    }
                    _ => drop(t.rem(k)),
                }));
            }
            let left = FUSE.replace(0);
            // whatever happened, the tree agrees with itself
            let m: Model = ks.iter().filter_map(|k| t.at(*k).map(|x| (*k, x.id()))).collect();
            same(&t, &m, &ks)?;
            for &k in &ks {
                t.ins(k, Bomb::mk(9));
            }
            t.rem(ks[0]);
            // what is left of the fuse burns in the destructor
            FUSE.set(left);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(t)));
            FUSE.set(0);
            Ok(())
        }),
    });
}
struct Burn;
impl<A> UnaryFunction<A> for Burn {
    type Output = Bomb;
    fn exec(&self, _: A) -> Bomb {
        fuse();
        Bomb::mk(4)
    }
}
pub fn panic_materialise(v: &mut Vec<Family>, fuses: usize) {
    v.push(Family {
        name: "panic/materialise".into(),
        count: 8 * 8 * fuses,
        block: 30,
        run: Box::new(|i| {
            FUSE.set(0);
            let ks = keys(64, 2, 3);
            let (a, _) = sub::<DenseTree<u64, 2>>(&ks, 1, i % 8);
            let (b, _) = sub::<DenseTree<u64, 2>>(&ks, 2, i / 8 % 8);
            for exact in [false, true] {
                FUSE.set((i / 64) as u32 + 1);
                let r = catch_unwind(AssertUnwindSafe(|| -> DenseTree<Bomb, 2> {
                    if exact {
                        map(union(&a, &b), Burn).materialize()
                    } else {
                        map(intersection(&a, &b), Burn).materialize()
                    }
                }));
                FUSE.set(0);
                if let Ok(mut t) = r {
                    t.insert(ks[0], Bomb::mk(1));
                    t.remove(ks[1]);
                }
            }
            Ok(())
        }),
    });
}

// ------------------------------------------------------------------ bits, ranges

pub fn queues(v: &mut Vec<Family>) {
    fn go<M: BitBlock>(bits: &[usize], from: usize, stop: usize) -> Res {
        let mut m = M::zero();
        for b in bits {
            m.set_bit::<true>(*b);
        }
        let mut q = m.clone().into_bits_iter();
        q.trim_to(from);
        let want: Vec<usize> = bits.iter().copied().filter(|b| *b >= from).collect();
        let mut got: Vec<usize> = q.by_ref().take(stop).collect();
        let mut seen = 0;
        let _ = q.clone().traverse(|_| {
            seen += 1;
            if seen == stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        });
        got.extend(q.clone());
        while q.next().is_some() {}
        ck!(q.next().is_none(), "queue goes on");
        ck!(got == want, "queue gives {got:?}, expected {want:?}");
        Ok(())
    }
    v.push(Family {
        name: "queues".into(),
        count: 64,
        block: 32,
        run: Box::new(|i| {
            for from in [0, 1, 31, 63] {
                let b: Vec<usize> = [0, 1, 31, 32, 62, 63].into_iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|x| x.1).collect();
                go::<u64>(&b, from, i % 3)?;
            }
            #[cfg(feature = "simd")]
            for from in [0, 63, 64, 255] {
                let b: Vec<usize> = [0, 63, 64, 127, 192, 255].into_iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|x| x.1).collect();
                go::<wide::u64x4>(&b, from, i % 3)?;
            }
            Ok(())
        }),
    });
}
pub fn blocks(v: &mut Vec<Family>) {
    fn go<M: BitBlock>(i: usize) -> Res {
        let bits = [0, 1, M::SIZE / 2, M::SIZE - 1];
        let mut m = M::zero();
        for (j, b) in bits.iter().enumerate() {
            if i >> j & 1 == 1 {
                ck!(!m.set_bit::<true>(*b), "bit {b}");
            }
        }
        let n = m.clone();
        for b in bits {
            let was = m.get_bit(b);
            ck!(m.set_bit::<false>(b) == was && !m.get_bit(b), "bit {b}");
        }
        ck!(m.is_zero() && n.count_ones() == (i & 15).count_ones() as usize, "bits");
        let x = (n.clone() & m.clone()) | n.clone();
        ck!(x == n, "combination");
        Ok(())
    }
    v.push(Family {
        name: "blocks".into(),
        count: 16,
        block: 20,
        run: Box::new(|i| {
            go::<u64>(i)?;
            #[cfg(feature = "simd")]
            {
                go::<wide::u64x2>(i)?;
                go::<wide::u64x4>(i)?;
            }
            Ok(())
        }),
    });
}
pub fn out_of_range(v: &mut Vec<Family>) {
    v.push(Family {
        name: "out-of-range".into(),
        count: 6,
        block: 10,
        run: Box::new(|i| {
            let mut d: DenseTree<Box<u64>, 2> = Default::default();
            let mut s: SparseTree<hibit_tree::config::width_64::depth_2, Box<u64>> = Default::default();
            for (c, k) in [(0, 0), (1, 4095)] {
                d.insert(k, Box::new(c));
                s.insert(k, Box::new(c));
            }
            let k = [4096, 4097, 8191, 1 << 20, usize::MAX, usize::MAX / 2 + 1][i];
            let no = |r: bool| -> Res {
                ck!(r, "index {k} is accepted");
                Ok(())
            };
            no(catch_unwind(AssertUnwindSafe(|| d.insert(k, Box::new(1)))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| s.insert(k, Box::new(1)))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(d.get_or_insert(k).id()))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(s.get_or_insert(k).id()))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(d.remove(k)))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(s.remove(k)))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(s.get_mut(k).is_some()))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(union(&d, &s).get(k).is_some()))).is_err())?;
            no(catch_unwind(AssertUnwindSafe(|| drop(d.get(k).is_some()))).is_err())?;
            let m: Model = [(0, 0), (4095, 1)].into_iter().collect();
            same(&d, &m, &[0, 4095, 1])?;
            same(&s, &m, &[0, 4095, 1])
        }),
    });
}
