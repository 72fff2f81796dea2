use hibit_tree::config::{width_128 as w128, width_256 as w256, width_64 as w64};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::{BinaryFunction, NullaryFunction, UnaryFunction};
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, DenseTree, LazyHibitTree, MultiHibitTree, BitBlock, HibitTree, HibitTreeCursor, HibitTreeTypes, RegularHibitTree, SparseTree};
use hv::arena::{self, tracked};
use hv::ensure;
use hv::fam;
use hv::norm::{mix, t_opt, t_pair, Norm};
use hv::task::prod;
use hv::hist::*;
use hv::run::*;
use hv::sut::*;
use hv::val::*;

const CH: u32 = C_GET | C_KV | C_DROP | C_SCAN;

fn named(cfgs: Vec<Cfg>, t: &'static str) -> Vec<Cfg> {
    cfgs.into_iter().map(|c| Cfg { name: Box::leak(format!("{}<{}>", c.name, t).into_boxed_str()), mk: c.mk }).collect()
}
/// Every instantiation costs compile time; the quick tier leaves out some.
#[cfg(not(feature = "deep"))]
fn trees<T: TVal>(all: bool) -> Vec<Cfg> {
    let mut v = vec![
        Cfg { name: "dense/d1", mk: mk_dense::<T, 1> },
        Cfg { name: "dense/d2", mk: mk_dense::<T, 2> },
        Cfg { name: "dense/d3", mk: mk_dense::<T, 3> },
        Cfg { name: "sparse64/d2", mk: mk_sparse::<w64::depth_2, T> },
        Cfg { name: "sparse256/d2", mk: mk_sparse::<w256::depth_2, T> },
        Cfg { name: "sparse64def/d2", mk: mk_sparse_d::<w64::depth_2, T> },
    ];
    if all {
        v.extend([
            Cfg { name: "dense/d5", mk: mk_dense::<T, 5> },
            Cfg { name: "dense/d8", mk: mk_dense::<T, 8> },
            Cfg { name: "sparse64/d1", mk: mk_sparse::<w64::depth_1, T> },
            Cfg { name: "sparse64/d3", mk: mk_sparse::<w64::depth_3, T> },
            Cfg { name: "sparse64/d4", mk: mk_sparse::<w64::depth_4, T> },
            Cfg { name: "sparse64/d8", mk: mk_sparse::<w64::depth_8, T> },
            Cfg { name: "sparse128/d1", mk: mk_sparse::<w128::depth_1, T> },
            Cfg { name: "sparse128/d3", mk: mk_sparse::<w128::depth_3, T> },
            Cfg { name: "sparse256/d1", mk: mk_sparse::<w256::depth_1, T> },
            Cfg { name: "sparse256/d4", mk: mk_sparse::<w256::depth_4, T> },
            Cfg { name: "sparse64def/d4", mk: mk_sparse_d::<w64::depth_4, T> },
        ]);
    }
    v
}
#[cfg(feature = "deep")]
fn trees<T: TVal>(all: bool) -> Vec<Cfg> {
    let mut cfgs = dense_cfgs::<T>();
    if all {
        cfgs.extend(sparse_all::<T>());
        cfgs.extend(sparse64_default_cfgs::<T>());
    } else {
        cfgs.truncate(4);
        cfgs.extend(sparse64_cfgs::<T>().into_iter().take(3));
        cfgs.extend(sparse256_cfgs::<T>().into_iter().take(2));
        cfgs.extend(sparse64_default_cfgs::<T>().into_iter().take(3));
    }
    cfgs
}
fn flavour<T: TVal>(tier: Tier, all: bool, v: &mut Vec<Box<dyn Task>>) {
    for cfg in named(trees::<T>(all), T::NAME) {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        let deep = d > 4 || w > 64 && d > 2;
        fam::bfs(cfg, CH, if c.dense { tier.q(if deep { 4 } else { 5 }, 6) } else { tier.q(3, 4) }, v);
        if !deep || tier == Tier::Thorough {
            fam::bfs_filled(cfg, CH, tier.q(&[3, 7, 63][..], &[3, 7, 15, 31, 61, 62, 63, 127, 255][..]), 3, v);
        }
        if d <= tier.q(2, 3) {
            fam::population(cfg, CH, (0..=w).step_by(w / tier.q(16, 32)).collect(), v);
        }
        fam::subsets(cfg, CH, "a", fam::cube(w, d, tier.q(6, 10), true), 2, v);
        if w == 64 && (d == 3 || d == 4) && T::NAME == u8::NAME {
            fam::large(cfg, CH, 70_000, 1, "range-70000", &[(5, 1)], v);
            fam::large(cfg, CH, 66_000.min(c.capacity() / 65), 65, "nodes", &[(0, 1)], v);
        }
        if d == 2 || d == 3 && tier == Tier::Thorough {
            fam::large(cfg, CH, (w * w).min(4096), 1, "range", &[(5, 1)], v);
        }
    }
}

// ------------------------------------------------------- operators that own what they work on

/// A function that owns a value.
struct Cap(Own);
impl<T: Norm> UnaryFunction<T> for Cap {
    type Output = Own;
    fn exec(&self, arg: T) -> Own {
        Own::new(mix(self.0.id(), arg.norm()))
    }
}
impl NullaryFunction for Cap {
    type Output = Own;
    fn exec(&self) -> Own {
        Own::new(self.0.id())
    }
}
struct Fold(Own);
impl<T: Norm> BinaryFunction<Own, T> for Fold {
    type Output = Own;
    fn exec(&self, a: Own, arg: T) -> Own {
        Own::new(mix(mix(self.0.id(), a.id()), arg.norm()))
    }
}
fn folded(v: &[Option<u64>]) -> u64 {
    v.iter().flatten().fold(3, |a, x| mix(mix(4, a), *x))
}
fn full(keys: &[usize], m: u32, mut ins: impl FnMut(usize, Own)) {
    for (i, k) in keys.iter().enumerate() {
        if m >> i & 1 != 0 {
            ins(*k, Own::new(100 + i as u64))
        }
    }
}
const USES: [&str; 7] = ["dropped unused", "iterated", "an iterator given up after one item", "read key by key", "materialised", "materialised, changed", "materialised, dropped while its values live on"];
macro_rules! owned {
    ($v:expr; $($name:literal [$a:ident $b:ident: $x:ty, $d:literal] {$($pre:stmt)?} $e:expr, |$p:ident, $q:ident| $w:expr;)*) => {$(
        for keys in [[0usize, 1, 63], [0, 31, 64usize.saturating_pow($d) - 1]] {
            $v.push(prod(
                format!("owned/{}/{}/{keys:?}", $name, stringify!($x)),
                &[8, 8, USES.len()],
                move |p| {
                    let want: Vec<(usize, u64)> = keys.iter().enumerate().filter_map(|(i, k)| {
                        let on = |m: u32| (m >> i & 1 != 0).then_some(100 + i as u64);
                        let ($p, $q): (Option<u64>, Option<u64>) = (on(p[0]), on(p[1]));
                        let w: Option<u64> = $w;
                        w.map(|w| (*k, w))
                    }).collect();
                    tracked(|| {
                        let (mut $a, mut $b) = (<$x>::default(), <$x>::default());
                        full(&keys, p[0], |k, x| $a.insert(k, x));
                        full(&keys, p[1], |k, x| $b.insert(k, x));
                        $($pre)?
                        let e = $e;
                        let check = |got: Vec<(usize, &Own)>, want: &[(usize, u64)]| {
                            ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1.id() == b.1), "the items are {:?}, expected {want:?}", got.iter().map(|x| (x.0, x.1.id())).collect::<Vec<_>>());
                            Ok(())
                        };
                        match p[2] {
                            0 => drop(e),
                            1 => {
                                let got: Vec<(usize, Own)> = e.iter().collect();
                                check(got.iter().map(|x| (x.0, &x.1)).collect(), &want)?;
                                drop(e);
                                check(got.iter().map(|x| (x.0, &x.1)).collect(), &want)?;
                            }
                            2 => {
                                let first = Iterator::next(&mut e.iter());
                                ensure!(first.as_ref().map(|x| (x.0, x.1.id())) == want.first().copied(), "the first item is wrong");
                                drop(e);
                                ensure!(first.map(|x| x.1.id()) == want.first().map(|x| x.1), "the first item went with its source");
                            }
                            3 => {
                                for k in keys {
                                    let g = e.get(k);
                                    let w = want.iter().find(|x| x.0 == k).map(|x| x.1);
                                    ensure!(g.as_ref().map(|x| x.id()) == w, "get({k}) = {:?}, expected {w:?}", g.map(|x| x.id()));
                                    if w.is_some() {
                                        let g = unsafe { e.get_unchecked(k) };
                                        ensure!(Some(g.id()) == w, "get_unchecked({k}) = {}, expected {w:?}", g.id());
                                    }
                                }
                            }
                            u => {
                                let mut t: DenseTree<Own, $d> = e.materialize();
                                check(t.iter().collect(), &want)?;
                                if u == 5 {
                                    let mut want = want.clone();
                                    for (i, k) in keys.iter().enumerate() {
                                        if i % 2 == 0 {
                                            t.insert(*k, Own::new(7));
                                            want.retain(|x| x.0 != *k);
                                            want.push((*k, 7));
                                        } else {
                                            let r = t.remove(*k).map(|x| x.id());
                                            let w = want.iter().find(|x| x.0 == *k).map(|x| x.1);
                                            ensure!(r == w, "remove({k}) = {r:?}, expected {w:?}");
                                            want.retain(|x| x.0 != *k);
                                        }
                                    }
                                    want.sort();
                                    check(t.iter().collect(), &want)?;
                                }
                                if u == 6 {
                                    let kept: Vec<(usize, Own)> = want.iter().map(|x| (x.0, t.remove(x.0).unwrap())).collect();
                                    drop(t);
                                    check(kept.iter().map(|x| (x.0, &x.1)).collect(), &want)?;
                                }
                            }
                        }
                        Ok(())
                    })?;
                    ensure!(live() == 0, "{} values leaked or over-dropped", live());
                    if let Some(l) = arena::leaks() {
                        hv::fail!("{l}");
                    }
                    if let Some(l) = arena::scan() {
                        hv::fail!("{l}");
                    }
                    Ok(Out { canon: p.iter().fold(1, |a, x| a << 8 | *x as u128), nontrivial: !want.is_empty() })
                },
                move |p| format!("keys {keys:?}: operand contents {:03b} and {:03b}, the expression is {}", p[0], p[1], USES[p[2] as usize]),
            ));
        }
    )*};
}
macro_rules! owners {
    ($v:expr; $($x:ty, $d:literal;)*) => {$(
        owned!($v;
            "map" [a b: $x, $d] {drop(b)} map(a, Cap(Own::new(9))), |p, _q| p.map(|x| mix(9, x));
            "map-union" [a b: $x, $d] {} map(union(a, b), Cap(Own::new(9))), |p, q| (p.is_some() || q.is_some()).then(|| mix(9, t_pair(t_opt(p), t_opt(q))));
            "map-intersection" [a b: $x, $d] {} map(intersection(a, b), Cap(Own::new(9))), |p, q| p.zip(q).map(|(x, y)| mix(9, t_pair(x, y)));
            "map-mixed" [a b: $x, $d] {} map(union(a, &b), Cap(Own::new(9))), |p, q| (p.is_some() || q.is_some()).then(|| mix(9, t_pair(t_opt(p), t_opt(q))));
            "map-of-map" [a b: $x, $d] {drop(b)} map(map(a, Cap(Own::new(8))), Cap(Own::new(9))), |p, _q| p.map(|x| mix(9, mix(8, x)));
            "fold-union" [a b: $x, $d] {let l = [a, b]} multi_union(l.iter()).map_fold(Cap(Own::new(3)), Fold(Own::new(4))), |p, q| (p.is_some() || q.is_some()).then(|| folded(&[p, q]));
            "fold-union-vec" [a b: $x, $d] {let l = [a, b]} multi_union(l.iter().collect::<Vec<_>>().into_iter()).map_fold(Cap(Own::new(3)), Fold(Own::new(4))), |p, q| (p.is_some() || q.is_some()).then(|| folded(&[p, q]));
            "fold-intersection" [a b: $x, $d] {let l = [a, b]} multi_intersection(l.iter()).map_fold(Cap(Own::new(3)), Fold(Own::new(4))), |p, q| (p.is_some() && q.is_some()).then(|| folded(&[p, q]));
            "fold-intersection-vec" [a b: $x, $d] {let l = [a, b]} multi_intersection(l.iter().collect::<Vec<_>>().into_iter()).map_fold(Cap(Own::new(3)), Fold(Own::new(4))), |p, q| (p.is_some() && q.is_some()).then(|| folded(&[p, q]));
        );
    )*};
}

/// What a many-way operator over computed values hands out: items that nobody takes are dropped too.
const TAKES: [&str; 7] = ["not touched", "one is taken", "all are taken", "the second is taken", "counted", "the last is taken", "one is taken, the rest folded"];
const PATHS: [&str; 4] = ["get", "get_unchecked", "iteration", "cursor"];
fn take(mut i: impl Iterator<Item = Own>, how: u32, want: &[u64]) -> Result<(), String> {
    let w = |n: usize| want.get(n).copied();
    let mut got = |x: Option<Own>, w: Option<u64>| {
        ensure!(x.as_ref().map(|x| x.id()) == w, "the item is {:?}, expected {w:?}", x.map(|x| x.id()));
        Ok(())
    };
    match how {
        0 => {}
        1 => got(i.next(), w(0))?,
        2 => {
            let all: Vec<Own> = i.collect();
            ensure!(all.iter().map(|x| x.id()).eq(want.iter().copied()), "the items are {:?}, expected {want:?}", all.iter().map(|x| x.id()).collect::<Vec<_>>());
        }
        3 => got(i.nth(1), w(1))?,
        4 => {
            let n = i.count();
            ensure!(n == want.len(), "{n} items, expected {}", want.len());
        }
        5 => got(i.last(), want.last().copied())?,
        _ => {
            let first = i.next();
            let rest = i.fold(0, |n, _| n + 1);
            got(first, w(0))?;
            ensure!(rest == want.len().saturating_sub(1), "{rest} items after the first, expected {}", want.len().saturating_sub(1));
        }
    }
    Ok(())
}
/// A cursor at the terminal node of `k`.
fn at<'s, T: HibitTree>(t: &'s T, k: usize) -> <T as HibitTreeTypes<'s>>::Cursor {
    fn go<'s, T: HibitTree, N: ConstInteger>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, n: N, k: usize) {
        let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
        let i = if N::VALUE == 0 { 0 } else { hv::norm::digit(w, d, N::VALUE - 1, k) };
        unsafe { c.select_level_node(t, n, i) };
        if N::VALUE + 1 < d {
            go::<T, N::Inc>(t, c, n.inc(), k)
        }
    }
    let mut c = <<T as HibitTreeTypes<'s>>::Cursor as HibitTreeCursor<'s>>::new(t);
    go::<T, ConstUsize<0>>(t, &mut c, ConstUsize::<0>, k);
    c
}
macro_rules! items {
    ($v:expr; $($name:literal $op:ident $x:ty, $d:literal, $all:literal;)*) => {$({
        let keys = [1usize, 64usize.saturating_pow($d) - 1];
        $v.push(prod(
            format!("items/{}/{}", $name, stringify!($x)),
            &[4, 4, 4, PATHS.len(), TAKES.len()],
            move |p| {
                tracked(|| {
                    let mk = |m: u32, f: u64| {
                        let mut t = <$x>::default();
                        full(&keys, m, |k, x| t.insert(k, x));
                        map(t, Cap(Own::new(f)))
                    };
                    let l = [mk(p[0], 8), mk(p[1], 9), mk(p[2], 10)];
                    let m = [p[0], p[1], p[2]];
                    let e = $op(l.iter());
                    let want = |i: usize| -> Vec<u64> {
                        let v: Vec<u64> = (0..3).filter(|j| m[*j as usize] >> i & 1 != 0).map(|j| mix(8 + j, 100 + i as u64)).collect();
                        if $all && v.len() < 3 { vec![] } else { v }
                    };
                    let mut seen = vec![];
                    if p[3] == 2 {
                        let mut it = e.iter();
                        while let Some((k, items)) = hibit_tree::utils::LendingIterator::next(&mut it) {
                            let i = keys.iter().position(|x| *x == k);
                            ensure!(i.is_some(), "iteration gives key {k}");
                            seen.push(i.unwrap());
                            take(items, p[4], &want(i.unwrap()))?;
                        }
                    }
                    for (i, k) in keys.iter().enumerate() {
                        let w = want(i);
                        match p[3] {
                            0 => match e.get(*k) {
                                None => ensure!(w.is_empty(), "get({k}) = None"),
                                Some(items) => {
                                    ensure!(!w.is_empty(), "get({k}) = Some");
                                    take(items, p[4], &w)?
                                }
                            },
                            1 => {
                                if !w.is_empty() {
                                    take(unsafe { e.get_unchecked(*k) }, p[4], &w)?
                                }
                            }
                            2 => ensure!(seen.iter().filter(|x| **x == i).count() == !w.is_empty() as usize, "iteration and key {k}"),
                            _ => {
                                let c = at(&e, *k);
                                match unsafe { c.data(&e, *k % 64) } {
                                    None => ensure!(w.is_empty(), "the cursor has nothing at {k}"),
                                    Some(items) => {
                                        ensure!(!w.is_empty(), "the cursor has items at {k}");
                                        take(items, p[4], &w)?
                                    }
                                };
                            }
                        }
                    }
                    Ok(())
                })?;
                ensure!(live() == 0, "{} values leaked or over-dropped", live());
                if let Some(l) = arena::leaks() {
                    hv::fail!("{l}");
                }
                if let Some(l) = arena::scan() {
                    hv::fail!("{l}");
                }
                Ok(Out { canon: p.iter().fold(1, |a, x| a << 8 | *x as u128), nontrivial: p[0] & p[1] & p[2] != 0 })
            },
            move |p| format!("keys {keys:?}: operand contents {:02b}, {:02b}, {:02b}; through {}, the items of a key are {}", p[0], p[1], p[2], PATHS[p[3] as usize], TAKES[p[4] as usize]),
        ));
    })*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    flavour::<Own>(tier, true, &mut v);
    flavour::<u8>(tier, false, &mut v);
    flavour::<Big>(tier, false, &mut v);
    flavour::<Zst>(tier, false, &mut v);
    items!(v;
        "union" multi_union DenseTree<Own, 1>, 1, false;
        "union" multi_union DenseTree<Own, 3>, 3, false;
        "union" multi_union SparseTree<w64::depth_2, Own>, 2, false;
        "intersection" multi_intersection DenseTree<Own, 1>, 1, true;
        "intersection" multi_intersection DenseTree<Own, 3>, 3, true;
        "intersection" multi_intersection SparseTree<w64::depth_2, Own>, 2, true;
    );
    owners!(v; DenseTree<Own, 1>, 1; DenseTree<Own, 2>, 2; DenseTree<Own, 4>, 4; SparseTree<w64::depth_1, Own>, 1; SparseTree<w64::depth_3, Own>, 3;);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P12",
        level: "model_checking",
        rule: "a case is non-trivial when the container is non-empty and its canonical heap state (or key set and insertion order) was not seen before",
        assumptions: &["the process uses the global allocator for everything the container owns"],
        tasks,
    })
}
