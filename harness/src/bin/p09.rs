use hibit_tree::utils::LendingIterator;
use hibit_tree::{
    intersection, map, multi_intersection, multi_map_fold, multi_union, union, HibitTree, HibitTreeCursor, HibitTreeCursorTypes,
    HibitTreeTypes, LazyHibitTree, MultiHibitTree, RegularHibitTree,
};
use hv::arena::tracked;
use hv::norm::{self, bits, Norm, Sink, Tok, MODES};
use hv::ops::*;
use hv::run::*;
use hv::{ensure, fail};

type Calls = (u64, u64, u64);
fn delta(a: Calls, b: Calls) -> Calls {
    (b.0 - a.0, b.1 - a.1, b.2 - a.2)
}
/// run `f`, check how often the user functions were called
fn counted<T>(what: &str, want: Calls, f: impl FnOnce() -> T) -> Result<T, String> {
    let c = calls();
    let r = f();
    let d = delta(c, calls());
    ensure!(
        d == want,
        "{what}: {} map, {} fold step and {} init calls, expected {} / {} / {}",
        d.0,
        d.1,
        d.2,
        want.0,
        want.1,
        want.2
    );
    Ok(r)
}

/// `per(i)` = calls that one read of the present key i makes.
fn probe_calls<'s, T>(t: &'s T, want: &R, u: &U, per: &dyn Fn(usize) -> Calls) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let n = u.keys.len();
    for i in 0..n {
        let p = if want.v[i].is_some() { per(i) } else { (0, 0, 0) };
        let k = u.keys[i];
        let g = counted(&format!("get({k})"), p, || tracked(|| t.get(k).map(|d| d.norm())))?;
        ensure!(g == want.v[i], "get({k}) gives wrong content");
        if want.v[i].is_some() {
            let g = counted(&format!("get_unchecked({k})"), p, || tracked(|| unsafe { t.get_unchecked(k) }.norm()))?;
            ensure!(Some(g) == want.v[i], "get_unchecked({k}) gives wrong content");
        }
    }
    for &k in &u.absent {
        let g = counted(&format!("get({k}) of an absent key"), (0, 0, 0), || tracked(|| t.get(k).is_some()))?;
        ensure!(!g, "get({k}) gives an item, expected nothing");
    }
    // iteration: opening makes no call, each step the calls of its element, the end none
    let mut it = counted("iter()", (0, 0, 0), || tracked(|| t.iter()))?;
    for i in 0..n {
        if let Some(w) = want.v[i] {
            let r = counted(&format!("iteration step to key {}", u.keys[i]), per(i), || {
                tracked(|| LendingIterator::next(&mut it).map(|(k, d)| (k, d.norm())))
            })?;
            ensure!(r == Some((u.keys[i], w)), "iteration gives {:?} at key {}", r.map(|x| x.0), u.keys[i]);
        }
    }
    for _ in 0..2 {
        let r = counted("iteration past the end", (0, 0, 0), || tracked(|| LendingIterator::next(&mut it).is_some()))?;
        ensure!(!r, "iteration goes on after the last key");
    }
    drop(it);
    // cursor: navigating makes no call, data exactly those of its element
    struct S<'a> {
        want: &'a R,
        u: &'a U,
        per: &'a dyn Fn(usize) -> Calls,
        sum: Calls,
        bad: Option<usize>,
    }
    impl Sink for S<'_> {
        fn node(&mut self, _: usize, _: usize, _: &[u64; 4]) {}
        fn item(&mut self, key: usize, tok: Option<Tok>) {
            match self.u.keys.iter().position(|k| *k == key) {
                Some(i) if self.want.v[i] == tok => {
                    let p = (self.per)(i);
                    self.sum = (self.sum.0 + p.0, self.sum.1 + p.1, self.sum.2 + p.2);
                }
                _ => self.bad = Some(key),
            }
        }
    }
    for mode in MODES {
        let c = calls();
        let mut s = S { want, u, per, sum: (0, 0, 0), bad: None };
        norm::walk(t, mode, &mut s);
        if let Some(k) = s.bad {
            fail!("cursor gives wrong content at key {k} ({mode:?})");
        }
        let d = delta(c, calls());
        ensure!(d == s.sum, "walking the tree with a cursor makes {d:?} calls, expected {:?} ({mode:?})", s.sum);
    }
    let mut c = counted("opening a cursor", (0, 0, 0), || tracked(|| <T as HibitTreeTypes<'s>>::Cursor::new(t)))?;
    for i in 0..n + u.absent.len() {
        let (k, w, p) = if i < n {
            (u.keys[i], want.v[i], if want.v[i].is_some() { per(i) } else { (0, 0, 0) })
        } else {
            (u.absent[i - n], None, (0, 0, 0))
        };
        let mut mask = [0u64; 4];
        counted(&format!("navigating to key {k}"), (0, 0, 0), || {
            for l in 0..u.depth {
                let idx = if l == 0 { 0 } else { norm::digit(u.width, u.depth, l - 1, k) };
                mask = unsafe { norm::select(t, &mut c, l, idx, false) };
            }
        })?;
        let d = norm::digit(u.width, u.depth, u.depth - 1, k);
        for again in 0..2 {
            let g = counted(&format!("cursor data at key {k}, read {again}"), p, || {
                tracked(|| unsafe { c.data(t, d) }.map(|x| x.norm()))
            })?;
            ensure!(g == w, "cursor data at key {k} is wrong");
        }
        ensure!(bits(&mask).any(|b| b == d) == w.is_some(), "mask at key {k} is wrong");
    }
    Ok(())
}

fn items(r: &[R], i: usize) -> u64 {
    r.iter().filter(|x| x.v[i].is_some()).count() as u64
}
fn sum(_: &R) -> Calls {
    (1, 0, 0)
}

macro_rules! maps {
    ($v:expr, $n:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>("map", u.clone(), 1, |t, r, u| {
                let w = r_map(&r[0], 7);
                let m = counted("map()", (0, 0, 0), || tracked(|| map(t[0], Tag(7))))?;
                probe_calls(&m, &w, u, &|_| sum(&w))?;
                Ok(w)
            }, $v);
            over::<$a>("map-methods", u.clone(), 1, |t, r, u| {
                // closure, fn pointer, by reference, by value, map of a map
                let id = |x: &u64| *x;
                fn twice(x: &u64) -> u64 { norm::mix(2, norm::mix(1, *x)) }
                let w1 = r[0];
                let w2 = r_map(&r_map(&r[0], 1), 2);
                probe(&t[0].map_ref(id), &w1, u)?;
                probe(&t[0].map_ref(twice), &w2, u)?;
                probe(&map(build::<$a>(&u.keys, 0, r[0].bits()), twice), &w2, u)?;
                let own = RegularHibitTree::map(build::<$a>(&u.keys, 0, r[0].bits()), Tag(1));
                let m2 = own.map_ref(Tag(2));
                probe_calls(&m2, &w2, u, &|_| (2, 0, 0))?;
                let m3 = own.map(Tag(2));
                probe_calls(&m3, &w2, u, &|_| (2, 0, 0))?;
                // a function that hands its argument through: the reference is the container's
                fn same(x: &u64) -> &u64 { x }
                let m4 = map(t[0], same);
                for i in 0..u.keys.len() {
                    let (a, b) = (t[0].get(u.keys[i]), m4.get(u.keys[i]));
                    ensure!(a.map(|x| x as *const u64) == b.map(|x| x as *const u64), "map to a reference gives another reference");
                }
                probe(&m4, &w1, u)?;
                // standard iterator, driven by internal iteration as well
                let v: Vec<(usize, u64)> = m3.iter().map(|(k, x)| (k, x)).collect();
                let e: Vec<(usize, u64)> = (0..u.keys.len()).filter_map(|i| w2.v[i].map(|x| (u.keys[i], x))).collect();
                ensure!(v == e, "collecting the iterator gives {v:?}, expected {e:?}");
                let c = calls();
                ensure!(m3.iter().count() == e.len(), "count() of the iterator is wrong");
                ensure!(delta(c, calls()) == (2 * e.len() as u64, 0, 0), "iterating calls the function a wrong number of times");
                let f = m3.iter().fold(0u64, |a, (_, x)| norm::mix(a, x));
                ensure!(f == e.iter().fold(0u64, |a, x| norm::mix(a, x.1)), "fold() of the iterator is wrong");
                Ok(w2)
            }, $v);
            over::<$a>("map-of-intersection", u.clone(), 2, |t, r, u| {
                let w = r_map(&r_inter(&r[0], &r[1]), 3);
                let m = counted("map()", (0, 0, 0), || tracked(|| map(intersection(t[0], t[1]), Tag(3))))?;
                probe_calls(&m, &w, u, &|_| sum(&w))?;
                Ok(w)
            }, $v);
            over::<$a>("map-of-union", u.clone(), 2, |t, r, u| {
                let w = r_map(&r_union(&r[0], &r[1]), 4);
                let m = counted("map()", (0, 0, 0), || tracked(|| map(union(t[0], t[1]), Tag(4))))?;
                probe_calls(&m, &w, u, &|_| sum(&w))?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! folds {
    ($v:expr, $trees:expr, $n:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>(&format!("fold-multi-union{}", $trees), u.clone(), $trees, |t, r, u| {
                let w = r_fmu(u.keys.len(), r);
                let m = counted("map_fold()", (0, 0, 0), || tracked(|| multi_map_fold(multi_union(t.iter().copied()), Start, Acc)))?;
                probe_calls(&m, &w, u, &|i| (0, items(r, i), 1))?;
                Ok(w)
            }, $v);
            over::<$a>(&format!("fold-multi-intersection{}", $trees), u.clone(), $trees, |t, r, u| {
                let w = r_fmi(u.keys.len(), r);
                let m = counted("map_fold()", (0, 0, 0), || tracked(|| multi_intersection(t.iter().copied()).map_fold(Start, Acc)))?;
                probe_calls(&m, &w, u, &|i| (0, items(r, i), 1))?;
                Ok(w)
            }, $v);
            over::<$a>(&format!("map-of-fold{}", $trees), u.clone(), $trees, |t, r, u| {
                let w = r_map(&r_fmu(u.keys.len(), r), 5);
                let m = map(multi_union(t.iter().copied()).map_fold(Start, Acc), Tag(5));
                probe_calls(&m, &w, u, &|i| (1, items(r, i), 1))?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! nested {
    ($v:expr, $n:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            // items of the folded operation are computed themselves
            over::<$a>("fold-of-maps", u.clone(), 3, |t, r, u| {
                let k = u.keys.len();
                let mr: Vec<R> = r.iter().map(|x| r_map(x, 6)).collect();
                let w = r_fmu(k, &mr);
                let ms = [map(t[0], Tag(6)), map(t[1], Tag(6)), map(t[2], Tag(6))];
                let m = multi_union(ms.iter()).map_fold(Start, Acc);
                probe_calls(&m, &w, u, &|i| (items(r, i), items(r, i), 1))?;
                Ok(w)
            }, $v);
            over::<$a>("fold-of-unions", u.clone(), 4, |t, r, u| {
                let k = u.keys.len();
                let rs = [r_union(&r[0], &r[1]), r_union(&r[2], &r[3])];
                let w = r_fmi(k, &rs);
                let us = [union(t[0], t[1]), union(t[2], t[3])];
                let m = multi_intersection(us.iter()).map_fold(Start, Acc);
                probe_calls(&m, &w, u, &|_| (0, 2, 1))?;
                Ok(w)
            }, $v);
            over::<$a>("fold-closures", u.clone(), 3, |t, r, u| {
                let w = R::from(u.keys.len(), |i| {
                    let x: Vec<u64> = r.iter().filter_map(|r| r.v[i]).collect();
                    (!x.is_empty()).then(|| x.iter().fold(5u64, |a, b| a.wrapping_mul(31).wrapping_add(*b)))
                });
                let m = multi_map_fold(multi_union(t.iter().copied()), || 5u64, |a: u64, b: &u64| a.wrapping_mul(31).wrapping_add(*b));
                probe(&m, &w, u)?;
                let v: Vec<(usize, u64)> = m.iter().collect();
                let e: Vec<(usize, u64)> = (0..u.keys.len()).filter_map(|i| w.v[i].map(|x| (u.keys[i], x))).collect();
                ensure!(v == e, "collecting the iterator gives {v:?}, expected {e:?}");
                Ok(w)
            }, $v);
            // building the container reads each element once
            let _ = 0;
        }
    )*};
}
macro_rules! mat {
    ($v:expr, $n:expr, $($a:ty, $d:literal);*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>("materialize-map", u.clone(), 2, |t, r, u| {
                let w = r_map(&r_inter(&r[0], &r[1]), 8);
                let m = map(intersection(t[0], t[1]), Tag(8));
                let c: hibit_tree::DenseTree<u64, $d> = counted("materialize()", (w.len() as u64, 0, 0), || m.materialize())?;
                probe(&c, &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("materialize-fold", u.clone(), 3, |t, r, u| {
                let w = r_fmu(u.keys.len(), r);
                let m = multi_union(t.iter().copied()).map_fold(Start, Acc);
                let steps: u64 = (0..u.keys.len()).map(|i| items(r, i)).sum();
                let c: hibit_tree::DenseTree<u64, $d> = counted("materialize()", (0, steps, w.len() as u64), || m.materialize())?;
                probe(&c, &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let v_ = &mut v;
    maps!(v_, tier.q(6, 8), D1, D2, D3, D4, S1, S2, S3, M1, M2, M3, L1, L2, L3, D8, D9, L8);
    folds!(v_, 1, tier.q(6, 8), D1, D2, D3, S2, L2);
    folds!(v_, 2, tier.q(5, 7), D1, D2, D3, S1, S2, S3, M2, L1, L2);
    folds!(v_, 3, tier.q(4, 5), D1, D2, D3, D4, D8, S1, S2, S3, M2, L1, L2);
    folds!(v_, 4, tier.q(3, 4), D1, D3, S2, L2);
    nested!(v_, 3, D1, D2, D3, S1, S2, M2, L2);
    mat!(v_, tier.q(4, 5), D1, 1; D2, 2; D3, 3; D4, 4; D8, 8; S2, 2; S3, 3);
    hv::big::over::<D3>("map", |t, m, cap| hv::big::probe(&map(t[0], Tag(5)), &hv::big::v_map(m[0], 5), cap), &mut v);
    hv::big::over::<D3>("fold", |t, m, cap| {
        use hv::big::*;
        let l = [t[0], t[1], t[0]];
        hv::big::probe(&multi_union(l.iter().copied()).map_fold(Start, Acc), &v_fmu(&[m[0], m[1], m[0]]), cap)?;
        hv::big::probe(&multi_intersection(l.iter().copied()).map_fold(Start, Acc), &v_fmi(&[m[0], m[1], m[0]]), cap)
    }, &mut v);
    v
}

fn main() {
    hv::run::main(Check {
        id: "P09",
        level: "exploration",
        rule: "a case is one assignment of key sets to the source trees, read through every access path while the calls of the user functions are counted; non-trivial when the tree is not empty, distinct by assignment",
        assumptions: &["the user functions are pure apart from the call counters"],
        tasks,
    })
}
