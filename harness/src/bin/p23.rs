//! P23: item iterators of many-way operations give the same items however they are consumed.
//!
//! Every assignment of contents to the operands; for every key present, the three kinds of item
//! sequence (of `get`, of `get_unchecked`, of iteration / cursor) are consumed in every combination
//! of a number of single steps followed by one of the bulk styles, with the size hint compared at
//! every step, and through clones taken at every point where the sequence can be cloned.
use hibit_tree::{intersection, map, multi_intersection, multi_union, union};
use hibit_tree::{BitBlock, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes};
use hibit_tree::const_utils::ConstInteger;
use hibit_tree::utils::LendingIterator;
use hv::arena::untracked;
use hv::norm::{self, Norm, Tok};
use hv::ops::*;
use hv::run::{Check, Task, Tier};
use hv::{ensure, fail};

const STYLES: u32 = 14;
const STYLE: [&str; STYLES as usize] = [
    "next", "fold", "for_each", "count", "last", "nth(0) next..", "nth(1) fold", "drop", "take(1) fold", "skip(1)", "step_by(2)",
    "try_fold next..", "collect", "nth past the end",
];

/// `n` single steps, then the bulk style `s`.
fn consume<I: Iterator<Item: Norm>>(mut it: I, n: usize, s: u32, want: &[Tok]) -> Result<(), String> {
    let hint = |it: &I, left: usize| -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint ({lo}, {hi:?}) with {left} items left");
        Ok(())
    };
    let len = want.len();
    for i in 0..n {
        hint(&it, len.saturating_sub(i))?;
        let g = it.next().map(|x| x.norm());
        ensure!(g == want.get(i).copied(), "step {i} gives {}, expected {}", it_str(g), it_str(want.get(i).copied()));
    }
    let rest = &want[n.min(len)..];
    hint(&it, rest.len())?;
    let mut got: Vec<Tok> = vec![];
    let mut skip = 0;
    let mut step = 1;
    let mut upto = usize::MAX;
    match s {
        0 => {
            while let Some(x) = it.next() {
                got.push(x.norm());
                if got.len() > len + 40 {
                    fail!("the items never end");
                }
                hint(&it, rest.len().saturating_sub(got.len()))?;
            }
            ensure!(it.next().is_none(), "an item after the end");
        }
        1 => got = it.fold(got, |mut a, x| {
            a.push(x.norm());
            a
        }),
        2 => it.for_each(|x| got.push(x.norm())),
        3 => {
            let c = it.count();
            ensure!(c == rest.len(), "count() gives {c}, expected {}", rest.len());
            return Ok(());
        }
        4 => {
            let l = it.last().map(|x| x.norm());
            ensure!(l == rest.last().copied(), "last() gives {}, expected {}", it_str(l), it_str(rest.last().copied()));
            return Ok(());
        }
        5 | 6 => {
            let k = s as usize - 5;
            let g = it.nth(k).map(|x| x.norm());
            ensure!(g == rest.get(k).copied(), "nth({k}) gives {}", it_str(g));
            skip = k + 1;
            if g.is_some() {
                if s == 5 {
                    while let Some(x) = it.next() {
                        got.push(x.norm())
                    }
                } else {
                    it.for_each(|x| got.push(x.norm()))
                }
            }
        }
        7 => return Ok(drop(it)),
        8 => {
            it.by_ref().take(1).for_each(|x| got.push(x.norm()));
            got = it.fold(got, |mut a, x| {
                a.push(x.norm());
                a
            })
        }
        9 => {
            skip = 1;
            it.skip(1).for_each(|x| got.push(x.norm()))
        }
        10 => {
            step = 2;
            it.step_by(2).for_each(|x| got.push(x.norm()))
        }
        11 => {
            // stops at the second item, then goes on
            let _ = it.try_fold((), |_, x| {
                got.push(x.norm());
                if got.len() == 2 { None } else { Some(()) }
            });
            while let Some(x) = it.next() {
                got.push(x.norm())
            }
        }
        12 => got = it.map(|x| x.norm()).collect(),
        _ => {
            ensure!(it.nth(rest.len()).is_none(), "nth past the end gives an item");
            upto = 0;
        }
    }
    let exp: Vec<Tok> = rest.iter().copied().skip(skip).step_by(step).take(upto).collect();
    ensure!(got == exp, "{} items {}, expected {}", got.len(), if got.len() == exp.len() { "with other content" } else { "" }, exp.len());
    Ok(())
}
fn it_str(x: Option<Tok>) -> &'static str {
    if x.is_some() { "an item" } else { "no item" }
}
fn each(len: usize, mut f: impl FnMut(usize, u32) -> Result<(), String>) -> Result<(), String> {
    for n in 0..=(len + 1).min(6) {
        for s in 0..STYLES {
            f(n, s).map_err(|e| format!("{n} steps, then {}: {e}", STYLE[s as usize]))?;
        }
    }
    Ok(())
}
type W = Vec<Option<Vec<Tok>>>;

fn paths<'s, T>(t: &'s T, want: &W, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Iterator<Item: Norm>,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Iterator<Item: Norm>,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Iterator<Item: Norm>>,
{
    for (k, w) in u.keys.iter().zip(want) {
        let Some(w) = w else {
            ensure!(t.get(*k).is_none(), "get({k}) gives items, expected nothing");
            continue;
        };
        each(w.len(), |n, s| match t.get(*k) {
            None => fail!("get({k}) gives nothing"),
            Some(it) => consume(it, n, s, w).map_err(|e| format!("get({k}): {e}")),
        })?;
        each(w.len(), |n, s| consume(unsafe { t.get_unchecked(*k) }, n, s, w).map_err(|e| format!("get_unchecked({k}): {e}")))?;
        // one selected cursor, asked again and again
        let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
        select(t, &mut c, *k);
        let d = norm::digit(u.width, u.depth, u.depth - 1, *k);
        each(w.len(), |n, s| match unsafe { c.data(t, d) } {
            None => fail!("cursor gives nothing at key {k}"),
            Some(it) => consume(it, n, s, w).map_err(|e| format!("cursor at key {k}: {e}")),
        })?;
        each(w.len(), |n, s| consume(unsafe { c.data_unchecked(t, d) }, n, s, w).map_err(|e| format!("cursor (unchecked) at key {k}: {e}")))?;
    }
    // items of iteration
    let max = want.iter().flatten().map(|w| w.len()).max().unwrap_or(0);
    each(max, |n, s| {
        let mut it = t.iter();
        for (k, w) in u.keys.iter().zip(want) {
            let Some(w) = w else { continue };
            match LendingIterator::next(&mut it) {
                None => fail!("iteration ends before key {k}"),
                Some((g, items)) => {
                    ensure!(g == *k, "iteration yields key {g}, expected {k}");
                    consume(items, n.min(w.len() + 1), s, w).map_err(|e| format!("iteration at key {k}: {e}"))?
                }
            }
        }
        ensure!(LendingIterator::next(&mut it).is_none(), "iteration yields a further key");
        Ok(())
    })
}

/// Select the nodes on the way to `k`.
fn select<'s, T: HibitTree>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, k: usize) {
    let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
    for l in 0..d {
        let i = if l == 0 { 0 } else { norm::digit(w, d, l - 1, k) };
        unsafe { norm::select(t, c, l, i, false) };
    }
}

/// A clone taken after `n` steps and the original, advanced in turn, do not influence each other.
fn cloned<I: Iterator<Item: Norm> + Clone>(mk: impl Fn() -> I, want: &[Tok]) -> Result<(), String> {
    let len = want.len();
    for n in 0..=(len + 1).min(5) {
        for m in 0..=(len + 1).min(5) {
            // n steps, clone, m steps of the original, clone the clone, drain the three differently
            let mut a = mk();
            for _ in 0..n {
                a.next();
            }
            let b = a.clone();
            for i in 0..m {
                let g = a.next().map(|x| x.norm());
                ensure!(g == want.get(n + i).copied(), "step {} of an iterator that was cloned", n + i);
            }
            let mut c = b.clone();
            consume(b, 0, 1, &want[n.min(len)..]).map_err(|e| format!("clone after {n} steps: {e}"))?;
            c.next();
            consume(a, 0, 0, &want[(n + m).min(len)..]).map_err(|e| format!("original, cloned after {n} steps: {e}"))?;
            consume(c, 0, 2, &want[(n + 1).min(len)..]).map_err(|e| format!("clone of a clone after {n} steps: {e}"))?;
        }
    }
    Ok(())
}
fn clones_data<'s, T>(t: &'s T, want: &W, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Iterator<Item: Norm> + Clone,
{
    for (k, w) in u.keys.iter().zip(want) {
        if let Some(w) = w {
            cloned(|| t.get(*k).unwrap(), w).map_err(|e| format!("get({k}): {e}"))?;
        }
    }
    Ok(())
}
fn clones_cursor<'s, T>(t: &'s T, want: &W, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Iterator<Item: Norm> + Clone>,
{
    for (k, w) in u.keys.iter().zip(want) {
        if let Some(w) = w {
            let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
            select(t, &mut c, *k);
            let d = norm::digit(u.width, u.depth, u.depth - 1, *k);
            cloned(|| unsafe { c.data(t, d).unwrap() }, w).map_err(|e| format!("cursor at key {k}: {e}"))?;
        }
    }
    Ok(())
}
/// Exactly known lengths (the operands come from a source of exactly known length).
fn exact_len<'s, T>(t: &'s T, want: &W, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: ExactSizeIterator,
    <T as HibitTreeTypes<'s>>::DataUnchecked: ExactSizeIterator,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: ExactSizeIterator>,
{
    fn count(mut it: impl ExactSizeIterator, len: usize) -> Result<(), String> {
        for i in 0..=len {
            ensure!(it.len() == len - i, "len() is {} with {} items left", it.len(), len - i);
            it.next();
        }
        Ok(())
    }
    for (k, w) in u.keys.iter().zip(want) {
        if let Some(w) = w {
            count(t.get(*k).unwrap(), w.len()).map_err(|e| format!("get({k}): {e}"))?;
            count(unsafe { t.get_unchecked(*k) }, w.len()).map_err(|e| format!("get_unchecked({k}): {e}"))?;
            let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
            select(t, &mut c, *k);
            let d = norm::digit(u.width, u.depth, u.depth - 1, *k);
            count(unsafe { c.data(t, d).unwrap() }, w.len()).map_err(|e| format!("cursor at key {k}: {e}"))?;
        }
    }
    Ok(())
}

/// Items per key.
fn want(r: &[R], n: usize, all: bool) -> W {
    (0..n)
        .map(|i| {
            let v: Vec<Tok> = r.iter().filter_map(|x| x.v[i]).collect();
            (!v.is_empty() && (!all || v.len() == r.len())).then_some(v)
        })
        .collect()
}
fn as_r(w: &W) -> R {
    R::from(w.len(), |i| w[i].as_ref().map(|v| norm::t_list(v.iter().copied())))
}

macro_rules! both {
    (@ $u:expr, $src:expr, $r:expr, $exact:expr) => {{
        let n = $u.keys.len();
        let wi = want($r, n, true);
        let wu = want($r, n, false);
        {
            let t = multi_intersection($src);
            paths(&t, &wi, $u).map_err(|e| format!("multi_intersection: {e}"))?;
            clones_data(&t, &wi, $u).map_err(|e| format!("multi_intersection: {e}"))?;
            clones_cursor(&t, &wi, $u).map_err(|e| format!("multi_intersection: {e}"))?;
            if $exact {
                exact_len(&t, &wi, $u).map_err(|e| format!("multi_intersection: {e}"))?;
            }
        }
        {
            let t = multi_union($src);
            paths(&t, &wu, $u).map_err(|e| format!("multi_union: {e}"))?;
            clones_data(&t, &wu, $u).map_err(|e| format!("multi_union: {e}"))?;
        }
        Ok(as_r(&wu))
    }};
}

macro_rules! leaves {
    ($v:expr, $k:expr, $max:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            for n in 0..=$max {
                over::<$a>(&format!("{n}-operands"), u.clone(), n, |t, r, u| both!(@ u, t.iter().copied(), r, true), $v);
            }
        }
    )*};
}
macro_rules! sources {
    ($v:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>("array", u.clone(), 3, |t, r, u| both!(@ u, [t[0], t[1], t[2]].into_iter(), r, true), $v);
            over::<$a>("chain-rev", u.clone(), 3, |t, r, u| {
                let r = [r[2], r[1], r[0], r[1]];
                both!(@ u, t.iter().rev().copied().chain(std::iter::once(t[1])), &r, false)
            }, $v);
            over::<$a>("filter", u.clone(), 3, |t, r, u| {
                let r = [r[0], r[2]];
                let skip = t[1] as *const $a;
                both!(@ u, t.iter().copied().filter(move |x| *x as *const $a != skip), &r, false)
            }, $v);
            over::<$a>("repeated", u.clone(), 2, |t, r, u| {
                let r = [r[0], r[1], r[0], r[0], r[1]];
                both!(@ u, [t[0], t[1], t[0], t[0], t[1]].into_iter(), &r, true)
            }, $v);
            over::<$a>("filter-repeated", u.clone(), 2, |t, r, u| {
                let r = [r[0], r[0], r[0]];
                let skip = t[1] as *const $a;
                both!(@ u, [t[0], t[1], t[0], t[1], t[0]].into_iter().filter(move |x| *x as *const $a != skip), &r, false)
            }, $v);
        }
    )*};
}
/// Operands that are lazy themselves (their nodes may be empty).
macro_rules! lazy {
    ($v:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>("of-intersections", u.clone(), 3, |t, r, u| {
                let x = [intersection(t[0], t[1]), intersection(t[1], t[2]), intersection(t[2], t[0])];
                let r = [r_inter(&r[0], &r[1]), r_inter(&r[1], &r[2]), r_inter(&r[2], &r[0])];
                both!(@ u, x.iter(), &r, true)
            }, $v);
            over::<$a>("of-unions", u.clone(), 3, |t, r, u| {
                let x = [union(t[0], t[1]), union(t[1], t[2]), union(t[2], t[0])];
                let r = [r_union(&r[0], &r[1]), r_union(&r[1], &r[2]), r_union(&r[2], &r[0])];
                both!(@ u, x.iter(), &r, true)
            }, $v);
            over::<$a>("of-maps", u.clone(), 3, |t, r, u| {
                let x = [map(t[0], Tag(1)), map(t[1], Tag(2)), map(t[2], Tag(3))];
                let r = [r_map(&r[0], 1), r_map(&r[1], 2), r_map(&r[2], 3)];
                both!(@ u, x.iter(), &r, true)
            }, $v);
        }
    )*};
}
/// Many-way operations over many-way operations: the items are item sequences.
macro_rules! nested {
    ($v:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>("nested", u.clone(), 3, |t, r, u| {
                let n = u.keys.len();
                let (p, q, s) = ([t[0], t[1]], [t[1], t[2]], [t[2], t[0], t[0]]);
                let (rp, rq, rs) = ([r[0], r[1]], [r[1], r[2]], [r[2], r[0], r[0]]);
                {
                    let x = [multi_intersection(p.iter().copied()), multi_intersection(q.iter().copied()), multi_intersection(s.iter().copied())];
                    let r = [r_mi(n, &rp), r_mi(n, &rq), r_mi(n, &rs)];
                    paths(&multi_intersection(x.iter()), &want(&r, n, true), u).map_err(|e| format!("mi of mi: {e}"))?;
                    paths(&multi_union(x.iter()), &want(&r, n, false), u).map_err(|e| format!("mu of mi: {e}"))?;
                }
                let x = [multi_union(p.iter().copied()), multi_union(q.iter().copied()), multi_union(s.iter().copied())];
                let r = [r_mu(n, &rp), r_mu(n, &rq), r_mu(n, &rs)];
                paths(&multi_intersection(x.iter()), &want(&r, n, true), u).map_err(|e| format!("mi of mu: {e}"))?;
                let w = want(&r, n, false);
                paths(&multi_union(x.iter()), &w, u).map_err(|e| format!("mu of mu: {e}"))?;
                Ok(as_r(&w))
            }, $v);
        }
    )*};
}
/// Many operands: every position of one tree that differs from the others.
macro_rules! many {
    ($v:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), 3) {
            for n in [9usize, 16, 31, 32] {
                let leaves = Leaves::<$a>::new(&u);
                let u2 = u.clone();
                let k = u.keys.len();
                $v.push(hv::task::prod(
                    format!("many{n}/{}/{}", <$a as Leaf>::NAME, u.tag),
                    &[n + 1, 4],
                    move |p| {
                        let (miss, kind) = (p[0] as usize, p[1]);
                        let sub = |i: usize| {
                            let s: u32 = if i == miss { 0b110 } else { 0b001 } | if (i % 2) as u32 == kind & 1 { 0b010 } else { 0 };
                            (if kind & 2 == 2 { s | 0b100 } else { s }) & ((1 << k) - 1)
                        };
                        let trees: Vec<&'static $a> = untracked(|| (0..n).map(|i| leaves.get(i, sub(i))).collect());
                        let r: Vec<R> = (0..n).map(|i| r_leaf(k, i, sub(i))).collect();
                        let go = || -> Result<R, String> { both!(@ &u2, trees.iter().copied(), &r, true) };
                        let w = go()?;
                        Ok(hv::run::Out { canon: (miss as u128) << 8 | kind as u128, nontrivial: !w.is_empty() })
                    },
                    move |p| format!("{n} trees, tree {} differs, pattern {}", p[0], p[1]),
                ));
            }
        }
    )*};
}

fn tasks(_: Tier) -> Vec<Box<dyn Task>> {
    let mut v = vec![];
    let k = 3;
    leaves!(&mut v, k, 4, D1, D2);
    leaves!(&mut v, k, 3, S3);
    sources!(&mut v, k, D2);
    lazy!(&mut v, k, D2);
    nested!(&mut v, k, D2);
    many!(&mut v, D1, D2, S3);
    // more shapes, in builds for the thorough tier
    #[cfg(feature = "deep")]
    {
        leaves!(&mut v, k, 4, S2, M2);
        leaves!(&mut v, k, 3, D3, D4, S1, L1);
        sources!(&mut v, k, D1, S3);
        lazy!(&mut v, k, D1, S3, L2);
        nested!(&mut v, k, D1, S2);
        many!(&mut v, L2, D4);
    }
    #[cfg(feature = "simd")]
    leaves!(&mut v, k, 3, L2);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P23",
        level: "exploration",
        rule: "a case is one assignment of key sets to the operands, with every consumption style at every point for every key and access path; non-trivial when the union is not empty, distinct by assignment",
        assumptions: &["len() is only asked where the operands come from a source of exactly known length (finding F16: the ExactSizeIterator of an unchecked access of a multi_intersection forwards to the user's source)"],
        tasks,
    })
}
