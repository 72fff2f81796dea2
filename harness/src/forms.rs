//! Every way of consuming an iterator that goes through a method an implementation can override:
//! `next`, `nth`, `fold`, `try_fold`, `count`, `last`, `size_hint`, in all combinations of a few steps and
//! one way of taking the rest.
use crate::arena::{tracked, untracked};
use std::fmt::Debug;
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug)]
enum Rest {
    Next,
    Fold,
    TryFold(usize),
    Count,
    Last,
    ForEachByRef,
    Steps(usize),
    SkipFold(usize),
}
/// `None`: next(); `Some(n)`: nth(n).
type Steps = [Option<usize>; 2];

/// `mk` gives the iterator, `ex` what an item stands for; the items must be `want`.
pub fn forms<I, D, X>(mk: impl Fn() -> I, ex: impl Fn(D) -> X + Copy, want: &[X]) -> Result<(), String>
where
    I: Iterator<Item = D>,
    X: PartialEq + Copy + Debug,
{
    let n = want.len();
    let rests = [Rest::Next, Rest::Fold, Rest::TryFold(0), Rest::TryFold(1), Rest::Count, Rest::Last, Rest::ForEachByRef, Rest::Steps(1), Rest::SkipFold(1)];
    let small = n <= 12;
    let firsts = [None, Some(0), Some(1), Some(2), Some(n.wrapping_sub(1)), Some(n), Some(n + 3)];
    let run = |steps: &[Option<usize>], rest: Rest| -> Result<(), String> {
        one(&mk, ex, want, steps, rest).map_err(|e| untracked(|| format!("after the steps {steps:?} (None = next, Some(n) = nth(n)) and then {rest:?}: {e}")))
    };
    for r in rests {
        run(&[], r)?;
        for f in firsts {
            if f == Some(usize::MAX) || !small && !matches!(f, None | Some(1)) && f != Some(n.wrapping_sub(1)) {
                continue;
            }
            run(&[f], r)?;
            if small && n > 1 {
                for g in [None, Some(1)] {
                    let s: Steps = [f, g];
                    run(&s, r)?;
                }
            }
        }
    }
    Ok(())
}
fn one<I, D, X>(mk: &impl Fn() -> I, ex: impl Fn(D) -> X + Copy, want: &[X], steps: &[Option<usize>], rest: Rest) -> Result<(), String>
where
    I: Iterator<Item = D>,
    X: PartialEq + Copy + Debug,
{
    let n = want.len();
    let mut p = 0;
    let mut it = tracked(mk);
    fn hint<I: Iterator>(it: &I, left: usize) -> Result<(), String> {
        let (lo, hi) = tracked(|| it.size_hint());
        ensure!(lo <= left && hi.is_none_or(|h| left <= h), "size_hint says {lo}..={hi:?}, {left} are left");
        Ok(())
    }
    let at = |p: usize| want.get(p).copied();
    macro_rules! got {
        ($r:expr, $w:expr, $what:expr) => {{
            let (r, w) = ($r, $w);
            ensure!(r == w, "{} gives {r:?}, expected {w:?}", $what);
        }};
    }
    hint(&it, n)?;
    for s in steps {
        match s {
            None => {
                got!(tracked(|| it.next()).map(ex), at(p), "next()");
                p = n.min(p + 1);
            }
            Some(k) => {
                got!(tracked(|| it.nth(*k)).map(ex), at(p + k), "nth");
                p = n.min(p + k + 1);
            }
        }
        hint(&it, n - p)?;
    }
    // position of the next expected item, first wrong item
    let mut bad: Option<(usize, X)> = None;
    let see = |q: &mut usize, bad: &mut Option<(usize, X)>, x: X| {
        if bad.is_none() && want.get(*q) != Some(&x) {
            *bad = Some((*q, x));
        }
        *q += 1;
        *q > n + 8
    };
    let mut q = p;
    match rest {
        Rest::Next => {
            while let Some(x) = tracked(|| it.next()) {
                if see(&mut q, &mut bad, ex(x)) {
                    break;
                }
                hint(&it, n.saturating_sub(q))?;
            }
            if q == n {
                got!(tracked(|| it.next()).map(ex), None, "next() after the end");
                got!(tracked(|| it.nth(1)).map(ex), None, "nth(1) after the end");
                hint(&it, 0)?;
            }
        }
        Rest::Fold => {
            tracked(|| {
                it.fold((), |(), x| {
                    see(&mut q, &mut bad, ex(x));
                })
            });
        }
        Rest::SkipFold(k) => {
            q = n.min(q + k);
            tracked(|| {
                it.skip(k).for_each(|x| {
                    see(&mut q, &mut bad, ex(x));
                })
            });
        }
        Rest::TryFold(k) => {
            let mut left = k;
            let stop = tracked(|| {
                it.try_for_each(|x| {
                    let over = see(&mut q, &mut bad, ex(x));
                    if left == 0 || over {
                        return ControlFlow::Break(());
                    }
                    left -= 1;
                    ControlFlow::Continue(())
                })
            });
            ensure!(q == n.min(p + k + 1) && stop.is_break() == (n - p > k), "stopped internal iteration saw {} items", q - p);
            while let Some(x) = tracked(|| it.next()) {
                if see(&mut q, &mut bad, ex(x)) {
                    break;
                }
            }
        }
        Rest::Count => {
            q += tracked(|| it.count());
        }
        Rest::Last => {
            let w = if p < n { at(n - 1) } else { None };
            got!(tracked(|| it.last()).map(ex), w, "last()");
            q = n;
        }
        Rest::ForEachByRef => {
            tracked(|| {
                it.by_ref().for_each(|x| {
                    see(&mut q, &mut bad, ex(x));
                })
            });
            if q == n {
                got!(tracked(|| it.next()).map(ex), None, "next() after the end");
            }
        }
        Rest::Steps(k) => {
            while let Some(x) = tracked(|| it.nth(k)) {
                q += k;
                if see(&mut q, &mut bad, ex(x)) {
                    break;
                }
            }
            ensure!(bad.is_some() || q <= n && n - q <= k, "nth({k}) ends {} items early", n as i64 - q as i64);
            q = n;
        }
    }
    if let Some((i, x)) = bad {
        fail!("item {i} is {x:?}, expected {:?}", at(i));
    }
    ensure!(q == n, "{} items in all, expected {n}", q);
    Ok(())
}
