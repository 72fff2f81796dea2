//! Lazy operations over trees with more than 2^16 keys and nodes.
use crate::arena::untracked;
use crate::norm::{mix, t_list, t_opt, t_pair, Norm, Tok};
use crate::ops::*;
use crate::run::{Out, Task};
use crate::task::prod;
use crate::ensure;
use hibit_tree::utils::LendingIterator;
use hibit_tree::{HibitTree, HibitTreeCursorTypes, HibitTreeTypes};

/// Contents, in order.
pub type V = Vec<(usize, Tok)>;

pub fn merge(l: &[&V], f: impl Fn(&[Option<Tok>]) -> Option<Tok>) -> V {
    let mut at = vec![0; l.len()];
    let mut out = vec![];
    loop {
        let Some(k) = (0..l.len()).filter_map(|i| l[i].get(at[i]).map(|x| x.0)).min() else { return out };
        let mut row = vec![None; l.len()];
        for i in 0..l.len() {
            if let Some(x) = l[i].get(at[i]) {
                if x.0 == k {
                    row[i] = Some(x.1);
                    at[i] += 1;
                }
            }
        }
        if let Some(x) = f(&row) {
            out.push((k, x))
        }
    }
}
pub fn v_inter(a: &V, b: &V) -> V {
    merge(&[a, b], |r| Some(t_pair(r[0]?, r[1]?)))
}
pub fn v_union(a: &V, b: &V) -> V {
    merge(&[a, b], |r| Some(t_pair(t_opt(r[0]), t_opt(r[1]))))
}
pub fn v_map(a: &V, tag: u64) -> V {
    merge(&[a], |r| Some(mix(tag, r[0]?)))
}
fn all(r: &[Option<Tok>]) -> bool {
    r.iter().all(|x| x.is_some())
}
pub fn v_mi(l: &[&V]) -> V {
    merge(l, |r| all(r).then(|| t_list(r.iter().flatten().copied())))
}
pub fn v_mu(l: &[&V]) -> V {
    merge(l, |r| Some(t_list(r.iter().flatten().copied())))
}
pub fn v_fmi(l: &[&V]) -> V {
    merge(l, |r| all(r).then(|| r.iter().flatten().copied().fold(INIT, mix)))
}
pub fn v_fmu(l: &[&V]) -> V {
    merge(l, |r| Some(r.iter().flatten().copied().fold(INIT, mix)))
}

pub fn probe<'s, T>(t: &'s T, want: &V, cap: usize) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let mut it = t.iter();
    for (k, w) in want {
        match LendingIterator::next(&mut it) {
            None => crate::fail!("iteration ends before key {k}"),
            Some((g, d)) => {
                ensure!(g == *k, "iteration yields key {g}, expected {k}");
                ensure!(d.norm() == *w, "iteration yields wrong content for key {k}");
            }
        }
    }
    ensure!(LendingIterator::next(&mut it).is_none(), "iteration goes on after the last key");
    for (i, (k, w)) in want.iter().enumerate() {
        if i % 5 == 0 || *k % 65536 < 66 {
            ensure!(t.get(*k).map(|d| d.norm()) == Some(*w), "get({k}) gives wrong content");
            ensure!(unsafe { t.get_unchecked(*k) }.norm() == *w, "get_unchecked({k}) gives wrong content");
            let next = k + 1;
            if next < cap && want.get(i + 1).is_none_or(|x| x.0 != next) {
                ensure!(t.get(next).is_none(), "get({next}) gives an item, expected nothing");
            }
        }
    }
    Ok(())
}

pub const KINDS: usize = 5;
pub fn keys(kind: u32, cap: usize) -> Vec<usize> {
    let v: Vec<usize> = match kind {
        0 => (0..70_000).collect(),
        1 => (0..66_000).map(|i| i * 3).collect(),
        // as many terminal nodes
        2 => (0..66_000).map(|i| i * 64 + i % 64).collect(),
        // every second terminal node, and nothing in the lower half
        3 => (65_536..200_000).filter(|k| k / 64 % 2 == 0).collect(),
        _ => vec![0, 65_535, 65_536, 65_537, 131_072],
    };
    v.into_iter().filter(|k| *k < cap).collect()
}
fn tree<L: Leaf>(n: usize, kind: u32) -> (L, V) {
    let cap = L::width().saturating_pow(L::depth() as u32);
    let mut t = L::mk();
    let mut m = vec![];
    for (i, k) in keys(kind, cap).into_iter().enumerate() {
        let v = (n as u64 + 1) * 10_000_000 + i as u64;
        t.ins(k, v);
        m.push((k, v));
    }
    (t, m)
}
/// Every pair of kinds; `f` gets the trees, their contents and the capacity.
pub fn over<L: Leaf>(
    name: &str,
    f: impl Fn([&'static L; 2], [&V; 2], usize) -> Result<(), String> + 'static,
    v: &mut Vec<Box<dyn Task>>,
) {
    v.push(prod(
        format!("large {name}/{}", L::NAME),
        &[KINDS; 2],
        move |p| {
            let cap = L::width().saturating_pow(L::depth() as u32);
            let (a, b) = untracked(|| (tree::<L>(0, p[0]), tree::<L>(1, p[1])));
            let t = untracked(|| [Box::into_raw(Box::new(a.0)), Box::into_raw(Box::new(b.0))]);
            // freed below, after the last use
            let r = f(unsafe { [&*t[0], &*t[1]] }, [&a.1, &b.1], cap);
            untracked(|| t.map(|t| unsafe { drop(Box::from_raw(t)) }));
            r?;
            Ok(Out { canon: (p[0] as u128) << 32 | p[1] as u128, nontrivial: true })
        },
        |p| format!("trees with large populations of kinds {} and {}", p[0], p[1]),
    ));
}
