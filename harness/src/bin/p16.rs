//! P16: cursor answers depend only on the currently selected path.
//!
//! For every contents (of every operand) and every tree kind: every sequence of selections up to a
//! length that the protocol of `HibitTreeCursor` allows - any level whose parent level is selected,
//! any child of a small alphabet that includes absent ones, checked, or unchecked where the parent's
//! mask has the bit - is run on one cursor. After each selection the mask is compared with what a
//! fresh cursor led straight there reports and with the contents; after a terminal selection
//! `data` is compared for every child of the alphabet, and `data_unchecked` for every present one.
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union};
use hibit_tree::{BitBlock, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes};
use hv::norm::{self, Norm, Tok};
use hv::ops::*;
use hv::run::{Check, Task, Tier};
use hv::{ensure, fail};

type Mask = [u64; 4];
fn raw<M: BitBlock>(m: &M) -> Mask {
    let mut w = [0; 4];
    for (i, x) in m.as_array().as_ref().iter().enumerate() {
        w[i] = *x
    }
    w
}
fn sel<'s, T: HibitTree>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, level: usize, idx: usize, unchecked: bool) -> Mask {
    #[inline]
    fn go<'s, T: HibitTree, N: ConstInteger>(n: N, t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, level: usize, idx: usize, unchecked: bool) -> Mask {
        if N::VALUE == level {
            let m = unsafe {
                if unchecked {
                    c.select_level_node_unchecked(t, n, idx)
                } else {
                    c.select_level_node(t, n, idx)
                }
            };
            raw(&m)
        } else if N::VALUE + 1 < T::LevelCount::VALUE {
            go::<T, N::Inc>(n.inc(), t, c, level, idx, unchecked)
        } else {
            unreachable!()
        }
    }
    go(ConstUsize::<0>, t, c, level, idx, unchecked)
}

/// One action: select the child number `a / 2` of the alphabet of its level, unchecked if odd.
struct Plan {
    d: usize,
    /// per selection level: the child indices (level 0 has the one root)
    idx: Vec<Vec<usize>>,
    data: Vec<usize>,
    /// actions of all levels, in one list: (level, child index position, unchecked)
    acts: Vec<(usize, usize, bool)>,
    len: usize,
}
impl Plan {
    fn new(u: &U, len: usize) -> Plan {
        let (w, d) = (u.width, u.depth);
        let alpha = |l: usize| {
            let mut v: Vec<usize> = u.keys.iter().map(|k| norm::digit(w, d, l, *k)).collect();
            v.sort_unstable();
            v.dedup();
            // one child that never exists (a narrow node has only few: all of them)
            if w > 4 {
                v.push((0..w).find(|x| !v.contains(x) && *x > 2).unwrap());
            }
            v
        };
        let mut idx = vec![vec![0]];
        for l in 1..d {
            idx.push(alpha(l - 1));
        }
        let mut acts = vec![];
        for (l, v) in idx.iter().enumerate() {
            for p in 0..v.len() {
                acts.push((l, p, false));
                if l == 0 || w <= 4 || p + 1 < v.len() {
                    acts.push((l, p, true));
                }
            }
        }
        Plan { d, idx, data: alpha(d - 1), acts, len }
    }
    /// number of a path: digits base 8, a leading one
    fn code(&self, path: &[usize]) -> usize {
        path.iter().fold(1, |a, p| a * 8 + p)
    }
}

fn scripts<'s, T>(t: &'s T, want: &R, u: &U, len: usize) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let plan = Plan::new(u, len);
    let d = plan.d;
    // reference: a fresh cursor led straight (checked) to every path
    let mut masks: Vec<Option<Mask>> = vec![None; 8usize.pow(d as u32) * 2];
    let mut datas: Vec<Vec<Option<Tok>>> = vec![vec![]; masks.len()];
    let mut path: Vec<usize> = vec![0];
    'paths: loop {
        let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
        let mut start = 0;
        let mut m = [0; 4];
        for (l, p) in path.iter().enumerate() {
            let i = plan.idx[l][*p];
            if l > 0 {
                start += i * norm::stride(u.width, d, l - 1);
            }
            m = sel(t, &mut c, l, i, false);
        }
        let level = path.len() - 1;
        // against the contents
        let keys = (0..want.n).filter(|i| want.v[*i].is_some()).map(|i| u.keys[i]);
        let e = hv::hist::expect_mask(u.width, d, keys, level, start);
        let must_eq = T::EXACT_HIERARCHY || level + 1 == d;
        ensure!(
            if must_eq { e == m } else { (0..4).all(|i| e[i] & !m[i] == 0) },
            "fresh cursor: mask of the level {level} node at {start} is {:?}, expected {:?}",
            norm::bits(&m).collect::<Vec<_>>(),
            norm::bits(&e).collect::<Vec<_>>()
        );
        let code = plan.code(&path);
        masks[code] = Some(m);
        if level + 1 == d {
            datas[code] = plan
                .data
                .iter()
                .map(|i| {
                    let k = start + i;
                    u.keys.iter().position(|x| *x == k).and_then(|x| want.v[x])
                })
                .collect();
        }
        // next path: all prefixes, depth first
        if level + 1 < d {
            path.push(0);
            continue;
        }
        loop {
            let l = path.len() - 1;
            path[l] += 1;
            if path[l] < plan.idx[l].len() {
                continue 'paths;
            }
            path.pop();
            if path.is_empty() {
                break 'paths;
            }
        }
    }

    // every sequence of `len` allowed actions
    let k = plan.acts.len();
    let mut runs = 0;
    let mut s = vec![0usize; len];
    loop {
        let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
        let mut path = [0usize; 9];
        let mut depth = 0; // number of selected levels
        let mut bad = len;
        for j in 0..len {
            let (l, p, un) = plan.acts[s[j]];
            if l > depth {
                bad = j;
                break;
            }
            let i = plan.idx[l][p];
            if un && l > 0 && !has(&masks[plan.code(&path[..l])].unwrap(), i) {
                bad = j;
                break;
            }
            path[l] = p;
            depth = l + 1;
            let m = sel(t, &mut c, l, i, un);
            let code = plan.code(&path[..depth]);
            if Some(m) != masks[code] {
                fail!(
                    "after {} the mask is {:?}, a fresh cursor has {:?}",
                    show(&plan, &s[..=j]),
                    norm::bits(&m).collect::<Vec<_>>(),
                    norm::bits(&masks[code].unwrap()).collect::<Vec<_>>()
                );
            }
            if depth == d {
                for (q, i) in plan.data.iter().enumerate() {
                    let e = datas[code][q];
                    let g = unsafe { c.data(t, *i) }.map(|x| x.norm());
                    if g != e {
                        fail!("after {} data({i}) gives {}, expected {}", show(&plan, &s[..=j]), what(g), what(e));
                    }
                    if e.is_some() {
                        let g = unsafe { c.data_unchecked(t, *i) }.norm();
                        if Some(g) != e {
                            fail!("after {} data_unchecked({i}) gives other content", show(&plan, &s[..=j]));
                        }
                    }
                }
            }
        }
        if bad == len {
            runs += 1
        }
        // next sequence; skip everything that shares the forbidden prefix
        let mut j = if bad < len {
            for x in &mut s[bad + 1..] {
                *x = 0
            }
            bad
        } else {
            len - 1
        };
        loop {
            s[j] += 1;
            if s[j] < k {
                break;
            }
            s[j] = 0;
            if j == 0 {
                hv::run::inner(runs);
                return Ok(());
            }
            j -= 1;
        }
    }
}
fn what(x: Option<Tok>) -> &'static str {
    if x.is_some() { "an item" } else { "nothing" }
}
fn show(p: &Plan, s: &[usize]) -> String {
    s.iter()
        .map(|a| {
            let (l, i, un) = p.acts[*a];
            format!("select level {l} child {}{}", p.idx[l][i], if un { " unchecked" } else { "" })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// Universes whose keys share children on every level.
fn unis(w: usize, d: usize, n: usize) -> Vec<U> {
    if w <= 4 {
        // every key there is
        return vec![universe(&format!("whole-w{w}d{d}-"), w, d, &(0..w.pow(d as u32)).collect::<Vec<_>>())];
    }
    let s = |l: usize| norm::stride(w, d, l);
    let mut v = vec![];
    let last = w - 1;
    match d {
        1 => v.push(universe("root", w, d, &[0, last, 1][..n.min(3)])),
        2 => {
            v.push(universe("two", w, d, &[0, s(0), 1, s(0) + 1][..n.min(4)]));
            v.push(universe("far", w, d, &[0, last * s(0) + last, last, last * s(0)][..n.min(4)]));
        }
        _ => {
            let m = s(d - 3);
            let q = s(d - 2);
            v.push(universe("cousins", w, d, &[0, q, m, m + q, 1][..n.min(5)]));
            v.push(universe("apart", w, d, &[0, m + q, last * m + last * q + last, m, 1][..n.min(5)]));
        }
    }
    v
}

/// Deep trees: descents to the terminal level instead of single selections. The paths are those of the
/// universe's keys, and those that leave them at one level for a child `dev` and follow the key's
/// digits below. Every ordered pair of paths, on one cursor: down the first, down the second (from
/// where they part, or from the root; wholly, or stopping at each level), down the first again.
fn descents<'s, T>(t: &'s T, want: &R, u: &U, devs: &[usize], stops: bool) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let (w, d) = (u.width, u.depth);
    struct P {
        /// child to select at each level (the root: 0)
        idx: Vec<usize>,
        start: usize,
        masks: Vec<Mask>,
        datas: Vec<Option<Tok>>,
    }
    let mut last: Vec<usize> = u.keys.iter().map(|k| norm::digit(w, d, d - 1, *k)).chain(devs.iter().copied()).collect();
    last.sort_unstable();
    last.dedup();
    let mut idxs: Vec<Vec<usize>> = vec![];
    for k in &u.keys {
        let own: Vec<usize> = (0..d - 1).map(|l| norm::digit(w, d, l, *k)).collect();
        for l in 0..d - 1 {
            for c in std::iter::once(own[l]).chain(devs.iter().copied()) {
                let mut p = own.clone();
                p[l] = c;
                // the top level of the deepest trees has fewer usable children
                let top = p.iter().enumerate().fold(0u128, |a, (l, c)| a + *c as u128 * norm::stride(w, d, l) as u128);
                if top < usize::MAX as u128 - norm::stride(w, d, d - 2) as u128 {
                    p.insert(0, 0);
                    if !idxs.contains(&p) {
                        idxs.push(p)
                    }
                }
            }
        }
    }
    let mut paths = vec![];
    for idx in idxs {
        let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
        let (mut start, mut masks) = (0, vec![]);
        for (l, i) in idx.iter().enumerate() {
            if l > 0 {
                start += i * norm::stride(w, d, l - 1);
            }
            let m = sel(t, &mut c, l, *i, false);
            let keys = (0..want.n).filter(|i| want.v[*i].is_some()).map(|i| u.keys[i]);
            let e = hv::hist::expect_mask(w, d, keys, l, start);
            ensure!(
                if T::EXACT_HIERARCHY || l + 1 == d { e == m } else { (0..4).all(|i| e[i] & !m[i] == 0) },
                "fresh cursor: mask of the level {l} node at {start} is {:?}, expected {:?}",
                norm::bits(&m).collect::<Vec<_>>(),
                norm::bits(&e).collect::<Vec<_>>()
            );
            masks.push(m);
        }
        let datas = last.iter().map(|i| u.keys.iter().position(|x| *x == start + i).and_then(|x| want.v[x])).collect();
        paths.push(P { idx, start, masks, datas });
    }
    let mut runs = 0;
    let go = |c: &mut <T as HibitTreeTypes<'s>>::Cursor, p: &P, from: usize, to: usize, un: bool| -> Result<(), String> {
        for l in from..to {
            let unchecked = un && (l == 0 || has(&p.masks[l - 1], p.idx[l]));
            let m = sel(t, c, l, p.idx[l], unchecked);
            if m != p.masks[l] {
                fail!("level {l} of the path to {}: mask {:?}, a fresh cursor has {:?}", p.start, norm::bits(&m).collect::<Vec<_>>(), norm::bits(&p.masks[l]).collect::<Vec<_>>());
            }
        }
        if to == d {
            for (i, e) in last.iter().zip(&p.datas) {
                let g = unsafe { c.data(t, *i) }.map(|x| x.norm());
                if g != *e {
                    fail!("data({i}) below {} gives {}, expected {}", p.start, what(g), what(*e));
                }
                if e.is_some() && Some(unsafe { c.data_unchecked(t, *i) }.norm()) != *e {
                    fail!("data_unchecked({i}) below {} gives other content", p.start);
                }
            }
        }
        Ok(())
    };
    for a in &paths {
        for b in &paths {
            let part = (0..d).find(|l| a.idx[*l] != b.idx[*l]).unwrap_or(d - 1);
            for mode in 0..4 {
                let (un, from) = (mode & 1 != 0, if mode & 2 != 0 { 0 } else { part });
                for to in if stops { part + 1 } else { d }..=d {
                    let mut c = <T as HibitTreeTypes<'s>>::Cursor::new(t);
                    go(&mut c, a, 0, d, un)
                        .and_then(|_| go(&mut c, b, from, to, un))
                        .and_then(|_| go(&mut c, a, part, d, !un))
                        .map_err(|e| format!("down to {}, from level {from} {} {}, from level {part} back, {}: {e}", a.start, if to == d { "down to".into() } else { format!("to level {} towards", to - 1) }, b.start, if un { "unchecked" } else { "checked" }))?;
                    runs += 1;
                }
            }
        }
    }
    hv::run::inner(runs);
    Ok(())
}
/// Keys that part from the first one at one of the levels.
fn ladder(w: usize, d: usize, levels: &[usize]) -> U {
    // the root's children are fewer where the index range ends within the root
    let base: usize = (0..d).map(|l| norm::stride(w, d, l) * if l == 0 { 0 } else { 2 }).sum();
    let keys: Vec<usize> = std::iter::once(base).chain(levels.iter().map(|l| base + norm::stride(w, d, *l) * if *l == 0 { 1 } else { 3 })).collect();
    universe(&format!("ladder{levels:?}-"), w, d, &keys)
}
macro_rules! deep {
    ($v:expr; one $($a:ty),*) => {$(
        let (w, d) = (<$a as Leaf>::width(), <$a as Leaf>::depth());
        for l in [vec![d - 1, d - 2, 0], vec![d - 3, d - 4, 1]] {
            over::<$a>("descents", ladder(w, d, &l), 1, move |t, r, u| { descents(t[0], &r[0], u, &[0, 4], true)?; Ok(r[0]) }, $v);
        }
    )*};
    ($v:expr; two $($a:ty),*) => {$(
        let (w, d) = (<$a as Leaf>::width(), <$a as Leaf>::depth());
        for l in [vec![d - 1, 0], vec![d - 2, d - 3], vec![1, 2]] {
            over::<$a>("descents, two", ladder(w, d, &l), 2, move |t, r, u| {
                let n = u.keys.len();
                descents(&intersection(t[0], t[1]), &r_inter(&r[0], &r[1]), u, &[0, 4], false).map_err(|e| format!("intersection: {e}"))?;
                let w = r_union(&r[0], &r[1]);
                descents(&union(t[0], t[1]), &w, u, &[0, 4], false).map_err(|e| format!("union: {e}"))?;
                let s = [t[0], t[1]];
                descents(&multi_intersection(s.into_iter()), &r_mi(n, r), u, &[0, 4], false).map_err(|e| format!("multi_intersection: {e}"))?;
                descents(&multi_union(s.into_iter()), &r_mu(n, r), u, &[0, 4], false).map_err(|e| format!("multi_union: {e}"))?;
                descents(&map(union(t[0], t[1]), Tag(3)), &r_map(&w, 3), u, &[0, 4], false).map_err(|e| format!("map: {e}"))?;
                descents(&multi_map_fold(multi_union(s.into_iter()), Start, Acc), &r_fmu(n, r), u, &[0, 4], false).map_err(|e| format!("fold: {e}"))?;
                Ok(w)
            }, $v);
        }
    )*};
}

macro_rules! one {
    ($v:expr, $len:expr, $n:expr, $($a:ty),*) => {$(
        for u in unis(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>(&format!("container/len{}", $len), u, 1, move |t, r, u| { scripts(t[0], &r[0], u, $len)?; Ok(r[0]) }, $v);
        }
    )*};
}
macro_rules! two {
    ($v:expr, $len:expr, $n:expr, $($a:ty),*) => {$(
        for u in unis(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>(&format!("pair/len{}", $len), u, 2, move |t, r, u| {
                let n = u.keys.len();
                scripts(&intersection(t[0], t[1]), &r_inter(&r[0], &r[1]), u, $len).map_err(|e| format!("intersection: {e}"))?;
                let w = r_union(&r[0], &r[1]);
                scripts(&union(t[0], t[1]), &w, u, $len).map_err(|e| format!("union: {e}"))?;
                let s = [t[0], t[1]];
                scripts(&multi_intersection(s.into_iter()), &r_mi(n, r), u, $len).map_err(|e| format!("multi_intersection: {e}"))?;
                scripts(&multi_union(s.into_iter()), &r_mu(n, r), u, $len).map_err(|e| format!("multi_union: {e}"))?;
                scripts(&map(union(t[0], t[1]), Tag(3)), &r_map(&w, 3), u, $len).map_err(|e| format!("map: {e}"))?;
                scripts(&multi_map_fold(multi_union(s.into_iter()), Start, Acc), &r_fmu(n, r), u, $len).map_err(|e| format!("fold: {e}"))?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! three {
    ($v:expr, $len:expr, $n:expr, $($a:ty),*) => {$(
        for u in unis(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>(&format!("triple/len{}", $len), u, 3, move |t, r, u| {
                let n = u.keys.len();
                let (i01, i12) = (r_inter(&r[0], &r[1]), r_inter(&r[1], &r[2]));
                scripts(&union(intersection(t[0], t[1]), t[2]), &r_union(&i01, &r[2]), u, $len).map_err(|e| format!("union(intersection, tree): {e}"))?;
                scripts(&intersection(union(t[0], t[1]), t[2]), &r_inter(&r_union(&r[0], &r[1]), &r[2]), u, $len).map_err(|e| format!("intersection(union, tree): {e}"))?;
                let s = [t[0], t[1], t[2]];
                scripts(&multi_intersection(s.into_iter()), &r_mi(n, r), u, $len).map_err(|e| format!("multi_intersection: {e}"))?;
                let w = r_mu(n, r);
                scripts(&multi_union(s.into_iter()), &w, u, $len).map_err(|e| format!("multi_union: {e}"))?;
                let x = [intersection(t[0], t[1]), intersection(t[1], t[2])];
                scripts(&multi_union(x.iter()), &r_mu(n, &[i01, i12]), u, $len).map_err(|e| format!("multi_union of intersections: {e}"))?;
                scripts(&multi_intersection(x.iter()), &r_mi(n, &[i01, i12]), u, $len).map_err(|e| format!("multi_intersection of intersections: {e}"))?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! more {
    ($v:expr, $len:expr, $n:expr, $($a:ty),*) => {$(
        for u in unis(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over::<$a>(&format!("nested/len{}", $len), u, 3, move |t, r, u| {
                let n = u.keys.len();
                let x = [union(t[0], t[1]), union(t[1], t[2])];
                let rx = [r_union(&r[0], &r[1]), r_union(&r[1], &r[2])];
                scripts(&multi_union(x.iter()), &r_mu(n, &rx), u, $len).map_err(|e| format!("multi_union of unions: {e}"))?;
                scripts(&multi_intersection(x.iter()), &r_mi(n, &rx), u, $len).map_err(|e| format!("multi_intersection of unions: {e}"))?;
                let (p, q) = ([t[0], t[1]], [t[1], t[2]]);
                let (rp, rq) = ([r[0], r[1]], [r[1], r[2]]);
                let a = [multi_intersection(p.into_iter()), multi_intersection(q.into_iter())];
                let b = [multi_union(p.into_iter()), multi_union(q.into_iter())];
                scripts(&multi_union(a.iter()), &r_mu(n, &[r_mi(n, &rp), r_mi(n, &rq)]), u, $len).map_err(|e| format!("mu of mi: {e}"))?;
                scripts(&multi_intersection(b.iter()), &r_mi(n, &[r_mu(n, &rp), r_mu(n, &rq)]), u, $len).map_err(|e| format!("mi of mu: {e}"))?;
                let w = r_mu(n, &[r_mu(n, &rp), r_mu(n, &rq)]);
                scripts(&multi_union(b.iter()), &w, u, $len).map_err(|e| format!("mu of mu: {e}"))?;
                scripts(&union(&a[0], &b[1]), &r_union(&r_mi(n, &rp), &r_mu(n, &rq)), u, $len).map_err(|e| format!("union(mi, mu): {e}"))?;
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v = vec![];
    one!(&mut v, 5, 3, D1, S1);
    one!(&mut v, tier.q(6, 7), 4, D2, S2);
    one!(&mut v, tier.q(6, 7), 5, D3, S3);
    one!(&mut v, tier.q(6, 7), 5, D4, S4);
    deep!(&mut v; one D6, D8, D9, S8);
    deep!(&mut v; two D6, D8, S8);
    #[cfg(feature = "simd")]
    deep!(&mut v; one M8, L8);
    #[cfg(feature = "deep")]
    deep!(&mut v; two D9, M8, L8);
    two!(&mut v, 4, 3, D1);
    two!(&mut v, tier.q(5, 6), tier.q(3, 4), D2);
    two!(&mut v, tier.q(5, 6), tier.q(3, 4), S3);
    three!(&mut v, tier.q(4, 6), tier.q(3, 3), D2);
    three!(&mut v, tier.q(5, 6), tier.q(2, 3), D3);
    #[cfg(feature = "simd")]
    {
        one!(&mut v, tier.q(4, 6), 4, M2, L2, L3);
    }
    two!(&mut v, 6, 0, X22, G22);
    three!(&mut v, tier.q(4, 6), 0, X22, G22);
    #[cfg(not(feature = "deep"))]
    more!(&mut v, 5, 2, D2);
    #[cfg(feature = "deep")]
    {
        two!(&mut v, 6, 3, D3, L2);
        three!(&mut v, 3, 3, D1);
        more!(&mut v, 3, 3, D1);
        more!(&mut v, 6, 3, D2);
        more!(&mut v, 5, 3, S3);
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P16",
        level: "exploration",
        rule: "a case is one assignment of contents to the operands with every allowed sequence of selections up to the length in the task's name; non-trivial when the tree is not empty, distinct by assignment",
        assumptions: &["sequences follow the protocol documented on HibitTreeCursor: a level is selected only below a selected level, unchecked only where the mask of the level above has the bit"],
        tasks,
    })
}
