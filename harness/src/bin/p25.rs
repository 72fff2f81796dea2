//! P25: operators use their operands only as the traversal contract allows, and navigate only the
//! part of the hierarchy the operands' masks admit.
//!
//! The operands are trees implemented here (spy.rs), exact or with stale mask bits, in every
//! assignment of {absent, present, only stale nodes} per key. Every expression is read in every way;
//! then the same expression is evaluated over the hierarchy's nodes instead of its keys, which gives
//! the nodes that combining the operands' masks admits.
use hibit_tree::utils::LendingIterator;
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, DenseTree, HibitTree, HibitTreeCursorTypes, HibitTreeTypes, MultiHibitTree};
use hv::arena::{tracked, untracked};
use hv::norm::{self, Norm, Sink, MODES};
use hv::ops::*;
use hv::run::*;
use hv::spy::*;
use hv::task::prod;
use hv::{ensure, fail};
use std::cell::{Cell, RefCell};

#[macro_use]
#[path = "../exprs.rs"]
mod exprs;

thread_local! {
    /// Some: evaluating over nodes; the nodes of the universe, in order
    static NODES: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
    /// how often each operand may appear in one expression
    static APPEAR: Cell<usize> = const { Cell::new(0) };
}

fn probe<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let nodes = untracked(|| NODES.with_borrow(|n| n.clone()));
    let r = match nodes {
        None => hv::ops::probe(t, want, u).and_then(|()| lookups(t, want, u)),
        Some(n) => navigation(t, want, &n),
    };
    if let Some(b) = take_breach() {
        fail!("an operand is misused: {b}");
    }
    r
}

/// A lookup asks operands about the looked-up key only, and opens no cursor.
fn lookups<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
{
    for (i, &k) in u.keys.iter().enumerate() {
        for unchecked in [false, true] {
            if unchecked && want.v[i].is_none() {
                continue;
            }
            log_start();
            if unchecked {
                let _ = unsafe { t.get_unchecked(k) }.norm();
            } else {
                let _ = t.get(k).map(|d| d.norm());
            }
            let (_, sel, asked) = log_stop();
            ensure!(asked.iter().all(|a| *a == k), "looking up key {k} asks an operand about {asked:?}");
            ensure!(sel.len() <= asked.len().max(1) * 64, "looking up key {k} selects {} nodes", sel.len());
            for (_, l, s) in sel {
                ensure!(l == 0 || s == k & !(norm::stride(u.width, u.depth, l - 1) - 1), "looking up key {k} visits the node at key {s}");
            }
        }
    }
    Ok(())
}

/// `want` is the expression evaluated over the nodes.
fn navigation<'s, T>(t: &'s T, want: &R, nodes: &[(usize, usize)]) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let admits = |level: usize, start: usize| {
        level == 0 || nodes.iter().position(|n| *n == (level, start)).is_some_and(|i| want.v[i].is_some())
    };
    struct S<'a> {
        admits: &'a dyn Fn(usize, usize) -> bool,
        err: Option<(usize, usize)>,
    }
    impl Sink for S<'_> {
        fn node(&mut self, level: usize, start: usize, _: &[u64; 4]) {
            if !(self.admits)(level, start) {
                self.err = Some((level, start))
            }
        }
        fn item(&mut self, _: usize, _: Option<norm::Tok>) {}
    }
    for mode in MODES {
        let mut s = S { admits: &admits, err: None };
        norm::walk(t, mode, &mut s);
        if let Some((l, k)) = s.err {
            fail!("the mask above the level {l} node at key {k} has its bit, but the operands' masks do not admit it ({mode:?})");
        }
    }
    log_start();
    let mut it = tracked(|| t.iter());
    while let Some((_, d)) = LendingIterator::next(&mut it) {
        let _ = d.norm();
    }
    drop(it);
    let (_, mut sel, _) = log_stop();
    for &(_, l, k) in &sel {
        ensure!(admits(l, k), "iteration visits the level {l} node at key {k} in an operand, but the operands' masks do not admit it");
    }
    let n = sel.len();
    sel.sort_unstable();
    sel.dedup();
    ensure!(sel.len() == n, "iteration visits {} nodes of operands more than once", n - sel.len());
    Ok(())
}

/// Every assignment of {absent, present, stale (if the kind has that)} per key and operand.
trait Kind: Leaf {
    const STATES: usize;
    fn stale(&mut self, k: usize);
    fn node(&self, level: usize, start: usize) -> bool;
    fn starts_of(k: usize) -> Vec<(usize, usize)>;
}
impl<M: hibit_tree::BitBlock, const D: usize, const EX: bool> Kind for Spy<M, D, EX> {
    const STATES: usize = if EX || D == 1 { 2 } else { 3 };
    fn stale(&mut self, k: usize) {
        self.ghost(k)
    }
    fn node(&self, level: usize, start: usize) -> bool {
        self.has_node(level, start)
    }
    fn starts_of(k: usize) -> Vec<(usize, usize)> {
        Spy::<M, D, EX>::starts(k).collect()
    }
}
fn states<L: Kind>(mut p: u32, k: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..k {
        v.push((p % L::STATES as u32) as u8);
        p /= L::STATES as u32;
    }
    v
}
fn over<L: Kind>(
    name: &str,
    u: U,
    n: usize,
    f: impl Fn(&[&'static L], &[R], &U) -> Result<R, String> + 'static,
    v: &mut Vec<Box<dyn Task>>,
) {
    let k = u.keys.len();
    let mut nodes: Vec<(usize, usize)> = u.keys.iter().flat_map(|k| L::starts_of(*k)).collect();
    nodes.sort_unstable();
    nodes.dedup();
    assert!(nodes.len() <= MAXU, "{name}: {} nodes", nodes.len());
    // the same universe, with nodes in the place of keys
    let mut un = u.clone();
    un.keys = (0..nodes.len()).collect();
    let u2 = u.clone();
    let made: RefCell<Vec<Vec<Option<&'static L>>>> = RefCell::new(vec![vec![]; n]);
    let count = (L::STATES as u32).pow(k as u32);
    let tag = format!("{name}/{}/w{}d{}/{}", L::NAME, u.width, u.depth, u.tag);
    v.push(prod(
        tag,
        &vec![count as usize; n],
        move |p| {
            let (t, r, rn) = untracked(|| {
                let (mut t, mut r, mut rn): (Vec<&'static L>, Vec<R>, Vec<R>) = (vec![], vec![], vec![]);
                for i in 0..n {
                    let st = states::<L>(p[i], k);
                    let mut m = made.borrow_mut();
                    if m[i].is_empty() {
                        m[i] = vec![None; count as usize];
                    }
                    let l = *m[i][p[i] as usize].get_or_insert_with(|| {
                        let mut l = L::mk();
                        for j in 0..k {
                            match st[j] {
                                0 => {}
                                1 => l.ins(u.keys[j], leaf_id(i, j)),
                                _ => l.stale(u.keys[j]),
                            }
                        }
                        Box::leak(Box::new(l))
                    });
                    t.push(l);
                    r.push(R::from(k, |j| (st[j] == 1).then(|| leaf_id(i, j))));
                    rn.push(R::from(nodes.len(), |j| l.node(nodes[j].0, nodes[j].1).then_some(1)));
                }
                (t, r, rn)
            });
            let _ = take_breach();
            NODES.set(None);
            let out = f(&t, &r, &u)?;
            untracked(|| NODES.set(Some(nodes.clone())));
            f(&t, &rn, &un)?;
            NODES.set(None);
            let canon = p.iter().fold(out.bits() as u128 + 1, |a, x| (a << 20) ^ (a >> 100) ^ *x as u128);
            Ok(Out { canon, nontrivial: !out.is_empty() })
        },
        move |p| {
            let s: Vec<String> = p.iter().map(|x| {
                let st = states::<L>(*x, k);
                let of = |z: u8| (0..k).filter(|j| st[*j] == z).map(|j| u2.keys[j]).collect::<Vec<_>>();
                if L::STATES == 3 { format!("{:?} stale {:?}", of(1), of(2)) } else { format!("{:?}", of(1)) }
            }).collect();
            format!("keys of the operands: {}", s.join("; "))
        },
    ));
    let _ = APPEAR.get();
}

type X<const D: usize> = Spy<u64, D, true>;
type G<const D: usize> = Spy<u64, D, false>;

/// `n` keys; of a narrow tree, every key there is.
fn unis<L: Leaf>(n: usize) -> Vec<U> {
    if L::width() <= 4 { vec![whole::<L>()] } else { universes(L::width(), L::depth(), n) }
}
macro_rules! plain {
    ($v:expr, $n:expr; $($l:ty),*) => {$(
        for u in unis::<$l>($n) {
            over::<$l>("ops", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let w = r_inter(&r[0], &r[1]);
                probe(t[0], &r[0], u)?;
                probe(&intersection(t[0], t[1]), &w, u)?;
                probe(&union(t[0], t[1]), &r_union(&r[0], &r[1]), u)?;
                probe(&map(t[0], Tag(3)), &r_map(&r[0], 3), u)?;
                let l = [t[0], t[1]];
                probe(&multi_intersection(l.iter().copied()), &r_mi(n, r), u)?;
                probe(&multi_union(l.iter().copied()), &r_mu(n, r), u)?;
                probe(&multi_intersection(l.iter().copied()).map_fold(Start, Acc), &r_fmi(n, r), u)?;
                probe(&multi_union(l.iter().copied()).map_fold(Start, Acc), &r_fmu(n, r), u)?;
                let l = [t[0], t[1], t[0]];
                let r3 = [r[0], r[1], r[0]];
                probe(&multi_intersection(l.iter().copied()), &r_mi(n, &r3), u)?;
                probe(&multi_union(l.iter().copied()), &r_mu(n, &r3), u)?;
                probe(&multi_union(l[..1].iter().copied()), &r_mu(n, &r3[..1]), u)?;
                probe(&multi_intersection(l[..1].iter().copied()), &r_mi(n, &r3[..1]), u)?;
                probe(&multi_union(l[..0].iter().copied()), &r_mu(n, &r3[..0]), u)?;
                probe(&multi_intersection(l[..0].iter().copied()), &r_mi(n, &r3[..0]), u)?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! three {
    ($v:expr, $n:expr; $($l:ty),*) => {$(
        for u in unis::<$l>($n) {
            over::<$l>("three", u.clone(), 3, |t, r, u| {
                let n = u.keys.len();
                let w = r_inter(&r_union(&r[0], &r[1]), &r[2]);
                probe(&intersection(union(t[0], t[1]), t[2]), &w, u)?;
                probe(&union(intersection(t[0], t[1]), t[2]), &r_union(&r_inter(&r[0], &r[1]), &r[2]), u)?;
                probe(&multi_intersection(t.iter().copied()), &r_mi(n, r), u)?;
                probe(&multi_union(t.iter().copied()), &r_mu(n, r), u)?;
                probe(&multi_union(t.iter().copied()).map_fold(Start, Acc), &r_fmu(n, r), u)?;
                Ok(w)
            }, $v);
        }
    )*};
}
/// Materialising navigates like iteration, and reads every item once.
macro_rules! mat {
    ($v:expr, $n:expr; $($l:ty, $d:literal);*) => {$(
        for u in universes(64, $d, $n) {
            over::<$l>("materialise", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let w = r_inter(&r[0], &r[1]);
                type Dt = DenseTree<u64, $d>;
                macro_rules! one {
                    ($e:expr, $w:expr) => {{
                        log_start();
                        let m: Dt = hibit_tree::LazyHibitTree::materialize($e);
                        let (_, mut sel, _) = log_stop();
                        if let Some(b) = take_breach() {
                            fail!("an operand is misused: {b}");
                        }
                        let k = sel.len();
                        sel.sort_unstable();
                        sel.dedup();
                        ensure!(sel.len() == k, "materialising visits {} nodes of operands more than once", k - sel.len());
                        match NODES.with_borrow(|x| x.clone()) {
                            None => hv::ops::probe(&m, &$w, u)?,
                            Some(nodes) => for (_, l, s) in sel {
                                ensure!(l == 0 || nodes.iter().position(|n| *n == (l, s)).is_some_and(|i| $w.v[i].is_some()),
                                    "materialising visits the level {l} node at key {s} in an operand, but the operands' masks do not admit it");
                            },
                        }
                    }};
                }
                one!(map(t[0], Tag(1)), r_map(&r[0], 1));
                one!(map(intersection(t[0], t[1]), Tag(1)), r_map(&w, 1));
                one!(map(union(t[0], t[1]), Tag(1)), r_map(&r_union(&r[0], &r[1]), 1));
                one!(multi_intersection(t.iter().copied()).map_fold(Start, Acc), r_fmi(n, r));
                one!(multi_union(t.iter().copied()).map_fold(Start, Acc), r_fmu(n, r));
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let v_ = &mut v;
    plain!(v_, tier.q(4, 5); X<1>, X<2>, X<3>, X<4>);
    plain!(v_, tier.q(3, 5); G<2>, G<3>);
    plain!(v_, tier.q(3, 4); G<4>);
    plain!(v_, 2; X<8>, G<8>);
    three!(v_, tier.q(3, 4); X<1>, X<2>, X<3>);
    three!(v_, tier.q(2, 3); G<2>, G<3>, G<4>);
    plain!(v_, 0; X22, X23, X41, G22);
    three!(v_, 0; X22, X41);
    if tier == Tier::Thorough {
        three!(v_, 0; G22);
    }
    mat!(v_, tier.q(3, 4); X<1>, 1; X<2>, 2; X<3>, 3; G<2>, 2; G<3>, 3; G<4>, 4);
    #[cfg(feature = "simd")]
    {
        type W<const D: usize> = Spy<wide::u64x4, D, false>;
        plain!(v_, tier.q(2, 3); W<2>, W<3>);
    }
    let p = 0b1111;
    macro_rules! some {
        ($l:ty, $n:expr) => {
            two!(v_, $l, $n, p, I; I U, U I, U MI, MI MU, MU U, MU MI, U FMI, MU MU);
            two!(v_, $l, $n, p, U; I U, U MI, MI MU, MU I, MU MI, FMU I, MI MI, I I);
            multi!(v_, $l, $n, p; MI I, MI U, MI MU, MU I, MU MI, MU MU, FMI U, FMU I, MI FMU, MU FMI);
            nested_multi!(v_, $l, $n, p; MI multi_union r_mu, MU multi_intersection r_mi);
            deep!(v_, $l, $n, p; I U I, I U MU, U I U, U I MU);
        };
    }
    some!(X<3>, tier.q(2, 3));
    some!(G<3>, tier.q(2, 3));
    #[cfg(feature = "deep")]
    {
        some!(G<2>, 3);
        some!(G<4>, 2);
    }
    v
}

fn main() {
    hv::run::main(Check {
        id: "P25",
        level: "exploration",
        rule: "a case is one assignment of {absent, present, stale nodes} per key to the operands of one expression, read in every way while the operands watch; non-trivial when the result is not empty, distinct by assignment within an expression",
        assumptions: &["operands are lawful user implementations: terminal masks exact, a set bit's node can be selected"],
        tasks,
    })
}
