use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::UnaryFunction;
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, DenseTree, LazyHibitTree, MultiHibitTree};
use hv::arena::{tracked, untracked};
use hv::ensure;
use hv::hist::*;
use hv::norm;
use hv::ops::*;
use hv::run::*;
use hv::sut::{Caps, Dn, DynTree};
use hv::task::prod;
use hv::val::{Own, TVal};
use std::collections::BTreeMap;

const CHECKS: u32 = C_GET | C_ITER | C_KV | C_ORDER | C_WALK | C_DROP | C_SCAN | C_PURE;

type MkFn = Box<dyn Fn(&[u32]) -> Made>;
struct Made {
    tree: Box<dyn DynTree>,
    want: R,
}

/// Materialise for every assignment of the operands, then all histories of operations to a fixpoint.
struct Mat {
    name: String,
    u: U,
    caps: Caps,
    n: usize,
    mk: MkFn,
    ops: Vec<Op>,
    max: usize,
    depth: usize,
}
impl Mat {
    fn start(&self, p: &[u32]) -> World {
        let m = (self.mk)(p);
        untracked(|| {
            let mut model = BTreeMap::new();
            for i in 0..self.u.keys.len() {
                if let Some(x) = m.want.v[i] {
                    model.insert(self.u.keys[i], x);
                }
            }
            World::with(m.tree, model)
        })
    }
}
impl Task for Mat {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn explore(&self, cx: &mut Cx) {
        let s = 1u32 << self.u.keys.len();
        let mut inits = vec![vec![]];
        for _ in 0..self.n {
            inits = inits.iter().flat_map(|p: &Vec<u32>| (0..s).map(move |x| [p.clone(), vec![x]].concat())).collect();
        }
        cx.bfs_multi(self, &inits, self.ops.len() as u32, self.depth, self.max)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        let mut w = self.start(&p[..self.n]);
        if p.len() == self.n {
            w.verify(CHECKS, &self.u.absent)?;
        }
        for &i in &p[self.n..] {
            w.apply(self.ops[i as usize])?;
        }
        w.verify(CHECKS, &self.u.keys)?;
        let canon = w.canon();
        let nontrivial = !w.model.is_empty();
        finish(&mut w, CHECKS)?;
        Ok(Out { canon, nontrivial })
    }
    fn describe(&self, p: &[u32]) -> String {
        let mut s = format!("materialise with operand keys {}", descr(&self.u, &p[..self.n]));
        for &i in &p[self.n..] {
            s += "; ";
            s += &op_str(&self.caps, &self.ops[i as usize]);
        }
        s
    }
}

fn add<L: Leaf, T: TVal, const D: usize>(
    name: &str,
    u: &U,
    n: usize,
    tier: Tier,
    f: impl Fn(&[&'static L], &[R], usize) -> (DenseTree<T, D>, R) + 'static,
    v: &mut Vec<Box<dyn Task>>,
) where
    ConstUsize<D>: ConstInteger,
{
    let leaves = Leaves::<L>::new(u);
    let k = u.keys.len();
    let caps = Caps { get_mut: false, get_or_default: false, dense: true, width: 64, depth: D, id_mask: !0 };
    let mut ops = vec![];
    for &key in &u.keys {
        ops.push(Op::Ins(key));
        ops.push(Op::Rem(key));
    }
    // a neighbour that no operand has
    let other = u.absent.iter().copied().find(|a| *a / 64 == u.keys[0] / 64).unwrap_or(u.absent[0]);
    for key in [u.keys[0], other] {
        ops.push(Op::Goi(key));
    }
    ops.push(Op::Rem(other));
    ops.push(Op::KvMut);
    let mk = move |p: &[u32]| {
        let (t, r): (Vec<&'static L>, Vec<R>) =
            untracked(|| ((0..n).map(|i| leaves.get(i, p[i])).collect(), (0..n).map(|i| r_leaf(k, i, p[i])).collect()));
        let (tree, want) = f(&t, &r, k);
        Made { tree: tracked(|| Box::new(Dn::<T, D>(tree)) as Box<dyn DynTree>), want }
    };
    v.push(Box::new(Mat {
        name: format!("{name}/{}/{}/{}", T::NAME, L::NAME, u.tag),
        u: u.clone(),
        caps,
        n,
        mk: Box::new(mk),
        ops,
        max: tier.q(60_000, 400_000),
        depth: tier.q(14, FIX),
    }));
}

macro_rules! exprs {
    ($v:expr, $tier:expr, $n:expr, $($l:ty, $d:literal);*) => {$(
        for u in universes(64, $d, $n) {
            let (v, t): (&mut Vec<Box<dyn Task>>, Tier) = ($v, $tier);
            // exact sources
            add::<$l, Own, $d>("map", &u, 1, t, |t, r, _| (tracked(|| map(t[0], OwnTag(1)).materialize()), r_map(&r[0], 1)), v);
            add::<$l, u64, $d>("map", &u, 1, t, |t, r, _| (tracked(|| map(t[0], Tag(1)).materialize()), r_map(&r[0], 1)), v);
            add::<$l, Own, $d>("union", &u, 2, t, |t, r, _| {
                (tracked(|| map(union(t[0], t[1]), OwnTag(2)).materialize()), r_map(&r_union(&r[0], &r[1]), 2))
            }, v);
            add::<$l, Own, $d>("multi-union", &u, 2, t, |t, r, k| {
                let l = [t[0], t[1], t[0]];
                (tracked(|| multi_union(l.iter().copied()).map_fold(OwnStart, OwnAcc).materialize()), r_fmu(k, &[r[0], r[1], r[0]]))
            }, v);
            // sources with empty branches
            add::<$l, Own, $d>("intersection", &u, 2, t, |t, r, _| {
                (tracked(|| map(intersection(t[0], t[1]), OwnTag(3)).materialize()), r_map(&r_inter(&r[0], &r[1]), 3))
            }, v);
            add::<$l, u64, $d>("intersection", &u, 2, t, |t, r, _| {
                (tracked(|| map(intersection(t[0], t[1]), Tag(3)).materialize()), r_map(&r_inter(&r[0], &r[1]), 3))
            }, v);
            add::<$l, Own, $d>("multi-intersection", &u, 2, t, |t, r, k| {
                let l = [t[0], t[1]];
                (tracked(|| multi_intersection(l.iter().copied()).map_fold(OwnStart, OwnAcc).materialize()), r_fmi(k, r))
            }, v);
            add::<$l, Own, $d>("union-of-intersection", &u, 2, t, |t, r, _| {
                let i = r_inter(&r[0], &r[1]);
                (tracked(|| map(union(intersection(t[0], t[1]), t[0]), OwnTag(4)).materialize()), r_map(&r_union(&i, &r[0]), 4))
            }, v);
            add::<$l, Own, $d>("union-of-intersections", &u, 2, t, |t, r, _| {
                let i = r_inter(&r[0], &r[1]);
                let j = r_inter(&r[1], &r[0]);
                (tracked(|| map(union(intersection(t[0], t[1]), intersection(t[1], t[0])), OwnTag(5)).materialize()), r_map(&r_union(&i, &j), 5))
            }, v);
        }
    )*};
}

/// Three different operands; the result is read but not changed any more, except by two operations.
macro_rules! more {
    ($v:expr, $n:expr, $($l:ty, $d:literal);*) => {$(
        for u in universes(64, $d, $n) {
            over::<$l>("three", u.clone(), 3, |t, r, u| {
                let k = u.keys.len();
                type Dt = DenseTree<u64, $d>;
                let w = r_map(&r_union(&r_inter(&r[0], &r[1]), &r[2]), 6);
                let m: Dt = tracked(|| map(union(intersection(t[0], t[1]), t[2]), Tag(6)).materialize());
                probe(&m, &w, u)?;
                let w = r_map(&r_inter(&r_union(&r[0], &r[1]), &r[2]), 6);
                let m2: Dt = tracked(|| map(intersection(union(t[0], t[1]), t[2]), Tag(6)).materialize());
                probe(&m2, &w, u)?;
                let w3 = r_fmi(k, r);
                let m3: Dt = tracked(|| multi_intersection(t.iter().copied()).map_fold(Start, Acc).materialize());
                probe(&m3, &w3, u)?;
                let w4 = r_fmu(k, r);
                let m4: Dt = tracked(|| multi_union(t.iter().copied()).map_fold(Start, Acc).materialize());
                probe(&m4, &w4, u)?;
                // results are operands again
                let w5 = r_union(&r_inter(&w3, &w4), &w);
                probe(&union(intersection(&m3, &m4), &m2), &w5, u)?;
                // no operands
                let none: [&$l; 0] = [];
                let e: Dt = tracked(|| multi_union(none.iter().copied()).map_fold(Start, Acc).materialize());
                probe(&e, &R::empty(k), u)?;
                let e: Dt = tracked(|| multi_intersection(none.iter().copied()).map_fold(Start, Acc).materialize());
                probe(&e, &R::empty(k), u)?;
                // materialise what was materialised
                let m6: Dt = tracked(|| map(&m4, Tag(7)).materialize());
                probe(&m6, &r_map(&w4, 7), u)?;
                tracked(|| drop((m, m2, m3, m4, m6, e)));
                Ok(w5)
            }, $v);
        }
    )*};
}

/// Every number of children of a node at a level, at every position offset; then insert, remove and
/// reinsert around the borders.
fn fill<const D: usize>(level: usize, v: &mut Vec<Box<dyn Task>>)
where
    ConstUsize<D>: ConstInteger,
{
    let caps = Caps { get_mut: false, get_or_default: false, dense: true, width: 64, depth: D, id_mask: !0 };
    let st = norm::stride(64, D, level);
    struct Copy;
    impl<'a> UnaryFunction<&'a u64> for Copy {
        type Output = Own;
        fn exec(&self, a: &'a u64) -> Own {
            Own::new(*a)
        }
    }
    impl<'a> UnaryFunction<(&'a u64, &'a u64)> for Copy {
        type Output = Own;
        fn exec(&self, a: (&'a u64, &'a u64)) -> Own {
            Own::new(*a.0)
        }
    }
    v.push(prod(
        format!("fill/dense/d{D}/level{level}"),
        &[65, 3, 2, 4],
        move |p| {
            let n = p[0] as usize;
            let off = [0, 64 - n, (64 - n) / 2][p[1] as usize];
            let (a, b) = untracked(|| {
                let mut a = DenseTree::<u64, D>::default();
                let mut b = DenseTree::<u64, D>::default();
                for i in 0..n {
                    a.insert((off + i) * st, (off + i) as u64 + 1);
                    b.insert((off + i) * st, 7);
                }
                // what the intersection has to leave out
                for i in 0..64 {
                    if i % 3 == 0 && (i < off || i >= off + n) {
                        a.insert(i * st, 1);
                    } else if i % 3 == 1 && (i < off || i >= off + n) {
                        b.insert(i * st, 1);
                    }
                }
                (a, b)
            });
            let m: DenseTree<Own, D> = if p[2] == 0 {
                tracked(|| map(intersection(&a, &b), Copy).materialize())
            } else {
                let c = untracked(|| {
                    let mut c = DenseTree::<u64, D>::default();
                    for i in 0..n {
                        c.insert((off + i) * st, (off + i) as u64 + 1);
                    }
                    c
                });
                tracked(|| map(&c, Copy).materialize())
            };
            let model = (0..n).map(|i| ((off + i) * st, (off + i) as u64 + 1)).collect();
            let mut w = World::with(tracked(|| Box::new(Dn::<Own, D>(m)) as Box<dyn DynTree>), model);
            let probes: Vec<usize> = (0..64).map(|i| i * st).collect();
            w.verify(CHECKS, &probes)?;
            match p[3] {
                0 => {
                    // fill up to the last child
                    for i in 0..64 {
                        w.apply(Op::Ins(i * st))?;
                    }
                    w.verify(CHECKS, &probes)?;
                    for i in (0..64).rev() {
                        w.apply(Op::Rem(i * st))?;
                    }
                }
                1 => {
                    for i in 0..n {
                        w.apply(Op::Rem((off + i) * st))?;
                        if i % 7 == 0 {
                            w.verify(CHECKS, &probes)?;
                        }
                    }
                    w.apply(Op::Ins(off % 64 * st))?;
                }
                2 => {
                    for i in (0..n).rev() {
                        w.apply(Op::Rem((off + i) * st))?;
                        w.apply(Op::Goi(if level + 1 == D { (off + i + 9) % 64 * st } else { (off + i) % 64 * st + 1 }))?;
                    }
                }
                _ => {
                    w.apply(Op::KvMut)?;
                    for i in (0..64).step_by(5) {
                        w.apply(Op::Goi(i * st))?;
                        w.apply(Op::Rem((63 - i) * st))?;
                    }
                }
            }
            w.verify(CHECKS, &probes)?;
            finish(&mut w, CHECKS)?;
            ensure!(caps.depth == D, "depth");
            Ok(Out { canon: p.iter().fold(1, |a, x| a << 16 | *x as u128), nontrivial: n > 0 })
        },
        move |p| format!("{} children from offset kind {}, source kind {}, history kind {}", p[0], p[1], p[2], p[3]),
    ));
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let v_ = &mut v;
    exprs!(v_, tier, tier.q(3, 4), D1, 1; D2, 2; D3, 3; D4, 4; D6, 6; D8, 8; D9, 9; S2, 2; S3, 3);
    more!(v_, tier.q(3, 4), D1, 1; D2, 2; D3, 3; D4, 4; S3, 3);
    macro_rules! large {
        ($($l:ty, $d:literal);*) => {$(
            hv::big::over::<$l>("materialised", |t, m, cap| {
                use hv::big::*;
                type Dt = DenseTree<u64, $d>;
                let d: Dt = map(union(t[0], t[1]), Tag(5)).materialize();
                hv::big::probe(&map(&d, Tag(1)), &v_map(&v_map(&v_union(m[0], m[1]), 5), 1), cap)?;
                let d: Dt = map(intersection(t[0], t[1]), Tag(5)).materialize();
                hv::big::probe(&map(&d, Tag(1)), &v_map(&v_map(&v_inter(m[0], m[1]), 5), 1), cap)
            }, v_);
        )*};
    }
    large!(D3, 3; D4, 4; S3, 3);
    fill::<1>(0, v_);
    fill::<2>(0, v_);
    fill::<2>(1, v_);
    fill::<3>(0, v_);
    fill::<3>(1, v_);
    fill::<3>(2, v_);
    fill::<5>(2, v_);
    v
}

fn main() {
    hv::run::main(Check {
        id: "P11",
        level: "model_checking",
        rule: "a state is a container made by materialising a lazy tree (every assignment of key sets to its operands) followed by a history of operations, keyed by the memory reachable from it; non-trivial when not empty",
        assumptions: &["materialisation is only offered into dense containers of the same width and depth with owned items"],
        tasks,
    })
}
