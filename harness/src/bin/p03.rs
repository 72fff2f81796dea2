use hibit_tree::{intersection, map, multi_intersection, multi_union, union, HibitTree, MultiHibitTree};
use hv::arena::untracked;
use hv::fam;
use hv::forms::forms;
use hv::hist::*;
use hv::norm::{Norm, Tok};
use hv::ops::*;
use hv::run::*;
use hv::sut::*;

const CH: u32 = C_ORDER | C_FORMS;

/// Lazy trees, consumed in every way an iterator can be.
macro_rules! lazies {
    ($v:expr, $n:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            macro_rules! go {
                ($name:literal, $t:ident, $r:ident, $e:expr, $w:expr) => {
                    over::<$a>(concat!("forms-", $name), u.clone(), 2, move |$t, $r, u| {
                        let w: R = $w;
                        let e = $e;
                        let want: Vec<(usize, Tok)> = untracked(|| u.keys.iter().enumerate().filter_map(|(i, k)| w.v[i].map(|x| (*k, x))).collect());
                        forms(|| e.iter(), |(k, x)| (k, x.norm()), &want)?;
                        Ok(w)
                    }, $v);
                };
            }
            let n = u.keys.len();
            go!("intersection", t, r, intersection(t[0], t[1]), r_inter(&r[0], &r[1]));
            go!("union", t, r, union(t[0], t[1]), r_union(&r[0], &r[1]));
            go!("map-intersection", t, r, map(intersection(t[0], t[1]), Tag(3)), r_map(&r_inter(&r[0], &r[1]), 3));
            go!("union-of-map", t, r, union(map(t[0], Tag(3)), intersection(t[1], t[0])), r_union(&r_map(&r[0], 3), &r_inter(&r[1], &r[0])));
            go!("fold-intersection", t, r, multi_intersection([t[0], t[1], t[0]].into_iter()).map_fold(Start, Acc), r_fmi(n, &[r[0], r[1], r[0]]));
            go!("fold-union", t, r, multi_union([t[0], t[1], t[0]].into_iter()).map_fold(Start, Acc), r_fmu(n, &[r[0], r[1], r[0]]));
        }
    )*};
}
fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    for cfg in cfgs {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        fam::bfs(cfg, CH, if c.dense { tier.q(5, 6) } else { tier.q(if d == 1 { 5 } else { 3 }, 4) }, &mut v);
        for alt in [false, true] {
            let n = tier.q(if d <= 3 || w == 64 { 11 } else { 9 }, 14);
            fam::subsets(cfg, CH, if alt { "b" } else { "a" }, fam::cube(w, d, n, alt), tier.q(2, 4), &mut v);
        }
        if d <= 4 || tier == Tier::Thorough {
            fam::population(cfg, CH, tier.q((0..=w).step_by(w / 16).collect(), (0..=w).step_by(w / 64).collect()), &mut v);
        }
        if w == 64 || d <= 2 || tier == Tier::Thorough && d <= 4 {
            fam::pairs(cfg, CH, &mut v);
        }
        if w == 64 && (d == 3 || d == 4) {
            // more than 2^16 keys, terminal nodes
            fam::large(cfg, CH, 70_000.min(c.capacity()), 1, "range-70000", &[(5, 1)], &mut v);
            if d == 4 {
                fam::large(cfg, CH, 66_000, 65, "nodes-66000", &[(0, 1)], &mut v);
            }
        }
        if d >= 2 && (d <= 4 || tier == Tier::Thorough) {
            fam::large(cfg, CH, (w * w).min(20000), 1, "dense-range", &[(5, 1)], &mut v);
        }
        if d >= 3 && (d <= 4 || tier == Tier::Thorough) {
            fam::large(cfg, CH, 3000, w + 1, "sparse-range", &[(5, 1)], &mut v);
        }
    }
    {
        let v = &mut v;
        lazies!(v, tier.q(4, 6), D1, D2, D3, D4, S2, S3);
        lazies!(v, tier.q(3, 5), S1, S4, D6);
        #[cfg(feature = "simd")]
        lazies!(v, tier.q(3, 5), M1, M2, L1, L2, L3);
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P03",
        level: "model_checking",
        rule: "a case is non-trivial when the container is non-empty and its canonical heap state (or key set and insertion order) was not seen before",
        assumptions: &["a tree is not modified while it is iterated (the borrow checker enforces it)"],
        tasks,
    })
}
