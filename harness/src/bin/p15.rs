//! Hierarchy masks: containers under every history, lazy trees over every operand content.
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, DenseTree, HibitTree, HibitTreeCursorTypes};
use hibit_tree::{HibitTreeTypes, LazyHibitTree, MultiHibitTree};
use hv::fam;
use hv::hist::*;
use hv::norm::Norm;
use hv::ops::*;
use hv::run::*;
use hv::sut::*;

#[macro_use]
#[path = "../exprs.rs"]
mod exprs;

/// masks and the items below them, through the cursor
fn probe<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    probe_walk(t, want, u)
}

/// every operator over every operator
macro_rules! pairs {
    ($v:expr, $l:ty, $n:expr, $p:expr) => {
        two!($v, $l, $n, $p, I; L L, I L, L I, U L, L U, U U, MI L, L MU, M L, L MAPI, FMI L, L FMU);
        two!($v, $l, $n, $p, U; L L, I L, L I, I I, U U, U I, MI L, L MI, MU L, L MU, M L, L M, MAPI L, L MAPI, L MAPU,
                                FMI L, L FMI, FMU L, MI MI, FMI FMI, MU MI);
        multi!($v, $l, $n, $p; MI M, MI U, MI MU, MI I, MU M, MU I, MU U, MU MI, MU MU, MU FMI, MU MAPI, FMI U, FMI M, FMU I, FMU U,
                               FMU FMI, FMU FMU);
        mapped!($v, $l, $n, $p; I L L, U L L, U I L, U L I, U U I);
        nested_multi!($v, $l, $n, $p; MI multi_union r_mu, MU multi_intersection r_mi, MU multi_union r_mu);
        materialised!($v, $l, $n, $p; I L L, U L L, U I L, U L I, U U L, I U L, U FMI L, U L FMI, U FMU L, U I I, U M L, I FMU L, U MAPI L);
    };
}
/// map(T(X(a,b), Y(c,d))), materialised: a container has no empty branch
macro_rules! materialised {
    ($v:expr, $l:ty, $n:expr, $p:expr; $($t:ident $x:ident $y:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!("materialised map ", stringify!($t), "(", stringify!($x), ",", stringify!($y), ")"), 4, $v, |t, r, u| {
            let w = r_map(&r!($t, &r!($x, &r[0], &r[1]), &r!($y, &r[2], &r[3])), 5);
            let y = k!($y, t[2], t[3]);
            let m: $l = map(k!($t, k!($x, t[0], t[1]), by_ref!($y, y)), Tag(5)).materialize();
            probe(&m, &w, u)?;
            Ok(w)
        });
    )*};
}

const CH: u32 = C_WALK;

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    for cfg in cfgs {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        fam::bfs(cfg, CH, if c.dense { tier.q(5, 6) } else { tier.q(if d == 1 { 5 } else { 3 }, 4) }, &mut v);
        fam::bfs_filled(cfg, CH, &[3, 7, 15, 61, 63], 3, &mut v);
        for alt in [false, true] {
            let n = tier.q(if d <= 3 || w == 64 { 9 } else { 7 }, 13);
            fam::subsets(cfg, CH, if alt { "b" } else { "a" }, fam::cube(w, d, n, alt), tier.q(2, 4), &mut v);
        }
        if d <= 2 || w == 64 && d == 3 || tier == Tier::Thorough {
            fam::population(cfg, CH, tier.q((0..=w).step_by(w / 16).collect(), (0..=w).step_by(w / 64).collect()), &mut v);
        }
        if w == 64 && d <= 4 || d <= 2 || tier == Tier::Thorough && d <= 4 {
            fam::pairs(cfg, CH, &mut v);
        }
        if w == 64 && (d == 3 || d == 4) {
            // more than 2^16 keys, terminal nodes
            fam::large(cfg, CH, 70_000.min(c.capacity()), 1, "range-70000", &[(5, 1)], &mut v);
            if d == 4 {
                fam::large(cfg, CH, 66_000, 65, "nodes-66000", &[(0, 1)], &mut v);
            }
        }
        if d >= 2 && (d <= 3 || tier == Tier::Thorough) {
            fam::large(cfg, CH, (w * w).min(8000), 1, "dense-range", &[(5, 1)], &mut v);
        }
        if d >= 3 && (d <= 4 || tier == Tier::Thorough) {
            fam::large(cfg, CH, 2000, w + 1, "sparse-range", &[(5, 1)], &mut v);
        }
    }
    pairs!(&mut v, D3, 3, 0b1111);
    pairs!(&mut v, D6, 3, 0b11001);
    // small trees, with every possible content
    macro_rules! every {
        ($($l:ty),*) => {$(
            over::<$l>("every content, two", whole::<$l>(), 2, |t, r, u| {
                let n = u.keys.len();
                let w = r_union(&r[0], &r[1]);
                probe(&intersection(t[0], t[1]), &r_inter(&r[0], &r[1]), u)?;
                probe(&union(t[0], t[1]), &w, u)?;
                probe(&multi_intersection([t[0], t[1], t[0]].into_iter()), &r_mi(n, &[r[0], r[1], r[0]]), u)?;
                probe(&multi_union([t[0], t[1], t[0]].into_iter()), &r_mu(n, &[r[0], r[1], r[0]]), u)?;
                Ok(w)
            }, &mut v);
        )*};
    }
    every!(X23, G23, X41);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P15",
        level: "model_checking",
        rule: "a history case is non-trivial when the container is non-empty and its canonical heap state (or key set and insertion order) was not seen before; a lazy case (operand contents) when the result is not empty",
        assumptions: &["terminal masks of user-written operands are exact"],
        tasks,
    })
}
