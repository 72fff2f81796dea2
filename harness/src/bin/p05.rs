use hibit_tree::intersection;
use hv::ops::*;
use hv::run::*;

macro_rules! inter {
    ($v:expr, $n:expr, $($a:ty, $b:ty);* $(;)?) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            over2::<$a, $b>("intersection", u.clone(), |a, b, ra, rb, u| {
                let w = r_inter(ra, rb);
                // operands by reference
                let t = intersection(a, b);
                probe(&t, &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}
macro_rules! own {
    ($v:expr, $n:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $n) {
            // operands moved into the operation; a tree with itself; intersections of intersections
            over::<$a>("by-value", u.clone(), 2, |_, r, u| {
                let w = r_inter(&r[0], &r[1]);
                let t = intersection(
                    build::<$a>(&u.keys, 0, r[0].bits()),
                    build::<$a>(&u.keys, 1, r[1].bits()),
                );
                probe(&t, &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("self", u.clone(), 1, |t, r, u| {
                let w = r_inter(&r[0], &r[0]);
                probe(&intersection(t[0], t[0]), &w, u)?;
                Ok(w)
            }, $v);
        }
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), 4) {
            over::<$a>("three-left", u.clone(), 3, |t, r, u| {
                let w = r_inter(&r_inter(&r[0], &r[1]), &r[2]);
                probe(&intersection(intersection(t[0], t[1]), t[2]), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("three-right", u.clone(), 3, |t, r, u| {
                let w = r_inter(&r[0], &r_inter(&r[1], &r[2]));
                let i = intersection(t[1], t[2]);
                probe(&intersection(t[0], &i), &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}

/// Small trees, with every possible content.
macro_rules! all_contents {
    ($v:expr, $($a:ty),*) => {$(
        over::<$a>("every content", whole::<$a>(), 2, |t, r, u| {
            let w = r_inter(&r[0], &r[1]);
            probe(&intersection(t[0], t[1]), &w, u)?;
            Ok(w)
        }, $v);
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let n = tier.q(7, 9);
    inter!(&mut v, n, D1, D1; D2, D2; D3, D3; D4, D4; S1, S1; S2, S2; S3, S3; M1, M1; M2, M2; M3, M3;
           L1, L1; L2, L2; L3, L3; D1, S1; S2, D2; D3, S3);
    inter!(&mut v, n - 1, D6, D6; S4, D4; D8, D8; D9, D9; S8, D8; M8, M8; L8, L8);
    own!(&mut v, tier.q(5, 6), D1, D2, D3, S1, S2, S3, M2, L1, L2);
    all_contents!(&mut v, X22, X23, X41, X81, G22, G23);
    macro_rules! large {
        ($name:literal, $($l:ty),*; $f:expr) => {$(hv::big::over::<$l>($name, $f, &mut v);)*};
    }
    large!("intersection", D3, D4, S3, S4; |t, m, cap| hv::big::probe(&intersection(t[0], t[1]), &hv::big::v_inter(m[0], m[1]), cap));
    v
}
fn main() {
    hv::run::main(Check {
        id: "P05",
        level: "exploration",
        rule: "a case is one assignment of key sets to the operand trees, read through every access path; non-trivial when the intersection is not empty, distinct by assignment",
        assumptions: &["both operands have the same width and depth (the types enforce it)"],
        tasks,
    })
}
