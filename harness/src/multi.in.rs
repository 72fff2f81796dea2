// Shared by p07.rs (intersection) and p08.rs (union): `op`, `r_op`, `ALL`.
use hv::arena::untracked;
use hv::ensure;
use hv::task::prod;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! few {
    ($v:expr, $n:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>(&format!("{}-operands", $n), u.clone(), $n, |t, r, u| {
                let w = r_op(u.keys.len(), r);
                probe(&op(t.iter().copied()), &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}
/// The operands may come from any cloneable iterator, and one tree may appear several times.
macro_rules! sources {
    ($v:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>("from-slice-of-owned", u.clone(), 3, |_, r, u| {
                let w = r_op(u.keys.len(), r);
                let owned: Vec<$a> = untracked(|| (0..3).map(|i| build::<$a>(&u.keys, i, r[i].bits())).collect());
                probe(&op(owned.iter()), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("from-array", u.clone(), 3, |t, r, u| {
                let w = r_op(u.keys.len(), r);
                probe(&op([t[0], t[1], t[2]].into_iter()), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("from-filter", u.clone(), 3, |t, r, u| {
                // skips the second tree: the iterator does not know its length
                let w = r_op(u.keys.len(), &[r[0], r[2]]);
                let skip = t[1] as *const $a;
                let it = t.iter().copied().filter(move |x| *x as *const $a != skip);
                probe(&op(it), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("from-chain-rev", u.clone(), 3, |t, r, u| {
                let w = r_op(u.keys.len(), &[r[2], r[1], r[0], r[1]]);
                let it = t.iter().rev().copied().chain(std::iter::once(t[1]));
                probe(&op(it), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("repeated", u.clone(), 2, |t, r, u| {
                let w = r_op(u.keys.len(), &[r[0], r[1], r[0], r[0], r[1]]);
                probe(&op([t[0], t[1], t[0], t[0], t[1]].into_iter()), &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}
/// Many operands. Key 0 is missing in one tree (or in none), key 1 is only in one tree (or in
/// none), the others are in every `j`-th tree.
macro_rules! many {
    ($v:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), 5) {
            for n in [6usize, 7, 8, 15, 16, 17, 30, 31, 32] {
                let leaves = Leaves::<$a>::new(&u);
                let u2 = u.clone();
                let k = u.keys.len();
                $v.push(prod(
                    format!("many{n}/{}/{}", <$a as Leaf>::NAME, u.tag),
                    &[n + 1, n + 1],
                    move |p| {
                        let (miss, only) = (p[0] as usize, p[1] as usize);
                        let sub = |i: usize| {
                            let mut s = 0u32;
                            if i != miss { s |= 1 }
                            if i == only { s |= 2 }
                            for b in 2..k {
                                if (i + miss) % b == only % b || only == n { s |= 1 << b }
                            }
                            s & ((1 << k) - 1)
                        };
                        // reference ids by tree number; real trees are shared by parity and content
                        let trees: Vec<&'static $a> = untracked(|| (0..n).map(|i| leaves.get(i, sub(i))).collect());
                        let r: Vec<R> = untracked(|| (0..n).map(|i| r_leaf(k, i, sub(i))).collect());
                        let w = r_op(k, &r);
                        probe(&op(trees.iter().copied()), &w, &u2)?;
                        Ok(Out { canon: (w.bits() as u128) << 64 | (p[0] as u128) << 32 | p[1] as u128, nontrivial: !w.is_empty() })
                    },
                    move |p| format!("{n} operands, the first key missing in #{}, the second only in #{}", p[0], p[1]),
                ));
            }
        }
    )*};
}
/// More operands than supported: an access may panic, but never answer wrong.
macro_rules! too_many {
    ($v:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), 3) {
            let leaves = Leaves::<$a>::new(&u);
            let k = u.keys.len();
            $v.push(prod(
                format!("too-many/{}/{}", <$a as Leaf>::NAME, u.tag),
                &[8, 1 << k, 3],
                move |p| {
                    let n = 33 + [0, 1, 2, 3, 7, 30, 31, 32][p[0] as usize];
                    let trees: Vec<&'static $a> = untracked(|| (0..n).map(|i| leaves.get(i % 2, p[1])).collect());
                    let r: Vec<R> = untracked(|| (0..n).map(|i| r_leaf(k, i % 2, p[1])).collect());
                    let w = r_op(k, &r);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let t = op(trees.iter().copied());
                        match p[2] {
                            0 => probe_access(&t, &w, &u),
                            1 => probe_iter(&t, &w, &u),
                            _ => probe_walk(&t, &w, &u),
                        }
                    }));
                    if let Ok(r) = r {
                        r?
                    }
                    Ok(Out { canon: (p[0] as u128) << 64 | (p[1] as u128) << 32 | p[2] as u128, nontrivial: true })
                },
                |p| format!("too many operands, case {p:?}"),
            ));
        }
    )*};
}
/// Operands of a multi operation that are lazy themselves.
macro_rules! lazy {
    ($v:expr, $k:expr, $($a:ty),*) => {$(
        for u in universes(<$a as Leaf>::width(), <$a as Leaf>::depth(), $k) {
            over::<$a>("of-unions", u.clone(), 4, |t, r, u| {
                let w = r_op(u.keys.len(), &[r_union(&r[0], &r[1]), r_union(&r[2], &r[3])]);
                let (x, y) = (hibit_tree::union(t[0], t[1]), hibit_tree::union(t[2], t[3]));
                probe(&op([&x, &y].into_iter()), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("of-intersections", u.clone(), 4, |t, r, u| {
                let w = r_op(u.keys.len(), &[r_inter(&r[0], &r[1]), r_inter(&r[2], &r[3])]);
                let (x, y) = (hibit_tree::intersection(t[0], t[1]), hibit_tree::intersection(t[2], t[3]));
                probe(&op([&x, &y].into_iter()), &w, u)?;
                Ok(w)
            }, $v);
            over::<$a>("of-multi", u.clone(), 4, |t, r, u| {
                let k = u.keys.len();
                let w = r_op(k, &[r_op(k, &r[..2]), r_op(k, &r[2..])]);
                let (x, y) = (op([t[0], t[1]].into_iter()), op([t[2], t[3]].into_iter()));
                probe(&op([&x, &y].into_iter()), &w, u)?;
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let v_ = &mut v;
    few!(v_, 0, 3, D1, D2, D3, S1, S2, S3, M1, M2, L1, L2);
    few!(v_, 1, 8, D1, D2, D3, S1, S2, S3, M1, M2, L1, L2);
    few!(v_, 2, tier.q(6, 8), D1, D2, D3, D4, S1, S2, S3, M1, M2, M3, L1, L2, L3, D9, S8, M8, L8);
    few!(v_, 3, tier.q(4, 5), D1, D2, D3, D4, S1, S2, S3, M1, M2, M3, L1, L2, L3);
    few!(v_, 4, tier.q(3, 4), D1, D2, D3, D6, D8, S1, S2, S3, M1, M2, L1, L2);
    few!(v_, 5, tier.q(2, 3), D1, D2, D3, S2, L2);
    sources!(v_, 4, D1, D2, D3, S2, L2);
    many!(v_, D1, D2, D3, S1, S3, M2, L2);
    too_many!(v_, D1, D2, D3, S2);
    lazy!(v_, 3, D1, D2, D3, S2, L2);
    // small trees, with every possible content
    macro_rules! every {
        ($n:expr, $($a:ty),*) => {$(
            over::<$a>(&format!("every content of {}", $n), whole::<$a>(), $n, |t, r, u| {
                let w = r_op(u.keys.len(), r);
                probe(&op(t.iter().copied()), &w, u)?;
                Ok(w)
            }, v_);
        )*};
    }
    every!(1, X24, G24, X42, G42);
    every!(2, X23, G23, X81);
    every!(3, X22, G22, X41);
    every!(4, X22, G22, X41);
    if tier == Tier::Thorough {
        every!(5, X22, G22);
        every!(3, X23, G23);
    }
    let _ = ALL;
    #[allow(unused)]
    fn _e() -> Result<(), String> { ensure!(true, ""); Ok(()) }
    macro_rules! large {
        ($name:literal, $($l:ty),*; $f:expr) => {$(hv::big::over::<$l>($name, $f, &mut v);)*};
    }
    large!("operands", D3, D4, S3; |t, m, cap| {
        hv::big::probe(&op([t[0], t[1]].into_iter()), &v_op(&[m[0], m[1]]), cap)?;
        hv::big::probe(&op([t[0], t[1], t[0]].into_iter()), &v_op(&[m[0], m[1], m[0]]), cap)
    });
    v
}
