//! Index range: exactly `width^depth` keys (saturated at the largest usize) are accepted.
use hv::{arena, ensure, fail};
use hv::fam;
use hv::hist::*;
use hv::norm;
use hv::run::*;
use hv::sut::*;
use hv::task::prod;
use hibit_tree::const_utils::ConstInteger;
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, BitBlock, HibitTree, HibitTreeTypes, Index, LazyHibitTree, MultiHibitTree};
use hv::norm::Norm;
use hv::ops::*;
use hv::spy::Spy;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[macro_use]
#[path = "../exprs.rs"]
mod exprs;

/// The range of a lazy tree: its end, and `get` of every border key inside and outside of it.
fn probe<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
{
    let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
    ensure!((w, d) == (u.width, u.depth), "a lazy tree over trees of width {} and depth {} is of width {w} and depth {d}", u.width, u.depth);
    let cap = w.saturating_pow(d as u32);
    ensure!(T::index_range().end == cap, "index_range() of a lazy tree ends at {}, expected {cap}", T::index_range().end);
    for k in edge_keys(w, d) {
        if k < cap {
            let e = u.keys.iter().position(|x| *x == k).and_then(|i| want.v[i]);
            let Ok(i) = catch_unwind(|| Index::<T::LevelMask, T::LevelCount>::from(k)) else {
                fail!("key {k} inside the range 0..{cap} is refused: {}", panic_msg())
            };
            let (a, b, c) = (t.get(k).map(|d| d.norm()), t.get(i).map(|d| d.norm()), t.get(unsafe { Index::new_unchecked(k) }).map(|d| d.norm()));
            ensure!(a == e && b == e && c == e, "get({k}) of a lazy tree gives {a:?}, through Index {b:?} and {c:?}, expected {e:?}");
            ensure!(usize::from(i) == k, "Index of {k} converts to {}", usize::from(i));
        } else {
            ensure!(catch_unwind(AssertUnwindSafe(|| t.get(k).is_some())).is_err(), "get({k}) of a lazy tree outside the range 0..{cap} does not panic");
        }
    }
    Ok(())
}
macro_rules! lazies {
    ($v:expr, $n:expr, $($l:ty),*) => {$(
        for (i, u) in universes(<$l as Leaf>::width(), <$l as Leaf>::depth(), $n).into_iter().enumerate() {
            if i % 2 == 0 {
                lazies!(@ $v, $l, u, L M I U MI MU FMI FMU MAPI MAPU);
            }
        }
    )*};
    (@ $v:expr, $l:ty, $u:expr, $($x:ident)*) => {$(
        over::<$l>(concat!("lazy ", stringify!($x)), $u.clone(), 2, |t, r, u| {
            let w = r!($x, &r[0], &r[1]);
            let t = k!($x, t[0], t[1]);
            probe(by_ref!($x, t), &w, u)?;
            Ok(w)
        }, $v);
    )*};
}

/// Keys at every power of two, at every multiple of every level's stride near the ends, ...
fn edge_keys(w: usize, d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, usize::MAX, usize::MAX - 1, usize::MAX - 2];
    let c = w.saturating_pow(d as u32);
    for b in 0..64 {
        let p = 1usize << b;
        for x in [p - 1, p, p + 1, p | 1 << (b / 2), p | p >> 1, !p] {
            v.push(x);
        }
        v.push(c.wrapping_add(p));
        v.push(c.wrapping_sub(p));
    }
    for l in 0..d {
        let s = norm::stride(w, d, l);
        for m in [1, 2, w / 2, w - 1, w, w + 1] {
            if let Some(x) = s.checked_mul(m) {
                v.extend([x.wrapping_sub(1), x, x + 1]);
                v.extend([c.wrapping_sub(x), c.wrapping_add(x)]);
            }
        }
    }
    for x in [c.wrapping_sub(2), c.wrapping_sub(1), c, c.wrapping_add(1)] {
        v.push(x);
    }
    v.sort_unstable();
    v.dedup();
    v
}

const OPS: usize = 8;
fn do_op(w: &mut World, op: usize, k: usize) -> Result<Option<u64>, ()> {
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        0 => w.r().get(k),
        1 => {
            w.t().insert(k, 77);
            None
        }
        2 => w.t().remove(k),
        3 => Some(w.t().get_or_insert(k, 78)),
        4 => w.r().get_index(k),
        5 if w.caps.get_mut => w.t().get_mut(k, 79, false),
        6 if w.caps.get_or_default => Some(w.r().get_or_default(k)),
        _ => None,
    }));
    r.map_err(|_| ())
}
fn op_name(op: usize) -> &'static str {
    ["get", "insert", "remove", "get_or_insert", "get through Index", "get_mut", "get_or_default", "index_range"][op]
}

fn one(cfg: &Cfg, base: &[usize], op: usize, k: usize, light: bool) -> Result<Out, String> {
    let mut w = World::new(cfg);
    let caps = w.caps;
    let cap = caps.capacity();
    let applies = match op {
        5 => caps.get_mut,
        6 => caps.get_or_default,
        _ => true,
    };
    if !applies {
        w.drop_tree();
        return Ok(Out::default());
    }
    ensure!(w.r().range_end() == cap, "index_range() ends at {}, expected {cap}", w.r().range_end());
    for &b in base {
        w.apply(Op::Ins(b))?;
    }
    let inside = k < cap;
    let before = arena::raw_hash();
    let had = w.model.get(&k).copied();
    let r = do_op(&mut w, op, k);
    if op == 7 {
        w.drop_tree();
        return Ok(Out { canon: k as u128, nontrivial: true });
    }
    if !inside {
        ensure!(r.is_err(), "{} of key {k} outside the range 0..{cap} returned {r:?} instead of panicking", op_name(op));
        ensure!(arena::raw_hash() == before, "rejected {} of key {k} modified the container", op_name(op));
    } else {
        let Ok(r) = r else { fail!("{} of key {k} inside the range 0..{cap} panicked: {}", op_name(op), panic_msg()) };
        let e = match op {
            0 | 4 => had,
            1 => {
                w.model.insert(k, 77);
                None
            }
            2 => w.model.remove(&k),
            3 => {
                w.model.insert(k, 78);
                Some(had.unwrap_or(0))
            }
            5 => {
                if had.is_some() {
                    w.model.insert(k, 79);
                }
                had
            }
            _ => Some(had.unwrap_or(0)),
        };
        ensure!(r == e, "{} of key {k} returned {r:?}, expected {e:?}", op_name(op));
        if light {
            w.verify(C_GET, &[k])?;
        } else {
            w.verify(C_GET | C_ORDER | C_WALK, &probes(&caps, &[k], 16))?;
        }
    }
    w.drop_tree();
    Ok(Out { canon: (k as u128) << 8 | op as u128, nontrivial: true })
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    cfgs.extend(sparse_default_all::<u64>());
    for cfg in cfgs {
        let c = fam::caps_of(&cfg);
        let keys = edge_keys(c.width, c.depth);
        let cap = c.capacity();
        let bases: Vec<Vec<usize>> = vec![vec![], vec![0], vec![cap - 1], vec![0, cap / 2, cap - 1]];
        let bases: Vec<Vec<usize>> =
            bases.into_iter().map(|b| b.into_iter().map(|k| if k == usize::MAX { k - 1 } else { k }).collect()).collect();
        let (k2, b2) = (keys.clone(), bases.clone());
        v.push(prod(
            format!("{}/edges", cfg.name),
            &[keys.len(), OPS, bases.len()],
            move |p| one(&cfg, &bases[p[2] as usize], p[1] as usize, keys[p[0] as usize], false),
            move |p| format!("{} of key {} on a tree with keys {:?}", op_name(p[1] as usize), k2[p[0] as usize], b2[p[2] as usize]),
        ));
        // every key of the range and a margin behind it
        let lim = tier.q(20_000, 300_000);
        if cap <= lim {
            v.push(prod(
                format!("{}/all-keys", cfg.name),
                &[cap + 600, OPS - 1],
                move |p| one(&cfg, &[cap / 2], p[1] as usize, p[0] as usize, true),
                move |p| format!("{} of key {} on a tree with key {}", op_name(p[1] as usize), p[0], cap / 2),
            ));
        }
    }
    lazies!(&mut v, tier.q(3, 4), D1, D2, D3, D4, D6, D8, D9, S1, S2, S3, S8, M1, M2, M8, L1, L2, L8, Spy<wide::u64x4, 2, true>, Spy<u64, 3, false>);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P14",
        level: "exploration",
        rule: "a case is one operation on one key against one tree content; it is non-trivial when the operation exists on the container, and distinct by (operation, key)",
        assumptions: &["the machine word has 64 bits"],
        tasks,
    })
}
