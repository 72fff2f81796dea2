//! P20, the program that is built once per configuration: runs a fixed, exhaustive family of
//! operations and prints one line per case: `name<TAB>digest of everything observed`.
//! A case whose results contradict the reference model prints the contradiction instead.
use hibit_tree::bit_queue::BitQueue;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, LazyHibitTree};
use hibit_tree::{BitBlock, DenseTree, HibitTree, HibitTreeCursorTypes, HibitTreeTypes};
use hv::arena::{self, tracked, H};
use hv::hist::*;
use hv::norm::{self, Norm};
use hv::ops::*;
use hibit_tree::config::width_64 as w64;
#[cfg(feature = "simd")]
use hibit_tree::config::{width_128 as w128, width_256 as w256};
use hv::sut::{mk_dense, mk_sparse, mk_sparse_d, Cfg};
use hv::val::{self, Own, TVal};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "deep")]
fn all_trees<T: TVal>() -> Vec<Cfg> {
    hv::sut::dense_cfgs::<T>().into_iter().chain(hv::sut::sparse_all::<T>()).collect()
}
#[cfg(not(feature = "deep"))]
fn all_trees<T: TVal>() -> Vec<Cfg> {
    vec![
        Cfg { name: "dense/d1", mk: mk_dense::<T, 1> },
        Cfg { name: "dense/d3", mk: mk_dense::<T, 3> },
        Cfg { name: "dense/d8", mk: mk_dense::<T, 8> },
        Cfg { name: "sparse/64/d2", mk: mk_sparse::<w64::depth_2, T> },
        Cfg { name: "sparse/64/d4", mk: mk_sparse::<w64::depth_4, T> },
        #[cfg(feature = "simd")]
        Cfg { name: "sparse/128/d3", mk: mk_sparse::<w128::depth_3, T> },
        #[cfg(feature = "simd")]
        Cfg { name: "sparse/256/d2", mk: mk_sparse::<w256::depth_2, T> },
    ]
}
#[cfg(feature = "deep")]
fn all_default_trees<T: TVal>() -> Vec<Cfg> {
    hv::sut::sparse_default_all::<T>()
}
#[cfg(not(feature = "deep"))]
fn all_default_trees<T: TVal>() -> Vec<Cfg> {
    vec![
        Cfg { name: "sparse/64def/d2", mk: mk_sparse_d::<w64::depth_2, T> },
        #[cfg(feature = "simd")]
        Cfg { name: "sparse/128def/d2", mk: mk_sparse_d::<w128::depth_2, T> },
        #[cfg(feature = "simd")]
        Cfg { name: "sparse/256def/d3", mk: mk_sparse_d::<w256::depth_3, T> },
    ]
}
const CHECKS: u32 = C_GET | C_ITER | C_KV | C_ORDER | C_WALK | C_DROP | C_SCAN | C_DEFAULT;

fn line(name: &str, f: impl FnOnce(&mut H) -> Result<u64, String>) {
    hv::run::fresh();
    let mut h = H::default();
    let r = match catch_unwind(AssertUnwindSafe(|| f(&mut h))) {
        Ok(Ok(n)) => format!("{:032x}\t{n}", h.fin()),
        Ok(Err(e)) => format!("FAIL {}\t0", e.replace(['\n', '\t'], " ")),
        Err(_) => format!("FAIL panic {}\t0", hv::run::panic_msg().replace(['\n', '\t'], " ")),
    };
    println!("{name}\t{r}");
}

fn observe(w: &World, h: &mut H) {
    let (v, nones) = w.r().iter(100_000);
    for (k, x) in v {
        h.w(k as u64);
        h.w(x);
    }
    h.w(nones as u64);
    h.w(w.r().range_end() as u64);
    h.w(w.r().exact() as u64);
}

/// Every sequence of `len` operations.
fn sequences(cfg: Cfg, len: usize, n: usize) {
    let caps = hv::fam::caps_of(&cfg);
    for (tag, keys) in alphabets(caps.width, caps.depth, n) {
        line(&format!("{}/sequences/{tag}", cfg.name), |h| {
            let mut ops = vec![];
            for &k in &keys {
                ops.extend([Op::Ins(k), Op::Rem(k), Op::Goi(k)]);
                if caps.get_mut {
                    ops.push(Op::GetMut(k));
                }
            }
            ops.push(Op::KvMut);
            let pr = probes(&caps, &keys, 8);
            let mut s = vec![0; len];
            let mut count = 0;
            loop {
                hv::run::fresh();
                let mut w = World::new(&cfg);
                for &i in &s {
                    w.apply(ops[i])?;
                }
                count += 1;
                w.verify(CHECKS, &pr)?;
                observe(&w, h);
                finish(&mut w, CHECKS)?;
                let mut j = 0;
                while j < len {
                    s[j] += 1;
                    if s[j] < ops.len() {
                        break;
                    }
                    s[j] = 0;
                    j += 1;
                }
                if j == len {
                    return Ok(count);
                }
            }
        });
    }
}
/// Fill the children of one node one by one, empty it in another order, checking all the time.
fn fills(cfg: Cfg) {
    let caps = hv::fam::caps_of(&cfg);
    let w = caps.width;
    for level in 0..caps.depth {
        line(&format!("{}/fill/level{level}", cfg.name), |h| {
            let st = norm::stride(w, caps.depth, level);
            let child = |i: usize| i.wrapping_mul(st);
            let mut world = World::new(&cfg);
            let mut n = 0;
            let mut keys = vec![];
            for i in 0..w {
                let k = child((i * 37 + 5) % w);
                if k >= caps.capacity() {
                    continue;
                }
                world.apply(if i % 3 == 0 { Op::Goi(k) } else { Op::Ins(k) })?;
                keys.push(k);
                n += 1;
                if i % 5 == 0 || i + 2 >= w {
                    world.verify(C_GET | C_ITER | C_ORDER | C_WALK, &[])?;
                    observe(&world, h);
                }
            }
            let m = keys.len();
            for i in 0..m {
                let k = keys[(i * (m / 2 + 1)) % m];
                if world.model.contains_key(&k) {
                    world.apply(Op::Rem(k))?;
                    n += 1;
                }
                if i % 7 == 0 {
                    world.verify(C_GET | C_ITER | C_ORDER | C_WALK, &[])?;
                    observe(&world, h);
                }
            }
            world.verify(CHECKS, &keys[..4])?;
            finish(&mut world, CHECKS)?;
            Ok(n)
        });
    }
}
fn ranges(cfg: Cfg) {
    line(&format!("{}/range", cfg.name), |h| {
        let caps = hv::fam::caps_of(&cfg);
        let mut n = 0;
        let c = caps.capacity();
        for k in [c - 1, c, c.wrapping_add(1), c.saturating_mul(2), usize::MAX, usize::MAX - 1] {
            for op in 0..5 {
                let mut w = World::new(&cfg);
                let r = catch_unwind(AssertUnwindSafe(|| match op {
                    0 => w.t().insert(k, 5),
                    1 => {
                        w.t().remove(k);
                    }
                    2 => {
                        w.t().get(k);
                    }
                    3 => {
                        w.t().get_or_insert(k, 6);
                    }
                    _ => {
                        w.t().get_index(k);
                    }
                }));
                n += 1;
                h.w(r.is_ok() as u64);
                observe(&w, h);
            }
        }
        Ok(n)
    });
}

fn content<'s, T>(t: &'s T, want: &R, u: &U, h: &mut H) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    probe(t, want, u)?;
    h.w(T::EXACT_HIERARCHY as u64);
    for &k in u.keys.iter().chain(&u.absent) {
        h.w(t.get(k).map_or(7, |x| x.norm()));
    }
    Ok(())
}
fn each<L: Leaf>(name: &str, n: usize, k: usize, f: impl Fn(&[&'static L], &[R], &U, &mut H) -> Result<(), String>) {
    for u in universes(L::width(), L::depth(), k) {
        line(&format!("{name}/{}/{}", L::NAME, u.tag), |h| {
            let leaves = Leaves::<L>::new(&u);
            let keys = u.keys.len();
            let mut count = 0;
            for m in 0..1u32 << (keys * n) {
                let sub = |i: usize| m >> (keys * i) & ((1 << keys) - 1);
                let t: Vec<&'static L> = (0..n).map(|i| leaves.get(i, sub(i))).collect();
                let r: Vec<R> = (0..n).map(|i| r_leaf(keys, i, sub(i))).collect();
                f(&t, &r, &u, h)?;
                count += 1;
            }
            Ok(count)
        });
    }
}
macro_rules! lazies {
    ($($l:ty),*) => {$(
        each::<$l>("intersection", 2, 3, |t, r, u, h| content(&intersection(t[0], t[1]), &r_inter(&r[0], &r[1]), u, h));
        each::<$l>("union", 2, 3, |t, r, u, h| content(&union(t[0], t[1]), &r_union(&r[0], &r[1]), u, h));
        each::<$l>("map", 1, 4, |t, r, u, h| content(&map(t[0], Tag(1)), &r_map(&r[0], 1), u, h));
        each::<$l>("multi_intersection", 3, 2, |t, r, u, h| content(&multi_intersection(t.iter().copied()), &r_mi(u.keys.len(), r), u, h));
        each::<$l>("multi_union", 3, 2, |t, r, u, h| content(&multi_union(t.iter().copied()), &r_mu(u.keys.len(), r), u, h));
        each::<$l>("fold", 3, 2, |t, r, u, h| {
            content(&multi_map_fold(multi_union(t.iter().copied()), Start, Acc), &r_fmu(u.keys.len(), r), u, h)?;
            content(&multi_map_fold(multi_intersection(t.iter().copied()), Start, Acc), &r_fmi(u.keys.len(), r), u, h)
        });
        each::<$l>("nested", 3, 2, |t, r, u, h| {
            let n = u.keys.len();
            let x = [union(t[0], t[1]), union(t[1], t[2])];
            let rx = [r_union(&r[0], &r[1]), r_union(&r[1], &r[2])];
            content(&multi_intersection(x.iter()), &r_mi(n, &rx), u, h)?;
            let x = [intersection(t[0], t[1]), intersection(t[1], t[2])];
            let rx = [r_inter(&r[0], &r[1]), r_inter(&r[1], &r[2])];
            content(&multi_union(x.iter()), &r_mu(n, &rx), u, h)?;
            content(&union(&x[0], t[2]), &r_union(&rx[0], &r[2]), u, h)
        });
    )*};
}
macro_rules! mats {
    ($($l:ty, $d:literal);*) => {$(
        each::<$l>("materialise", 2, 3, |t, r, u, h| {
            hv::run::fresh();
            let w = r_map(&r_union(&r[0], &r[1]), 2);
            let i = r_map(&r_inter(&r[0], &r[1]), 3);
            {
                let a: DenseTree<u64, $d> = tracked(|| map(union(t[0], t[1]), Tag(2)).materialize());
                let b: DenseTree<Own, $d> = tracked(|| map(intersection(t[0], t[1]), OwnTag(3)).materialize());
                for (j, k) in u.keys.iter().enumerate() {
                    let g = a.get(*k).copied();
                    hv::ensure!(g == w.v[j], "materialised union at {k}");
                    let g = b.get(*k).map(|x| x.id());
                    hv::ensure!(g == i.v[j], "materialised intersection at {k}");
                    h.w(g.unwrap_or(3));
                }
                for (k, x) in a.iter() {
                    h.w(k as u64);
                    h.w(*x);
                }
                let (ks, vs) = b.key_values();
                hv::ensure!(ks.len() == vs.len() && ks.len() == i.len(), "key_values of a materialised tree");
            }
            hv::ensure!(val::live() == 0, "values leaked");
            match arena::error().or(arena::leaks()) {
                Some(e) => Err(e),
                None => Ok(()),
            }
        });
    )*};
}

fn blocks<B: BitBlock>(name: &str) {
    line(&format!("block/{name}"), |h| {
        let mut n = 0;
        let words = B::SIZE / 64;
        for i in 0..B::SIZE {
            for j in (0..B::SIZE).step_by(if words == 1 { 1 } else { 3 }) {
                let mut b = B::zero();
                b.set_bit::<true>(i);
                h.w(b.set_bit::<true>(j) as u64);
                let mut c = B::zero();
                c.set_bit::<true>(j);
                c.set_bit::<true>((i + j) % B::SIZE);
                for x in [b.clone(), b.clone() & c.clone(), b.clone() | c.clone()] {
                    h.w(x.count_ones() as u64);
                    h.w(x.is_zero() as u64);
                    let _ = x.traverse_bits(|k| {
                        h.w(k as u64);
                        std::ops::ControlFlow::Continue(())
                    });
                    let mut q = x.into_bits_iter();
                    q.trim_to(j);
                    h.w(q.current() as u64);
                    for k in q {
                        h.w(k as u64);
                    }
                }
                h.w((b == c) as u64);
                h.w(b.set_bit::<false>(i) as u64);
                h.w(b.get_bit(j) as u64);
                n += 1;
            }
        }
        Ok(n)
    });
}

/// Only compiles when the containers promise not to touch their values' borrows while dropping.
#[cfg(feature = "may_dangle")]
fn dangling() {
    use hibit_tree::SparseTree;
    line("may_dangle", |h| {
        {
            let mut d: DenseTree<&u64, 3>;
            let mut s: SparseTree<w64::depth_2, &u64>;
            let v: Vec<u64>;
            d = Default::default();
            v = vec![11, 12, 13];
            for i in 0..3 {
                d.insert(i * 70, &v[i]);
            }
            h.w(**d.get(70).unwrap());
            s = SparseTree::default();
            for i in 0..3 {
                s.insert(i * 70, &v[i]);
            }
            h.w(**s.get(140).unwrap());
        } // v goes first
        Ok(3)
    });
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    hv::run::install_hook();
    let deep = std::env::args().nth(1).as_deref() == Some("thorough");
    for cfg in all_trees::<Own>().into_iter().chain(all_default_trees::<u64>()) {
        sequences(cfg, 3, if deep { 3 } else { 2 });
        if deep && (cfg.name.ends_with("d2") || cfg.name.ends_with("d3")) {
            // one longer
            sequences_long(cfg);
        }
        ranges(cfg);
    }
    for cfg in all_trees::<u64>() {
        fills(cfg);
    }
    lazies!(D2, S3);
    #[cfg(feature = "simd")]
    lazies!(L2);
    mats!(D2, 2; S2, 2);
    #[cfg(feature = "deep")]
    {
        lazies!(D1, D3, S1);
        #[cfg(feature = "simd")]
        lazies!(M2, L3);
        mats!(D1, 1; D3, 3);
    }
    blocks::<u64>("u64");
    #[cfg(feature = "simd")]
    {
        blocks::<wide::u64x2>("u64x2");
        blocks::<wide::u64x4>("u64x4");
    }
    #[cfg(feature = "may_dangle")]
    dangling();
    println!("END");
}
fn sequences_long(cfg: Cfg) {
    let c = Cfg { name: cfg.name, mk: cfg.mk };
    let caps = hv::fam::caps_of(&c);
    let (tag, keys) = alphabets(caps.width, caps.depth, 2).swap_remove(0);
    line(&format!("{}/long/{tag}", cfg.name), |h| {
        let ops: Vec<Op> = keys.iter().flat_map(|k| [Op::Ins(*k), Op::Rem(*k), Op::Goi(*k)]).collect();
        let mut n = 0;
        for x in 0..6usize.pow(6) {
            hv::run::fresh();
            let mut w = World::new(&c);
            for j in 0..6 {
                w.apply(ops[x / 6usize.pow(j) % 6])?;
            }
            w.verify(C_GET | C_ITER | C_WALK, &[])?;
            observe(&w, h);
            finish(&mut w, CHECKS)?;
            n += 1;
        }
        Ok(n)
    });
}
