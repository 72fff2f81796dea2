//! P13: a panic in user code leaves containers consistent.
//!
//! Containers: breadth-first search over histories whose operations include the faulty ones - a
//! default constructor that panics, an overwritten value or a value of a dropped container whose
//! destructor panics, an index out of range. After every faulty operation the container must be an
//! ordered map with the old or the new content, with an exact hierarchy, and no value dropped twice.
//!
//! Lazy trees: for every contents of the operands, every access path and every `n`, the n-th call of
//! user code on that path (mapping function, fold step, fold start, the source iterator's `next` or
//! `clone`) panics. Afterwards the same tree must read right, and nothing may be dropped twice or
//! touched uninitialised. The same for materialising.
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::{BinaryFunction, LendingIterator, NullaryFunction, UnaryFunction};
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, DenseTree, LazyHibitTree};
use hibit_tree::{HibitTree, HibitTreeCursorTypes, HibitTreeTypes};
use hv::arena::{self, tracked, untracked};
use hv::hist::*;
use hv::norm::{mix, Norm, Tok};
use hv::ops::*;
use hv::run::*;
use hv::sut::{dense_cfgs, sparse64_cfgs, sparse_all, sparse_default_all, Caps, Cfg, Dn, DynTree};
use hv::task::prod;
use hv::val::{self, inject, Own, TVal, INJECTED};
use hv::{ensure, fail};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CHECKS: u32 = C_GET | C_ITER | C_KV | C_ORDER | C_WALK;

/// Run `f`; Ok(None) when the injected panic came out.
fn caught<T>(f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(e) => match e.downcast_ref::<&str>() {
            Some(s) if *s == INJECTED => Ok(None),
            _ => Err(format!("another panic came out: {}", panic_msg())),
        },
    }
}
fn sound() -> Result<(), String> {
    if let Some(e) = val::error().or(arena::error()) {
        fail!("{e}")
    }
    Ok(())
}

// ------------------------------------------------------------------ containers

#[derive(Clone, Copy)]
enum F {
    Op(Op),
    /// get_or_insert; the n-th default constructed by it panics
    Goi(usize, usize),
    /// insert; the destructor of the value that was there panics
    Ins(usize),
    /// insert / get_or_insert / remove with an index that is out of range
    Range(u8),
    /// the container is dropped, the destructor of the value at the key panics; start anew
    Drop(usize),
}
struct Faulty {
    name: String,
    cfg: Cfg,
    caps: Caps,
    base: Vec<usize>,
    ops: Vec<F>,
    probes: Vec<usize>,
    depth: usize,
}
impl Faulty {
    fn new(cfg: Cfg, tag: &str, keys: &[usize], base: Vec<usize>, depth: usize) -> Box<dyn Task> {
        let caps = hv::fam::caps_of(&cfg);
        let mut ops = vec![];
        for &k in keys {
            ops.push(F::Op(Op::Ins(k)));
            ops.push(F::Op(Op::Rem(k)));
        }
        for &k in keys {
            ops.push(F::Op(Op::Goi(k)));
            ops.push(F::Goi(k, 0));
        }
        ops.push(F::Goi(keys[0], 1));
        for &k in keys {
            ops.push(F::Ins(k));
            ops.push(F::Drop(k));
        }
        if caps.capacity() != usize::MAX {
            ops.extend([F::Range(0), F::Range(1), F::Range(2)]);
        }
        Box::new(Faulty {
            name: format!("{}/{tag}", cfg.name),
            cfg,
            caps,
            base,
            ops,
            probes: probes(&caps, keys, 12),
            depth,
        })
    }
    fn step(&self, w: &mut World, o: F, leaky: &mut bool) -> Result<(), String> {
        match o {
            F::Op(o) => w.apply(o)?,
            F::Goi(k, n) => {
                let old = w.model.get(&k).copied();
                let id = w.next;
                w.next += 1;
                val::default_fuse(n);
                let r = caught(|| w.t().get_or_insert(k, id));
                val::default_fuse(usize::MAX);
                match r? {
                    Some(seen) => {
                        ensure!(seen == old.unwrap_or(0), "get_or_insert({k}) gave value {seen}, expected {old:?}");
                        w.model.insert(k, id);
                    }
                    None => ensure!(old.is_none(), "get_or_insert({k}) of a present key made a default value"),
                }
            }
            F::Ins(k) => {
                let old = w.model.get(&k).copied();
                let id = w.next;
                w.next += 1;
                val::panic_on_drop(old.unwrap_or(0));
                let r = caught(|| w.t().insert(k, id));
                val::panic_on_drop(0);
                match r? {
                    Some(()) => {
                        w.model.insert(k, id);
                    }
                    None => {
                        *leaky = true;
                        let g = w.r().get(k);
                        ensure!(
                            g == Some(id) || g == old,
                            "get({k}) gives {g:?} after the overwritten value's destructor panicked, expected {old:?} or {id}"
                        );
                        if g == Some(id) {
                            w.model.insert(k, id);
                        }
                    }
                }
            }
            F::Range(kind) => {
                let k = self.caps.capacity() + if kind == 1 { 0 } else { 7 };
                let r = catch_unwind(AssertUnwindSafe(|| match kind {
                    0 => w.t().insert(k, 77),
                    1 => {
                        w.t().get_or_insert(k, 77);
                    }
                    _ => {
                        w.t().remove(k);
                    }
                }));
                ensure!(r.is_err(), "an operation with index {k}, out of range, was accepted");
            }
            F::Drop(k) => {
                val::panic_on_drop(w.model.get(&k).copied().unwrap_or(0));
                let r = caught(|| w.drop_tree());
                val::panic_on_drop(0);
                if r?.is_none() {
                    *leaky = true;
                }
                sound()?;
                ensure!(val::live() >= 0, "more values dropped than made");
                *w = World::new(&self.cfg);
            }
        }
        sound()
    }
}
impl Task for Faulty {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn explore(&self, cx: &mut Cx) {
        cx.bfs(self, &[], self.ops.len() as u32, self.depth, 400_000)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        let mut w = World::new(&self.cfg);
        let mut leaky = false;
        for &k in &self.base {
            w.apply(Op::Ins(k))?;
        }
        for &i in p {
            self.step(&mut w, self.ops[i as usize], &mut leaky)?;
        }
        w.verify(CHECKS, &self.probes)?;
        sound()?;
        let canon = w.canon();
        let faulty = p.iter().any(|i| !matches!(self.ops[*i as usize], F::Op(_)));
        finish(&mut w, C_SCAN | if leaky { 0 } else { C_DROP })?;
        sound()?;
        Ok(Out { canon, nontrivial: faulty })
    }
    fn describe(&self, p: &[u32]) -> String {
        let c = &self.caps;
        let mut s = self.cfg.name.to_string();
        if !self.base.is_empty() {
            s += &format!(" after {} inserts", self.base.len());
        }
        for &i in p {
            s += "; ";
            s += &match self.ops[i as usize] {
                F::Op(o) => op_str(c, &o),
                F::Goi(k, n) => format!("get_or_insert {} (default no. {n} panics)", key_str(c, k)),
                F::Ins(k) => format!("insert {} (destructor of the old value panics)", key_str(c, k)),
                F::Range(k) => format!("{} out of range", ["insert", "get_or_insert", "remove"][k as usize]),
                F::Drop(k) => format!("drop (destructor of the value at {} panics), new container", key_str(c, k)),
            };
        }
        s
    }
}
fn containers(cfg: Cfg, n: usize, tier: Tier, v: &mut Vec<Box<dyn Task>>) {
    let caps = hv::fam::caps_of(&cfg);
    for (name, keys) in alphabets(caps.width, caps.depth, n) {
        v.push(Faulty::new(cfg, name, &keys, vec![], FIX));
    }
    // around the growth borders of nodes and of the value table
    let w = caps.width;
    for f in [1usize, 2, 3, 6, 7, 14, 15, 30, 31, w - 2] {
        for level in [caps.depth - 1, 0] {
            let st = hv::norm::stride(w, caps.depth, level);
            let keys: Vec<usize> = [f + 1, 0, 1].iter().map(|i| (i % w).wrapping_mul(st)).collect();
            let base: Vec<usize> = (1..f + 1).map(|i| i.wrapping_mul(st)).collect();
            if keys.iter().chain(&base).any(|k| *k >= caps.capacity()) {
                continue;
            }
            v.push(Faulty::new(cfg, &format!("filled{f}/level{level}"), &keys, base, tier.q(3, 5)));
            if caps.depth == 1 {
                break;
            }
        }
    }
}

// ------------------------------------------------------------------ user code with a fuse

thread_local!(static FUSE: Cell<u64> = const { Cell::new(u64::MAX) });
fn tick() {
    let n = FUSE.get();
    if n == u64::MAX {
        return;
    }
    if n == 0 {
        FUSE.set(u64::MAX);
        untracked(inject)
    }
    FUSE.set(n - 1)
}
/// Before (and, with an owned result, after) making the result.
#[derive(Clone, Copy)]
struct Boom(u64);
impl<T: Norm> UnaryFunction<T> for Boom {
    type Output = u64;
    fn exec(&self, x: T) -> u64 {
        tick();
        mix(self.0, x.norm())
    }
}
#[derive(Clone, Copy)]
struct BoomOwn(u64);
impl<T: Norm> UnaryFunction<T> for BoomOwn {
    type Output = Own;
    fn exec(&self, x: T) -> Own {
        tick();
        let o = Own::new(mix(self.0, x.norm()));
        tick();
        o
    }
}
#[derive(Clone, Copy)]
struct BoomAcc;
impl<T: Norm> BinaryFunction<Own, T> for BoomAcc {
    type Output = Own;
    fn exec(&self, a: Own, x: T) -> Own {
        tick();
        let o = Own::new(mix(a.id(), x.norm()));
        drop(a);
        tick();
        o
    }
}
#[derive(Clone, Copy)]
struct BoomStart;
impl NullaryFunction for BoomStart {
    type Output = Own;
    fn exec(&self) -> Own {
        tick();
        Own::new(INIT)
    }
}
/// A source of operands whose `next` and `clone` panic.
struct Src<'a, T>(&'a [&'a T], usize);
impl<'a, T> Clone for Src<'a, T> {
    fn clone(&self) -> Self {
        tick();
        Src(self.0, self.1)
    }
}
impl<'a, T> Iterator for Src<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        tick();
        let x = self.0.get(self.1).copied();
        self.1 += 1;
        x
    }
}

/// Run `f` with the fuse at 0, 1, 2, ... until no panic comes out; after each, `after` must hold.
fn every_call(what: &str, mut f: impl FnMut(), mut after: impl FnMut() -> Result<(), String>) -> Result<(), String> {
    for n in 0.. {
        ensure!(n < 4000, "{what}: the calls of user code never end");
        FUSE.set(n);
        let r = caught(&mut f);
        let left = FUSE.get();
        FUSE.set(u64::MAX);
        let r = r.map_err(|e| format!("{what}, call {n} of user code panics: {e}"))?;
        sound().and_then(|_| after()).map_err(|e| format!("{what}, after a panic of call {n} of user code: {e}"))?;
        inner(1);
        if r.is_some() {
            ensure!(left != u64::MAX, "{what}: the injected panic of call {n} disappeared");
            return Ok(());
        }
    }
    Ok(())
}

fn lazy<'s, T>(t: &'s T, want: &R, u: &U) -> Result<(), String>
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    probe(t, want, u)?;
    let live = val::live();
    let settled = || -> Result<(), String> {
        ensure!(val::live() >= live, "more values dropped than made");
        Ok(())
    };
    for (i, &k) in u.keys.iter().enumerate() {
        let right = || -> Result<(), String> {
            let g = tracked(|| t.get(k)).map(|x| x.norm());
            ensure!(g == want.v[i], "get({k}) gives something else");
            settled()
        };
        every_call(&format!("get({k})"), || drop(tracked(|| t.get(k)).map(|x| x.norm())), right)?;
        if want.v[i].is_some() {
            every_call(&format!("get_unchecked({k})"), || drop(tracked(|| unsafe { t.get_unchecked(k) }).norm()), right)?;
        }
    }
    let right = || -> Result<(), String> {
        probe_iter(t, want, u)?;
        probe_access(t, want, u)?;
        settled()
    };
    every_call(
        "iteration",
        || {
            let mut it = tracked(|| t.iter());
            while let Some((_, x)) = tracked(|| LendingIterator::next(&mut it)) {
                x.norm();
            }
        },
        right,
    )?;
    // the panic is caught inside the iteration, which then goes on
    for n in 0..200 {
        FUSE.set(n);
        let mut hit = false;
        let r = caught(|| {
            let mut it = tracked(|| t.iter());
            for _ in 0..want.len() + 4 {
                match catch_unwind(AssertUnwindSafe(|| match tracked(|| LendingIterator::next(&mut it)) {
                    Some((_, x)) => {
                        x.norm();
                        true
                    }
                    None => false,
                })) {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(_) => hit = true,
                }
            }
        });
        FUSE.set(u64::MAX);
        hit |= r?.is_none();
        sound().and_then(|_| right()).map_err(|e| format!("iteration went on after a panic of call {n}: {e}"))?;
        inner(1);
        if !hit {
            break;
        }
    }
    every_call("the cursor", || drop(probe_walk(t, want, u)), || probe_walk(t, want, u).and_then(|_| settled()))
}

/// Materialise with every call panicking in turn.
fn mat<T: TVal, const D: usize>(what: &str, want: &R, u: &U, mk: impl Fn() -> DenseTree<T, D>) -> Result<(), String>
where
    ConstUsize<D>: ConstInteger,
{
    let live = val::live();
    let check = || -> Result<(), String> {
        let tree = tracked(|| Box::new(Dn::<T, D>(mk())) as Box<dyn DynTree>);
        let mut model = BTreeMap::new();
        for i in 0..u.keys.len() {
            if let Some(x) = want.v[i] {
                model.insert(u.keys[i], x);
            }
        }
        let mut w = World::with(tree, model);
        w.verify(CHECKS, &u.absent)?;
        w.apply(Op::Ins(u.keys[0]))?;
        w.apply(Op::Rem(u.keys[u.keys.len() - 1]))?;
        w.verify(CHECKS, &u.absent)?;
        w.drop_tree();
        sound()?;
        ensure!(val::live() == live, "{} values leaked or over-dropped", val::live() - live);
        if let Some(e) = arena::scan() {
            fail!("{e}")
        }
        Ok(())
    };
    every_call(&format!("materialising {what}"), || drop(tracked(|| mk())), || {
        ensure!(val::live() >= live, "more values dropped than made");
        ensure!(val::live() == live, "{} values of the unfinished container were never dropped", val::live() - live);
        check()
    })
}

macro_rules! lazies {
    ($v:expr, $k:expr, $($l:ty),*) => {$(
        for u in universes(<$l as Leaf>::width(), <$l as Leaf>::depth(), $k) {
            over::<$l>("lazy/one", u.clone(), 1, |t, r, u| {
                let m1 = r_map(&r[0], 1);
                lazy(&map(t[0], Boom(1)), &m1, u).map_err(|e| format!("map: {e}"))?;
                lazy(&map(t[0], BoomOwn(1)), &m1, u).map_err(|e| format!("map (owned): {e}"))?;
                lazy(&map(map(t[0], BoomOwn(1)), BoomOwn(2)), &r_map(&m1, 2), u).map_err(|e| format!("map of map: {e}"))?;
                Ok(r[0])
            }, $v);
            over::<$l>("lazy/two", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let (w, i) = (r_union(&r[0], &r[1]), r_inter(&r[0], &r[1]));
                lazy(&map(union(t[0], t[1]), BoomOwn(2)), &r_map(&w, 2), u).map_err(|e| format!("map of union: {e}"))?;
                lazy(&map(intersection(t[0], t[1]), Boom(2)), &r_map(&i, 2), u).map_err(|e| format!("map of intersection: {e}"))?;
                let (m1, m2) = (r_map(&r[0], 1), r_map(&r[1], 2));
                lazy(&union(map(t[0], BoomOwn(1)), map(t[1], BoomOwn(2))), &r_union(&m1, &m2), u).map_err(|e| format!("union of maps: {e}"))?;
                lazy(&intersection(map(t[0], BoomOwn(1)), map(t[1], BoomOwn(2))), &r_inter(&m1, &m2), u).map_err(|e| format!("intersection of maps: {e}"))?;
                let s = [t[0], t[1], t[0]];
                let rs = [r[0], r[1], r[0]];
                lazy(&multi_map_fold(multi_union(s.into_iter()), BoomStart, BoomAcc), &r_fmu(n, &rs), u).map_err(|e| format!("fold of multi_union: {e}"))?;
                lazy(&multi_map_fold(multi_intersection(s.into_iter()), BoomStart, BoomAcc), &r_fmi(n, &rs), u).map_err(|e| format!("fold of multi_intersection: {e}"))?;
                let x = [map(t[0], BoomOwn(1)), map(t[1], BoomOwn(2)), map(t[1], BoomOwn(3))];
                let rx = [m1, m2, r_map(&r[1], 3)];
                lazy(&multi_union(x.iter()), &r_mu(n, &rx), u).map_err(|e| format!("multi_union of maps: {e}"))?;
                lazy(&multi_intersection(x.iter()), &r_mi(n, &rx), u).map_err(|e| format!("multi_intersection of maps: {e}"))?;
                Ok(w)
            }, $v);
            over::<$l>("lazy/source", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let s = [t[0], t[1], t[0]];
                let rs = [r[0], r[1], r[0]];
                lazy(&multi_union(Src(&s, 0)), &r_mu(n, &rs), u).map_err(|e| format!("multi_union: {e}"))?;
                lazy(&multi_intersection(Src(&s, 0)), &r_mi(n, &rs), u).map_err(|e| format!("multi_intersection: {e}"))?;
                Ok(r_union(&r[0], &r[1]))
            }, $v);
        }
    )*};
}
macro_rules! mats {
    ($v:expr, $k:expr, $($l:ty, $d:literal);*) => {$(
        for u in universes(64, $d, $k) {
            over::<$l>("materialise", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let (w, i) = (r_union(&r[0], &r[1]), r_inter(&r[0], &r[1]));
                mat::<Own, $d>("map of union", &r_map(&w, 2), u, || map(union(t[0], t[1]), BoomOwn(2)).materialize())?;
                mat::<Own, $d>("map of intersection", &r_map(&i, 2), u, || map(intersection(t[0], t[1]), BoomOwn(2)).materialize())?;
                mat::<u64, $d>("map", &r_map(&r[0], 2), u, || map(t[0], Boom(2)).materialize())?;
                mat::<Own, $d>("map of map", &r_map(&r_map(&r[1], 1), 2), u, || map(map(t[1], BoomOwn(1)), BoomOwn(2)).materialize())?;
                let s = [t[0], t[1], t[0]];
                let rs = [r[0], r[1], r[0]];
                mat::<Own, $d>("fold of multi_union", &r_fmu(n, &rs), u, || multi_map_fold(multi_union(Src(&s, 0)), BoomStart, BoomAcc).materialize())?;
                mat::<Own, $d>("fold of multi_intersection", &r_fmi(n, &rs), u, || multi_map_fold(multi_intersection(Src(&s, 0)), BoomStart, BoomAcc).materialize())?;
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    for cfg in dense_cfgs::<Own>() {
        containers(cfg, tier.q(3, 4), tier, &mut v);
    }
    for cfg in sparse64_cfgs::<Own>() {
        containers(cfg, tier.q(3, 4), tier, &mut v);
    }
    for cfg in sparse_all::<Own>().into_iter().chain(sparse_default_all::<Own>()) {
        if !v.iter().any(|t| t.name().starts_with(&format!("{}/", cfg.name))) {
            containers(cfg, tier.q(2, 3), tier, &mut v);
        }
    }
    let k = tier.q(3, 4);
    lazies!(&mut v, k, D1, D2, D3, S2, S3);
    mats!(&mut v, k, D1, 1; D2, 2; D3, 3; S2, 2; S3, 3);
    #[cfg(feature = "simd")]
    lazies!(&mut v, k, L2);
    // constructing a container whose default value cannot be made
    for cfg in sparse_default_all::<Own>() {
        v.push(prod(
            format!("new/{}", cfg.name),
            &[4],
            move |p| {
                val::default_fuse(p[0] as usize);
                let r = caught(|| (cfg.mk)());
                val::default_fuse(usize::MAX);
                let r = r?;
                let none = r.is_none();
                tracked(|| drop(r));
                sound()?;
                ensure!(val::live() == 0, "{} values left", val::live());
                if let Some(e) = arena::scan() {
                    fail!("{e}")
                }
                Ok(Out { canon: p[0] as u128, nontrivial: none })
            },
            |p| format!("default no. {} panics", p[0]),
        ));
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P13",
        level: "fault_enumeration",
        rule: "a case is one history with faulty operations in it, or one assignment of contents with every call of user code on every access path panicking in turn; non-trivial when a fault is in it (the operands are not all empty), distinct by resulting state",
        assumptions: &["a panic during the unwinding of another panic ends the process by definition and is not injected", "what a container cannot avoid leaking when a destructor panics is not counted"],
        tasks,
    })
}
