//! Cost of access: machine instructions, counted one by one, of every kind of access to large trees,
//! against the same access on small trees whose nodes on the key's path are as full as they can be.
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, BitBlock, DenseTree, HibitTree, HibitTreeCursor, HibitTreeCursorTypes, HibitTreeTypes, LazyHibitTree, MultiHibitTree};
use hv::arena::untracked;
use hv::big;
use hv::norm::{self, digit, stride, Norm};
use hv::ops::*;
use hv::run::{inner, Check, Out, Task, Tier};
use hv::step::{self, count};
use hv::sut::*;
use hv::task::prod;
use hv::val::*;
use hv::{arena, ensure};
use std::cell::OnceCell;
use std::collections::BTreeSet;
use std::hint::black_box;

#[macro_use]
#[path = "../exprs.rs"]
mod exprs;

/// Never more than twice the worst small tree and this.
const SLACK: u64 = 300;
/// Counting stops here.
const STOP: u64 = 30_000;

// ---------------------------------------------------------------- populations

const PLACES: usize = 5;
const PLACE: [&str; PLACES] = ["consecutive", "one per terminal node", "every third", "spread over the root", "two far halves"];
fn place(w: usize, d: usize, kind: usize, n: usize) -> Vec<usize> {
    let cap = w.saturating_pow(d as u32);
    let top = if cap == usize::MAX { cap - 2 } else { cap - 1 };
    let v: Vec<usize> = match kind {
        0 => (0..n).collect(),
        1 => (0..n).filter_map(|i| i.checked_mul(w).map(|x| x + i % w)).collect(),
        2 => (0..n).map(|i| 3 * i + 1).collect(),
        3 => (0..n)
            .map(|i| {
                // low digits of i become the high digits of the key
                let (mut i, mut k) = (i, 0usize);
                for l in 0..d {
                    k = k.saturating_add((i % w).saturating_mul(stride(w, d, l)));
                    i /= w;
                }
                k.min(top)
            })
            .collect(),
        _ => (0..n / 2).chain((0..n / 2).map(|i| top.saturating_sub(i * 2))).collect(),
    };
    let mut v: Vec<usize> = v.into_iter().filter(|k| *k <= top).collect();
    v.sort_unstable();
    v.dedup();
    v
}

const HISTS: usize = 6;
const HIST: [&str; HISTS] =
    ["inserted in order", "inserted backwards", "inserted scattered", "half of them removed again", "all but three removed again", "emptied and half of them inserted anew"];
fn scatter(v: &[usize]) -> Vec<usize> {
    let n = v.len();
    let mut step = n * 5 / 8 | 1;
    while gcd(step, n) != 1 {
        step += 2
    }
    (0..n).map(|i| v[i * step % n]).collect()
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// (order of insertion, then removed, then inserted)
fn history(keys: &[usize], kind: usize) -> [Vec<usize>; 3] {
    let sc = scatter(keys);
    let n = sc.len();
    match kind {
        0 => [keys.to_vec(), vec![], vec![]],
        1 => [keys.iter().rev().copied().collect(), vec![], vec![]],
        2 => [sc, vec![], vec![]],
        3 => [keys.to_vec(), sc[..n / 2].to_vec(), vec![]],
        4 => [sc.clone(), keys[..n.saturating_sub(3)].to_vec(), vec![]],
        _ => [keys.to_vec(), sc.clone(), sc[..n / 2].to_vec()],
    }
}
/// All children of every node on the way to `k`.
fn full_path(w: usize, d: usize, k: usize) -> Vec<usize> {
    let cap = w.saturating_pow(d as u32);
    let top = if cap == usize::MAX { cap - 2 } else { cap - 1 };
    let mut s = BTreeSet::new();
    for l in 0..d {
        let st = stride(w, d, l);
        let base = k - digit(w, d, l, k) * st;
        for c in 0..w {
            if let Some(x) = c.checked_mul(st).and_then(|x| base.checked_add(x)) {
                if x <= top && x != k {
                    s.insert(x);
                }
            }
        }
    }
    s.into_iter().collect()
}

// ---------------------------------------------------------------- containers

const OPS: [&str; 9] =
    ["get", "get through Index", "get_unchecked", "insert", "get_or_insert", "get_mut", "get_mut_unchecked", "get_or_default", "remove"];
fn applies(op: usize, c: &Caps, present: bool) -> bool {
    match op {
        2 | 6 => present && (op == 2 || c.get_mut),
        5 => c.get_mut,
        7 => c.get_or_default,
        _ => true,
    }
}
/// The cost; what goes beyond `enough` is tried once more. The tree's content is afterwards what it was.
fn cost(t: &mut dyn DynTree, op: usize, k: usize, present: bool, enough: u64) -> u64 {
    let mut best = u64::MAX;
    for _ in 0..2 {
        if best <= enough {
            break;
        }
        let (n, _) = match op {
            0 => count(STOP, || black_box(t.get(k)).is_some()),
            1 => count(STOP, || black_box(t.get_index(k)).is_some()),
            2 => count(STOP, || black_box(unsafe { t.get_unchecked(k) }) > 0),
            3 => count(STOP, || {
                t.insert(k, 7);
                true
            }),
            4 => count(STOP, || black_box(t.get_or_insert(k, 8)) > 0),
            5 => count(STOP, || black_box(t.get_mut(k, 9, false)).is_some()),
            6 => count(STOP, || black_box(t.get_mut(k, 9, true)).is_some()),
            7 => count(STOP, || black_box(t.get_or_default(k)) > 0),
            _ => count(STOP, || black_box(t.remove(k)).is_some()),
        };
        best = best.min(n);
        match op {
            3 | 4 if !present => drop(t.remove(k)),
            8 if present => t.insert(k, 7),
            _ => {}
        }
    }
    best
}
fn anchors(w: usize, d: usize) -> Vec<usize> {
    let cap = w.saturating_pow(d as u32);
    let top = if cap == usize::MAX { cap - 2 } else { cap - 1 };
    let mut v = vec![0, top, top / 3 * 2 + w / 2];
    v.retain(|k| *k <= top);
    v.dedup();
    v
}
/// Costliest over small trees, per operation and presence of the key.
fn reference(cfg: &Cfg) -> [[u64; 2]; 9] {
    let mut r = [[0; 2]; 9];
    let c = hv::fam::caps_of(cfg);
    for k in anchors(c.width, c.depth) {
        let full = full_path(c.width, c.depth, k);
        // without one child at every level, so that the next one makes a node grow to the full
        let lone: Vec<usize> = full.iter().copied().step_by(c.width.max(2) / 2 + 1).collect();
        for keys in [vec![], full, lone] {
            for present in [false, true] {
                let mut t = (cfg.mk)();
                for x in &keys {
                    t.insert(*x, 5)
                }
                if present {
                    t.insert(k, 6)
                }
                for op in 0..OPS.len() {
                    if applies(op, &c, present) {
                        let n = cost(&mut *t, op, k, present, STOP);
                        let m = &mut r[op][present as usize];
                        *m = (*m).max(n);
                    }
                }
                arena::tracked(|| drop(t));
            }
        }
    }
    r
}

fn containers(cfg: Cfg, sizes: Vec<usize>, v: &mut Vec<Box<dyn Task>>) {
    let c = hv::fam::caps_of(&cfg);
    let cap = c.capacity();
    // nothing to gain from populations which do not fit
    let sizes: Vec<usize> = if cap <= 256 { vec![cap] } else { sizes };
    let base = OnceCell::new();
    let (d, w) = (c.depth, c.width);
    let s2 = sizes.clone();
    v.push(prod(
        format!("cost of access {}", cfg.name),
        &[sizes.len(), PLACES, HISTS],
        move |p| {
            let (n, pl, h) = (sizes[p[0] as usize], p[1] as usize, p[2] as usize);
            let keys = place(w, d, pl, n);
            let base = base.get_or_init(|| {
                let r = reference(&cfg);
                arena::reset();
                if std::env::var_os("HV_VERBOSE").is_some() {
                    eprintln!("{} {r:?}", cfg.name)
                }
                r
            });
            let [ins, rem, again] = history(&keys, h);
            let mut t = (cfg.mk)();
            let mut ops = 0;
            // growing and shrinking pay for themselves: no reallocation of everything at every step
            let mut paid = || {
                ops += 1;
                let (total, peak) = arena::traffic();
                ensure!(
                    ops % 1024 != 0 || total <= 16 * peak + 2048 * ops,
                    "{ops} insertions and removals allocate {total} bytes in all, though no more than {peak} are ever in use"
                );
                Ok(())
            };
            for (i, k) in ins.iter().enumerate() {
                t.insert(*k, (i as u64 + 1) & c.id_mask);
                paid()?
            }
            for k in &rem {
                t.remove(*k);
                paid()?
            }
            for (i, k) in again.iter().enumerate() {
                t.insert(*k, (i as u64 + 1) & c.id_mask);
                paid()?
            }
            let mut all: BTreeSet<usize> = ins.iter().copied().collect();
            rem.iter().for_each(|k| drop(all.remove(k)));
            all.extend(&again);
            let gone: BTreeSet<usize> = rem.iter().copied().filter(|k| !all.contains(k)).collect();
            // what is there, in the order in which it came
            let seq: Vec<usize> = if again.is_empty() { ins.iter().copied().filter(|k| all.contains(k)).collect() } else { again };
            let top = if cap == usize::MAX { cap - 2 } else { cap - 1 };
            let mut at: BTreeSet<(usize, bool)> = BTreeSet::new();
            if !seq.is_empty() {
                for i in [0, seq.len() / 2, seq.len() - 1] {
                    at.insert((seq[i], true));
                }
                at.insert((*all.first().unwrap(), true));
                at.insert((*all.last().unwrap(), true));
                // next to what there is
                for k in [*all.first().unwrap(), seq[seq.len() / 2], *all.last().unwrap()] {
                    for x in [k.wrapping_add(1), k.wrapping_sub(1), k ^ stride(w, d, d / 2)] {
                        if x <= top && !all.contains(&x) {
                            at.insert((x, false));
                        }
                    }
                }
            }
            for k in [gone.first(), gone.last()].into_iter().flatten() {
                at.insert((*k, false));
            }
            for k in [0, top, top / 3 * 2 + 1] {
                if k <= top && !all.contains(&k) {
                    at.insert((k, false));
                }
            }
            let mut sum = 0u128;
            for (k, present) in at {
                for op in 0..OPS.len() {
                    if !applies(op, &c, present) {
                        continue;
                    }
                    let b = base[op][present as usize];
                    let n = cost(&mut *t, op, k, present, 2 * b + SLACK);
                    inner(1);
                    ensure!(
                        n <= 2 * b + SLACK,
                        "{}({k}), {}, on a tree with {} keys executes {}{n} instructions; on small trees with full nodes it takes {b} at most",
                        OPS[op], if present { "present" } else { "absent" }, all.len(), if n >= STOP { "more than " } else { "" }
                    );
                    sum = sum.wrapping_mul(31).wrapping_add(n as u128);
                }
            }
            arena::tracked(|| drop(t));
            Ok(Out { canon: sum, nontrivial: keys.len() > 200 })
        },
        move |p| format!("{} keys, {}, {}; each operation on keys at the ends, in the middle, next to them and far away", s2[p[0] as usize], PLACE[p[1] as usize], HIST[p[2] as usize]),
    ));
}

// ---------------------------------------------------------------- reading, lazy operations

#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    present: u64,
    absent: u64,
    unchecked: u64,
    start: u64,
    next: u64,
    descent: u64,
}
impl Cost {
    fn max(self, o: Cost) -> Cost {
        Cost {
            present: self.present.max(o.present),
            absent: self.absent.max(o.absent),
            unchecked: self.unchecked.max(o.unchecked),
            start: self.start.max(o.start),
            next: self.next.max(o.next),
            descent: self.descent.max(o.descent),
        }
    }
    /// What of `self` goes beyond the reference.
    fn beyond(&self, b: &Cost) -> Option<String> {
        [
            ("get of a present key", self.present, b.present),
            ("get of an absent key", self.absent, b.absent),
            ("get_unchecked", self.unchecked, b.unchecked),
            ("iter()", self.start, b.start),
            ("a step of the iteration", self.next, b.next),
            ("a cursor's descent", self.descent, b.descent),
        ]
        .into_iter()
        .find(|(_, n, b)| *n > 2 * b + SLACK)
        .map(|(w, n, b)| format!("{w} executes {}{n} instructions; over small operands with full nodes it takes {b} at most", if n >= STOP { "more than " } else { "" }))
    }
}
fn least(mut f: impl FnMut() -> u64) -> u64 {
    f().min(f())
}
/// All levels down to the terminal node of `k`.
fn descend<'s, T: HibitTree, N: ConstInteger>(t: &'s T, c: &mut <T as HibitTreeTypes<'s>>::Cursor, k: usize, n: N) {
    let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
    let i = if N::VALUE == 0 { 0 } else { digit(w, d, N::VALUE - 1, k) };
    black_box(unsafe { c.select_level_node(t, n, i) });
    if N::VALUE + 1 < d {
        descend::<T, N::Inc>(t, c, k, n.inc())
    }
}
/// Lookups of `ks`; the iteration's start; its steps, as far as `far`.
fn measure<'s, T>(t: &'s T, ks: &[usize], steps: bool) -> Cost
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Data: Norm,
    <T as HibitTreeTypes<'s>>::DataUnchecked: Norm,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    let (w, d) = (T::LevelMask::SIZE, T::LevelCount::VALUE);
    let mut c = Cost::default();
    for &k in ks {
        let there = t.get(k).is_some();
        let n = least(|| count(STOP, || black_box(t.get(k).map(|x| x.norm()))).0);
        if there {
            c.present = c.present.max(n);
            let n = least(|| count(STOP, || black_box(unsafe { t.get_unchecked(k) }.norm())).0);
            c.unchecked = c.unchecked.max(n);
        } else {
            c.absent = c.absent.max(n);
        }
        let go = || {
            let mut cur = <T as HibitTreeTypes<'s>>::Cursor::new(t);
            descend(t, &mut cur, k, ConstUsize::<0>);
            black_box(unsafe { cur.data(t, k % w) }.map(|x| x.norm()))
        };
        c.descent = c.descent.max(least(|| count(STOP, go).0));
        inner(1);
    }
    c.start = least(|| count(STOP, || drop(black_box(t.iter()))).0);
    if steps {
        c.next = least(|| {
            let mut worst = 0;
            let mut it = t.iter();
            let (mut i, mut seen, mut last) = (0, 0, 0);
            loop {
                // the first steps, those that come to another node, one in a thousand, the last
                let look = i < 4 || i % 1009 == 0 || seen < 12 && last / w != (last + 1) / w;
                let x = if look {
                    seen += 1;
                    let (n, x) = count(STOP, || LendingIterator::next(&mut it).map(|(k, x)| (k, black_box(x.norm()))));
                    worst = worst.max(n);
                    x
                } else {
                    LendingIterator::next(&mut it).map(|(k, x)| (k, x.norm()))
                };
                match x {
                    Some((k, _)) => last = k,
                    None => break,
                }
                i += 1;
            }
            worst
        });
    }
    c
}

fn fill<L: Leaf>(keys: &[usize]) -> L {
    let mut t = L::mk();
    for k in keys {
        t.ins(*k, *k as u64 + 1)
    }
    t
}
/// Three children of every node on the way to `k`, `k` among them: every way up and down.
fn thin_path(w: usize, d: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = full_path(w, d, k)
        .into_iter()
        .filter(|x| {
            let l = (0..d).find(|l| digit(w, d, *l, *x) != digit(w, d, *l, k)).unwrap();
            let (a, b) = (digit(w, d, l, *x), digit(w, d, l, k));
            a == (b + 1) % w || a == (b + w - 1) % w
        })
        .chain([k])
        .collect();
    v.sort_unstable();
    v
}
/// Pairs of small operands: what is looked up, whether the iteration is gone through.
fn small(w: usize, d: usize) -> Vec<(Vec<usize>, Vec<usize>, Vec<usize>, bool)> {
    let mut v = vec![];
    for k in anchors(w, d) {
        let full = full_path(w, d, k);
        let with: Vec<usize> = full.iter().copied().chain([k]).collect();
        let thin = thin_path(w, d, k);
        v.push((with.clone(), with.clone(), vec![k, full[0], full[full.len() - 1]], false));
        v.push((full.clone(), with.clone(), vec![k], false));
        v.push((with.clone(), full.clone(), vec![k], false));
        v.push((with, vec![], vec![k], false));
        v.push((vec![], full, vec![k], false));
        v.push((thin.clone(), thin.clone(), vec![k], true));
        v.push((thin.clone(), vec![k], vec![k], true));
        v.push((vec![k], thin, vec![k], true));
    }
    v
}
/// Shared keys, and two large sets without a common node below level `l`.
fn apart(w: usize, d: usize, l: usize, n: usize) -> [Vec<usize>; 3] {
    let top = w.saturating_pow(d as u32).saturating_sub(2);
    let st = stride(w, d, l);
    // every level above goes through child 1 (or 0), the shared keys sit in child 2
    let base: usize = (0..l).map(|i| stride(w, d, i)).sum();
    let below = st.min(1 << 40);
    let mut c: Vec<usize> = [0, 1, below / 2, below - 1, below / 3].iter().map(|x| base + 2 * st + x).filter(|k| *k <= top && k / st % w == 2).collect();
    c.sort_unstable();
    c.dedup();
    let mut xy = [vec![], vec![]];
    for (side, v) in xy.iter_mut().enumerate() {
        let kids: Vec<usize> = (3..w).filter(|i| i % 2 == side).collect();
        for i in 0..n {
            let off = i / kids.len() * if below / 64 > n { w } else { 1 };
            if off < below {
                let k = base + kids[i % kids.len()] * st + off;
                if k <= top {
                    v.push(k)
                }
            }
        }
        v.sort_unstable();
        v.dedup();
    }
    let [x, y] = xy;
    [c, x, y]
}
const MIX: [&str; 5] = ["common part and X | common part and Y", "everything | common part", "common part | everything", "common part and X | common part and X", "X | Y"];
fn cat(v: &[&Vec<usize>]) -> Vec<usize> {
    let mut r: Vec<usize> = v.iter().flat_map(|x| x.iter().copied()).collect();
    r.sort_unstable();
    r
}
fn whole<'s, T>(t: &'s T) -> (u64, usize)
where
    T: HibitTree,
    <T as HibitTreeTypes<'s>>::Cursor: for<'b> HibitTreeCursorTypes<'b, Data: Norm>,
{
    count(1_000_000, || {
        let mut n = 0;
        let mut it = t.iter();
        while let Some((_, x)) = LendingIterator::next(&mut it) {
            black_box(x.norm());
            n += 1
        }
        n
    })
}

macro_rules! lazy {
    ($v:expr, $n:expr, $meet:expr; $l:ty; $($x:ident)*) => {$({
        let (w, d) = (<$l as Leaf>::width(), <$l as Leaf>::depth());
        let base: OnceCell<Cost> = OnceCell::new();
        let n: usize = $n;
        $v.push(prod(
            format!("cost of reading {} over {}", stringify!($x), <$l as Leaf>::NAME),
            &[d, MIX.len()],
            move |p| untracked(|| {
                let base = base.get_or_init(|| {
                    let mut m = Cost::default();
                    for (a, b, ks, steps) in small(w, d) {
                        let (a, b) = (fill::<$l>(&a), fill::<$l>(&b));
                        let t = k!($x, &a, &b);
                        m = m.max(measure(by_ref!($x, t), &ks, steps));
                    }
                    m
                });
                let [c, x, y] = apart(w, d, p[0] as usize, n);
                let (ka, kb) = match p[1] {
                    0 => (cat(&[&c, &x]), cat(&[&c, &y])),
                    1 => (cat(&[&c, &x, &y]), c.clone()),
                    2 => (c.clone(), cat(&[&c, &x, &y])),
                    3 => (cat(&[&c, &x]), cat(&[&c, &x])),
                    _ => (x.clone(), y.clone()),
                };
                let (a, b) = (fill::<$l>(&ka), fill::<$l>(&kb));
                let t = k!($x, &a, &b);
                let ks: Vec<usize> = c.iter().take(3).chain(x.iter().take(1)).chain(x.last()).chain(y.last()).copied().collect();
                let m = measure(by_ref!($x, t), &ks, true);
                if let Some(e) = m.beyond(base) {
                    hv::fail!("{e} (operands with {} and {} keys)", ka.len(), kb.len());
                }
                let mut sum = m.present as u128 ^ (m.next as u128) << 20 ^ (m.absent as u128) << 40;
                if $meet && (p[1] < 3 || p[1] == 4) {
                    let (n, got) = whole(by_ref!($x, t));
                    let none = vec![];
                    let common = if p[1] == 4 { &none } else { &c };
                    let (a, b) = (fill::<$l>(common), fill::<$l>(common));
                    let t = k!($x, &a, &b);
                    let (alone, want) = whole(by_ref!($x, t));
                    ensure!(got == want, "{got} items, expected {want}");
                    // without a common part the nodes above level l may still be common
                    let up = if p[1] == 4 { p[0] as u64 * base.next } else { 0 };
                    ensure!(
                        n <= 2 * (alone + up) + 2 * SLACK,
                        "iterating {want} common keys out of {} and {} executes {n} instructions; with nothing but the common keys it takes {alone}",
                        ka.len(), kb.len()
                    );
                    sum ^= (n as u128) << 60;
                }
                Ok(Out { canon: sum, nontrivial: ka.len() + kb.len() > 200 })
            }),
            move |p| format!("operands with up to {n} keys each that part at level {}: {}", p[0], MIX[p[1] as usize]),
        ));
    })*};
}
macro_rules! stored {
    ($v:expr, $sizes:expr; $($l:ty),*) => {$({
        let (w, d) = (<$l as Leaf>::width(), <$l as Leaf>::depth());
        let base: OnceCell<(Cost, u64)> = OnceCell::new();
        let sizes: Vec<usize> = $sizes;
        let s2 = sizes.clone();
        $v.push(prod(
            format!("cost of reading {}", <$l as Leaf>::NAME),
            &[sizes.len(), PLACES, HISTS],
            move |p| untracked(|| {
                let kv = |t: &$l| least(|| count(STOP, || black_box(t.key_values().0.len())).0);
                let (base, base_kv) = base.get_or_init(|| {
                    let (mut m, mut n) = (Cost::default(), 0);
                    for (a, _, ks, steps) in small(w, d) {
                        let a = fill::<$l>(&a);
                        m = m.max(measure(&a, &ks, steps));
                        n = n.max(kv(&a));
                    }
                    (m, n)
                });
                let keys = place(w, d, p[1] as usize, sizes[p[0] as usize]);
                let [ins, rem, again] = history(&keys, p[2] as usize);
                let mut t = fill::<$l>(&ins);
                rem.iter().for_each(|k| t.rem(*k));
                again.iter().for_each(|k| t.ins(*k, 3));
                let mut ks = vec![0, keys[0] + 1];
                for i in [0, keys.len() / 2, keys.len() - 1] {
                    ks.push(keys[i]);
                    ks.extend(again.get(i.min(again.len().wrapping_sub(1))));
                }
                let m = measure(&t, &ks, true);
                if let Some(e) = m.beyond(base) {
                    hv::fail!("{e} ({} keys)", t.key_values().0.len());
                }
                let n = kv(&t);
                ensure!(n <= 2 * base_kv + SLACK, "key_values() executes {n} instructions on {} keys; on small trees it takes {base_kv} at most", t.key_values().0.len());
                Ok(Out { canon: m.present as u128 ^ (m.next as u128) << 20 ^ (m.absent as u128) << 40, nontrivial: keys.len() > 200 })
            }),
            move |p| format!("{} keys, {}, {}", s2[p[0] as usize], PLACE[p[1] as usize], HIST[p[2] as usize]),
        ));
    })*};
}
/// Materialising what two large trees have in common.
macro_rules! made {
    ($v:expr, $n:expr; $($l:ty, $d:literal);*) => {$({
        let (w, d) = (<$l as Leaf>::width(), <$l as Leaf>::depth());
        let n: usize = $n;
        $v.push(prod(
            format!("cost of materialising an intersection over {}", <$l as Leaf>::NAME),
            &[d, 3],
            move |p| untracked(|| {
                let [c, x, y] = apart(w, d, p[0] as usize, n);
                let (ka, kb) = match p[1] {
                    0 => (cat(&[&c, &x]), cat(&[&c, &y])),
                    1 => (cat(&[&c, &x, &y]), c.clone()),
                    _ => (c.clone(), cat(&[&c, &x, &y])),
                };
                let go = |a: &[usize], b: &[usize]| {
                    let (a, b) = (fill::<$l>(a), fill::<$l>(b));
                    let (n, t) = count(1_000_000, || -> DenseTree<u64, $d> { map(intersection(&a, &b), Tag(9)).materialize() });
                    (n, t.key_values().0.len())
                };
                let (n, got) = go(&ka, &kb);
                let (alone, want) = go(&c, &c);
                ensure!(got == want && want == c.len(), "{got} items, expected {}", c.len());
                ensure!(n <= 2 * alone + 2 * SLACK, "materialising {want} common keys out of {} and {} executes {n} instructions; with nothing but the common keys it takes {alone}", ka.len(), kb.len());
                Ok(Out { canon: n as u128, nontrivial: ka.len() + kb.len() > 200 })
            }),
            move |p| format!("operands with up to {n} keys each that part at level {}: {}", p[0], MIX[p[1] as usize]),
        ));
    })*};
}

/// Materialising trees with many elements: a fixed cost for each, and storage growth that pays for itself.
macro_rules! grown {
    ($v:expr, $n:expr, $many:expr; $($l:ty, $d:literal);*) => {$({
        type Src = $l;
        let (w, d) = (<$l as Leaf>::width(), <$l as Leaf>::depth());
        let (n, many): (usize, usize) = ($n, $many);
        let go = move |keys: &[usize], src: u32, cap: u64| -> (u64, usize) {
            let a = fill::<$l>(keys);
            fn one(a: &Src, src: u32) -> DenseTree<u64, $d> {
                match src {
                    0 => map(a, Tag(9)).materialize(),
                    1 => map(intersection(a, a), Tag(9)).materialize(),
                    2 => map(union(a, a), Tag(9)).materialize(),
                    _ => {
                        let l = [a, a];
                        multi_map_fold(multi_union(l.iter().copied()), Start, Acc).materialize()
                    }
                }
            }
            let (n, t) = count(cap, || one(&a, src));
            (n, t.key_values().0.len())
        };
        let base = OnceCell::new();
        $v.push(prod(
            format!("cost of materialising {}", <$l as Leaf>::NAME),
            &[PLACES, 4],
            move |p| untracked(|| {
                // the dearest: every element below a root child of its own, in nodes of its own
                let st = stride(w, d, 0);
                let base = *base.get_or_init(|| [0, 1, 2, 3].map(|src| {
                    let keys: Vec<usize> = (0..w.min(64)).map(|i| i * st).collect();
                    let (n, got) = go(&keys, src, u64::MAX);
                    n / got as u64 + 1
                }));
                let keys = place(w, d, p[0] as usize, n);
                let cap = keys.len() as u64 * 2 * base[p[1] as usize] + 2 * SLACK;
                let (c, got) = go(&keys, p[1], cap + 1);
                ensure!(got == keys.len(), "{got} items, expected {}", keys.len());
                ensure!(c <= cap, "materialising {got} elements executes more than {cap} instructions; far apart, 64 elements take {} each", base[p[1] as usize]);
                Ok(Out { canon: c as u128, nontrivial: true })
            }),
            move |p| format!("up to {n} keys, {}, {}", PLACE[p[0] as usize], MADE[p[1] as usize]),
        ));
        $v.push(prod(
            format!("storage for materialising {}", <$l as Leaf>::NAME),
            &[PLACES, 4],
            move |p| untracked(|| {
                let keys = place(w, d, p[0] as usize, many);
                let a = fill::<$l>(&keys);
                arena::reset();
                let t: DenseTree<u64, $d> = arena::tracked(|| match p[1] {
                    0 => map(&a, Tag(9)).materialize(),
                    1 => map(intersection(&a, &a), Tag(9)).materialize(),
                    2 => map(union(&a, &a), Tag(9)).materialize(),
                    _ => {
                        let l = [&a, &a];
                        multi_map_fold(multi_union(l.iter().copied()), Start, Acc).materialize()
                    }
                });
                let (total, _) = arena::traffic();
                let used = arena::live_bytes();
                let got = t.key_values().0.len();
                arena::tracked(|| drop(t));
                ensure!(got == keys.len(), "{got} items, expected {}", keys.len());
                ensure!(total <= 16 * used + 8192, "materialising {got} elements allocates {total} bytes in all for a tree of {used} bytes");
                Ok(Out { canon: total as u128, nontrivial: true })
            }),
            move |p| format!("up to {many} keys, {}, {}", PLACE[p[0] as usize], MADE[p[1] as usize]),
        ));
    })*};
}
const MADE: [&str; 4] = ["a tree", "an intersection", "a union", "a fold of a many-way union"];

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    v.push(prod("the counter", &[1], |_| step::selftest().map(|_| Out { canon: 1, nontrivial: true }), |_| "self-test of the instruction counter".into()));
    let sizes = tier.q(vec![70_000], vec![300, 1_000, 5_000, 20_000, 70_000, 300_000]);
    for cfg in dense_cfgs::<u64>().into_iter().chain(sparse_all::<u64>()).chain(sparse_default_all::<u64>()) {
        containers(cfg, sizes.clone(), &mut v)
    }
    stored!(v, tier.q(vec![70_000], vec![300, 5_000, 70_000, 300_000]); D1, D2, D3, D4, D6, D9, S1, S2, S3, S4, S8, M1, M2, M3, L1, L2, L3, L8);
    let n = tier.q(5_000, 40_000);
    macro_rules! each {
        ($l:ty) => {
            lazy!(v, n, true; $l; I MI FMI MAPI);
            lazy!(v, n, false; $l; M U MU FMU MAPU);
        };
    }
    each!(D2);
    each!(D3);
    each!(D4);
    each!(S3);
    each!(L2);
    #[cfg(feature = "deep")]
    {
        each!(D1);
        each!(D6);
        each!(D9);
        each!(S2);
        each!(S4);
        each!(S8);
        each!(M3);
        each!(L3);
    }
    let (n1, n2) = (tier.q(1_000, 6_000), tier.q(20_000, 150_000));
    grown!(v, n1, n2; D1, 1; D2, 2; D3, 3; S3, 3);
    #[cfg(feature = "deep")]
    grown!(v, n1, n2; D4, 4; S2, 2; S4, 4; D6, 6);
    made!(v, n; D1, 1; D2, 2; D3, 3; D4, 4; S2, 2; S3, 3; S4, 4; D6, 6);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P24",
        level: "model_checking",
        rule: "at most twice the costliest small tree and a constant; intersections at most twice the cost of their common part",
        assumptions: &["cost is the number of machine instructions of an unvectorised build, the allocator's work (and the copying of a growing allocation) left out", "a dependence on the number of keys shows at 70 000 keys"],
        tasks,
    })
}
