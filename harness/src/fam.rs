//! Families of histories shared by the container checks.

use crate::hist::*;
use crate::norm;
use crate::run::{Out, Task};
use crate::sut::{Caps, Cfg};
use crate::task::prod;

pub fn caps_of(cfg: &Cfg) -> Caps {
    crate::arena::reset();
    let c = {
        let t = (cfg.mk)();
        let c = t.caps();
        crate::arena::tracked(|| drop(t));
        c
    };
    crate::arena::reset();
    c
}

/// Breadth-first search to a fixpoint over every standard alphabet of `n` keys.
pub fn bfs(cfg: Cfg, checks: u32, n: usize, v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    for (name, keys) in alphabets(caps.width, caps.depth, n) {
        v.push(Hist::new(format!("{}/bfs{n}/{name}", cfg.name), cfg, &keys, checks).boxed());
    }
}

/// BFS around large populations: a node at `level` already has `fill` children.
pub fn bfs_filled(cfg: Cfg, checks: u32, fills: &[usize], n: usize, v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    let w = caps.width;
    for level in [caps.depth - 1, 0] {
        let st = norm::stride(w, caps.depth, level);
        for &f in fills {
            if f > w || level == 0 && caps.depth > 3 && f > 15 {
                continue;
            }
            // children 1..=f exist; the alphabet straddles the border, the first and the last child
            let child = |i: usize| (i % w).wrapping_mul(st);
            let mut keys: Vec<usize> = vec![];
            for i in [f + 1, f, 0, 1, w - 1, f + 2, f / 2, f.saturating_sub(1)] {
                let k = child(i);
                if k < caps.capacity() && !keys.contains(&k) {
                    keys.push(k)
                }
            }
            keys.truncate(n);
            v.push(
                Hist::new(format!("{}/filled{f}/level{level}", cfg.name), cfg, &keys, checks)
                    .base((1..f + 1).map(child).filter(|k| *k < caps.capacity()))
                    .depth(if f > 20 { 4 } else { 6 })
                    .boxed(),
            );
            if caps.depth == 1 {
                break;
            }
        }
        if caps.depth == 1 {
            break;
        }
    }
}

fn order(kind: u32, n: usize) -> Vec<usize> {
    match kind {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        3 => (0..n).map(|i| (i + n / 2) % n).collect(),
        k => {
            // stride permutations
            let mut s = 2 * (k as usize - 3) + 1;
            while n > 1 && gcd(s, n) != 1 {
                s += 1
            }
            (0..n).map(|i| (i * s) % n.max(1)).collect()
        }
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
const ORDERS: usize = 6;

/// Every population count of one node, in several insertion and removal orders, checked along the way.
pub fn population(cfg: Cfg, checks: u32, counts: Vec<usize>, v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    let mut levels: Vec<usize> = vec![caps.depth - 1];
    if caps.depth > 1 {
        levels.push(0)
    }
    if caps.depth > 2 {
        levels.push(caps.depth - 2)
    }
    levels.dedup();
    for level in levels {
        let st = norm::stride(caps.width, caps.depth, level);
        let counts2 = counts.clone();
        let cnt = counts.len();
        let plan = move |p: &[u32]| {
            let n = counts2[p[0] as usize];
            // ascending from 0, or the top n slots
            let off = if p[3] == 0 { 0 } else { caps.width - n };
            let key = move |i: usize| (off + i).wrapping_mul(st);
            (n, key, order(p[1], n), order(p[2], n))
        };
        let plan2 = plan.clone();
        v.push(prod(
            format!("{}/population/level{level}", cfg.name),
            &[cnt, ORDERS, ORDERS, 2],
            move |p| {
                let (n, key, ins, rem) = plan(p);
                let mut w = World::new(&cfg);
                let keys: Vec<usize> = (0..n).map(key).filter(|k| *k < caps.capacity()).collect();
                let every = (n / 6).max(1);
                let ok = |k: &usize| *k < caps.capacity();
                for (j, i) in ins.iter().enumerate() {
                    let k = key(*i);
                    if !ok(&k) {
                        continue;
                    }
                    w.apply(if j % 3 == 1 { Op::Goi(k) } else { Op::Ins(k) })?;
                    if j % every == every - 1 {
                        w.verify(checks, &keys)?;
                    }
                }
                w.verify(checks, &keys)?;
                for (j, i) in rem.iter().enumerate() {
                    let k = key(*i);
                    if !ok(&k) {
                        continue;
                    }
                    w.apply(Op::Rem(k))?;
                    if j % every == every - 1 {
                        w.verify(checks, &keys)?;
                    }
                    if j == n / 2 {
                        // refill what was removed, in the middle of the removal
                        for i in rem[..j].iter().step_by(2) {
                            if ok(&key(*i)) {
                                w.apply(Op::Ins(key(*i)))?;
                            }
                        }
                        w.verify(checks, &keys)?;
                        for i in rem[..j].iter().step_by(2) {
                            if ok(&key(*i)) {
                                w.apply(Op::Rem(key(*i)))?;
                            }
                        }
                    }
                }
                w.verify(checks, &keys)?;
                let canon = w.canon();
                finish(&mut w, checks)?;
                Ok(Out { canon: canon ^ ((p[0] as u128) << 64) ^ (p[1] as u128) << 32 ^ p[2] as u128, nontrivial: n > 1 })
            },
            move |p| {
                let (n, _, _, _) = plan2(p);
                format!("{n} children at level {level}, insertion order {}, removal order {}, side {}", p[1], p[2], p[3])
            },
        ));
    }
}

/// All ordered pairs of children of one node: insert a, insert b, remove a, re-insert a, remove both.
pub fn pairs(cfg: Cfg, checks: u32, v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    for level in 0..caps.depth {
        let st = norm::stride(caps.width, caps.depth, level);
        let w0 = caps.width;
        // a key that lives in another branch
        v.push(prod(
            format!("{}/pairs/level{level}", cfg.name),
            &[w0, w0],
            move |p| {
                let a = (p[0] as usize).wrapping_mul(st);
                let b = (p[1] as usize).wrapping_mul(st);
                if a >= caps.capacity() || b >= caps.capacity() {
                    return Ok(Out::default());
                }
                let pr = [a, b];
                let mut w = World::new(&cfg);
                w.apply(Op::Ins(a))?;
                w.apply(Op::Rem(b))?;
                w.verify(checks, &pr)?;
                w.apply(Op::Ins(b))?;
                w.verify(checks, &pr)?;
                w.apply(Op::Rem(a))?;
                w.verify(checks, &pr)?;
                w.apply(Op::Goi(a))?;
                w.verify(checks, &pr)?;
                w.apply(Op::Rem(b))?;
                w.apply(Op::Rem(a))?;
                w.verify(checks, &pr)?;
                finish(&mut w, checks)?;
                Ok(Out { canon: (a as u128) << 64 | b as u128, nontrivial: a != b })
            },
            move |p| format!("level {level}: children {} and {}", p[0], p[1]),
        ));
    }
}

/// Large populations: `n` keys `i * step`, inserted and removed in several orders.
pub fn large(cfg: Cfg, checks: u32, n: usize, step: usize, tag: &str, orders: &[(u32, u32)], v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    let orders = orders.to_vec();
    let o2 = orders.clone();
    v.push(prod(
        format!("{}/large/{tag}", cfg.name),
        &[orders.len()],
        move |p| {
            let (oi, or) = orders[p[0] as usize];
            let mut w = World::new(&cfg);
            let every = n / 3 + 1;
            for (j, i) in order(oi, n).into_iter().enumerate() {
                w.apply(Op::Ins(i * step))?;
                if j % every == every - 1 {
                    w.verify(checks, &[])?;
                }
            }
            w.verify(checks, &[])?;
            let rem = order(or, n);
            for (j, i) in rem.iter().enumerate() {
                w.apply(Op::Rem(i * step))?;
                if j % every == every - 1 {
                    w.verify(checks, &[i * step])?;
                }
                if j == n / 64 {
                    // the first freed places, again
                    for i in &rem[..j] {
                        w.apply(Op::Ins(i * step))?;
                    }
                    w.verify(checks, &[])?;
                    for i in &rem[..j] {
                        w.apply(Op::Rem(i * step))?;
                    }
                }
                if j == n / 2 {
                    for i in &rem[..n / 4] {
                        w.apply(Op::Ins(i * step))?;
                    }
                    w.verify(checks, &[])?;
                    for i in &rem[..n / 4] {
                        w.apply(Op::Rem(i * step))?;
                    }
                }
            }
            w.verify(checks, &[0, step])?;
            // everything that was freed is used again
            for &i in rem.iter().step_by(2) {
                w.apply(Op::Ins(i * step))?;
            }
            w.verify(checks, &[0, step])?;
            finish(&mut w, checks)?;
            Ok(Out { canon: (n as u128) << 64 | (oi as u128) << 32 | or as u128, nontrivial: true })
        },
        move |p| format!("{n} keys with step {step}, orders {:?}; {}", o2[p[0] as usize], caps.width),
    ));
}

/// Long histories over few keys: `rounds` times the same short cycle, verified after every round whose number is
/// next to a power of two (counters, generations and free lists that wrap).
pub fn churn(cfg: Cfg, checks: u32, rounds: usize, v: &mut Vec<Box<dyn Task>>) {
    let caps = caps_of(&cfg);
    let cap = caps.capacity();
    // same terminal node, a sibling branch, the far end
    let st = norm::stride(caps.width, caps.depth, caps.depth.saturating_sub(2));
    let mut keys = vec![0, 1, (st + 2) % cap.max(1), cap - 1];
    keys.dedup();
    let cycles: Vec<(&'static str, Vec<Op>)> = {
        let (a, b, c, d) = (keys[0], keys[1], keys[2], keys[keys.len() - 1]);
        vec![
            ("one key", vec![Op::Ins(d), Op::Rem(d)]),
            ("overwriting", vec![Op::Ins(a), Op::Goi(a)]),
            ("ping-pong", vec![Op::Ins(a), Op::Rem(d), Op::Ins(d), Op::Rem(a)]),
            ("queue", vec![Op::Ins(a), Op::Ins(b), Op::Ins(c), Op::Rem(a), Op::Goi(d), Op::Rem(b), Op::Rem(c), Op::Rem(d)]),
            ("stack, one stays", vec![Op::Ins(b), Op::Ins(c), Op::Ins(d), Op::Rem(d), Op::Rem(c), Op::Rem(a)]),
        ]
    };
    let n = cycles.len();
    let names: Vec<&'static str> = cycles.iter().map(|c| c.0).collect();
    v.push(prod(
        format!("{}/churn", cfg.name),
        &[n],
        move |p| {
            let mut w = World::new(&cfg);
            for r in 1..=rounds {
                for op in &cycles[p[0] as usize].1 {
                    w.apply(*op)?;
                }
                let near = |x: usize| x.is_power_of_two();
                if near(r) || near(r + 1) || near(r - 1) {
                    w.verify(checks, &keys)?;
                }
            }
            w.verify(checks, &keys)?;
            finish(&mut w, checks)?;
            Ok(Out { canon: p[0] as u128, nontrivial: true })
        },
        move |p| format!("cycle '{}' {rounds} times", names[p[0] as usize]),
    ));
}

/// Every subset of a key universe, inserted in one of several orders.
pub fn subsets(cfg: Cfg, checks: u32, tag: &str, uni: Vec<usize>, orders: usize, v: &mut Vec<Box<dyn Task>>) {
    let n = uni.len();
    let u2 = uni.clone();
    v.push(prod(
        format!("{}/subsets{n}/{tag}", cfg.name),
        &[1 << n, orders],
        move |p| {
            let mut w = World::new(&cfg);
            for i in order(p[1], n) {
                if p[0] >> i & 1 == 1 {
                    w.apply(Op::Ins(uni[i]))?;
                }
            }
            w.verify(checks, &uni)?;
            finish(&mut w, checks)?;
            Ok(Out { canon: (p[0] as u128) << 32 | p[1] as u128, nontrivial: p[0] != 0 })
        },
        move |p| {
            let k: Vec<usize> = (0..n).filter(|i| p[0] >> i & 1 == 1).map(|i| u2[i]).collect();
            format!("keys {k:?} in insertion order #{}", p[1])
        },
    ));
}

/// Universe of keys: `a` digits at each of the lowest/upper levels, a full sub-cube of the tree.
pub fn cube(width: usize, depth: usize, n: usize, alt: bool) -> Vec<usize> {
    // digit pairs per level
    let c = width.saturating_pow(depth as u32);
    let mut keys = vec![0usize];
    let pairs: Vec<(usize, usize)> = (0..depth)
        .map(|l| match (alt, l % 3) {
            (false, 0) => (0, width - 1),
            (false, 1) => (1, 2),
            (false, _) => (width / 2 - 1, width / 2),
            (true, 0) => (width - 2, width - 1),
            (true, 1) => (0, 63),
            (true, _) => (0, 1),
        })
        .collect();
    for (l, (a, b)) in pairs.iter().enumerate() {
        let st = norm::stride(width, depth, l);
        let mut nk = vec![];
        for &k in &keys {
            nk.push(k.wrapping_add(a.wrapping_mul(st)));
            nk.push(k.wrapping_add(b.wrapping_mul(st)));
        }
        // too many: keep a spread
        keys = nk;
        while keys.len() > n {
            let step = keys.len() as f64 / n as f64;
            keys = (0..n).map(|i| keys[(i as f64 * step) as usize]).collect();
        }
    }
    keys.retain(|k| *k < c);
    keys.sort_unstable();
    keys.dedup();
    keys
}
