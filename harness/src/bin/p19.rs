//! Memory footprint follows the content, not the length of the history.
use hv::fam;
use hv::hist::*;
use hv::norm;
use hv::run::*;
use hv::sut::*;
use hv::task::prod;
use hv::val::*;
use hv::{arena, ensure};

const REP: usize = 24;

/// Every word of operations up to `len` over a few keys, repeated over and over: from the second
/// half on, the footprint must not exceed what the first half reached.
fn cycles(cfg: Cfg, len: usize, keys: Vec<usize>, tag: &str, v: &mut Vec<Box<dyn Task>>) {
    let caps = fam::caps_of(&cfg);
    let mut ops = vec![];
    for &k in &keys {
        ops.push(Op::Ins(k));
        ops.push(Op::Rem(k));
    }
    ops.push(Op::Goi(keys[0]));
    if caps.get_mut {
        ops.push(Op::GetMut(keys[0]));
    }
    let o2 = ops.clone();
    v.push(prod(
        format!("{}/cycles{len}/{tag}", cfg.name),
        &vec![ops.len(); len],
        move |p| {
            let mut w = World::new(&cfg);
            let mut half = (0, 0);
            let mut full = (0, 0);
            for r in 0..REP {
                for &i in p {
                    w.apply(ops[i as usize])?;
                    let now = (arena::live_bytes(), arena::live_count());
                    let m = if r < REP / 2 { &mut half } else { &mut full };
                    *m = (m.0.max(now.0), m.1.max(now.1));
                }
            }
            ensure!(
                full.0 <= half.0 && full.1 <= half.1,
                "repeating the operations {} more times grew the container from {} bytes in {} blocks to {} bytes in {} blocks",
                REP / 2,
                half.0,
                half.1,
                full.0,
                full.1
            );
            let canon = w.canon() ^ (half.0 as u128) << 40;
            w.drop_tree();
            Ok(Out { canon, nontrivial: half.1 > 1 })
        },
        move |p| format!("{REP} times: {}", p.iter().map(|i| format!("{:?}", o2[*i as usize])).collect::<Vec<_>>().join("; ")),
    ));
}

/// A window of `width` keys slides over the key space: once every alignment was seen, no growth.
fn sliding(cfg: Cfg, v: &mut Vec<Box<dyn Task>>) {
    let caps = fam::caps_of(&cfg);
    let c = caps.capacity();
    let mut steps = vec![];
    for l in 0..caps.depth {
        steps.push(norm::stride(caps.width, caps.depth, l));
    }
    if caps.depth > 1 {
        steps.push(caps.width + 1);
        steps.push(7);
    }
    let wins = [1usize, 2, 3, 5, 17, 70];
    let s2 = steps.clone();
    v.push(prod(
        format!("{}/sliding", cfg.name),
        &[steps.len(), wins.len(), 2],
        move |p| {
            let (step, win, fifo) = (steps[p[0] as usize], wins[p[1] as usize], p[2] == 0);
            let period = (caps.width * 8).max(win * 2);
            let key = |i: usize| {
                // stay inside the range by wrapping around
                let n = (c / step).max(1);
                (i % n) * step
            };
            let mut w = World::new(&cfg);
            let mut peak = [(0, 0); 8];
            for i in 0..8 * period {
                w.apply(Op::Ins(key(i)))?;
                if fifo {
                    if i + 1 >= win {
                        w.apply(Op::Rem(key(i + 1 - win)))?;
                    }
                } else if i % win == win - 1 {
                    // fill a window, then drain it
                    for j in (i + 1 - win..=i).rev() {
                        w.apply(Op::Rem(key(j)))?;
                    }
                }
                let m = &mut peak[i / period];
                *m = (m.0.max(arena::live_bytes()), m.1.max(arena::live_count()));
            }
            let first = peak[0];
            let last = peak[4..].iter().fold((0, 0), |a, b| (a.0.max(b.0), a.1.max(b.1)));
            // windows that straddle more nodes of the upper levels come later; a leak is linear
            ensure!(
                last.0 <= 2 * first.0 + 512 && last.1 <= first.1 + 2 * caps.depth + 2,
                "moving a window of {win} keys by {step} grew the container from {} bytes in {} blocks to {} bytes in {} blocks",
                first.0,
                first.1,
                last.0,
                last.1
            );
            w.drop_tree();
            Ok(Out { canon: (p[0] as u128) << 64 | (p[1] as u128) << 8 | p[2] as u128, nontrivial: true })
        },
        move |p| format!("window of {} keys, step {}, {}", wins[p[1] as usize], s2[p[0] as usize], if p[2] == 0 { "first in first out" } else { "fill and drain" }),
    ));
}

/// Emptied parts of the tree are given back: after filling `fill` subtrees and removing all keys
/// but those of a subset, the number of blocks is that of a tree that only ever held the subset.
fn release(cfg: Cfg, v: &mut Vec<Box<dyn Task>>) {
    let caps = fam::caps_of(&cfg);
    for level in 0..caps.depth {
        let st = norm::stride(caps.width, caps.depth, level);
        let fills = [1usize, 2, 3, 4, 6, 8, 15, 16, 33, 63, 64];
        v.push(prod(
            format!("{}/release/level{level}", cfg.name),
            &[fills.len(), 16, 3],
            move |p| {
                let fill = fills[p[0] as usize].min(caps.width);
                let ok = |i: &usize| i.checked_mul(st).is_some_and(|k| k < caps.capacity());
                let all: Vec<usize> = (0..fill).filter(ok).map(|i| i * st).collect();
                let keep = |i: usize| i < 4 && p[1] >> i & 1 == 1;
                let mut w = World::new(&cfg);
                let mut gone: Vec<usize> = vec![];
                for (i, k) in all.iter().enumerate() {
                    w.apply(Op::Ins(*k))?;
                    if !keep(i) {
                        gone.push(*k)
                    }
                }
                match p[2] {
                    0 => {}
                    1 => gone.reverse(),
                    _ => {
                        let m = gone.len() / 2;
                        gone.rotate_left(m)
                    }
                }
                for k in &gone {
                    w.apply(Op::Rem(*k))?;
                }
                let (blocks, left) = (arena::live_count(), w.model.len());
                let kept: Vec<usize> = w.model.keys().copied().collect();
                w.drop_tree();
                let base = arena::live_count();
                let mut f = World::new(&cfg);
                for k in kept.iter() {
                    f.apply(Op::Ins(*k))?;
                }
                // an emptied container may hold on to its key and value buffers; where nodes live in a
                // buffer per level, that level may have found out that it needs one more for the free ones
                let fresh = arena::live_count() - base + if left == 0 || !caps.dense { caps.depth + 4 } else { 0 };
                ensure!(
                    blocks <= fresh,
                    "after removing {} of {} keys the container holds {blocks} blocks; with only the remaining keys it takes {fresh}",
                    gone.len(),
                    all.len()
                );
                f.drop_tree();
                Ok(Out { canon: (p[0] as u128) << 64 | (p[1] as u128) << 8 | p[2] as u128, nontrivial: !gone.is_empty() })
            },
            move |p| format!("fill {} children of level {level}, keep subset {:04b}, order {}", fills[p[0] as usize], p[1], p[2]),
        ));
    }
}

/// Over the whole reachable state space of an alphabet: never more than the full alphabet takes.
struct Bounded(Hist, usize);
impl Task for Bounded {
    fn name(&self) -> String {
        self.0.name.replace("/bfs", "/bounded")
    }
    fn explore(&self, cx: &mut Cx) {
        cx.bfs(self, &[], self.0.ops.len() as u32, self.0.depth, self.0.max_states)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        let mut w = World::new(&self.0.cfg);
        for &i in p {
            w.apply(self.0.ops[i as usize])?;
        }
        let b = arena::live_bytes();
        ensure!(b <= self.1, "{b} bytes in use; all keys of the alphabet together and some bookkeeping take at most {}", self.1);
        let canon = w.canon() ^ (b as u128) << 32;
        let nontrivial = !w.model.is_empty();
        w.drop_tree();
        Ok(Out { canon, nontrivial })
    }
    fn describe(&self, p: &[u32]) -> String {
        self.0.describe(p)
    }
}
fn bounded(cfg: Cfg, n: usize, v: &mut Vec<Box<dyn Task>>) {
    let caps = fam::caps_of(&cfg);
    for (name, keys) in alphabets(caps.width, caps.depth, n) {
        arena::reset();
        // both insertion orders; bookkeeping may come on top, but not with every operation
        let mut full = 0;
        for rev in [false, true] {
            arena::reset();
            let mut w = World::new(&cfg);
            let mut ks = keys.clone();
            if rev {
                ks.reverse()
            }
            for k in ks {
                w.apply(Op::Ins(k)).unwrap();
            }
            full = full.max(arena::live_bytes());
            w.drop_tree();
        }
        arena::reset();
        v.push(Box::new(Bounded(Hist::new(format!("{}/bfs{n}/{name}", cfg.name), cfg, &keys, 0).only_ins_rem(), full + full / 4 + 64 * caps.depth + 64)));
    }
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    let named = |c: Vec<Cfg>| -> Vec<Cfg> {
        c.into_iter().map(|c| Cfg { name: Box::leak(format!("{}<owning>", c.name).into_boxed_str()), mk: c.mk }).collect()
    };
    cfgs.extend(named(dense_cfgs::<Own>()).into_iter().take(3));
    cfgs.extend(named(sparse64_cfgs::<Own>()).into_iter().take(3));
    for cfg in cfgs {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        let sets = [
            ("near", vec![0, 1, w - 1]),
            ("far", vec![0, norm::stride(w, d, 0), c.capacity() - if c.capacity() == usize::MAX { 2 } else { 1 }]),
        ];
        for (tag, keys) in sets {
            let mut keys = keys;
            keys.dedup();
            cycles(cfg, tier.q(4, 6), keys, tag, &mut v);
        }
        sliding(cfg, &mut v);
        release(cfg, &mut v);
        bounded(cfg, if c.dense { tier.q(5, 6) } else { tier.q(3, 4) }, &mut v);
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P19",
        level: "model_checking",
        rule: "a case is non-trivial when it allocates; distinct by canonical heap state and footprint",
        assumptions: &["a bounded footprint is one that becomes periodic under the repeated cycle"],
        tasks,
    })
}
