//! Reads and rejected removals leave no trace; trees do not influence each other.
use hv::arena;
use hv::ensure;
use hv::fam;
use hv::hist::*;
use hv::run::*;
use hv::sut::*;
use hv::task::prod;

const CH: u32 = C_PURE | C_GET | C_ORDER | C_WALK | C_KV | C_DEFAULT;

/// Two containers, the first may be of another shape than the second; one operation sequence is
/// interleaved over both. The untouched one must keep its bytes at every step.
fn isolation(a: Cfg, b: Cfg, len: usize, v: &mut Vec<Box<dyn Task>>) {
    let (ca, cb) = (fam::caps_of(&a), fam::caps_of(&b));
    let keys = |c: &Caps| {
        let mut k = vec![0, c.width - 1];
        if c.depth > 1 {
            k.push(c.width);
        } else {
            k.push(1);
        }
        k
    };
    let mk = move |who: usize, caps: &Caps| {
        let mut o = vec![];
        for k in keys(caps) {
            o.push((who, Op::Ins(k)));
            o.push((who, Op::Rem(k)));
        }
        o
    };
    let mut ops = mk(0, &ca);
    ops.extend(mk(1, &cb));
    let o2 = ops.clone();
    v.push(prod(
        format!("isolation/{}+{}", a.name, b.name),
        &vec![ops.len(); len],
        move |p| {
            arena::set_owner(1);
            let wa = World::new(&a);
            arena::set_owner(2);
            let mut w = [wa, World::new(&b)];
            for &i in p {
                let (who, op) = ops[i as usize];
                let other = 2 - who as u8;
                let before = arena::raw_owner(other);
                arena::set_owner(who as u8 + 1);
                w[who].apply(op)?;
                ensure!(arena::raw_owner(other) == before, "an operation on one tree changed the memory of another tree");
            }
            let mut canon = 0u128;
            for i in 0..2 {
                let pr = keys(&w[i].caps);
                w[i].verify(C_GET | C_ORDER | C_WALK, &pr)?;
                canon = canon.rotate_left(13) ^ w[i].canon();
            }
            // dropping one leaves the other usable
            let first = p[0] as usize & 1;
            w[first].drop_tree();
            let pr = keys(&w[1 - first].caps);
            w[1 - first].verify(C_GET | C_ORDER | C_WALK | C_KV, &pr)?;
            for k in pr {
                w[1 - first].apply(Op::Ins(k))?;
            }
            w[1 - first].verify(C_GET | C_ORDER, &[])?;
            w[1 - first].drop_tree();
            Ok(Out { canon, nontrivial: true })
        },
        move |p| p.iter().map(|i| format!("{:?}", o2[*i as usize])).collect::<Vec<_>>().join("; "),
    ));
}

/// Interleaved readers: several cursors and iterators over the same tree, advanced in every order,
/// all see the same content.
fn readers(cfg: Cfg, v: &mut Vec<Box<dyn Task>>) {
    let c = fam::caps_of(&cfg);
    let uni = fam::cube(c.width, c.depth, 5, true);
    let n = uni.len();
    let u2 = uni.clone();
    v.push(prod(
        format!("{}/readers", cfg.name),
        &[1 << n, 1 << (2 * n).min(10)],
        move |p| {
            let mut w = World::new(&cfg);
            for (i, k) in uni.iter().enumerate() {
                if p[0] >> i & 1 == 1 {
                    w.apply(Op::Ins(*k))?;
                }
            }
            let before = arena::raw_hash();
            let want: Vec<(usize, u64)> = w.model.iter().map(|x| (*x.0, *x.1)).collect();
            let got = w.r().two_iters(p[1], 3 * want.len() + 4);
            ensure!(got.0 == want && got.1 == want, "interleaved iterators yield {:?} and {:?}, expected {want:?}", got.0, got.1);
            ensure!(arena::raw_hash() == before, "iterating modified the container's memory");
            let nontrivial = want.len() > 1;
            w.drop_tree();
            Ok(Out { canon: (p[0] as u128) << 32 | p[1] as u128, nontrivial })
        },
        move |p| {
            let k: Vec<usize> = (0..n).filter(|i| p[0] >> i & 1 == 1).map(|i| u2[i]).collect();
            format!("two iterators over keys {k:?} advanced in the order {:b}", p[1])
        },
    ));
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    cfgs.extend(sparse64_default_cfgs::<u64>());
    for cfg in cfgs.clone() {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        fam::bfs(cfg, CH, if c.dense { tier.q(4, 6) } else { tier.q(3, 4) }, &mut v);
        if d <= 4 || tier == Tier::Thorough {
            fam::bfs_filled(cfg, CH, &[3, 7, 15, 61, 63], 3, &mut v);
        }
        fam::subsets(cfg, CH, "a", fam::cube(w, d, tier.q(7, 11), true), tier.q(2, 4), &mut v);
        readers(cfg, &mut v);
    }
    let all = cfgs;
    for (i, a) in all.iter().enumerate() {
        // the same shape next to itself, and a neighbour shape
        let d = fam::caps_of(a).depth;
        if d <= tier.q(3, 8) {
            isolation(*a, *a, tier.q(4, 5), &mut v);
            isolation(*a, all[(i + 1) % all.len()], tier.q(3, 4), &mut v);
            isolation(*a, all[(i + 11) % all.len()], tier.q(3, 4), &mut v);
        }
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P18",
        level: "model_checking",
        rule: "a history case is non-trivial when the container is non-empty and its canonical heap state was not seen before; an isolation case when the pair of canonical states is new; a reader case by (content, interleaving)",
        assumptions: &["safe code cannot mutate a tree it holds a shared reference to except through the crate"],
        tasks,
    })
}
