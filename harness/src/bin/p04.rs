use hv::fam;
use hv::hist::*;
use hv::run::*;
use hv::sut::*;

const CH: u32 = C_KV | C_GET;

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut cfgs = dense_cfgs::<u64>();
    cfgs.extend(sparse_all::<u64>());
    for cfg in cfgs {
        let c = fam::caps_of(&cfg);
        let (d, w) = (c.depth, c.width);
        fam::bfs(cfg, CH, if c.dense { tier.q(5, 6) } else { tier.q(if d == 1 { 5 } else { 3 }, 4) }, &mut v);
        fam::bfs_filled(cfg, CH, tier.q(&[7, 63][..], &[3, 7, 15, 31, 61, 62, 63][..]), 3, &mut v);
        if d <= 2 || tier == Tier::Thorough {
            fam::population(cfg, CH, (0..=w).step_by(w / tier.q(16, 64)).collect(), &mut v);
        }
        fam::subsets(cfg, CH, "a", fam::cube(w, d, tier.q(8, 12), false), 4, &mut v);
        if w == 64 && (d == 3 || d == 4) {
            // more than 2^16 keys, terminal nodes
            fam::large(cfg, CH, 70_000.min(c.capacity()), 1, "range-70000", &[(5, 1)], &mut v);
            if d == 4 {
                fam::large(cfg, CH, 66_000, 65, "nodes-66000", &[(0, 1)], &mut v);
            }
        }
        if d >= 2 && d <= tier.q(3, 8) {
            fam::large(cfg, CH, (w * w).min(8000), 1, "range", &[(5, 1)], &mut v);
        }
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P04",
        level: "model_checking",
        rule: "a case is non-trivial when the container is non-empty and its canonical heap state (or key set and insertion order) was not seen before",
        assumptions: &["the order of the views is unspecified, only their content is checked"],
        tasks,
    })
}
