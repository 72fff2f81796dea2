use hv::fam;
use hv::hist::*;
use hv::run::*;
use hv::sut::*;

const CH: u32 = C_GET | C_ITER | C_KV | C_DEFAULT;

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    for (def, cfgs) in [(false, sparse_all::<u64>()), (true, sparse_default_all::<u64>())] {
        for cfg in cfgs {
            let c = fam::caps_of(&cfg);
            let (d, w) = (c.depth, c.width);
            let n = match (def, w, d) {
                (_, _, 1) => tier.q(5, 7),
                (false, 64, 2) => 5,
                (false, 64, 3) => tier.q(4, 5),
                (false, _, _) => tier.q(4, 5),
                (true, _, _) => tier.q(3, 4),
            };
            fam::bfs(cfg, CH, n, &mut v);
            if tier == Tier::Thorough || !def || d <= 2 {
                fam::bfs_filled(cfg, CH, &[3, 15, 61, 62, 63, 126, 127, 253, 254, 255], 3, &mut v);
            }
            let counts: Vec<usize> = match tier {
                Tier::Quick if d > 2 || def => {
                    [0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 255, 256].into_iter().filter(|x| *x <= w).collect()
                }
                Tier::Quick => (0..=w).step_by(w / 64).collect(),
                _ if d > 3 || def => (0..=w).step_by(w / 64).collect(),
                _ => (0..=w).collect(),
            };
            fam::population(cfg, CH, counts, &mut v);
            if w == 64 && (!def || tier == Tier::Thorough) || tier == Tier::Thorough && d <= 4 || (!def && d <= 2) {
                fam::pairs(cfg, CH, &mut v);
            }
            if !def {
                fam::churn(cfg, CH, if d <= 4 { tier.q(70_000, 200_000) } else { 70_000 }, &mut v);
            }
            // every root child, every child of the first two levels
            if d >= 2 && (!def || tier == Tier::Thorough) {
                fam::large(cfg, CH, w * w, 1, "two-levels", &[(0, 0), (5, 2)][..tier.q(1, 2)], &mut v);
            }
            if d >= 3 && !def && (w != 256 || d == 3 || tier == Tier::Thorough) {
                // one key per terminal node: w*w terminal nodes
                fam::large(cfg, CH, w * w, w, "all-nodes", &[(0, 1), (4, 5)][..tier.q(1, 2)], &mut v);
            }
            if w == 64 && (d == 3 || d == 4) {
                fam::large(cfg, CH, 70_000, 1, "range-70000", &[(5, 1)], &mut v);
                fam::large(cfg, CH, 66_000.min(c.capacity() / 65), 65, "nodes", &[(0, 1)], &mut v);
            }
            if tier == Tier::Thorough && d >= 3 && !def {
                fam::large(cfg, CH, 300_000.min(w * w * w), 1, "three-levels", &[(0, 0), (1, 2)], &mut v);
            }
        }
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P02",
        level: "model_checking",
        rule: "a history case is non-trivial when the container is non-empty after it and its canonical heap state was not seen before",
        assumptions: &["the value type's Default is pure", "states are merged only when the memory reachable from the container is isomorphic"],
        tasks,
    })
}
