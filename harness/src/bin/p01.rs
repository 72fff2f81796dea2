use hv::fam;
use hv::hist::*;
use hv::run::*;
use hv::sut::*;

const CH: u32 = C_GET | C_ITER | C_KV;

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    for cfg in dense_cfgs::<u64>() {
        let d = fam::caps_of(&cfg).depth;
        fam::bfs(cfg, CH, tier.q(6, 8), &mut v);
        fam::bfs_filled(cfg, CH, &[3, 7, 15, 31, 61, 63], tier.q(3, 4), &mut v);
        fam::population(cfg, CH, (0..=64).collect(), &mut v);
        fam::pairs(cfg, CH, &mut v);
        fam::churn(cfg, CH, if d <= 4 { tier.q(70_000, 200_000) } else { 70_000 }, &mut v);
        if d == 2 {
            fam::large(cfg, CH, 64, 64, "spread", &[(0, 1), (4, 5)], &mut v);
        }
        if d >= 2 {
            fam::large(cfg, CH, 4096, 1, "two-levels", &[(0, 0), (1, 0), (2, 3), (5, 2)], &mut v);
        }
        if d >= 3 {
            fam::large(cfg, CH, tier.q(2000, 4096), 64, "spread", &[(0, 1), (4, 5)], &mut v);
        }
        if d == 4 {
            fam::large(cfg, CH, 66_000, 65, "nodes", &[(0, 1)], &mut v);
        }
        if d == 3 || tier == Tier::Thorough && d >= 3 {
            fam::large(cfg, CH, 70_000, 1, "three-levels", &[(0, 0), (1, 2), (4, 1)][..tier.q(1, 3)], &mut v);
            fam::large(cfg, CH, 66_000, 3, "three-levels-apart", &[(0, 1), (4, 3)][..tier.q(1, 2)], &mut v);
        }
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P01",
        level: "model_checking",
        rule: "a history case is non-trivial when the container is non-empty after it and its canonical heap state was not seen before",
        assumptions: &["equality of values is bitwise on tracked payloads", "states are merged only when the memory reachable from the container is isomorphic"],
        tasks,
    })
}
