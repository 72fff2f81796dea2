use hibit_tree::multi_intersection as op;
use hv::ops::*;
use hv::run::*;
use hv::big::v_mi as v_op;
use hv::ops::r_mi as r_op;

const ALL: bool = true;
include!("../multi.in.rs");

fn main() {
    hv::run::main(Check {
        id: "P07",
        level: "exploration",
        rule: "a case is one assignment of key sets to the operand trees, read through every access path; non-trivial when the intersection is not empty, distinct by assignment",
        assumptions: &["the operands iterator is pure: every clone yields the same trees in the same order"],
        tasks,
    })
}
