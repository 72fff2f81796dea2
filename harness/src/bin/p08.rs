use hibit_tree::multi_union as op;
use hv::ops::*;
use hv::run::*;
use hv::big::v_mu as v_op;
use hv::ops::r_mu as r_op;

const ALL: bool = false;
include!("../multi.in.rs");

fn main() {
    hv::run::main(Check {
        id: "P08",
        level: "exploration",
        rule: "a case is one assignment of key sets to the operand trees, read through every access path; non-trivial when the union is not empty, distinct by assignment",
        assumptions: &["the operands iterator is pure: every clone yields the same trees in the same order"],
        tasks,
    })
}
