#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (tools/props.py holds the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state model checking of the real code: exhaustive breadth-first search over operation histories, states canonicalised from the implementation's memory, every transition compared with an ordered-map model"
ENUM = "bounded exhaustive enumeration of operand contents and access paths on the real code against a set-algebra model"
N_BFS = "Exhaustive within the stated key universes and state bounds (evidence lists tasks closed by fixpoint and tasks bounded by depth). Trusts rustc, the tracking allocator of the harness and the ordered-map model; keys outside the universes are covered by the structural symmetry of node positions only."
N_ENUM = "Every assignment of key sets over the stated universes to the operands is run; nothing is sampled. Trusts the harness' set-algebra evaluator; larger key sets are not enumerated."
C = {
 "P01": ("model_checking", BFS, N_BFS),
 "P02": ("model_checking", BFS + "; plus exhaustive fill/drain families for full nodes", N_BFS),
 "P03": ("model_checking", BFS + "; every state is iterated completely, partially and past the end", N_BFS),
 "P04": ("model_checking", BFS + "; the views are compared and written through in every state", N_BFS),
 "P05": ("exploration", ENUM, N_ENUM),
 "P06": ("exploration", ENUM, N_ENUM),
 "P07": ("exploration", ENUM, N_ENUM),
 "P08": ("exploration", ENUM, N_ENUM),
 "P09": ("exploration", ENUM + "; every call of the user functions is logged with its argument and compared with the exact expected call sequence", N_ENUM),
 "P10": ("exploration", "bounded exhaustive enumeration of operator expressions (generated by macros, each separately compiled) x operand contents x access paths on the real code against a set-algebra model", N_ENUM + " Expressions beyond the nesting bound are not compiled."),
 "P11": ("model_checking", BFS + "; initial states are the results of materialising every lazy expression over every operand contents", N_BFS),
 "P12": ("model_checking", BFS + "; values and allocations are tracked, memory of freed blocks is poisoned and bounds are guarded", N_BFS + " Aliasing rules of the language (as Miri would check them) are not part of the check."),
 "P14": ("exploration", "bounded exhaustive enumeration of configurations, border indices and operations on the real code", "All widths and depths; indices are all borders of nodes at all levels and the neighbours of the range's ends, not every integer."),
 "P15": ("model_checking", BFS + "; every node mask on every level is compared with the contents below it, and lazy operators over all pairs of contents", N_BFS),
 "P18": ("model_checking", BFS + "; several trees per state, with the raw memory each owns hashed before and after operations on the others", N_BFS),
 "P19": ("model_checking", "explicit-state search over all operation cycles up to a length; each cycle is repeated on the real code until its live allocation is periodic", N_BFS),
 "P16": ("exploration", "stateless model checking of the cursor: every protocol-conforming sequence of selections up to a length, for every operand contents, each answer compared with a fresh cursor and with a set-algebra model", "Exhaustive over the stated sequence lengths, child alphabets (present children and one absent per level) and contents."),
 "P17": ("exploration", "bounded exhaustive enumeration of masks and operation sequences on the real code against a plain set of positions", "All masks of 8/16-bit words; border masks of wider words; operation sequences up to the stated depth."),
 "P22": ("exploration", "bounded exhaustive enumeration of loop bounds, directions and stopping points (each compiled) on the real code", "Bounds 0..9 in both directions, every stopping point, nested loops; larger bounds go through the same macro arms."),
 "P13": ("fault_enumeration", BFS.replace("explicit-state model checking", "explicit-state model checking with fault injection") + "; every user call of every operation in every state panics once", "Exhaustive over the stated key universes, state bounds and fault points. Panics during unwinding (double panics) abort the process and are outside."),
 "P20": ("exploration", "bounded exhaustive enumeration of configurations x a fixed exhaustive family of histories, expressions and masks; one program built per configuration, outputs compared line by line with the reference configuration and with the model", "x86-64 only; configurations this machine cannot execute are left out; the compilers installed are those compared."),
 "P21": ("fault_enumeration", BFS.replace("explicit-state model checking", "explicit-state model checking with fault injection") + "; every allocation of every transition is refused once, each in a forked process", "One refused allocation per run. An unwinding alloc_error_hook (unstable) is outside."),
 "P24": ("exploration", "bounded exhaustive enumeration of container types x placements x histories x access paths on the real code, each call executed under an instruction-counting monitor (processor trap flag) and compared with the costliest small tree of the same type", "Cost is machine instructions of an unvectorised x86-64 build without assertions; the allocator's work is left out of it and counted in bytes instead. Costs up to twice the reference plus 300 instructions pass, so a dependence on the number of keys is found where it shows at 70 000 keys (300 000 thorough); a logarithmic one would not be."),
 "P25": ("exploration", "bounded exhaustive enumeration of operator expressions x operand contents on the real code, with instrumented user-implemented operands that record every call; calls are checked against the traversal contract and against the set of nodes the masks admit", "Exhaustive over the stated expressions (macro-generated, each compiled), contents and node universes, exact operands and operands with stale empty branches. Trusts the recording operand."),
 "P26": ("exploration", "bounded exhaustive enumeration of operation histories, operand contents and panic points on the real code, each executed in the Miri interpreter as the monitor", "Undefined behaviour is what Miri (tree borrows) reports on x86-64; bounds are small because interpretation is slow (histories of 2-3 operations, operand contents over 2-3 keys). Leaks after a panic are not reported."),
 "P23": ("exploration", ENUM + "; every item sequence is consumed in every combination of single steps, clones and bulk styles", N_ENUM),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if i in C:
        l, t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check builds its own binary against /repo's working tree (harness/, path dependency). No hooks in /repo are needed. './check.sh <ID> --replay <file>' re-runs the case named in a VIOLATION line. known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
