#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here, one entry per property)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Dense container is a faithful map under every history",
  "After any sequence of insert, get-or-insert and remove calls, a dense container of any depth answers lookups (checked and unchecked), removals and iteration exactly as an ordered map from integer keys to values would: the last value written, nothing for absent keys, the removed value returned once. No operation disturbs any other key.",
  ["histories", "inputs"], "every operation sequence, every key in the index range, every depth 1..8, every value type",
  "Unit tests insert a few keys into depth 3-5 trees; the fuzz test samples random histories of one shape. Slot reuse, node growth/shrink steps and whole-branch removal depend on the exact order of operations.",
  ["src/dense_tree.rs", "src/dense_tree/node.rs"],
  [("insert_impl / get_or_insert / remove", "src/dense_tree.rs"), ("Node::insert, remove, with_capacity, from_parts", "src/dense_tree/node.rs")],
  ["insert", "get_or_insert", "remove", "get", "get_unchecked", "iter"],
  [("node mask + packed children", "which children exist and where", "src/dense_tree/node.rs")])
p("P02", "Sparse container is a faithful map for every width, depth and history",
  "After any sequence of insert, get-or-insert-default, mutable access and remove calls, a sparse container of any width and depth answers lookups, removals and iteration exactly as an ordered map would. This includes completely filling a node or a whole small tree, and writes through mutable access.",
  ["histories", "inputs", "configurations"], "every operation sequence, every key in range, all width (64,128,256) x depth (1..8) configurations, compact and wide node representations",
  "Tests use a handful of configurations and random keys; node representation switches (inline 7-slot block to full block), free-list reuse and full-capacity fills need specific sequences.",
  ["src/sparse_tree.rs", "src/sparse_tree_levels.rs", "src/level/intrusive_list_level.rs", "src/level/single_block_level.rs", "src/level_block/small_block.rs", "src/level_block/cluster_block.rs", "src/level_block/block.rs", "src/config.rs"],
  [("get_or_insert_impl / remove", "src/sparse_tree.rs"), ("block slots and free list", "src/level/intrusive_list_level.rs"), ("inline/wide small block", "src/level_block/small_block.rs")],
  ["insert", "get", "get_mut", "get_or_default", "remove", "iter"],
  [("level blocks", "per-level arena with intrusive free list", "src/level/intrusive_list_level.rs"), ("data/keys arrays", "packed values and their keys, swap-removed", "src/sparse_tree.rs")])
p("P03", "Iteration is complete, strictly ordered, and stays finished",
  "Iterating any tree yields each present key exactly once, in strictly increasing key order, together with that key's value, and nothing else. Once the end was reported, asking again keeps reporting the end; taking only part of an iteration and dropping it has no effect.",
  ["inputs", "histories"], "every set of keys, in every container shape and after every history",
  "Tests iterate over random keys which rarely touch node borders (first/last bit of a mask word, last child of a node, empty siblings).",
  ["src/iter.rs", "src/bit_queue.rs"], [("Iter::next", "src/iter.rs"), ("bit queue traversal", "src/bit_queue.rs")],
  ["iter", "LendingIterator::next"])
p("P04", "Unordered key-value views agree with lookup and allow in-place updates",
  "The contiguous key/value views list exactly the present keys, each once, with exactly the value a lookup of that key gives, whatever insertions and removals happened before. Changing a value through the mutable view changes exactly what lookup and iteration of that key give afterwards.",
  ["histories"], "every history of insertions, removals and in-place updates, all container shapes",
  "Value slots move when an unrelated key is removed; the few tests of the views never remove in all positions.",
  ["src/dense_tree.rs", "src/sparse_tree.rs"], [("key_values, key_values_mut", "src/dense_tree.rs"), ("keys array swap_remove", "src/sparse_tree.rs")],
  ["key_values", "key_values_mut"])
p("P05", "Intersection of two trees contains exactly the common keys",
  "The lazy intersection of any two trees of one shape contains exactly the keys present in both, each paired with the left and the right tree's values in that order. Lookup, unchecked lookup, iteration and cursor access all agree.",
  ["inputs", "programs"], "every pair of key sets, of all tree kinds and mixes, operands by value or by reference",
  "Tests intersect a few hand-written sets in one shape; agreement between lookup, iteration and cursor paths is not compared.",
  ["src/ops/intersection.rs"], [("Intersection::data, Cursor::select_level_node", "src/ops/intersection.rs")], ["get", "get_unchecked", "iter", "cursor"])
p("P06", "Union of two trees contains exactly the keys of either",
  "The lazy union of any two trees of one shape contains exactly the keys present in at least one, each with the optional value of the left and of the right tree, and never an entry with neither. Lookup, unchecked lookup, iteration and cursor access all agree.",
  ["inputs", "programs"], "every pair of key sets, of all tree kinds and mixes, operands by value or by reference",
  "Whether a node is present in only one operand at each level decides the path taken; tests use few combinations.",
  ["src/ops/union.rs"], [("Union::data, Cursor::select_level_node", "src/ops/union.rs")], ["get", "get_unchecked", "iter", "cursor"])
p("P07", "Intersection of many trees contains exactly the keys common to all",
  "The intersection of any number of trees (none to 32) contains exactly the keys present in every one, and its items are those trees' values in operand order, one per tree; the intersection of no trees is empty. Every access path agrees; with more than 32 trees an access may refuse by panicking but never gives a wrong answer.",
  ["inputs", "programs"], "every list of 0..32 operands and assignment of key sets, any cloneable source of operands, repeated and lazy operands",
  "Tests use three trees and one access path; empty operand lists, 1-level trees, unchecked cursor selection and large operand counts are not covered.",
  ["src/ops/_multi_intersection.rs"], [("MultiIntersection::data", "src/ops/_multi_intersection.rs"), ("Cursor::select_level_node(_unchecked), data", "src/ops/_multi_intersection.rs")], ["get", "get_unchecked", "iter", "cursor"])
p("P08", "Union of many trees contains exactly the keys of at least one",
  "The union of any number of trees (none to 32) contains exactly the keys present in at least one of them, and its items are the values of those trees that have the key, in operand order. Every access path agrees; with more than 32 trees an access may refuse by panicking but never gives a wrong answer.",
  ["inputs", "programs"], "every list of 0..32 operands and assignment of key sets, any cloneable source of operands, repeated and lazy operands",
  "Tests use three trees and one access path; which operands drop out at which level decides which values are read.",
  ["src/ops/_multi_union.rs"], [("MultiUnion::data", "src/ops/_multi_union.rs"), ("Cursor::select_level_node, data", "src/ops/_multi_union.rs")], ["get", "get_unchecked", "iter", "cursor"])
p("P09", "Map and fold apply the user's functions exactly once per access",
  "A mapped tree has exactly the keys of its source, and reading a key gives the function applied to the source's value; a folded tree starts from one fresh initial value and applies the step function to each item once, in operand order. The functions run only when an existing element is read, once per read element, and never while building the tree, opening it, or navigating it.",
  ["inputs", "programs"], "every source contents, every source kind, every access path",
  "Tests compare a few results only; extra, missing or reordered calls of side-effecting functions are invisible to them.",
  ["src/ops/map.rs", "src/ops/multi_map_fold.rs"], [("Map::data, Cursor::data", "src/ops/map.rs"), ("MultiMapFold::data, Cursor::data", "src/ops/multi_map_fold.rs")], ["get", "get_unchecked", "iter", "cursor", "call counts of the user functions"])
p("P10", "Nested lazy expressions agree with set algebra on every access path",
  "Any expression built from intersections, unions, many-way intersections and unions, maps and folds over trees of one shape has exactly the keys and values that evaluating the same expression on plain sets gives. Lookup, unchecked lookup, iteration and cursor navigation all agree, however the operands are nested or borrowed.",
  ["programs", "inputs"], "every expression up to a nesting depth and every assignment of key sets to its leaves",
  "There are hundreds of two-level operator combinations and each one is separately monomorphised code; tests have a few. Inexact inner nodes make empty subtrees appear at all levels.",
  ["src/ops/intersection.rs", "src/ops/union.rs", "src/ops/_multi_intersection.rs", "src/ops/_multi_union.rs", "src/ops/map.rs", "src/ops/multi_map_fold.rs", "src/iter.rs"],
  [("cursor composition", "src/ops"), ("iteration over inexact hierarchies", "src/iter.rs")], ["get", "get_unchecked", "iter", "cursor"])
p("P11", "Materialising a lazy tree gives an equal, fully functional container",
  "Materialising any lazy tree gives a container with exactly the lazy tree's keys and values, and with no empty branches. The result then behaves as any other container under every later history of operations, and dropping it drops each value once.",
  ["programs", "inputs", "histories"], "every lazy expression and contents, followed by every short history of operations",
  "Tests compare keys right after materialising a few expressions; broken node bookkeeping shows only in later insertions, removals or drop.",
  ["src/dense_tree/from.rs", "src/dense_tree/node.rs"], [("FromHibitTree", "src/dense_tree/from.rs"), ("NodePtr::from_parts", "src/dense_tree/node.rs")], ["materialize", "get", "insert", "remove", "iter", "drop"])
p("P12", "Every stored value is dropped exactly once and memory use is sound",
  "Over any history, each value handed to a container is either handed back to the caller or dropped exactly once, references given out point at live, intact, correctly aligned values, and no memory is read, written or freed outside what is owned. When the container is dropped, nothing remains allocated.",
  ["histories"], "every history ending in drop at every point, values of all layouts: zero-sized, one byte, word, large over-aligned, heap-owning",
  "Tests store plain integers, where double drops and leaks are invisible, and never under an allocation checker.",
  ["src/dense_tree.rs", "src/dense_tree/node.rs", "src/sparse_tree.rs", "src/level_block/small_block.rs", "src/level_block/cluster_block.rs", "src/level_block/block.rs"],
  [("raw node allocation and growth", "src/dense_tree/node.rs"), ("Drop impls", "src/dense_tree.rs, src/sparse_tree.rs"), ("placeholder slot", "src/dense_tree.rs, src/sparse_tree.rs")], ["drop counts", "allocator", "references"])
p("P13", "A panic in user code leaves containers consistent",
  "When user code panics inside an operation - a default constructor, a value's destructor, a mapping or folding function, also while materialising - no value is dropped twice, no uninitialised value is touched, and every container involved still behaves as an ordered map that has either the old or the new content for the affected key. Empty branches never appear because of it.",
  ["fault_sequences", "histories"], "every call of user code that can panic, in every container state and operation",
  "Tests contain no panicking user code at all.",
  ["src/dense_tree.rs", "src/sparse_tree.rs", "src/dense_tree/from.rs", "src/utils/lazy_value.rs"],
  [("drop order and placeholder handling", "src/dense_tree.rs, src/sparse_tree.rs"), ("partial materialisation", "src/dense_tree/from.rs")], ["catch_unwind around operations", "drop counts", "later histories"])
p("P14", "The index range is what width and depth say, and is enforced",
  "Each tree's reported index range is from zero to width-to-the-power-depth (limited by the machine word), every index inside it can be inserted, found, iterated and removed, and every safe operation given an index outside it refuses by panicking without changing anything. It never aliases another key.",
  ["inputs", "configurations"], "all widths and depths, all border indices and their neighbours, all safe operations",
  "Overflow only shows in configurations whose capacity is near or beyond the word size, which tests do not touch.",
  ["src/hibit_tree.rs", "src/bit_utils.rs", "src/config.rs"], [("Index::from", "src/hibit_tree.rs"), ("level_indices", "src/bit_utils.rs"), ("index_range", "src/hibit_tree.rs")], ["index_range", "insert/get/remove/iter at the borders"])
p("P15", "Hierarchy masks are exact where promised and never miss a branch",
  "In a tree that promises an exact hierarchy every bit of every node's mask is set exactly when the branch below holds at least one element, after any history; in a tree that does not promise it, a set bit may be stale but a clear bit always means the branch is empty. Terminal masks are always exact.",
  ["histories", "programs"], "all containers after all histories, all lazy operators over them",
  "Masks are invisible in the public results of tests until an optimisation relies on them.",
  ["src/dense_tree.rs", "src/sparse_tree.rs", "src/ops", "src/hibit_tree.rs"], [("EXACT_HIERARCHY", "src/hibit_tree.rs and each operator"), ("mask maintenance on insert/remove", "src/dense_tree.rs, src/sparse_tree.rs")], ["cursor masks"])
p("P16", "Cursor answers depend only on the currently selected path",
  "A cursor that follows the documented protocol gives, at every level and for every child index, the same masks and data whatever paths it visited before, including paths through absent nodes and re-selection from any intermediate level. Checked and unchecked selection agree wherever the unchecked one is allowed.",
  ["histories", "inputs", "programs"], "every sequence of selections that respects the protocol up to a length, over all contents and tree kinds",
  "Cursors cache per-level state; iteration visits nodes in one fixed order and so exercises few of the possible sequences.",
  ["src/hibit_tree.rs", "src/dense_tree.rs", "src/sparse_tree.rs", "src/ops"], [("HibitTreeCursor impls", "src/dense_tree.rs, src/sparse_tree.rs, src/ops/*"), ("per-level cursor state", "src/ops/_multi_union.rs, src/ops/_multi_intersection.rs")], ["select_level_node", "select_level_node_unchecked", "data", "data_unchecked"])
p("P17", "Bit blocks and bit queues behave as sets of bit positions",
  "Every bit block and bit queue operation (test, set, clear, count, iterate, traverse, trim, combine) gives the result the same operation gives on a plain set of positions, for every width. Iterating a queue yields the remaining positions in increasing order exactly once, also after early stop or trimming.",
  ["inputs", "histories"], "every mask of the small primitives exhaustively, every operation sequence up to a depth, border patterns of the wide blocks",
  "Tests touch a few masks; trimming at word borders, full/empty words and resuming after an early stop need specific inputs.",
  ["src/bit_queue.rs", "src/bit_block.rs", "src/bit_utils.rs", "src/utils/primitive.rs"], [("BitQueue impls", "src/bit_queue.rs"), ("BitBlock impls", "src/bit_block.rs")], ["BitBlock methods", "BitQueue methods"])
p("P18", "Trees are isolated and reading leaves no trace",
  "No operation on one tree changes what any other tree contains or the memory it owns. Lookups, iteration, cursors, lazy operators and removals of absent keys change nothing in any tree and retain no memory.",
  ["histories", "programs"], "every interleaving of operations on several trees of equal and different types, every read operation in every state",
  "Shared empty nodes and placeholders are process-wide; tests never check that a second tree is untouched.",
  ["src/dense_tree/node.rs", "src/level_block/small_block.rs", "src/sparse_tree.rs"], [("shared empty node", "src/dense_tree/node.rs"), ("empty block at index zero", "src/level/intrusive_list_level.rs")], ["contents and raw memory of the other tree"])
p("P19", "Memory is reused: the footprint is bounded by the peak contents",
  "Repeating a cycle of operations that returns to the same contents never makes a container's memory grow without bound: removed keys' slots and branches are released or reused. A tree emptied of its keys holds no more branches than it needs.",
  ["histories"], "every cyclic history up to a length, repeated",
  "Tests never look at memory; lost free-list entries or leaked nodes do not change answers.",
  ["src/level/intrusive_list_level.rs", "src/dense_tree.rs", "src/dense_tree/node.rs"], [("insert_block / remove_block free list", "src/level/intrusive_list_level.rs"), ("branch release on remove", "src/dense_tree.rs")], ["allocator"])
p("P20", "Build configuration never changes behaviour",
  "Every supported feature selection (with or without SIMD, with may-dangle), target feature set and optimisation level builds and gives the same observable results for the same operations. With may-dangle, containers can hold references whose targets are dropped at the same time.",
  ["configurations", "histories"], "all supported feature and target-feature combinations x the histories of a fixed exhaustive suite",
  "The test suite runs in one configuration; others contain different code (bit manipulation, block types, drop attributes).",
  ["Cargo.toml", "src/bit_utils.rs", "src/bit_block.rs", "src/config.rs", "src/dense_tree.rs", "src/sparse_tree.rs"], [("cfg(feature), cfg(target_feature)", "src/bit_utils.rs, src/bit_block.rs, src/sparse_tree.rs")], ["digest of all results of the suite"])
p("P21", "Allocation failure never becomes memory corruption",
  "When the allocator refuses any single allocation during an operation, the process ends through the standard allocation-error or panic path; it never goes on with a null or partial object and never crashes by touching invalid memory. Operations that succeed under the failure leave correct contents.",
  ["fault_sequences"], "every allocation of every operation of every short history, refused one at a time",
  "Tests never run out of memory.",
  ["src/dense_tree/node.rs", "src/level_block/cluster_block.rs", "src/level_block/small_block.rs", "src/level_block/block.rs"], [("raw alloc calls", "src/dense_tree/node.rs, src/level_block/*.rs")], ["how the process ends"])
p("P22", "Compile-time loops and integers count exactly",
  "A compile-time loop from a to b calls its body once for each integer of that half-open range, in increasing (or, reversed, decreasing) order, with the matching typed constant, and stops early exactly when told to. Typed constants convert, increment and decrement to the numbers they denote.",
  ["inputs", "programs"], "every pair of bounds and every early-stop position up to the supported maximum",
  "Tests instantiate one or two ranges.",
  ["src/const_utils/const_loop.rs", "src/const_utils/const_int.rs", "src/const_utils/const_array.rs", "src/const_utils/cond_type.rs"], [("const_for, const_for_rev", "src/const_utils/const_loop.rs"), ("ConstInteger", "src/const_utils/const_int.rs")], ["sequence of calls"])
p("P23", "Item iterators of many-way operations give the same items however consumed",
  "The per-key item sequence of a many-way intersection or union is the same whether consumed step by step, all at once, partly, through a clone taken at any point, or by internal iteration, for looked-up and for iterated items alike. Size hints never lie about the number of remaining items.",
  ["inputs", "histories"], "every operand presence pattern x every way and point of switching between consumption styles",
  "Tests sum the items; step-wise use, clones and partial use of the optimised internal iteration are not compared.",
  ["src/ops/_multi_intersection.rs", "src/ops/_multi_union.rs"], [("CursorData, ResolveIter, DataUnchecked iterators", "src/ops/_multi_intersection.rs, src/ops/_multi_union.rs")], ["next", "fold", "size_hint", "clone"])
p("P24", "Cost of access is bounded by the number of levels",
  "Looking up, inserting and removing a key, opening an iteration or the key and value views, and taking one step of an iteration take a number of steps that depends on the number of levels and the width of the nodes only - never on how many keys the container holds, held before, or where they are; this goes for containers and for lazy operators over them. Storage growth pays for itself: a sequence of insertions and removals allocates no more than a constant times what is in use. Iterating or materialising an intersection costs what its common part costs, however large the operands are outside of it.",
  ["histories", "inputs"], "every container type x placement and number of keys x history that led there x access path",
  "Tests compare results, and hold a few hundred keys: a search through all keys, a walk along the list of free nodes or a reallocation at every step gives the right answer.",
  ["src/dense_tree.rs", "src/dense_tree/node.rs", "src/sparse_tree.rs", "src/level/intrusive_list_level.rs", "src/iter.rs", "src/ops"],
  [("level indices from the key, one node per level", "src/lib.rs"), ("swap-remove with back references", "src/sparse_tree.rs, src/dense_tree.rs"), ("intrusive list of free nodes", "src/level/intrusive_list_level.rs"), ("mask intersection at every level", "src/ops/intersection.rs")], ["number of machine instructions executed by a call", "bytes allocated"])
p("P25", "Operators touch only what the contract and the answer need",
  "Lazy operators, iteration and materialisation use their operands - any implementation of the traversal interface, including user-written ones - only as the interface allows: nodes are selected level by level from the root, unchecked access happens only where the element exists, lookups carry the looked-up key's own path. Iterating visits only the nodes that combining the operands' masks admits, each at most once, so branches without common keys are discarded early.",
  ["inputs", "programs"], "every operator expression x every operand content x every call the operator makes on its operands",
  "Tests use the two containers, which tolerate or hide contract breaches, and compare results only; needless or repeated node visits are invisible.",
  ["src/ops", "src/iter.rs", "src/hibit_tree.rs", "src/dense_tree/from.rs"],
  [("select_level_node / data of the operator cursors", "src/ops/*.rs"), ("iterator descent", "src/iter.rs"), ("materialise descent", "src/dense_tree/from.rs")], ["calls arriving at a user-implemented operand"])
p("P26", "Safe use never executes undefined behaviour",
  "No sequence of safe operations, and no unsafe access whose documented condition holds, reads uninitialised or freed memory, goes out of bounds, makes an invalid or misaligned value, frees with a wrong layout, races references against each other or leaks, for any kind of value: zero-sized, over-aligned, with invalid bit patterns, owning memory, or panicking in user code.",
  ["histories", "inputs", "fault_sequences"], "every operation history, operand content and panic point up to a bound, each executed on an interpreter of the language's abstract machine",
  "On hardware most undefined behaviour gives the right answer; the suite is not run under an interpreter or sanitizer.",
  ["src/dense_tree/node.rs", "src/level/intrusive_list_level.rs", "src/sparse_tree.rs", "src/dense_tree.rs", "src/dense_tree/from.rs", "src/ops", "src/bit_queue.rs", "src/const_utils/cond_type.rs", "src/utils/array.rs"],
  [("raw nodes", "src/dense_tree/node.rs"), ("transmutes", "src/bit_queue.rs, src/const_utils/cond_type.rs"), ("MaybeUninit arrays", "src/utils/array.rs")], ["Miri"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
