#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}}
    P.append(d)
QC = "the tests sample this with quickcheck on a few hundred small random values of one element type and one inline capacity; "

p("C01", "Set operations on sorted-vector sets are exact",
  "For every two sets (of any sizes, size ratio, inline capacity, storage spilled to the heap or not), the by-reference union, intersection, symmetric difference and difference return exactly the mathematically defined set, again strictly ascending, whichever of the operator, the method and the trait form is used. An element present in both operands appears in the result as the left operand's copy, and neither operand changes.",
  "all pairs of sets over any lawfully ordered, lawfully clonable element type, including types whose equal values are distinguishable",
  QC + "which algorithm runs (linear, binary, galloping merge) depends on size ratios they barely reach, and equal-but-distinguishable elements are never used",
  ["src/vec_set.rs", "src/merge_state.rs", "src/iterators.rs"],
  [("four merge operations over sorted slices", "src/vec_set.rs SetUnionOp/SetIntersectionOp/SetXorOp/SetDiffOpt"), ("allocating merge state", "src/merge_state.rs SmallVecMergeState"), ("merge algorithm", "binary-merge MergeOperation::merge/tape_merge/binary_merge")])
p("C02", "In-place set operations give exactly the by-reference result",
  "For every two sets, each in-place operation (compound assignment with an owned or a borrowed right operand, and the corresponding named in-place method) leaves the left set equal to the result of the by-reference operation, strictly ascending and fully usable. It never panics, and every element of both operands is afterwards either in exactly one collection or dropped exactly once.",
  "all pairs of sets, all four operations, owned and borrowed right operands, inline and spilled storage",
  QC + "two of the eight borrowed in-place methods were never executed by any test, and element identity and drop counts are not observed",
  ["src/vec_set.rs", "src/merge_state.rs"],
  [("in-place merge states over one vector with a read and a write cursor", "src/merge_state.rs InPlaceSmallVecMergeState, InPlaceSmallVecMergeStateRef"), ("gap builder", "inplace-vec-builder InPlaceSmallVecBuilder")])
p("C03", "Set membership, subset, superset and disjointness are exact",
  "For every two sets and every value, membership, emptiness, subset, superset and disjointness answer exactly what the mathematical definition says, for every size ratio of the operands, and do not change them.",
  "all pairs of sets and all probe values over any lawfully ordered element type",
  QC + "the predicates stop early at data dependent positions of three different merge strategies",
  ["src/vec_set.rs", "src/merge_state.rs"],
  [("boolean merge state with early exit", "src/merge_state.rs BoolOpMergeState"), ("binary search", "src/vec_set.rs AbstractVecSet::contains")])
p("C04", "A sorted-vector set stays sorted and exact under construction and mutation",
  "Whatever sequence of constructions (from an iterator, a vector, an ordered std set, a single element), insertions, removals, retains and extensions is applied, the set is always strictly ascending and contains exactly the elements the mathematical set would. Insert replaces an equal element and reports whether the element was new; remove reports whether the element was present; retain keeps exactly the elements its predicate accepts; iteration yields every element once in ascending order.",
  "all sequences of operations with all arguments",
  QC + "sequences of mutations are not generated at all",
  ["src/vec_set.rs", "src/dedup.rs", "src/iterators.rs"],
  [("binary search insert/remove", "src/vec_set.rs VecSet::insert, remove"), ("bulk construction", "src/vec_set.rs From/FromIterator/Extend, src/dedup.rs sort_dedup")], over=("inputs", "histories"))
p("C05", "Sort-and-deduplicate keeps exactly one element per key, the documented one",
  "For every finite input sequence, sorting and deduplicating yields a strictly ascending sequence containing exactly one representative per equivalence class of the ordering: the first occurrence when deduplicating by value, the last occurrence when deduplicating by key. This holds for both result storages, for inputs of any length and order, and with arbitrarily many duplicates.",
  "all input sequences, all lawful orderings and key functions",
  QC + "compaction happens at data dependent moments during the collection, which a few random inputs do not cover",
  ["src/dedup.rs"],
  [("incremental sort and dedup aggregator", "src/dedup.rs SortAndDedup::push, sort_and_dedup, into_vec"), ("keep-last dedup", "src/dedup.rs dedup_by")])
p("C06", "Map lookups and single-entry updates are exact",
  "For every sorted-vector map and every key, lookup returns exactly the value last stored for that key or nothing; insert returns the previous value and stores the new one; retain, extension, in-place value access, value mapping and construction from unsorted pairs (the last value per key wins) behave like the mathematical map, and turning the map into a vector or a set of its pairs yields exactly its pairs in order. Keys stay strictly ascending after every operation.",
  "all maps, keys, values and sequences of these operations",
  QC + "sequences of operations and in-place value updates are not generated",
  ["src/vec_map.rs", "src/dedup.rs"],
  [("binary search by key", "src/vec_map.rs AbstractVecMap::get, VecMap::insert, get_mut"), ("bulk construction", "src/vec_map.rs FromIterator/From/Extend")], over=("inputs", "histories"))
p("C07", "Joins of sorted-vector maps are exact",
  "For every two maps and every pure combining function, the by-reference outer, left, right and inner join return exactly the map that the corresponding relational join defines: the function is applied to the values of exactly the keys the join covers, with the values of the left and right map on the correct sides, and an entry is kept exactly when the function returns a value. The result's keys are strictly ascending and the operands do not change.",
  "all pairs of maps, all pure combining functions",
  QC + "only a few fixed combining functions are used",
  ["src/vec_map.rs", "src/merge_state.rs"],
  [("join merge operations", "src/vec_map.rs OuterJoinOp, LeftJoinOp, RightJoinOp, InnerJoinOp"), ("allocating merge state", "src/merge_state.rs SmallVecMergeState")])
p("C08", "In-place joins of sorted-vector maps equal the by-reference joins",
  "For every two maps and every pure combining function, the in-place outer, left, right and inner join (and the combining union) leave the left map equal to what the by-reference join with the same semantics returns, with strictly ascending keys. No entry is lost, duplicated or dropped twice, whatever the function decides to keep.",
  "all pairs of maps, all pure combining functions",
  QC + "only a few fixed combining functions are used, and drop counts are not observed",
  ["src/vec_map.rs", "src/merge_state.rs"],
  [("in-place join operations", "src/vec_map.rs OuterJoinWithOp, LeftJoinWithOp, RightJoinWithOp, InnerJoinWithOp, CombineOp"), ("in-place merge states", "src/merge_state.rs InPlaceSmallVecMergeState(Ref)")])
p("C09", "Complementable sets form an exact boolean algebra",
  "For every two complementable sets (finite sets or complements of finite sets) union, intersection, symmetric difference, difference and complement, in by-reference and in-place form, give a set that contains a value exactly when the boolean combination of membership in the operands says so. The representation stays canonical: the finite list is strictly ascending and the result is negated exactly when it is co-finite.",
  "all pairs of complementable sets (all four combinations of negation) and all probe values",
  QC + "each negation combination selects a different underlying operation and operand order",
  ["src/total_vec_set.rs", "src/vec_set.rs"],
  [("negation case analysis", "src/total_vec_set.rs operator impls")])
p("C10", "Predicates on complementable sets are exact",
  "For every two complementable sets over an unbounded universe of values, emptiness, fullness, membership, subset, superset and disjointness answer exactly what the mathematical definition says, for all four combinations of negated and plain operands.",
  "all pairs of complementable sets over element types that are not exhausted by a finite list",
  QC + "superset was never called by a test (and was wrong)",
  ["src/total_vec_set.rs"],
  [("negation case analysis", "src/total_vec_set.rs is_subset, is_superset, is_disjoint")])
p("C11", "Total maps combine pointwise and stay canonical",
  "For every total map and every key, lookup returns the stored value or the default. Combining two total maps, mapping values, and the arithmetic and lattice operators give a total map whose value at every key is the function applied to the operands' values at that key; no entry equal to the default is stored, so two total maps are equal exactly when they agree on every key.",
  "all pairs of total maps, all keys, all pure combining functions",
  QC + "equality was only compared between maps with the same default",
  ["src/total_vec_map.rs", "src/vec_map.rs"],
  [("combine via outer join with defaults", "src/total_vec_map.rs combine, fast_combine"), ("default elimination", "src/total_vec_map.rs new, insert, combine")])
p("C12", "Radix tree lookup is exact",
  "For every radix tree built through the public interface and every key, lookup and key membership return exactly the value stored under that key or nothing, including for the empty key, for keys that are proper prefixes or extensions of stored keys, and for keys that diverge inside a compressed edge.",
  "all trees reachable through the public interface, all key sequences",
  QC + "keys are random byte strings that rarely share long prefixes",
  ["src/radix_tree/mod.rs", "src/radix_tree/flat_radix_tree.rs"],
  [("prefix comparison and child binary search", "src/radix_tree/mod.rs find, AbstractRadixTree::get, contains_key")])
p("C13", "Radix tree functional combinators are exact",
  "For every two radix trees and every pure combining function, the outer, inner and left combine (and the union, intersection and difference built on them) return the tree whose mapping is the function applied key by key, with keys of only one operand kept or dropped as the kind of combine says, and the operands do not change.",
  "all pairs of trees and all pure combining functions",
  QC + "only unit values are used, so the sides of the combining function are not observable",
  ["src/radix_tree/mod.rs", "src/merge_state.rs"],
  [("prefix case analysis", "src/radix_tree/mod.rs outer_combine, inner_combine, left_combine"), ("child list merge", "src/merge_state.rs VecMergeState")])
p("C14", "Radix tree in-place combinators equal the functional ones",
  "For every two radix trees and every pure combining function, the in-place outer, inner and left combine (and in-place union, intersection, difference and single-key insertion) leave the tree equal to the mapping the functional combine defines.",
  "all pairs of trees and all pure combining functions",
  QC + "only unit values are used",
  ["src/radix_tree/mod.rs", "src/merge_state.rs"],
  [("split, merge children, unsplit", "src/radix_tree/mod.rs outer_combine_with, inner_combine_with, left_combine_with"), ("in-place child list merge", "src/merge_state.rs InPlaceVecMergeStateRef")])
p("C15", "Radix trees stay canonical, so equality is equality of contents",
  "After any sequence of public operations a radix tree is canonical: children are strictly ascending by the first component of their non-empty edge label, no child is empty, and no valueless node has exactly one child. Consequently two trees compare equal exactly when they hold the same mapping, however they were built.",
  "all histories of public operations on trees",
  QC + "they compare results of single operations only",
  ["src/radix_tree/mod.rs"],
  [("canonicalisation", "src/radix_tree/mod.rs unsplit"), ("ordered child list", "src/radix_tree/mod.rs merge operations over children")], over=("inputs", "histories"))
p("C16", "Radix tree prefix operations select exactly the keys with the prefix",
  "For every radix tree and every prefix, filtering by prefix keeps exactly the keys that start with it, prepending adds it to every key, scanning a prefix yields exactly the entries below it, and the prefix-based retain and remove operations with another tree keep, respectively remove, exactly the keys that have a selected key of the other tree as a prefix.",
  "all trees, prefixes and selection predicates",
  QC + "the selection predicate is always constant true",
  ["src/radix_tree/mod.rs"],
  [("prefix navigation", "src/radix_tree/mod.rs filter_prefix, scan_prefix, prepend"), ("prefix set operations", "src/radix_tree/mod.rs remove_prefix_with, retain_prefix_with")])
p("C17", "Radix tree iteration is complete, ordered and duplicate-free",
  "For every radix tree, iterating over all entries, over the values, or over the entries below a prefix yields every mapping concerned exactly once, in ascending lexicographic key order with a key before its extensions, and with the correct full key attached.",
  "all trees",
  "iteration order and completeness are only exercised indirectly by test helpers on tiny trees",
  ["src/radix_tree/mod.rs"],
  [("explicit stack iterator with a shared key buffer", "src/radix_tree/mod.rs Iter, IterKey, Values, scan_prefix")])
p("C18", "Radix tree predicates are exact",
  "For every two radix trees, is_subset, is_superset, is_disjoint and intersects answer exactly what quantifying over all keys says.",
  "all pairs of trees",
  QC + "the two trees of a pair are independent, so that inclusion almost never holds",
  ["src/radix_tree/mod.rs", "src/merge_state.rs"],
  [("prefix case analysis", "src/radix_tree/mod.rs is_subset0, intersects0"), ("boolean merge state", "src/merge_state.rs BoolOpMergeState")])
p("C19", "Snapshots of shared radix trees are immutable",
  "Cloning a reference-counted or lazily loaded radix tree and then mutating either copy never changes what the other copy contains.",
  "all histories of clone and mutation",
  "no test mutates a tree while a clone of it is alive and inspects the clone",
  ["src/radix_tree/arc_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs"],
  [("copy on write", "src/radix_tree/arc_radix_tree.rs children_mut (Arc::make_mut)")], over=("histories",))
p("C20", "All radix tree flavours behave identically",
  "For every sequence of operations the reference-counted, lazily loaded and archived flavours hold and report exactly the same mapping as the plain flavour.",
  "all trees and all operations", "the tests exercise nearly only the plain flavour",
  ["src/radix_tree/arc_radix_tree.rs", "src/radix_tree/lazy_radix_tree.rs", "src/radix_tree/flat_radix_tree.rs"],
  [("one generic implementation over node accessors", "src/radix_tree/mod.rs AbstractRadixTree")], over=("inputs", "histories"))
p("C21", "Deserialisation of untrusted data never breaks the ordering invariant",
  "Serialising any set, map, total set or total map and deserialising it gives an equal collection, and deserialising any other well-formed sequence of elements or entries, sorted or not, with or without duplicates, whatever length the input announces, gives a strictly ascending collection with the same elements (for maps, the first entry of each key).",
  "all values and all serialised sequences", "only round trips of collections that are already sorted are tested",
  ["src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs"],
  [("visitors that sort and dedup", "src/vec_set.rs, src/vec_map.rs Visitor impls")])
p("C22", "Archived collections round-trip and invalid archives are rejected",
  "Archiving and restoring any collection gives an equal collection, the archived form answers lookups and predicates like the original, and validation rejects every archive whose elements are not strictly ascending or whose tree nodes have an empty-labelled or out-of-order child, without reading outside the archive.",
  "all collections and all byte buffers offered for validation", "a handful of hand-written archives are validated",
  ["src/vec_set.rs", "src/vec_map.rs", "src/radix_tree/flat_radix_tree.rs", "src/radix_tree/arc_radix_tree.rs"],
  [("CheckBytes implementations", "src/vec_set.rs, src/vec_map.rs, src/radix_tree/*.rs")])
p("C23", "Equality, ordering and hashing of collections are consistent",
  "For all collections of one kind, equality, ordering and hashing are consistent with each other and with the contents: collections are equal exactly when their contents are, equal collections hash equally, and ordering is the lexicographic total order of the contents.",
  "all pairs of collections", "hashing and ordering are not tested",
  ["src/vec_set.rs", "src/vec_map.rs", "src/total_vec_set.rs", "src/total_vec_map.rs"],
  [("delegation to the sorted slice", "src/vec_set.rs, src/vec_map.rs trait impls")])
p("C24", "Joins on std ordered maps equal the mathematical joins",
  "For every two std ordered maps and every pure combining function, the outer, left, right and inner join, and the in-place outer, left and inner join, produce the mapping of the corresponding relational join.",
  "all pairs of maps and all pure combining functions", "only a few fixed functions and small maps are sampled",
  ["src/btree_map.rs"],
  [("entry API walk and retain", "src/btree_map.rs")])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
