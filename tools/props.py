"""Which verification units and which groups of obligations (tags) decide each property."""
SHIMS = " Trusted: the smallvec/slice/core shims in contracts/prelude.vrs (exercised by the bounded search), and the raw-pointer primitives in contracts/t_builder.vrs against which the gap builder of inplace-vec-builder is verified, Verus and z3; lawful Ord/Clone of the element type is a precondition."
RADIX = " Trusted: derive(Clone)/derive(PartialEq) of the node types, the shims in contracts/prelude.vrs, radix_base.vrs and radix_iter.vrs, the raw-pointer primitives in t_builder.vrs, Verus and z3. Operands are verified for every implementation of the tree interface at once (any node type whose accessors meet their contract: all three flavours and their archived forms); the result type is the RadixTree flavour here and the other two flavours in C19/C20 (overrides of the generic methods are detected). Recursion through trait impls is checked against the function's own contract, restricted to smaller operands (the induction hypothesis)."
PROPS = {
    "C01": dict(units=["t_set"], tags=["base", "merge", "smallstate", "setops", "set", "set.byref"],
        note="Proof for all inputs: the three merge strategies of binary-merge, the allocating merge state, the four set merge operations, the slice iterator and all by-reference operators, methods and trait methods carry contracts whose postcondition is the property (sorted, exact membership, left copy on collision)." + SHIMS),
    "C02": dict(units=["t_set", "t_builder"], tags=["base", "merge", "inplace", "setops", "set", "set.inplace", "builder"],
        note="Proof for all inputs that every in-place operator and method ends in the same set as the by-reference one and never reaches a panic. Exactly-once drop: the gap builder's own unsafe code (inplace-vec-builder, both flavours, every operation and its Drop) is verified against a model of the buffer in which every slot is initialised or not and each raw operation requires what rules out double drops, leaks and reads of moved-out slots; everything else moves values in safe Rust. Unwinding is not modelled. The bounded search counts drops as well." + SHIMS),
    "C03": dict(units=["t_set"], tags=["base", "merge", "bool", "setops", "set", "set.pred"],
        note="Proof for all inputs: membership, emptiness, subset, superset, disjointness, including the early exits of all three merge strategies." + SHIMS),
    "C04": dict(units=["t_set"], tags=["base", "set", "set.point", "dedup", "iter"],
        note="Proof for all inputs: empty, single, insert, remove, retain, shrink_to_fit, the conversions and bulk construction (From<Vec>, From<BTreeSet>, FromIterator, Extend through sort_dedup, itself proved) keep the set strictly ascending with exactly the elements of the mathematical set; the borrowing and the consuming iterator (implementations of core's Iterator) yield exactly the elements in order. size_hint, conversions to other containers and drop counts are bounded-checked." + SHIMS),
    "C05": dict(units=["t_dedup"], tags=["base", "dedup"],
        note="Proof for all finite iterators and all comparison/key functions that are lawful total preorders: sort_dedup, sort_dedup_by and sort_dedup_by_key return a strictly sorted collection holding exactly one element per class, the first or the last one pushed according to Keep, for Vec and SmallVec targets; dedup_by, the incremental aggregator's push / sort_and_dedup / into_inner are all under contract. Trusted: slice::sort_by is a stable sort, slice::swap, Vec/SmallVec shims, a terminating closure returns some value its contract allows, Verus and z3. An iterator of more than usize::MAX-1 elements is out of scope."),
    "C06": dict(units=["t_map"], tags=["base", "dedup", "map", "map.point", "iter"],
        note="Proof for all inputs: get, get_mut, insert, retain, map_values, single, empty, is_empty, From<BTreeMap>, FromIterator and Extend (last value per key) against a mathematical key-to-entry function, with the keys strictly ascending afterwards; lookups through Borrow are under contract with the Borrow law as a precondition; the borrowing and the consuming iterator yield exactly the entries in key order. Trusted: BTreeMap iterates in ascending key order, SmallVec collect/map/retain." + SHIMS),
    "C07": dict(units=["t_map"], tags=["base", "merge", "smallstate", "map", "map.byref"],
        note="Proof for all inputs and all pure terminating combining functions: outer, left, right and inner join (the trait methods and the four join merge operations, through every merge strategy) return exactly the entries the relational join defines, in ascending key order. Purity of the combining function (equal arguments, equal result) is a precondition." + SHIMS),
    "C08": dict(units=["t_map", "t_builder"], tags=["base", "merge", "inplace", "map", "map.inplace", "builder"],
        note="Proof for all inputs and all pure combining functions that outer/left/right/inner_join_with, combine_with and merge_with leave the left map with exactly the entries of the by-reference join, and never reach a panic. Exactly-once drop: the gap builder's unsafe code is verified against a model of the buffer with initialised and uninitialised slots (no double drop, no leak, no read of a moved-out slot); the rest moves values in safe Rust. Calls of a by-value FnMut combiner are treated as calls of a pure function." + SHIMS),
    "C09": dict(units=["t_tset"], tags=["base", "merge", "smallstate", "inplace", "setops", "set", "set.byref", "set.inplace", "tset", "tset.byref", "tset.inplace"],
        note="Proof for all inputs and all four combinations of negation: &, |, ^, -, ! and their assigning forms give exactly the boolean combination of membership, with a sorted finite list and the negation flag determined by co-finiteness." + SHIMS),
    "C10": dict(units=["t_tset"], tags=["base", "merge", "bool", "setops", "set", "set.pred", "set.point", "tset", "tset.pred", "tset.point"],
        note="Proof for all inputs: is_empty, is_all, contains, insert, remove, constant, is_subset, is_superset, is_disjoint for all four combinations of negation. Precondition: the universe of values is not exhausted by a finite list." + SHIMS),
    "C11": dict(units=["t_tmap"], tags=["base", "merge", "smallstate", "dedup", "map", "map.byref", "map.point", "tmap"],
        note="Proof for all inputs: new, constant, indexing, combine_ref, map_values, supremum, infimum, + - * / and negation act pointwise and leave no stored entry equal to the default; lemma: two canonical total maps with equal defaults agree everywhere only if they hold the same entries. Preconditions: equality of values is lawful and the arithmetic operators of the value type are deterministic. Equality is decided under C23; zero, one, the bounds and Default are under contract." + SHIMS),
    "C12": dict(units=["t_radix"], tags=["rx", "rxn", "rxf", "rxs", "rxm", "rxm.outer", "rxa.insert", "rxb"],
        note="Proof for all trees and keys: find, get, contains_key, empty, leaf, single, insert and FromIterator (last value per key) against the mathematical mapping of a tree; every operation that builds a tree ensures the well-formedness lookup requires." + RADIX),
    "C13": dict(units=["t_radix"], tags=["rx", "rxn", "rxs", "base", "merge", "rxc", "rxc.outer", "rxc.inner", "rxc.left", "rxa", "rxa.ref"],
        note="Proof for all pairs of trees and all pure combining functions: outer/inner/left_combine and union, intersection, difference give exactly the key-wise mapping, in canonical form; the operands are borrowed immutably." + RADIX),
    "C14": dict(units=["t_radix", "t_builder"], tags=["rx", "rxn", "rxs", "base", "merge", "rxm", "rxm.outer", "rxm.inner", "rxm.left", "rxa", "rxa.ip", "rxa.insert", "builder"],
        note="Proof for all pairs of trees and all pure combining functions: outer/inner/left_combine_with, union_with, intersection_with, difference_with and insert leave the key-wise mapping of the functional combine, in canonical form, without reaching a panic." + RADIX),
    "C15": dict(units=["t_radix"], tags=["rx", "rxn", "rxs", "base", "merge", "rxc", "rxc.outer", "rxc.inner", "rxc.left", "rxm", "rxm.outer", "rxm.inner", "rxm.left", "rxm.remove_prefix", "rxm.retain_prefix", "rxa", "rxa.ref", "rxa.ip", "rxa.insert", "rxq", "rxb"],
        note="Proof: well-formedness (children strictly ascending by the first component of non-empty labels, no empty child, no valueless node with one child, no prefix on an empty tree) is a postcondition of every public operation that makes or changes a tree, and a lemma shows that two well-formed trees with the same mapping are the same tree. The equality operator itself is derived (field by field) and trusted." + RADIX),
    "C16": dict(units=["t_radix"], tags=["rx", "rxn", "rxf", "rxq", "rxs", "base", "merge", "rxm", "rxm.remove_prefix", "rxm.retain_prefix", "rxi", "rxi.into", "rxi.scan"],
        note="Proof for all trees, prefixes and pure selection predicates: filter_prefix, prepend, scan_prefix, remove_prefix_with and retain_prefix_with." + RADIX),
    "C17": dict(units=["t_radix"], tags=["rx", "rxn", "rxf", "rxi", "rxi.into", "rxi.scan"],
        note="Proof for all trees: iter, values and scan_prefix return iterators whose remaining sequence is exactly the stored entries (values) once each in ascending lexicographic key order with the full key, for every call of next, including termination of next. into_iter is under the same contract while the iterator is alive (the lifetime extension in ObjAndIter is trusted for that time; a value kept longer dangles, a known finding)." + RADIX),
    "C18": dict(units=["t_radix"], tags=["rx", "rxn", "base", "merge", "bool", "rxp", "rxp.is_subset", "rxp.intersects"],
        note="Proof for all pairs of trees: is_subset, is_superset, intersects and is_disjoint answer exactly the quantified statement over keys." + RADIX),
    "C19": dict(units=["t_arc", "t_lazy", "t_conv"], tags=["rx", "rxn", "cv.lazy"],
        note="Proof, given Arc::make_mut: every generic operation is verified for the reference-counted and the lazily loaded flavour with all access to shared children going through children_mut, whose only way to the shared vector is Arc::make_mut (an obligation on the extracted body); a mutating operation's contract speaks about its own receiver only, its operands are borrowed immutably and the text contains no other interior mutability. Trusted: Arc::make_mut and Arc::clone, derive(Clone), that a mutex excludes; the Lazy cell is verified with a lock protocol (what is shared may be written, or read while it may be uninitialised, only under the lock, and an initialised cell is never replaced by a reader); the histories are also exercised by the bounded search (drop counts, snapshots compared after every mutation)." + RADIX),
    "C20": dict(units=["t_radix", "t_arc", "t_lazy", "t_conv", "t_rarch"], tags=["rx", "rxn", "cv", "cv.arc", "cv.lazy", "cv.arch"],
        note="Proof: the node accessors and constructors of the plain, reference-counted and lazily loaded flavours satisfy one and the same contract, every generic operation is verified three times, once per flavour, under one and the same contract (overrides are detected), and the conversions From<RadixTree> (both), From<&Archived...> (both), materialize_shallow and the Lazy cell preserve the mapping. The operations are verified once for operands of any type that implements the tree interface under its accessor contract, and the archived trees of all three flavours are verified to implement it (a reference to an archived tree is taken to come from a checked archive), so lookups, iteration, scans, predicates, combination and in-place combination cover plain, copy-on-write, lazy and archived operands in any mixture. Debug and all_arcs are outside the contracts." + RADIX),
    "C21": dict(units=["t_serde", "t_sermap"], tags=["base", "iter", "sd"],
        note="Proof for all values and all inputs a format can present: Serialize of VecSet, VecMap, TotalVecSet and TotalVecMap writes exactly the elements (entries) in ascending order under the announced length; Deserialize, through the visitors, accepts exactly the inputs whose elements decode and returns the strictly ascending collection of the decoded elements (the first entry of each key), with a bounded initial allocation whatever length is announced; theorems: reading back what was written gives the value back and nothing else, given the same of the element type. Trusted: the contracts of serde's own traits (contracts/serde_base.vrs states what a Serializer, Deserializer, SeqAccess and MapAccess promise) and its impls for pairs, references and bool; SmallVec's sort, dedup and their by-key forms; Visitor's other visit methods are not overridden (detected). The bounded search drives the real impls through serde_json, a length-prefixed format and a lying length." + SHIMS),
    "C22": dict(units=["t_archset", "t_archmap", "t_archtree", "t_rarch"], tags=["base", "rx", "rxn", "ar"],
        note="Proof for all values and all archives: resolving VecSet, VecMap and the plain, copy-on-write and lazy radix trees writes an archive holding exactly the value's elements (entries, nodes) in order; CheckBytes accepts an archive exactly when its parts check and its elements are strictly ascending (for a tree: children ascending by the first component of non-empty labels, no node without content, no mergeable node) and no access reaches memory that has not been checked; Deserialize rebuilds exactly the archived contents, and theorems: an archive written from a value passes the check and reads back as the value. Trusted: rkyv's and bytecheck's own traits, containers and relative pointers (contracts/arch_base.vrs states what they promise); the recursion into children goes through the node type's own impl and is taken at its contract (partial correctness); pointer distances (offset_from) are not modelled; tree keys and values are their own archived form; a reference to an archived collection is only obtained from a checked archive. Archived trees of all three flavours are verified to implement the tree interface over which lookups, iteration, prefix scans, predicates and combination are verified (sets and maps: their lookups and predicates on the archived form likewise). The bounded search archives, corrupts, checks, reads and restores through the real rkyv." + SHIMS),
    "C23": dict(units=["t_ord"], tags=["base", "eqo", "eqo.hash.soft"],
        note="Proof for all collections: the PartialEq, PartialOrd, Ord and Hash impls of VecSet, VecMap, TotalVecSet and TotalVecMap (those that exist) are the equality, the lexicographic order and the write sequence of their contents (for the total collections, with the negation flag or the default), and theorems over these contracts: equality is equality of contents (for sets: of membership) and an equivalence, cmp is a lawful total order that is Equal exactly on equal collections, partial_cmp agrees with cmp, equal collections hash equally, given the same laws of the element type. Default methods (ne, <, max, ...) are detected when overridden. Trusted: smallvec's own equality, order and hash are those of its slice; tuples compare and hash component by component; a hasher is its sequence of writes; Verus and z3. A hash that writes something else than the contents is not rejected by the proof but decided by the bounded search, since the property leaves the choice open."),
    "C24": dict(units=["t_btree"], tags=["base", "map", "bt"],
        note="Proof for all maps and all pure combining functions: outer, left, right and inner join (the trait's default methods, loop by loop, and both implementations' iter and get) and the in-place outer, left and inner join give exactly the entries of the relational join, against trusted shims of std's BTreeMap (new, insert, remove, get, get_mut, iter, retain) and of rkyv's ArchivedBTreeMap (iter, get). Lookups are taken at the key type itself (Q := K). Where the code hands the right operand's copy of a key to the callback or stores it (right and inner join, in-place outer join), keys that compare equal are assumed identical. Purity of the combining function is a precondition. Trusted: Verus and z3."),
}
TODO = "not yet brought under contract in this version of the framework; only exercised by the bounded search"
NOT_APPLICABLE = {}
