ASSUMPTIONS = [
    "element types obey their own contracts: Ord is a lawful total order, PartialEq/PartialOrd agree with it, Clone returns an equal value (stated as preconditions ord_laws/clone_ok)",
    "smallvec 1.x, slices and core behave as the shims in contracts/prelude.vrs state (trusted; exercised by the bounded part)",
    "no allocation failure and no length overflow past usize (vectors shorter than usize::MAX)",
    "panics are absent or outside the property: functions are verified panic-free for lawful element types; unwinding out of a user callback is not modelled",
    "the extraction drops visibility, attributes, docs; replaces the listed core traits by local stand-ins; trait default methods are lifted to a blanket extension trait",
]
