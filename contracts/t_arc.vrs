//@ # the same contracts for the copy-on-write flavour
//@ subst RadixTree ArcRadixTree
//@ alias radix_flat.vrs radix_arc.vrs
//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_iter.vrs
} // verus!
fn main() {}
