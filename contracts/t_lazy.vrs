//@ # the same contracts for the lazily loaded flavour
//@ subst RadixTree LazyRadixTree
//@ alias radix_flat.vrs radix_lazy.vrs
//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_iter.vrs
} // verus!
fn main() {}
