//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_base.vrs
//@ include arch_trees.vrs
} // verus!
fn main() {}
