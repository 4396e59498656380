//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include btree.vrs
} // verus!
fn main() {}
