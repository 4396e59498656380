//@ include prelude.vrs
//@ include merge.vrs
} // verus!
fn main() {}
