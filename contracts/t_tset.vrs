//@ include prelude.vrs
//@ include total_set.vrs
} // verus!
fn main() {}
