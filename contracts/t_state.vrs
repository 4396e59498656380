//@ include prelude.vrs
//@ include state.vrs
} // verus!
fn main() {}
