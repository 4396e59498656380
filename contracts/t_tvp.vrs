//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include tviter.vrs
} // verus!
fn main() {}
