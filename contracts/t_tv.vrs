//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include tvops.vrs
} // verus!
fn main() {}
