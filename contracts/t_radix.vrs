//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_build.vrs
} // verus!
fn main() {}
