//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_conv.vrs
} // verus!
fn main() {}
