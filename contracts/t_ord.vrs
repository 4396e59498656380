//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include order.vrs
} // verus!
fn main() {}
