//@ include prelude.vrs
//@ include set_build.vrs
//@ include iters_set.vrs
} // verus!
fn main() {}
