//@ include prelude.vrs
//@ include total_set.vrs
//@ include colls.vrs
//@ include iters_set.vrs
//@ include serde_set.vrs
} // verus!
fn main() {}
