//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include total_map.vrs
//@ include iters_map.vrs
//@ include serde_map.vrs
} // verus!
fn main() {}
