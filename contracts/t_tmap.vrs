//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include total_map.vrs
} // verus!
fn main() {}
