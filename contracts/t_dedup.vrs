//@ include prelude.vrs
//@ include dedup.vrs
} // verus!
fn main() {}
