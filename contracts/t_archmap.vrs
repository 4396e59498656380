//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include vec_map.vrs
//@ include colls.vrs
//@ include arch_map.vrs
} // verus!
fn main() {}
