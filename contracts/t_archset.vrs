//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include vec_set.vrs
//@ include colls.vrs
//@ include arch_set.vrs
} // verus!
fn main() {}
