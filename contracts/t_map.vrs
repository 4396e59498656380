//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include vec_map.vrs
//@ include iters_map.vrs
//@ tag map.point
//@ # ---- a map as the set of its pairs: the same pairs in the same order
#[verifier::reject_recursive_types(A)]
//@ struct src/vec_set.rs VecSet
impl<A: Array> View for VecSet<A> { type V = Seq<A::Item>; closed spec fn view(&self) -> Seq<A::Item> { self.0@ } }
//@ head src/vec_set.rs VecSet # new_unsafe
//@ fn src/vec_set.rs | VecSet | new_unsafe
//@ ret r
    ensures r@ == a@
//@ endfn
}
//@ head src/vec_map.rs From<VecMap<A>> for VecSet<A>
    spec fn from_req(v: VecMap<A>) -> bool { true }
    spec fn from_ens(v: VecMap<A>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_map.rs | From<VecMap<A>> for VecSet<A> | from
//@ endfn
}
} // verus!
fn main() {}
