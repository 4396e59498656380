//@ include iters.vrs
//@ tag iter
//@ struct src/iterators.rs VecMapIter
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for VecMapIter<I> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { self.i.obeys_prophetic_iter_laws() }
    #[verifier::prophetic] closed spec fn remaining(&self) -> Seq<I::Item> { self.i.remaining() }
    #[verifier::prophetic] closed spec fn will_return_none(&self) -> bool { self.i.will_return_none() }
    closed spec fn decrease(&self) -> Option<nat> { self.i.decrease() }
    closed spec fn peek(&self, i: int) -> Option<I::Item> { self.i.peek(i) }
}
//@ forbid src/iterators.rs Iterator/VecMapIter nth count last fold for_each step_by
//@ head src/iterators.rs VecMapIter
//@ fn src/iterators.rs | VecMapIter | new
//@ ret r
    ensures r.i == i
//@ endfn
}
//@ head src/iterators.rs Iterator for VecMapIter
//@ types src/iterators.rs Iterator for VecMapIter
//@ fn src/iterators.rs | Iterator for VecMapIter | next
//@ endfn
}
trait AbstractVecMapIter<K, V>: AbstractVecMap<K, V> {
//@ fn src/vec_map.rs | trait AbstractVecMap | iter
//@ decl
//@ ret r
    ensures it_refs(r, self.els())
//@ endfn
}
impl<K, V, X: AbstractVecMap<K, V>> AbstractVecMapIter<K, V> for X {
//@ fn src/vec_map.rs | trait AbstractVecMap | iter
//@ ret r
//@ endfn
}
//@ forbid src/vec_map.rs AbstractVecMap iter
//@ head src/vec_map.rs IntoIterator for &'a VecMap<A>
//@ rw `IntoIterator` => `VxIntoIterator`
//@ types src/vec_map.rs IntoIterator for &'a VecMap<A>
    #[verifier::prophetic]
    spec fn ii_ens(self, r: Self::IntoIter) -> bool { it_refs(r, self@) }
//@ fn src/vec_map.rs | IntoIterator for &'a VecMap<A> | into_iter
//@ endfn
}
//@ head src/vec_map.rs IntoIterator for VecMap
//@ rw `IntoIterator` => `VxIntoIterator`
//@ types src/vec_map.rs IntoIterator for VecMap
    #[verifier::prophetic]
    spec fn ii_ens(self, r: Self::IntoIter) -> bool { it_seq(r, self@) }
//@ fn src/vec_map.rs | IntoIterator for VecMap | into_iter
//@ endfn
}
