//@ include iters.vrs
//@ tag iter
//@ struct src/iterators.rs VecSetIter
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for VecSetIter<I> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { self.i.obeys_prophetic_iter_laws() }
    #[verifier::prophetic] closed spec fn remaining(&self) -> Seq<I::Item> { self.i.remaining() }
    #[verifier::prophetic] closed spec fn will_return_none(&self) -> bool { self.i.will_return_none() }
    closed spec fn decrease(&self) -> Option<nat> { self.i.decrease() }
    closed spec fn peek(&self, i: int) -> Option<I::Item> { self.i.peek(i) }
}
//@ forbid src/iterators.rs Iterator/VecSetIter nth count last fold for_each step_by
//@ head src/iterators.rs VecSetIter
//@ fn src/iterators.rs | VecSetIter | new
//@ ret r
    ensures r.i == i
//@ endfn
}
//@ head src/iterators.rs Iterator for VecSetIter
//@ types src/iterators.rs Iterator for VecSetIter
//@ fn src/iterators.rs | Iterator for VecSetIter | next
//@ endfn
}
trait AbstractVecSetIter<T: Ord>: AbstractVecSet<T> {
//@ fn src/vec_set.rs | trait AbstractVecSet | iter
//@ decl
//@ ret r
    ensures it_refs(r, self.els())
//@ endfn
}
impl<T: Ord, X: AbstractVecSet<T>> AbstractVecSetIter<T> for X {
//@ fn src/vec_set.rs | trait AbstractVecSet | iter
//@ ret r
//@ endfn
}
//@ forbid src/vec_set.rs AbstractVecSet iter
//@ head src/vec_set.rs VecSet # iter
//@ fn src/vec_set.rs | VecSet | iter
//@ ret r
    ensures it_refs(r, self@)
//@ endfn
}
//@ head src/vec_set.rs IntoIterator for &'a VecSet<A>
//@ rw `IntoIterator` => `VxIntoIterator`
//@ types src/vec_set.rs IntoIterator for &'a VecSet<A>
    #[verifier::prophetic]
    spec fn ii_ens(self, r: Self::IntoIter) -> bool { it_refs(r, self@) }
//@ fn src/vec_set.rs | IntoIterator for &'a VecSet<A> | into_iter
//@ endfn
}
//@ head src/vec_set.rs IntoIterator for VecSet
//@ rw `IntoIterator` => `VxIntoIterator`
//@ types src/vec_set.rs IntoIterator for VecSet
    #[verifier::prophetic]
    spec fn ii_ens(self, r: Self::IntoIter) -> bool { it_seq(r, self@) }
//@ fn src/vec_set.rs | IntoIterator for VecSet | into_iter
//@ endfn
}
