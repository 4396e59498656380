//@ include dedup.vrs
//@ tag iter
//@ # ---- src/iterators.rs: the iterators of sets and maps, as implementations of core's Iterator ------------------------------
/// the iterator yields exactly s, in order
#[verifier::prophetic]
spec fn it_seq<T, I: Iterator<Item = T>>(it: I, s: Seq<T>) -> bool { it.obeys_prophetic_iter_laws() && it.decrease().is_some() && it.remaining() =~= s }
/// the iterator yields references to exactly s, in order
#[verifier::prophetic]
spec fn it_refs<'a, T: 'a, I: Iterator<Item = &'a T>>(it: I, s: Seq<T>) -> bool {
    it.obeys_prophetic_iter_laws() && it.decrease().is_some() && it.remaining().len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] it.remaining()[i]) == s[i]
}
impl<A: Array> vstd::std_specs::iter::IteratorSpecImpl for IntoIter<A> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic] closed spec fn remaining(&self) -> Seq<A::Item> { self@ }
    #[verifier::prophetic] closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(self@.len()) }
    closed spec fn peek(&self, i: int) -> Option<A::Item> { if 0 <= i < self@.len() { Some(self@[i]) } else { None } }
}
/// `smallvec::IntoIter` as an iterator (trusted)
impl<A: Array> Iterator for IntoIter<A> {
    type Item = A::Item;
    #[verifier::external_body]
    fn next(&mut self) -> Option<A::Item> { unimplemented!() }
}
impl<A: Array> SmallVec<A> {
    /// `SmallVec` derefs to its slice
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: core::slice::Iter<'a, A::Item>) ensures it_refs(r, self@) { unimplemented!() }
}
trait VxIntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    #[verifier::prophetic]
    spec fn ii_ens(self, r: Self::IntoIter) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter) ensures self.ii_ens(r);
}
