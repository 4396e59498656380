//@ include prelude.vrs
//@ tag builder
//@ include builder_spec.vrs
/// a growable buffer with uninitialised slots: its length field and what each slot of its allocation holds. The operations below are
/// the raw-pointer operations the builders use, with what each needs to be free of undefined behaviour, double drops and leaks as
/// precondition; a value leaves a slot exactly by being moved (copy, read) or dropped (drop_in_place, truncate)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxRaw<'a, T> { p: PhantomData<&'a mut T> }
impl<'a, T> VxRaw<'a, T> {
    uninterp spec fn m(&self) -> Seq<Option<T>>;
    uninterp spec fn n(&self) -> nat;
    /// prophecy: what the borrowed collection holds at the end
    uninterp spec fn fin(&self) -> Seq<T>;
    /// in the state every safe collection is in
    spec fn whole(&self) -> bool {
        &&& self.n() <= self.m().len() <= usize::MAX
        &&& forall|i: int| 0 <= i < self.m().len() ==> ((#[trigger] self.m()[i]) is Some <==> i < self.n())
    }
    spec fn elems(&self) -> Seq<T> { self.m().subrange(0, self.n() as int).map_values(|o: Option<T>| o->Some_0) }
    spec fn full(&self, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi ==> (#[trigger] self.m()[i]) is Some }
    #[verifier::external_body]
    fn close(self) requires self.whole() ensures self.fin() == self.elems() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.m().len() { unimplemented!() }
    /// grows or panics; what lies below the length is moved bitwise, initialised or not
    #[verifier::external_body]
    fn reserve(&mut self, k: usize)
      requires forall|i: int| old(self).n() <= i < old(self).m().len() ==> (#[trigger] old(self).m()[i]) is None
      ensures final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), usize::MAX >= final(self).m().len() >= old(self).n() + k,
        forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).m()[i] == old(self).m()[i],
        forall|i: int| old(self).n() <= i < final(self).m().len() ==> (#[trigger] final(self).m()[i]) is None
    { unimplemented!() }
    #[verifier::external_body]
    fn set_len(&mut self, k: usize)
      requires k <= old(self).m().len()
      ensures final(self).fin() == old(self).fin(), final(self).n() == k, final(self).m() == old(self).m()
    { unimplemented!() }
    /// drops what is cut off
    #[verifier::external_body]
    fn truncate(&mut self, k: usize)
      requires old(self).n() <= old(self).m().len(), old(self).full(k as int, old(self).n() as int)
      ensures final(self).fin() == old(self).fin(), final(self).n() == if k < old(self).n() { k as nat } else { old(self).n() }, final(self).m().len() == old(self).m().len(),
        forall|i: int| 0 <= i < old(self).m().len() ==> #[trigger] final(self).m()[i] == if k <= i < old(self).n() { None } else { old(self).m()[i] }
    { unimplemented!() }
    /// the dependency's `copy` (ptr::copy) used as a move: the values leave their old slots and overwrite none
    #[verifier::external_body]
    fn copy(&mut self, from: usize, to: usize, n: usize)
      requires from + n <= old(self).m().len(), to + n <= old(self).m().len(), old(self).full(from as int, from + n),
        forall|i: int| to <= i < to + n && !(from <= i < from + n) ==> (#[trigger] old(self).m()[i]) is None
      ensures final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), final(self).m().len() == old(self).m().len(),
        forall|i: int| 0 <= i < old(self).m().len() ==> #[trigger] final(self).m()[i]
          == if to <= i < to + n { old(self).m()[from + (i - to)] } else if from <= i < from + n { None } else { old(self).m()[i] }
    { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, i: usize, v: T)
      requires i < old(self).m().len(), old(self).m()[i as int] is None
      ensures final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), final(self).m() == old(self).m().update(i as int, Some(v))
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, i: usize) -> (r: T)
      requires i < old(self).m().len(), old(self).m()[i as int] is Some
      ensures final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), Some(r) == old(self).m()[i as int], final(self).m() == old(self).m().update(i as int, None)
    { unimplemented!() }
    #[verifier::external_body]
    fn drop_in_place(&mut self, i: usize)
      requires i < old(self).m().len(), old(self).m()[i as int] is Some
      ensures final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), final(self).m() == old(self).m().update(i as int, None)
    { unimplemented!() }
    #[verifier::external_body]
    fn slice(&self, lo: usize, hi: usize) -> (r: &[T])
      requires lo <= hi <= self.n() <= self.m().len(), self.full(lo as int, hi as int)
      ensures r@ == self.m().subrange(lo as int, hi as int).map_values(|o: Option<T>| o->Some_0)
    { unimplemented!() }
    #[verifier::external_body]
    fn slice_mut(&mut self, lo: usize) -> (r: &mut [T])
      requires lo <= old(self).n() <= old(self).m().len(), old(self).full(lo as int, old(self).n() as int)
      ensures r@ == old(self).m().subrange(lo as int, old(self).n() as int).map_values(|o: Option<T>| o->Some_0), final(r)@.len() == r@.len(),
        final(self).fin() == old(self).fin(), final(self).n() == old(self).n(), final(self).m().len() == old(self).m().len(),
        forall|i: int| 0 <= i < old(self).m().len() ==> #[trigger] final(self).m()[i] == if lo <= i < old(self).n() { Some(final(r)@[i - lo]) } else { old(self).m()[i] }
    { unimplemented!() }
}
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@ subst GEN A: Array
//@ subst ARG A
//@ subst ITEM A::Item
//@ subst COLL SmallVec<A>
//@ subst BLD InPlaceSmallVecBuilder
//@ subst SRC small_vec_builder
//@ subst OPEN vx_open_small
//@ include builder_impl.vrs
//@ unsubst
//@ subst GEN T
//@ subst ARG T
//@ subst ITEM T
//@ subst COLL Vec<T>
//@ subst BLD InPlaceVecBuilder
//@ subst SRC vec_builder
//@ subst OPEN vx_open_vec
//@ include builder_impl.vrs
//@ unsubst
} // verus!
fn main() {}
