//@ # trusted here, proved in t_builder.vrs: inplace_vec_builder::BLD, unsafe code of a dependency. Its fields are private, so that the
//@ # representation invariant `wf`, which t_builder shows every operation establishes or keeps, holds wherever a builder is seen
#[verifier::external_body]
#[verifier::reject_recursive_types(ARG)]
struct BLD<'a, GEN> { p: PhantomData<&'a mut ARG> }
impl<'a, GEN> BLD<'a, ARG> {
    /// the part already built
    uninterp spec fn target(&self) -> Seq<ITEM>;
    /// the part not yet consumed
    uninterp spec fn source(&self) -> Seq<ITEM>;
    /// prophecy: what the borrowed collection holds once the builder is dropped
    uninterp spec fn fin(&self) -> Seq<ITEM>;
    #[verifier::external_body]
    fn from(value: &'a mut COLL) -> (r: Self)
      ensures r.target() == Seq::<ITEM>::empty(), r.source() == old(value)@, r.fin() == final(value)@
    { unimplemented!() }
    #[verifier::external_body]
    fn source_slice(&self) -> (r: &[ITEM]) ensures r@ == self.source() { unimplemented!() }
    #[verifier::external_body]
    fn source_slice_mut(&mut self) -> (r: &mut [ITEM])
      ensures r@ == old(self).source(), final(r)@ == final(self).source(), final(r)@.len() == old(self).source().len(),
         final(self).target() == old(self).target(), final(self).fin() == old(self).fin()
    { unimplemented!() }
    #[verifier::external_body]
    fn target_slice(&self) -> (r: &[ITEM]) ensures r@ == self.target() { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, n: usize, take: bool)
      ensures final(self).fin() == old(self).fin(), bs_consume(old(self).target(), old(self).source(), n as int, take, final(self).target(), final(self).source())
    { unimplemented!() }
    #[verifier::external_body]
    fn extend_from_iter<I: VxIter<Item = ITEM>>(&mut self, iter: I, n: usize)
      requires forall|i: int| 0 <= i < n && i < iter.src().len() ==> I::okk(#[trigger] iter.src()[i])
      ensures final(self).fin() == old(self).fin(), iter.after() == iter.src().skip(if n <= iter.src().len() { n as int } else { iter.src().len() as int }),
        bs_extend(iter, n as int, old(self).target(), old(self).source(), final(self).target(), final(self).source())
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, value: ITEM)
      ensures final(self).fin() == old(self).fin(), bs_push(old(self).target(), old(self).source(), value, final(self).target(), final(self).source())
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<ITEM>)
      ensures final(self).fin() == old(self).fin(), bs_pop(old(self).target(), old(self).source(), r, final(self).target(), final(self).source())
    { unimplemented!() }
    /// the drop of the builder at the end of its scope
    #[verifier::external_body]
    fn finish(self) ensures self.fin() == self.target() { unimplemented!() }
}
