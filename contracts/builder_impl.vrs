//@ # inplace-vec-builder, one flavour (BLD over COLL): its code against builder_spec.vrs
/// the borrowed collection, opened: trusted, contents as for every safe collection
#[verifier::external_body]
fn OPEN<'a, GEN>(v: &'a mut COLL) -> (r: VxRaw<'a, ITEM>) ensures r.whole(), r.elems() == old(v)@, r.fin() == final(v)@ { unimplemented!() }
#[verifier::reject_recursive_types(ARG)]
//@ struct dep:inplace-vec-builder-0.1.1/src/SRC.rs BLD
//@ rw `& 'a mut COLL` => `VxRaw<'a, ITEM>`
impl<'a, GEN> BLD<'a, ARG> {
    /// [0, t1) target, [t1, s0) gap, [s0, len) source, nothing beyond
    spec fn wf(&self) -> bool {
        let m = self.v.m();
        &&& self.t1 <= self.s0 <= self.v.n() <= m.len() <= usize::MAX
        &&& forall|i: int| 0 <= i < m.len() ==> ((#[trigger] m[i]) is Some <==> i < self.t1 || self.s0 <= i < self.v.n())
    }
    spec fn target(&self) -> Seq<ITEM> { self.v.m().subrange(0, self.t1 as int).map_values(|o: Option<ITEM>| o->Some_0) }
    spec fn source(&self) -> Seq<ITEM> { self.v.m().subrange(self.s0 as int, self.v.n() as int).map_values(|o: Option<ITEM>| o->Some_0) }
    spec fn fin(&self) -> Seq<ITEM> { self.v.fin() }
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | From<&'a mut COLL> for BLD | from
//@ ret r
    ensures r.wf(), r.target() == Seq::<ITEM>::empty(), r.source() == old(value)@, r.fin() == final(value)@
//@ rw `v : value` => `v: OPEN(value)`
//@ end
    proof { assert(vx_r.target() =~= Seq::empty()); assert(vx_r.source() =~= vx_r.v.elems()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | target_slice
//@ ret r
    requires self.wf()
    ensures r@ == self.target()
//@ rw `& self . v [ .. self . t1 ]` => `self.v.slice(0, self.t1)`
//@ end
    proof { assert(vx_r@ =~= self.target()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | source_slice
//@ ret r
    requires self.wf()
    ensures r@ == self.source()
//@ rw `& self . v [ self . s0 .. ]` => `self.v.slice(self.s0, self.v.len())`
//@ end
    proof { assert(vx_r@ =~= self.source()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | source_slice_mut
//@ ret r
    requires old(self).wf()
    ensures r@ == old(self).source(), final(r)@ == final(self).source(), final(r)@.len() == old(self).source().len(),
      final(self).target() == old(self).target(), final(self).fin() == old(self).fin(), final(self).wf()
//@ rw `& mut self . v [ self . s0 .. ]` => `self.v.slice_mut(self.s0)`
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | reserve
    requires old(self).wf(), old(self).t1 + capacity <= usize::MAX
    ensures final(self).wf(), final(self).fin() == old(self).fin(), final(self).t1 == old(self).t1, final(self).t1 + capacity <= final(self).s0,
      bs_reserve(old(self).target(), old(self).source(), final(self).target(), final(self).source())
//@ rw `copy ( v . as_mut_ptr ( ) , $$a )` => `v.copy($a)`
//@ end
    proof { assert(self.target() =~= old(self).target()); assert(self.source() =~= old(self).source()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | extend_from_iter
//@ sigrw `Iterator` => `VxIter`
    requires old(self).wf(), old(self).t1 + n <= usize::MAX, forall|i: int| 0 <= i < n && i < iter.src().len() ==> I::okk(#[trigger] iter.src()[i])
    ensures final(self).wf(), final(self).fin() == old(self).fin(), iter.after() == iter.src().skip(if n <= iter.src().len() { n as int } else { iter.src().len() as int }),
      bs_extend(iter, n as int, old(self).target(), old(self).source(), final(self).target(), final(self).source())
//@ start
    let ghost it0 = iter;
    let ghost len = iter.src().len();
    let ghost t0 = self.target();
    let ghost s0 = self.source();
    proof { assert(iter.src().skip(0) =~= iter.src()); assert(t0.take(t0.len() as int) =~= t0); }
//@ loop 0 iter it
    invariant self.wf(), self.fin() == old(self).fin(), self.source() == s0, iter.after() == it0.after(), len == it0.src().len(),
      forall|i: int| 0 <= i < n && i < len ==> I::okk(#[trigger] it0.src()[i]),
      ({ let k = if it.index@ <= len { it.index@ as int } else { len as int };
        &&& iter.src() == it0.src().skip(k)
        &&& self.target().len() == t0.len() + k
        &&& self.target().take(t0.len() as int) == t0
        &&& forall|j: int| 0 <= j < k ==> I::rel(it0.src()[j], #[trigger] self.target()[t0.len() + j])
        &&& k < n ==> self.t1 + (n - k) <= self.s0 })
//@ loopstart 0
    let ghost t = self.target();
    proof { if iter.src().len() > 0 { assert(iter.src()[0] == it0.src()[it.index@ as int]); } }
//@ loopend 0
    proof { assert(self.target().take(t0.len() as int) =~= t.take(t0.len() as int)); }
//@ end
    iter.vx_drop();
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | push
    requires old(self).wf(), old(self).t1 < usize::MAX
    ensures final(self).wf(), final(self).fin() == old(self).fin(), bs_push(old(self).target(), old(self).source(), value, final(self).target(), final(self).source())
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | push_unsafe
    requires old(self).wf(), old(self).t1 < old(self).s0
    ensures final(self).wf(), final(self).fin() == old(self).fin(), final(self).t1 == old(self).t1 + 1, final(self).s0 == old(self).s0,
      bs_push(old(self).target(), old(self).source(), value, final(self).target(), final(self).source())
//@ rw `std :: ptr :: write ( self . v . as_mut_ptr ( ) . add ( self . t1 ) , value )` => `self.v.write(self.t1, value)`
//@ end
    proof { assert(self.target() =~= old(self).target().push(value)); assert(self.source() =~= old(self).source()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | consume
    requires old(self).wf()
    ensures final(self).wf(), final(self).fin() == old(self).fin(), bs_consume(old(self).target(), old(self).source(), n as int, take, final(self).target(), final(self).source())
//@ start
    let ghost k = if n <= old(self).source().len() { n as int } else { old(self).source().len() as int };
//@ rw `std :: cmp :: min ( $$a )` => `vx_min($a)`
//@ rw `let v = self . v . as_mut_ptr ( ) ;` => ``
//@ rw `copy ( v , $$a )` => `self.v.copy($a)`
//@ rw `std :: ptr :: drop_in_place ( v . add ( $$i ) )` => `self.v.drop_in_place($i)`
//@ loop 0 iter it
    invariant old(self).wf(), self.wf(), self.fin() == old(self).fin(), self.t1 == old(self).t1, self.s0 == old(self).s0 + it.index@, self.v.n() == old(self).v.n(),
      n <= old(self).v.n() - old(self).s0,
      self.target() =~= old(self).target(), self.source() =~= old(self).source().skip(it.index@ as int)
//@ loopstart 0
    let ghost b = *self;
//@ loopend 0
    proof { assert(self.source() =~= b.source().skip(1)); assert(b.source().skip(1) =~= old(self).source().skip(it.index@ + 1)); }
//@ end
    proof {
        assert(take ==> self.target() =~= old(self).target() + old(self).source().take(k));
        assert(self.source() =~= old(self).source().skip(k));
    }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | skip
    requires old(self).wf()
    ensures final(self).wf(), final(self).fin() == old(self).fin(), bs_consume(old(self).target(), old(self).source(), n as int, false, final(self).target(), final(self).source())
//@ start
    let ghost k = if n <= old(self).source().len() { n as int } else { old(self).source().len() as int };
//@ rw `std :: cmp :: min ( $$a )` => `vx_min($a)`
//@ rw `let v = self . v . as_mut_ptr ( ) ;` => ``
//@ rw `std :: ptr :: drop_in_place ( v . add ( $$i ) )` => `self.v.drop_in_place($i)`
//@ loop 0 iter it
    invariant old(self).wf(), self.wf(), self.fin() == old(self).fin(), self.t1 == old(self).t1, self.s0 == old(self).s0 + it.index@, self.v.n() == old(self).v.n(),
      n <= old(self).v.n() - old(self).s0,
      self.target() =~= old(self).target(), self.source() =~= old(self).source().skip(it.index@ as int)
//@ loopstart 0
    let ghost b = *self;
//@ loopend 0
    proof { assert(self.source() =~= b.source().skip(1)); assert(b.source().skip(1) =~= old(self).source().skip(it.index@ + 1)); }
//@ end
    proof { assert(self.source() =~= old(self).source().skip(k)); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | take
    requires old(self).wf()
    ensures final(self).wf(), final(self).fin() == old(self).fin(), bs_consume(old(self).target(), old(self).source(), n as int, true, final(self).target(), final(self).source())
//@ start
    let ghost k = if n <= old(self).source().len() { n as int } else { old(self).source().len() as int };
//@ rw `std :: cmp :: min ( $$a )` => `vx_min($a)`
//@ rw `copy ( self . v . as_mut_ptr ( ) , $$a )` => `self.v.copy($a)`
//@ end
    proof {
        assert(self.target() =~= old(self).target() + old(self).source().take(k));
        assert(self.source() =~= old(self).source().skip(k));
    }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | pop_front
//@ ret r
    requires old(self).wf()
    ensures final(self).wf(), final(self).fin() == old(self).fin(), bs_pop(old(self).target(), old(self).source(), r, final(self).target(), final(self).source())
//@ rw `std :: ptr :: read ( self . v . as_ptr ( ) . add ( $$i ) )` => `self.v.read($i)`
//@ end
    proof { assert(self.target() =~= old(self).target()); if old(self).source().len() > 0 { assert(self.source() =~= old(self).source().skip(1)); } }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | BLD | drop_source
    requires old(self).wf()
    ensures final(self).fin() == old(self).fin(), final(self).v.whole(), final(self).v.elems() == old(self).target()
//@ end
    proof { assert(self.v.elems() =~= old(self).target()); }
//@ endfn
//@ fn dep:inplace-vec-builder-0.1.1/src/SRC.rs | Drop for BLD | drop
    requires old(self).wf()
    ensures final(self).fin() == old(self).fin(), final(self).v.whole(), final(self).v.elems() == old(self).target()
//@ endfn
    /// the end of the builder's scope: its `drop`, then the end of the borrow
    fn finish(self)
        requires self.wf()
        ensures self.fin() == self.target()
    { let mut b = self; b.drop(); b.v.close(); }
}
