//@ include radix_find.vrs
//@ tag rxs
//@ # ---- merge states over trees: contracts in terms of the views ---------------------------------------------------
proof fn lemma_take_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U, o: Seq<U>, i: int)
    requires 0 <= i < s.len()
    ensures o + s.take(i + 1).map_values(f) == (o + s.take(i).map_values(f)).push(f(s[i]))
{ assert(o + s.take(i + 1).map_values(f) =~= (o + s.take(i).map_values(f)).push(f(s[i]))); }
proof fn lemma_push_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U, x: T)
    ensures s.push(x).map_values(f) == s.map_values(f).push(f(x))
{ assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x))); }
trait Converter<A, B: View> {
    spec fn conv_ok(value: A) -> bool;
    spec fn conv(value: A) -> B::V;
//@ fn src/merge_state.rs | trait Converter | convert
//@ ret r
    requires Self::conv_ok(value)
    ensures r@ == Self::conv(value)
//@ endfn
}
//@ struct src/merge_state.rs NoConverter
impl<A, B: View> Converter<A, B> for NoConverter {
    spec fn conv_ok(value: A) -> bool { false }
    uninterp spec fn conv(value: A) -> B::V;
//@ fn src/merge_state.rs | Converter for NoConverter | convert
//@ rw `panic ! ( $x )` => `vstd::pervasive::unreached()`
//@ endfn
}
//@ struct src/radix_tree/mod.rs RadixTreeConverter
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> Converter<&T, RadixTree<K, V>> for RadixTreeConverter<K, V> {
    spec fn conv_ok(value: &T) -> bool { kv_ok::<K, V>() && wfc(value@) && value@.p.len() > 0 }
    spec fn conv(value: &T) -> TV<K, V> { value@ }
//@ fn src/radix_tree/mod.rs | Converter for RadixTreeConverter | convert
//@ sigrw `T :: Materialized` => `RadixTree<K, V>`
//@ endfn
}
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(AC)]
#[verifier::reject_recursive_types(BC)]
//@ struct src/merge_state.rs VecMergeState
impl<'a, A, B, R: View, AC, BC> MergeState for VecMergeState<'a, A, B, R, AC, BC> {
    type A = A;
    type B = B;
    type Fr = ();
    spec fn fr(&self) -> () { () }
    type Out = Seq<R::V>;
    spec fn a(&self) -> Seq<A> { self.a@ }
    spec fn b(&self) -> Seq<B> { self.b@ }
    spec fn out(&self) -> Seq<R::V> { self.r@.map_values(|x: R| x@) }
//@ fn src/merge_state.rs | MergeState for VecMergeState | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for VecMergeState | b_slice
//@ endfn
}
impl<'a, A, B, R: View, AC: Converter<&'a A, R>, BC: Converter<&'a B, R>> MergeStateMut for VecMergeState<'a, A, B, R, AC, BC> {
    spec fn ta(o: Seq<R::V>, a: A) -> Seq<R::V> { o.push(AC::conv(&a)) }
    spec fn tb(o: Seq<R::V>, b: B) -> Seq<R::V> { o.push(BC::conv(&b)) }
    spec fn can_a() -> bool { true }
    spec fn can_b() -> bool { true }
    spec fn ela(a: A) -> bool { AC::conv_ok(&a) }
    spec fn elb(b: B) -> bool { BC::conv_ok(&b) }
//@ fn src/merge_state.rs | MergeStateMut for VecMergeState | advance_a
//@ start
    proof { lemma_fold_push(|o: Seq<R::V>, x: A| Self::ta(o, x), |x: A| AC::conv(&x), self.out(), self.a@.take(n as int)); }
    let ghost (s, r0) = (self.a@.take(n as int), self.out());
    proof { assert(s.take(s.len() as int) =~= s); if take { assert forall|k: int| 0 <= k < s.len() implies AC::conv_ok(&#[trigger] s[k]) by { assert(Self::ela(self.a()[k])); } } }
//@ loop 0 iter it
      invariant forall|k: int| 0 <= k < s.len() ==> AC::conv_ok(&#[trigger] s[k]), it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *it.seq()[k] == s[k],
        self.out() =~= r0 + s.take(it.index@ as int).map_values(|x: A| AC::conv(&x))
//@ loopstart 0
        let ghost (rr, ix) = (self.r@, it.index@ as int);
        proof { assert(*e == s[ix]); lemma_take_map(s, |x: A| AC::conv(&x), r0, ix); assert(AC::conv_ok(&s[ix])); }
        proof { assert forall|y: R| (#[trigger] rr.push(y)).map_values(|x: R| x@) == rr.map_values(|x: R| x@).push(y@) by { lemma_push_map(rr, |x: R| x@, y); } }
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for VecMergeState | advance_b
//@ start
    proof { lemma_fold_push(|o: Seq<R::V>, x: B| Self::tb(o, x), |x: B| BC::conv(&x), self.out(), self.b@.take(n as int)); }
    let ghost (s, r0) = (self.b@.take(n as int), self.out());
    proof { assert(s.take(s.len() as int) =~= s); if take { assert forall|k: int| 0 <= k < s.len() implies BC::conv_ok(&#[trigger] s[k]) by { assert(Self::elb(self.b()[k])); } } }
//@ loop 0 iter it
      invariant forall|k: int| 0 <= k < s.len() ==> BC::conv_ok(&#[trigger] s[k]), it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *it.seq()[k] == s[k],
        self.out() =~= r0 + s.take(it.index@ as int).map_values(|x: B| BC::conv(&x))
//@ loopstart 0
        let ghost (rr, ix) = (self.r@, it.index@ as int);
        proof { assert(*e == s[ix]); lemma_take_map(s, |x: B| BC::conv(&x), r0, ix); assert(BC::conv_ok(&s[ix])); }
        proof { assert forall|y: R| (#[trigger] rr.push(y)).map_values(|x: R| x@) == rr.map_values(|x: R| x@).push(y@) by { lemma_push_map(rr, |x: R| x@, y); } }
//@ endfn
}
impl<'a, A, B, R: View, AC: Converter<&'a A, R>, BC: Converter<&'a B, R>> VecMergeState<'a, A, B, R, AC, BC> {
//@ fn src/merge_state.rs | VecMergeState | new
//@ ret s
    ensures s.a@ == a@, s.b@ == b@, s.r@ == r@
//@ endfn
//@ fn src/merge_state.rs | VecMergeState | into_vec
//@ ret r
    ensures r@ == self.r@
//@ endfn
//@ fn src/merge_state.rs | VecMergeState | merge
//@ ret r
    requires o.okk(), oks::<Self, O>(&o, a@, b@), o.ops().mono(a@, b@)
    ensures r@.map_values(|x: R| x@) == o.ops().fold(Seq::empty(), a@, b@)
//@ before `o . merge ( & mut state )`
    proof { assert(state.out() =~= Seq::empty()); }
//@ endfn
}
//@ include builder_spec.vrs
//@ subst GEN T
//@ subst ARG T
//@ subst ITEM T
//@ subst COLL Vec<T>
//@ subst BLD InPlaceVecBuilder
//@ include builder_decl.vrs
//@ unsubst GEN ARG ITEM COLL BLD

/// stands for std's AsRef<[B]>
trait AsSlice<B> {
    spec fn sl(&self) -> Seq<B>;
    fn as_ref(&self) -> (r: &[B]) ensures r@ == self.sl();
}
impl<'x, B> AsSlice<B> for &'x [B] {
    spec fn sl(&self) -> Seq<B> { (*self)@ }
    fn as_ref(&self) -> (r: &[B]) { self }
}
/// `(&mut b).map(C::convert)`
#[verifier::reject_recursive_types(B)]
struct VxMapVec<'x, 'b, B, T, C> { it: &'x mut SliceIterator<'b, B>, c: PhantomData<(T, C)> }
impl<'x, 'b, B, T: View, C: Converter<&'b B, T>> VxMapVec<'x, 'b, B, T, C> {
    fn new(it: &'x mut SliceIterator<'b, B>) -> (r: Self) ensures r.src() == old(it)@, r.after() == final(it)@ { VxMapVec { it, c: PhantomData } }
}
impl<'x, 'b, B, T: View, C: Converter<&'b B, T>> VxIter for VxMapVec<'x, 'b, B, T, C> {
    type Item = T;
    type Src = B;
    spec fn src(&self) -> Seq<B> { self.it@ }
    spec fn okk(s: B) -> bool { C::conv_ok(&s) }
    spec fn rel(s: B, i: T) -> bool { i@ == C::conv(&s) }
    #[verifier::prophetic]
    spec fn after(&self) -> Seq<B> { final(self.it)@ }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { Some(x) => Some(C::convert(x)), None => None } }
    fn vx_drop(self) { }
}
trait MutateInput: MergeStateMut {
//@ fn src/merge_state.rs | trait MutateInput | source_slices_mut
//@ ret r
    ensures r.0@ == old(self).a(), r.1@ == old(self).b(), final(self).a() == final(r.0)@, final(r.0)@.len() == old(self).a().len(),
      final(self).b() == old(self).b(), final(self).out() == old(self).out(), final(self).fr() == old(self).fr()
//@ endfn
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
//@ struct src/merge_state.rs InPlaceVecMergeStateRef
//@ rw `'a , A , B , C` => `'a, A: View, B, C`
impl<'a, A: View, B, C: Converter<&'a B, A>> MergeState for InPlaceVecMergeStateRef<'a, A, B, C> {
    type A = A;
    type B = B;
    type Fr = Seq<A>;
    spec fn fr(&self) -> Seq<A> { self.a.fin() }
    type Out = Seq<A::V>;
    spec fn a(&self) -> Seq<A> { self.a.source() }
    spec fn b(&self) -> Seq<B> { self.b@ }
    spec fn out(&self) -> Seq<A::V> { self.a.target().map_values(|x: A| x@) }
//@ fn src/merge_state.rs | MergeState for InPlaceVecMergeStateRef | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for InPlaceVecMergeStateRef | b_slice
//@ endfn
}
impl<'a, A: View, B, C: Converter<&'a B, A>> MergeStateMut for InPlaceVecMergeStateRef<'a, A, B, C> {
    spec fn ta(o: Seq<A::V>, a: A) -> Seq<A::V> { o.push(a@) }
    spec fn tb(o: Seq<A::V>, b: B) -> Seq<A::V> { o.push(C::conv(&b)) }
    spec fn can_a() -> bool { true }
    spec fn can_b() -> bool { true }
    spec fn elb(b: B) -> bool { C::conv_ok(&b) }
//@ fn src/merge_state.rs | MergeStateMut for InPlaceVecMergeStateRef | advance_a
//@ start
    proof { lemma_fold_push(|o: Seq<A::V>, x: A| Self::ta(o, x), |x: A| x@, self.out(), self.a.source().take(n as int));
      assert((self.a.target() + self.a.source().take(n as int)).map_values(|x: A| x@) =~= self.out() + self.a.source().take(n as int).map_values(|x: A| x@)); }
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for InPlaceVecMergeStateRef | advance_b
//@ rw `( & mut self . b ) . map ( C :: convert )` => `VxMapVec::<B, A, C>::new(&mut self.b)`
//@ start
    proof { lemma_fold_push(|o: Seq<A::V>, x: B| Self::tb(o, x), |x: B| C::conv(&x), self.out(), self.b@.take(n as int));
      if take { assert forall|i: int| 0 <= i < n implies C::conv_ok(&#[trigger] self.b@[i]) by { assert(Self::elb(self.b()[i])); } } }
    let ghost (b0, a0, t0, f0) = (self.b@, self.a.source(), self.a.target(), self.a.fin());
//@ loop 0 iter it
      invariant n <= b0.len(), self.b@ =~= b0.skip(it.index@ as int), self.a.source() == a0, self.a.target() == t0, self.a.fin() == f0
//@ end
    proof {
        if take {
            assert forall|i: int| 0 <= i < t0.len() implies self.a.target()[i] == t0[i] by { assert(self.a.target()[i] == self.a.target().take(t0.len() as int)[i]); }
            assert forall|i: int| t0.len() <= i < t0.len() + n implies self.a.target()[i]@ == C::conv(&b0[i - t0.len()]) by { let k = i - t0.len(); assert(self.a.target()[t0.len() + k] == self.a.target()[i]); }
            assert(self.out() =~= t0.map_values(|x: A| x@) + b0.take(n as int).map_values(|x: B| C::conv(&x)));
        }
    }
//@ endfn
}
impl<'a, A: View, B, C: Converter<&'a B, A>> MutateInput for InPlaceVecMergeStateRef<'a, A, B, C> {
//@ fn src/merge_state.rs | MutateInput for InPlaceVecMergeStateRef | source_slices_mut
//@ endfn
}
impl<'a, A: View, B, C: Converter<&'a B, A>> InPlaceVecMergeStateRef<'a, A, B, C> {
//@ fn src/merge_state.rs | InPlaceVecMergeStateRef | new
//@ sigrw `impl AsRef < [ B ] >` => `impl AsSlice<B>`
//@ ret r
    ensures r.a.source() == old(a)@, r.a.target() == Seq::<A>::empty(), r.b@ == b.sl(), r.a.fin() == final(a)@
//@ rw `a : a . into ( )` => `a: InPlaceVecBuilder::from(a)`
//@ endfn
//@ fn src/merge_state.rs | InPlaceVecMergeStateRef | merge
//@ sigrw `impl AsRef < [ B ] >` => `impl AsSlice<B>`
    requires o.okk(), oks::<Self, O>(&o, old(a)@, b.sl()), o.ops().mono(old(a)@, b.sl())
    ensures final(a)@.map_values(|x: A| x@) == o.ops().fold(Seq::empty(), old(a)@, b.sl())
//@ before `o . merge ( & mut state )`
    proof { assert(state.out() =~= Seq::empty()); }
//@ after `o . merge ( & mut state )`
       state.a.finish();
//@ endfn
}
