//@ include state_mut.vrs
//@ tag base
trait Converter<A, B> {
    spec fn conv_ok() -> bool;
    spec fn conv(value: A) -> B;
//@ fn src/merge_state.rs | trait Converter | convert
//@ ret r
    requires Self::conv_ok()
    ensures r == Self::conv(value)
//@ endfn
}
//@ struct src/merge_state.rs NoConverter
//@ struct src/merge_state.rs CloneConverter
//@ struct src/merge_state.rs IdConverter
//@ head src/merge_state.rs Converter for NoConverter
    spec fn conv_ok() -> bool { false }
    uninterp spec fn conv(value: A) -> B;
//@ fn src/merge_state.rs | Converter for NoConverter | convert
//@ rw `panic ! ( $x )` => `vstd::pervasive::unreached()`
//@ endfn
}
//@ head src/merge_state.rs Converter for CloneConverter
    spec fn conv_ok() -> bool { clone_ok::<A>() }
    spec fn conv(value: &A) -> A { *value }
//@ fn src/merge_state.rs | Converter for CloneConverter | convert
//@ endfn
}
//@ head src/merge_state.rs Converter for IdConverter
    spec fn conv_ok() -> bool { true }
    spec fn conv(value: A) -> A { value }
//@ fn src/merge_state.rs | Converter for IdConverter | convert
//@ endfn
}
//@ include state_bool.vrs
//@ tag smallstate
//@ # SmallVecMergeState
#[verifier::reject_recursive_types(Arr)]
//@ struct src/merge_state.rs SmallVecMergeState
//@ head src/merge_state.rs MergeState for SmallVecMergeState
//@ types src/merge_state.rs MergeState for SmallVecMergeState
    type Fr = ();
    spec fn fr(&self) -> () { () }
    type Out = Seq<Arr::Item>;
    spec fn a(&self) -> Seq<A> { self.a@ }
    spec fn b(&self) -> Seq<B> { self.b@ }
    spec fn out(&self) -> Seq<Arr::Item> { self.r@ }
//@ fn src/merge_state.rs | MergeState for SmallVecMergeState | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for SmallVecMergeState | b_slice
//@ endfn
}
//@ head src/merge_state.rs MergeStateMut for SmallVecMergeState
    spec fn ta(o: Seq<A>, a: A) -> Seq<A> { o.push(a) }
    spec fn tb(o: Seq<A>, b: B) -> Seq<A> { o.push(C::conv(&b)) }
    spec fn can_a() -> bool { clone_ok::<A>() }
    spec fn can_b() -> bool { C::conv_ok() }
//@ fn src/merge_state.rs | MergeStateMut for SmallVecMergeState | advance_a
//@ start
    proof { lemma_fold_push(|o: Seq<A>, x: A| Self::ta(o, x), |x: A| x, self.r@, self.a@.take(n as int)); }
    let ghost (s, r0) = (self.a@.take(n as int), self.r@);
    proof { assert(s.take(s.len() as int) =~= s); assert(s.map_values(|x: A| x) =~= s); }
//@ loop 0 iter it
      invariant clone_ok::<A>(), it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *it.seq()[k] == s[k],
        self.r@ =~= r0 + s.take(it.index@ as int)
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for SmallVecMergeState | advance_b
//@ start
    proof { lemma_fold_push(|o: Seq<A>, x: B| Self::tb(o, x), |x: B| C::conv(&x), self.r@, self.b@.take(n as int)); }
    let ghost (s, r0) = (self.b@.take(n as int), self.r@);
    proof { assert(s.take(s.len() as int) =~= s); }
//@ loop 0 iter it
      invariant C::conv_ok(), it.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> *it.seq()[k] == s[k],
        self.r@ =~= r0 + s.take(it.index@ as int).map_values(|x: B| C::conv(&x))
//@ endfn
}
//@ head src/merge_state.rs SmallVecMergeState # merge
//@ fn src/merge_state.rs | SmallVecMergeState | new
//@ ret s
    ensures s.a@ == a@, s.b@ == b@, s.r@ == r@
//@ endfn
//@ fn src/merge_state.rs | SmallVecMergeState | into_vec
//@ ret r
    ensures r@ == self.r@
//@ endfn
//@ fn src/merge_state.rs | SmallVecMergeState | merge
//@ ret r
    requires o.okk(), oks::<Self, O>(&o, a@, b@), o.ops().mono(a@, b@)
    ensures r@ == o.ops().fold(Seq::empty(), a@, b@)
//@ endfn
}

//@ tag inplace
//@ # InPlaceMergeState
//@ include builder.vrs
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
//@ struct src/merge_state.rs InPlaceMergeState
//@ head src/merge_state.rs MergeState for InPlaceMergeState
//@ types src/merge_state.rs MergeState for InPlaceMergeState
    type Fr = Seq<A::Item>;
    spec fn fr(&self) -> Seq<A::Item> { self.a.fin() }
    type Out = Seq<A::Item>;
    spec fn a(&self) -> Seq<A::Item> { self.a.source() }
    spec fn b(&self) -> Seq<B::Item> { self.b@ }
    spec fn out(&self) -> Seq<A::Item> { self.a.target() }
//@ fn src/merge_state.rs | MergeState for InPlaceMergeState | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for InPlaceMergeState | b_slice
//@ endfn
}
//@ head src/merge_state.rs MergeStateMut for InPlaceMergeState
    spec fn ta(o: Seq<A::Item>, a: A::Item) -> Seq<A::Item> { o.push(a) }
    spec fn tb(o: Seq<A::Item>, b: B::Item) -> Seq<A::Item> { o.push(C::conv(b)) }
    spec fn can_a() -> bool { true }
    spec fn can_b() -> bool { C::conv_ok() }
//@ fn src/merge_state.rs | MergeStateMut for InPlaceMergeState | advance_a
//@ start
    proof { lemma_fold_push(|o: Seq<A::Item>, x: A::Item| Self::ta(o, x), |x: A::Item| x, self.a.target(), self.a.source().take(n as int));
      let s = self.a.source().take(n as int);
      assert(s.map_values(|x: A::Item| x) =~= s); }
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for InPlaceMergeState | advance_b
//@ rw `( & mut self . b ) . map ( C :: convert )` => `VxMapInto::<B, A::Item, C>::new(&mut self.b)`
//@ start
    proof { lemma_fold_push(|o: Seq<A::Item>, x: B::Item| Self::tb(o, x), |x: B::Item| C::conv(x), self.a.target(), self.b@.take(n as int)); }
    let ghost (b0, a0, t0, f0) = (self.b@, self.a.source(), self.a.target(), self.a.fin());
//@ loop 0 iter it
      invariant n <= b0.len(), self.b@ =~= b0.skip(it.index@ as int), self.a.source() == a0, self.a.target() == t0, self.a.fin() == f0
//@ end
    proof {
        if take {
            assert(self.a.target().len() == t0.len() + n);
            assert forall|i: int| 0 <= i < t0.len() implies self.a.target()[i] == t0[i] by { assert(self.a.target()[i] == self.a.target().take(t0.len() as int)[i]); }
            assert forall|i: int| t0.len() <= i < t0.len() + n implies self.a.target()[i] == C::conv(b0[i - t0.len()]) by { let k = i - t0.len(); assert(self.a.target()[t0.len() + k] == self.a.target()[i]); }
            assert(self.a.target() =~= t0 + b0.take(n as int).map_values(|x: B::Item| C::conv(x)));
        }
    }
//@ endfn
}
//@ head src/merge_state.rs InPlaceMergeState # new
//@ fn src/merge_state.rs | InPlaceMergeState | new
//@ ret r
    ensures r.a.source() == old(a)@, r.a.target() == Seq::<A::Item>::empty(), r.b@ == b@, r.a.fin() == final(a)@
//@ rw `a : a . into ( )` => `a: InPlaceSmallVecBuilder::from(a)`
//@ endfn
}
//@ head src/merge_state.rs InPlaceMergeState # merge
//@ fn src/merge_state.rs | InPlaceMergeState | merge
    requires o.okk(), oks::<Self, O>(&o, old(a)@, b@), o.ops().mono(old(a)@, b@)
    ensures final(a)@ == o.ops().fold(Seq::empty(), old(a)@, b@)
//@ after `o . merge ( & mut state )`
       state.a.finish();
//@ endfn
}

//@ # InPlaceSmallVecMergeStateRef
#[verifier::reject_recursive_types(A)]
//@ struct src/merge_state.rs InPlaceSmallVecMergeStateRef
//@ head src/merge_state.rs MergeState for InPlaceSmallVecMergeStateRef
//@ types src/merge_state.rs MergeState for InPlaceSmallVecMergeStateRef
    type Fr = Seq<A::Item>;
    spec fn fr(&self) -> Seq<A::Item> { self.a.fin() }
    type Out = Seq<A::Item>;
    spec fn a(&self) -> Seq<A::Item> { self.a.source() }
    spec fn b(&self) -> Seq<B> { self.b@ }
    spec fn out(&self) -> Seq<A::Item> { self.a.target() }
//@ fn src/merge_state.rs | MergeState for InPlaceSmallVecMergeStateRef | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for InPlaceSmallVecMergeStateRef | b_slice
//@ endfn
}
//@ head src/merge_state.rs MergeStateMut for InPlaceSmallVecMergeStateRef
    spec fn ta(o: Seq<A::Item>, a: A::Item) -> Seq<A::Item> { o.push(a) }
    spec fn tb(o: Seq<A::Item>, b: B) -> Seq<A::Item> { o.push(C::conv(&b)) }
    spec fn can_a() -> bool { true }
    spec fn can_b() -> bool { C::conv_ok() }
//@ fn src/merge_state.rs | MergeStateMut for InPlaceSmallVecMergeStateRef | advance_a
//@ start
    proof { lemma_fold_push(|o: Seq<A::Item>, x: A::Item| Self::ta(o, x), |x: A::Item| x, self.a.target(), self.a.source().take(n as int));
      let s = self.a.source().take(n as int);
      assert(s.map_values(|x: A::Item| x) =~= s); }
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for InPlaceSmallVecMergeStateRef | advance_b
//@ rw `( & mut self . b ) . map ( C :: convert )` => `VxMapRef::<B, A::Item, C>::new(&mut self.b)`
//@ start
    proof { lemma_fold_push(|o: Seq<A::Item>, x: B| Self::tb(o, x), |x: B| C::conv(&x), self.a.target(), self.b@.take(n as int)); }
    let ghost (b0, a0, t0, f0) = (self.b@, self.a.source(), self.a.target(), self.a.fin());
//@ loop 0 iter it
      invariant n <= b0.len(), self.b@ =~= b0.skip(it.index@ as int), self.a.source() == a0, self.a.target() == t0, self.a.fin() == f0
//@ end
    proof {
        if take {
            assert(self.a.target().len() == t0.len() + n);
            assert forall|i: int| 0 <= i < t0.len() implies self.a.target()[i] == t0[i] by { assert(self.a.target()[i] == self.a.target().take(t0.len() as int)[i]); }
            assert forall|i: int| t0.len() <= i < t0.len() + n implies self.a.target()[i] == C::conv(&b0[i - t0.len()]) by { let k = i - t0.len(); assert(self.a.target()[t0.len() + k] == self.a.target()[i]); }
            assert(self.a.target() =~= t0 + b0.take(n as int).map_values(|x: B| C::conv(&x)));
        }
    }
//@ endfn
}
//@ head src/merge_state.rs InPlaceSmallVecMergeStateRef # new
//@ fn src/merge_state.rs | InPlaceSmallVecMergeStateRef | new
//@ sigrw `impl AsRef < [ B ] >` => `impl AsSlice<B>`
//@ ret r
    ensures r.a.source() == old(a)@, r.a.target() == Seq::<A::Item>::empty(), r.b@ == b.sl(), r.a.fin() == final(a)@
//@ rw `a : a . into ( )` => `a: InPlaceSmallVecBuilder::from(a)`
//@ endfn
}
//@ head src/merge_state.rs InPlaceSmallVecMergeStateRef # merge
//@ fn src/merge_state.rs | InPlaceSmallVecMergeStateRef | merge
//@ sigrw `impl AsRef < [ B ] >` => `impl AsSlice<B>`
    requires o.okk(), oks::<Self, O>(&o, old(a)@, b.sl()), o.ops().mono(old(a)@, b.sl())
    ensures final(a)@ == o.ops().fold(Seq::empty(), old(a)@, b.sl())
//@ after `o . merge ( & mut state )`
       state.a.finish();
//@ endfn
}
