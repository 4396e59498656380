//@ include radix_comb.vrs
//@ tag rxm
//@ # ---- in-place combination ----------------------------------------------------------------------------------------
/// what a callback that may change its first argument does: the new value, and the result
uninterp spec fn fmv<V, W, F: Fn(&mut V, &W) -> bool>(f: F, v: V, w: W) -> (V, bool);
/// the callback is total and deterministic
#[verifier::opaque]
#[verifier::prophetic]
spec fn fmpure<V, W, F: Fn(&mut V, &W) -> bool>(f: F) -> bool {
    &&& forall|m: &mut V, w: W| #[trigger] f.requires((m, &w))
    &&& forall|m: &mut V, w: W, r: bool| #[trigger] f.ensures((m, &w), r) ==> (*final(m), r) == fmv(f, *m, w)
}
/// trusted: fmv is the function a closure's contract determines
#[verifier::external_body]
proof fn axiom_fmv<V, W, F: Fn(&mut V, &W) -> bool>(f: F, g: spec_fn(V, W) -> (V, bool))
    requires forall|m: &mut V, w: W| #[trigger] f.requires((m, &w)),
      forall|m: &mut V, w: W, r: bool| #[trigger] f.ensures((m, &w), r) ==> (*final(m), r) == g(*m, w)
    ensures fmpure::<V, W, F>(f), forall|v: V, w: W| #[trigger] fmv(f, v, w) == g(v, w)
{}
spec fn fmo<V, W, F: Fn(&mut V, &W) -> bool>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| if fmv(f, v, w).1 { Some(fmv(f, v, w).0) } else { None } }
/// what merging two lists of children needs, for every list that stands for the children
proof fn lemma_tj_all<K: TKey, V: TValue, W, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, cv: Seq<TV<K, V>>, t: Seq<TB>)
    requires key_laws::<K>(), cok(cv), cok(vs(t))
    ensures forall|s: Seq<RadixTree<K, V>>| #[trigger] vs(s) == cv ==> tj_ops::<K, V, W, RadixTree<K, V>, TB>(l, r, c).mono(s, t) && tj_ops::<K, V, W, RadixTree<K, V>, TB>(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, cv, vs(t)),
      forall|s: Seq<RadixTree<K, V>>, i: int| #![trigger vs(s), s[i]] vs(s) == cv && 0 <= i < s.len() ==> tree_ok(s[i]) && s[i]@ == cv[i],
      forall|i: int| 0 <= i < t.len() ==> tree_ok(#[trigger] t[i]) && t[i]@ == vs(t)[i]
{
    lemma_vs(t);
    assert forall|s: Seq<RadixTree<K, V>>| #[trigger] vs(s) == cv implies tj_ops::<K, V, W, RadixTree<K, V>, TB>(l, r, c).mono(s, t) && tj_ops::<K, V, W, RadixTree<K, V>, TB>(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, cv, vs(t)) by {
        lemma_tj_mono(l, r, c, s, t); lemma_tj_fold::<K, V, W, RadixTree<K, V>, TB>(l, r, c, Seq::empty(), s, t);
        assert(Seq::<TV<K, V>>::empty() + tjoin(l, r, c, vs(s), vs(t)) =~= tjoin(l, r, c, vs(s), vs(t)));
    }
    assert forall|s: Seq<RadixTree<K, V>>, i: int| #![trigger vs(s), s[i]] vs(s) == cv && 0 <= i < s.len() implies tree_ok(s[i]) && s[i]@ == cv[i] by { lemma_vs(s); assert(wfc(vs(s)[i])); }
    assert forall|i: int| 0 <= i < t.len() implies tree_ok(#[trigger] t[i]) && t[i]@ == vs(t)[i] by { assert(wfc(vs(t)[i])); }
}
type MIR<'a, K, V, B, C> = InPlaceVecMergeStateRef<'a, RadixTree<K, V>, B, C>;
//@ tag rxm.outer
impl<'a, K: TKey, V: TValue, B: AbstractRadixTree<K, V>, F: Fn(&mut V, &V) -> bool + Copy> MergeOperation<MIR<'a, K, V, B, RadixTreeConverter<K, V>>> for OuterCombineOp<F, Top<K, V, V>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, B> { tj_ops(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(self.0)))) }
    #[verifier::prophetic]
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && fmpure::<V, V, F>(self.0) }
    spec fn oka(&self, a: RadixTree<K, V>) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<InPlaceVecMergeStateRef<'a, A, B, C>> for OuterCombineOp | cmp
//@ sigrw `a : & A , b : & B` => `a: &RadixTree<K, V>, b: &B`
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<InPlaceVecMergeStateRef<'a, A, B, C>> for OuterCombineOp | from_a
//@ sigrw `m : & mut InPlaceVecMergeStateRef < 'a , A , B , C >` => `m: &mut MIR<'a, K, V, B, RadixTreeConverter<K, V>>`
//@ start
    let ghost x0 = m.a()[0];
    proof { assert(tsome::<K, V>() == tsome::<K, V>()); lemma_fa_some::<K, V, V, RadixTree<K, V>, B>(tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(self.0))), m.out(), m.a().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: RadixTree<K, V>| <MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::ta(o, x), |x: RadixTree<K, V>| x@, m.out(), m.a().take(n as int));
      assert forall|i: int| 0 <= i < n implies <MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::ela(#[trigger] m.a()[i]) by { assert(tree_ok(m.a()[i])); }
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<InPlaceVecMergeStateRef<'a, A, B, C>> for OuterCombineOp | from_b
//@ sigrw `m : & mut InPlaceVecMergeStateRef < 'a , A , B , C >` => `m: &mut MIR<'a, K, V, B, RadixTreeConverter<K, V>>`
//@ start
    let ghost x0 = m.b()[0];
    proof { assert(tsome::<K, V>() == tsome::<K, V>()); lemma_fb_some::<K, V, RadixTree<K, V>, B>(tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(self.0))), m.out(), m.b().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: B| <MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::tb(o, x), |x: B| x@, m.out(), m.b().take(n as int));
      assert forall|i: int| 0 <= i < n implies <MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::elb(#[trigger] m.b()[i]) by { assert(tree_ok(m.b()[i])); }
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<InPlaceVecMergeStateRef<'a, A, B, C>> for OuterCombineOp | collision
//@ sigrw `m : & mut InPlaceVecMergeStateRef < 'a , A , B , C >` => `m: &mut MIR<'a, K, V, B, RadixTreeConverter<K, V>>`
//@ rw `av . outer_combine_with ( bv , self . 0 )` => `outer_with_rec(av, bv, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof { let h = cmb(go(fmo::<V, V, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, RadixTreeConverter<K, V>> as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn outer_with_rec<K: TKey, V: TValue, B: AbstractRadixTree<K, V>, F: Fn(&mut V, &V) -> bool + Copy>(a: &mut RadixTree<K, V>, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, V>>)
    requires ba(vx_top, old(a)@), bb(vx_top, b@), kv_ok::<K, V>(), wf(old(a)@), wf(b@), fmpure::<V, V, F>(f)
    ensures lk(final(a)@, cmb(go(fmo::<V, V, F>(f)), old(a)@, b@))
{ unimplemented!() }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | outer_combine_children_with
//@ sigrw `f : F` => `f: F, Ghost(vx_top): Ghost<Top<K, V, V>>`
//@ sigrw `R : AbstractRadixTree < K , V , Materialized = Self :: Materialized > ,` => `R: AbstractRadixTree<K, V>,`
    requires tops(vx_top, old(self)@.c, vs(rhs@)), kv_ok::<K, V>(), cok(old(self)@.c), cok(vs(rhs@)), fmpure::<V, V, F>(f)
    ensures final(self)@ == (TV { c: tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(f))), old(self)@.c, vs(rhs@)), ..old(self)@ })
//@ rw `OuterCombineOp ( f , PhantomData )` => `OuterCombineOp(f, Ghost(vx_top))`
//@ start
    proof {
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(f))), self@.c, rhs@);
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | outer_combine_with
//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &B`
//@ sigrw `f : impl Fn ( & mut V , & V ) -> bool + Copy` => `f: F`
//@ sigrw `outer_combine_with` => `outer_combine_with<B: AbstractRadixTree<K, V>, F: Fn(&mut V, &V) -> bool + Copy>`
    requires kv_ok::<K, V>(), wf(old(self)@), wf(that@), fmpure::<V, V, F>(f)
    ensures lk(final(self)@, cmb(go(fmo::<V, V, F>(f)), old(self)@, that@))
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `self . outer_combine_children_with ( $$x )` => `self.outer_combine_children_with($x, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fmpure); lemma_view(*self); that.lemma_tree(); lemma_tops(av, bv); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(go(fmo::<V, V, F>(f)), tsome::<K, V>())); assert(rfits1(go(fmo::<V, V, F>(f)), tsome::<K, V>()));
        lemma_outer_pairs(go(fmo::<V, V, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join1(go(fmo::<V, V, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_lists::<K, V, RadixTree<K, V>>();
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == go(fmo::<V, V, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(go(fmo::<V, V, F>(f)), av, bv)) by { assert(node_is(go(fmo::<V, V, F>(f)), av, bv, n, t)); lemma_node(go(fmo::<V, V, F>(f)), av, bv, n, t); }

        if n < av.p.len() && n < bv.p.len() { lemma_apart(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fmo::<V, V, F>(f))), short(av, n), short(bv, n)); let (x, y) = (short(av, n), short(bv, n)); assert(os(Some(x)) + os(Some(y)) =~= seq![x, y]); assert(os(Some(y)) + os(Some(x)) =~= seq![y, x]); }
    }
//@ before `self . children_mut ( ) . sort_by_key ( $$x )`
            proof {
                lemma_view(*self); let (sa, sb) = (self@.c[0], self@.c[1]);
                assert forall|q: Seq<RadixTree<K, V>>, s: Seq<RadixTree<K, V>>| #![trigger vs(q), vs(s)] vs(q) == self@.c && s.len() == 2 && s.contains(q[0]) && s.contains(q[1]) && oc(hd(s[0]@), hd(s[1]@)) != Ordering::Greater implies vs(s) == (if oc(hd(sa), hd(sb)) == Ordering::Less { seq![sa, sb] } else { seq![sb, sa] }) by { assert(vs(q)[0] == q[0]@ && vs(q)[1] == q[1]@); lemma_sort2(s, q[0], q[1]); }
                assert forall|q: Seq<RadixTree<K, V>>| #[trigger] vs(q) == self@.c implies q.len() == 2 && q[0]@ == sa && q[1]@ == sb by { assert(vs(q).len() == q.len()); assert(vs(q)[0] == q[0]@ && vs(q)[1] == q[1]@); }
            }
//@ endfn
}
//@ tag rxm.inner
impl<'a, K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy> MergeOperation<MIR<'a, K, V, B, NoConverter>> for InnerCombineOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, B> { tj_ops(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fmo::<V, W, F>(self.0)))) }
    #[verifier::prophetic]
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fmpure::<V, W, F>(self.0) }
    spec fn oka(&self, a: RadixTree<K, V>) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for InnerCombineOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &B`
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for InnerCombineOp | from_a
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.a()[0];
    proof { assert(tnone::<K, V, V>() == tnone::<K, V, V>()); lemma_fa_none::<K, V, W, RadixTree<K, V>, B>(tnone::<K, W, V>(), tcmb(gi(fmo::<V, W, F>(self.0))), m.out(), m.a().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for InnerCombineOp | from_b
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.b()[0];
    proof { assert(tnone::<K, V, V>() == tnone::<K, V, V>()); lemma_fb_none::<K, V, W, RadixTree<K, V>, B>(tnone::<K, V, V>(), tcmb(gi(fmo::<V, W, F>(self.0))), m.out(), m.b().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for InnerCombineOp | collision
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ rw `av . inner_combine_with ( bv , self . 0 )` => `inner_with_rec(av, bv, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof { let h = cmb(gi(fmo::<V, W, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn inner_with_rec<K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy>(a: &mut RadixTree<K, V>, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>)
    requires ba(vx_top, old(a)@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(a)@), wf(b@), fmpure::<V, W, F>(f)
    ensures lk(final(a)@, cmb(gi(fmo::<V, W, F>(f)), old(a)@, b@))
{ unimplemented!() }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | inner_combine_children_with
//@ sigrw `f : F` => `f: F, Ghost(vx_top): Ghost<Top<K, V, W>>`
    requires tops(vx_top, old(self)@.c, vs(rhs@)), kv_ok::<K, V>(), kv_ok::<K, W>(), cok(old(self)@.c), cok(vs(rhs@)), fmpure::<V, W, F>(f)
    ensures final(self)@ == (TV { c: tjoin(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fmo::<V, W, F>(f))), old(self)@.c, vs(rhs@)), ..old(self)@ })
//@ rw `InnerCombineOp ( f , PhantomData )` => `InnerCombineOp(f, Ghost(vx_top))`
//@ start
    proof {
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fmo::<V, W, F>(f))), self@.c, rhs@);
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | inner_combine_with
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & mut V , & W ) -> bool + Copy` => `f: F`
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@), fmpure::<V, W, F>(f)
    ensures lk(final(self)@, cmb(gi(fmo::<V, W, F>(f)), old(self)@, that@))
//@ rw `that . materialize_shortened ( $$x )` => `that.materialize_own($x)`
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `self . inner_combine_children_with ( $$x )` => `self.inner_combine_children_with($x, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fmpure); lemma_view(*self); that.lemma_tree(); lemma_tops(av, bv); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(gi(fmo::<V, W, F>(f)), tnone::<K, V, V>())); assert(rfits0(gi(fmo::<V, W, F>(f)), tnone::<K, W, V>()));
        lemma_keyed_pairs(gi(fmo::<V, W, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join0(gi(fmo::<V, W, F>(f)), tnone::<K, V, V>(), nd(av, n).c, nd(bv, n).c);
        lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == gi(fmo::<V, W, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fmo::<V, W, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(gi(fmo::<V, W, F>(f)), av, bv)) by { assert(node_is(gi(fmo::<V, W, F>(f)), av, bv, n, t)); lemma_node(gi(fmo::<V, W, F>(f)), av, bv, n, t); }

        if n < av.p.len() && n < bv.p.len() { assert(unsp(TV { p: av.p, v: None, c: Seq::empty() }) == tnil::<K, V>()); assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k) == cmb(gi(fmo::<V, W, F>(f)), av, bv)(k) by { lemma_nil_get(tnil::<K, V>(), k); lemma_disjoint_keys(av, bv, n, k); } }
    }
//@ endfn
}
//@ tag rxm.left
impl<'a, K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy> MergeOperation<MIR<'a, K, V, B, NoConverter>> for LeftCombineOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, B> { tj_ops(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fmo::<V, W, F>(self.0)))) }
    #[verifier::prophetic]
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fmpure::<V, W, F>(self.0) }
    spec fn oka(&self, a: RadixTree<K, V>) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for LeftCombineOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &B`
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for LeftCombineOp | from_a
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.a()[0];
    proof { assert(tsome::<K, V>() == tsome::<K, V>()); lemma_fa_some::<K, V, W, RadixTree<K, V>, B>(tnone::<K, W, V>(), tcmb(gl(fmo::<V, W, F>(self.0))), m.out(), m.a().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: RadixTree<K, V>| <MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o, x), |x: RadixTree<K, V>| x@, m.out(), m.a().take(n as int));
      assert forall|i: int| 0 <= i < n implies <MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ela(#[trigger] m.a()[i]) by { assert(tree_ok(m.a()[i])); }
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for LeftCombineOp | from_b
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.b()[0];
    proof { assert(tsome::<K, V>() == tsome::<K, V>()); lemma_fb_none::<K, V, W, RadixTree<K, V>, B>(tsome::<K, V>(), tcmb(gl(fmo::<V, W, F>(self.0))), m.out(), m.b().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for LeftCombineOp | collision
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ rw `av . left_combine_with ( bv , self . 0 )` => `left_with_rec(av, bv, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof { let h = cmb(gl(fmo::<V, W, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn left_with_rec<K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy>(a: &mut RadixTree<K, V>, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>)
    requires ba(vx_top, old(a)@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(a)@), wf(b@), fmpure::<V, W, F>(f)
    ensures lk(final(a)@, cmb(gl(fmo::<V, W, F>(f)), old(a)@, b@))
{ unimplemented!() }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | left_combine_children_with
//@ sigrw `f : F` => `f: F, Ghost(vx_top): Ghost<Top<K, V, W>>`
    requires tops(vx_top, old(self)@.c, vs(rhs@)), kv_ok::<K, V>(), kv_ok::<K, W>(), cok(old(self)@.c), cok(vs(rhs@)), fmpure::<V, W, F>(f)
    ensures final(self)@ == (TV { c: tjoin(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fmo::<V, W, F>(f))), old(self)@.c, vs(rhs@)), ..old(self)@ })
//@ rw `LeftCombineOp ( f , PhantomData )` => `LeftCombineOp(f, Ghost(vx_top))`
//@ start
    proof {
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fmo::<V, W, F>(f))), self@.c, rhs@);
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | left_combine_with
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & mut V , & W ) -> bool + Copy` => `f: F`
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&mut V, &W) -> bool + Copy>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@), fmpure::<V, W, F>(f)
    ensures lk(final(self)@, cmb(gl(fmo::<V, W, F>(f)), old(self)@, that@))
//@ rw `that . materialize_shortened ( $$x )` => `that.materialize_own($x)`
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `self . left_combine_children_with ( $$x )` => `self.left_combine_children_with($x, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fmpure); lemma_view(*self); that.lemma_tree(); lemma_tops(av, bv); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(gl(fmo::<V, W, F>(f)), tsome::<K, V>())); assert(rfits0(gl(fmo::<V, W, F>(f)), tnone::<K, W, V>()));
        lemma_keyed_pairs(gl(fmo::<V, W, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join0(gl(fmo::<V, W, F>(f)), tsome::<K, V>(), nd(av, n).c, nd(bv, n).c);
        lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == gl(fmo::<V, W, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fmo::<V, W, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(gl(fmo::<V, W, F>(f)), av, bv)) by { assert(node_is(gl(fmo::<V, W, F>(f)), av, bv, n, t)); lemma_node(gl(fmo::<V, W, F>(f)), av, bv, n, t); }

        if n < av.p.len() && n < bv.p.len() { lemma_left_apart(gl(fmo::<V, W, F>(f)), av, bv, n); }
    }
//@ endfn
}
//@ tag rxm
proof fn lemma_pfx_apart<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>, n: int)
    requires wf(a), 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n]
    ensures unsp(a) == a, !kp ==> lk(a, pfx(kp, q, a, b)), kp ==> lk(tnil::<K, V>(), pfx(kp, q, a, b)), unsp(TV { p: a.p, v: None, c: Seq::empty() }) == tnil::<K, V>()
{
    lemma_unsp_id(a);
    assert forall|k: Seq<K>| tget(a, k).is_some() implies !thit(b, q, k) by {
        lemma_get_pre(a, k); lemma_hit_pre(b, q, k);
        if pre(b.p, k) { assert(k.take(a.p.len() as int)[n] == k[n]); assert(k.take(b.p.len() as int)[n] == k[n]); }
    }
    assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k).is_none() by { lemma_nil_get(tnil::<K, V>(), k); }
}
proof fn lemma_pfx_all<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>)
    requires wf(a), b.p.len() <= a.p.len(), a.p.take(b.p.len() as int) == b.p, b.v.is_some() && q(b.v.unwrap())
    ensures unsp(a) == a, kp ==> lk(a, pfx(kp, q, a, b)), !kp ==> lk(tnil::<K, V>(), pfx(kp, q, a, b)), unsp(TV { p: a.p, v: None, c: Seq::empty() }) == tnil::<K, V>()
{
    lemma_unsp_id(a); lemma_pall(kp, q, a, b);
    assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k).is_none() by { lemma_nil_get(tnil::<K, V>(), k); }
}
//@ tag rxm.remove_prefix
spec fn fq<W, F: Fn(&W) -> bool>(f: F) -> spec_fn(W) -> bool { |w: W| fv1::<&W, bool, F>(f, &w) }
//@ struct src/radix_tree/mod.rs RemovePrefixOp
//@ rw `PhantomData` => `Ghost`
impl<'a, K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy> MergeOperation<MIR<'a, K, V, B, NoConverter>> for RemovePrefixOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, B> { tj_ops(lpfx::<K, V>(false), tnone::<K, W, V>(), tpfx::<K, V, W>(false, fq::<W, F>(self.0))) }
    #[verifier::prophetic]
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fpure1::<&W, bool, F>(self.0) }
    spec fn oka(&self, a: RadixTree<K, V>) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RemovePrefixOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &B`
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RemovePrefixOp | from_a
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.a()[0];
    proof { assert(lpfx::<K, V>(false) == tsome::<K, V>()); lemma_fa_some::<K, V, W, RadixTree<K, V>, B>(tnone::<K, W, V>(), tpfx::<K, V, W>(false, fq::<W, F>(self.0)), m.out(), m.a().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: RadixTree<K, V>| <MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o, x), |x: RadixTree<K, V>| x@, m.out(), m.a().take(n as int));
      assert forall|i: int| 0 <= i < n implies <MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ela(#[trigger] m.a()[i]) by { assert(tree_ok(m.a()[i])); }
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RemovePrefixOp | from_b
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.b()[0];
    proof { assert(lpfx::<K, V>(false) == tsome::<K, V>()); lemma_fb_none::<K, V, W, RadixTree<K, V>, B>(lpfx::<K, V>(false), tpfx::<K, V, W>(false, fq::<W, F>(self.0)), m.out(), m.b().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RemovePrefixOp | collision
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ rw `av . remove_prefix_with ( bv , self . 0 )` => `remove_prefix_with_rec(av, bv, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof { let h = pfx(false, fq::<W, F>(self.0), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn remove_prefix_with_rec<K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy>(a: &mut RadixTree<K, V>, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>)
    requires ba(vx_top, old(a)@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(a)@), wf(b@), fpure1::<&W, bool, F>(f)
    ensures lk(final(a)@, pfx(false, fq::<W, F>(f), old(a)@, b@))
{ unimplemented!() }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | remove_prefix_children_with
//@ sigrw `f : F` => `f: F, Ghost(vx_top): Ghost<Top<K, V, W>>`
    requires tops(vx_top, old(self)@.c, vs(rhs@)), kv_ok::<K, V>(), kv_ok::<K, W>(), cok(old(self)@.c), cok(vs(rhs@)), fpure1::<&W, bool, F>(f)
    ensures final(self)@ == (TV { c: tjoin(lpfx::<K, V>(false), tnone::<K, W, V>(), tpfx::<K, V, W>(false, fq::<W, F>(f)), old(self)@.c, vs(rhs@)), ..old(self)@ })
//@ rw `RemovePrefixOp ( f , PhantomData )` => `RemovePrefixOp(f, Ghost(vx_top))`
//@ start
    proof {
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all(lpfx::<K, V>(false), tnone::<K, W, V>(), tpfx::<K, V, W>(false, fq::<W, F>(f)), self@.c, rhs@);
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | remove_prefix_with
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & W ) -> bool + Copy` => `f: F`
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@), fpure1::<&W, bool, F>(f)
    ensures lk(final(self)@, pfx(false, fq::<W, F>(f), old(self)@, that@))
//@ rw `that . materialize_shortened ( $$x )` => `that.materialize_own($x)`
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `self . remove_prefix_children_with ( $$x )` => `self.remove_prefix_children_with($x, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fpure1); lemma_view(*self); that.lemma_tree(); lemma_tops(av, bv); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        
        
        lemma_pjoin(false, fq::<W, F>(f), nd(av, n).c, nd(bv, n).c);
        lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && !(nd(bv, n).v.is_some() && fq::<W, F>(f)(nd(bv, n).v.unwrap())) && t.v == nd(av, n).v && t.c == tjoin(lpfx::<K, V>(false), tnone::<K, W, V>(), tpfx::<K, V, W>(false, fq::<W, F>(f)), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), pfx(false, fq::<W, F>(f), av, bv)) by { assert(pnode_is(false, fq::<W, F>(f), av, bv, n, t)); lemma_pnode(false, fq::<W, F>(f), av, bv, n, t); }

        if n < av.p.len() && n < bv.p.len() { lemma_pfx_apart(false, fq::<W, F>(f), av, bv, n); }
        if n == bv.p.len() && bv.v.is_some() && fq::<W, F>(f)(bv.v.unwrap()) { lemma_pfx_all(false, fq::<W, F>(f), av, bv); }
    }
//@ endfn
}
//@ tag rxm.retain_prefix
//@ struct src/radix_tree/mod.rs RetainPrefixOp
//@ rw `PhantomData` => `Ghost`
impl<'a, K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy> MergeOperation<MIR<'a, K, V, B, NoConverter>> for RetainPrefixOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, B> { tj_ops(lpfx::<K, V>(true), tnone::<K, W, V>(), tpfx::<K, V, W>(true, fq::<W, F>(self.0))) }
    #[verifier::prophetic]
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fpure1::<&W, bool, F>(self.0) }
    spec fn oka(&self, a: RadixTree<K, V>) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RetainPrefixOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &B`
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RetainPrefixOp | from_a
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.a()[0];
    proof { assert(lpfx::<K, V>(true) == tnone::<K, V, V>()); lemma_fa_none::<K, V, W, RadixTree<K, V>, B>(tnone::<K, W, V>(), tpfx::<K, V, W>(true, fq::<W, F>(self.0)), m.out(), m.a().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RetainPrefixOp | from_b
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ start
    let ghost x0 = m.b()[0];
    proof { assert(lpfx::<K, V>(true) == tnone::<K, V, V>()); lemma_fb_none::<K, V, W, RadixTree<K, V>, B>(lpfx::<K, V>(true), tpfx::<K, V, W>(true, fq::<W, F>(self.0)), m.out(), m.b().take(n as int));
    }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for RetainPrefixOp | collision
//@ sigrw `m : & mut I` => `m: &mut MIR<'a, K, V, B, NoConverter>`
//@ rw `av . retain_prefix_with ( bv , self . 0 )` => `retain_prefix_with_rec(av, bv, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof { let h = pfx(true, fq::<W, F>(self.0), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ end
    proof { let o1 = m.out(); assert(<MIR<'a, K, V, B, NoConverter> as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn retain_prefix_with_rec<K: TKey, V: TValue, W: TValue, B: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy>(a: &mut RadixTree<K, V>, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>)
    requires ba(vx_top, old(a)@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(a)@), wf(b@), fpure1::<&W, bool, F>(f)
    ensures lk(final(a)@, pfx(true, fq::<W, F>(f), old(a)@, b@))
{ unimplemented!() }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | retain_prefix_children_with
//@ sigrw `< W , R >` => `<W, R, F>`
//@ sigrw `f : impl Fn ( & W ) -> bool + Copy` => `f: F, Ghost(vx_top): Ghost<Top<K, V, W>>`
//@ sigrw `R : AbstractRadixTree < K , W > ,` => `R: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy,`
    requires tops(vx_top, old(self)@.c, vs(rhs@)), kv_ok::<K, V>(), kv_ok::<K, W>(), cok(old(self)@.c), cok(vs(rhs@)), fpure1::<&W, bool, F>(f)
    ensures final(self)@ == (TV { c: tjoin(lpfx::<K, V>(true), tnone::<K, W, V>(), tpfx::<K, V, W>(true, fq::<W, F>(f)), old(self)@.c, vs(rhs@)), ..old(self)@ })
//@ rw `RetainPrefixOp ( f , PhantomData )` => `RetainPrefixOp(f, Ghost(vx_top))`
//@ start
    proof {
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all(lpfx::<K, V>(true), tnone::<K, W, V>(), tpfx::<K, V, W>(true, fq::<W, F>(f)), self@.c, rhs@);
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | retain_prefix_with
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & W ) -> bool + Copy` => `f: F`
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&W) -> bool + Copy>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@), fpure1::<&W, bool, F>(f)
    ensures lk(final(self)@, pfx(true, fq::<W, F>(f), old(self)@, that@))
//@ rw `that . materialize_shortened ( $$x )` => `that.materialize_own($x)`
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `self . retain_prefix_children_with ( $$x )` => `self.retain_prefix_children_with($x, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fpure1); lemma_view(*self); that.lemma_tree(); lemma_tops(av, bv); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        
        
        lemma_pjoin(true, fq::<W, F>(f), nd(av, n).c, nd(bv, n).c);
        lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && !(nd(bv, n).v.is_some() && fq::<W, F>(f)(nd(bv, n).v.unwrap())) && t.v == None::<V> && t.c == tjoin(lpfx::<K, V>(true), tnone::<K, W, V>(), tpfx::<K, V, W>(true, fq::<W, F>(f)), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), pfx(true, fq::<W, F>(f), av, bv)) by { assert(pnode_is(true, fq::<W, F>(f), av, bv, n, t)); lemma_pnode(true, fq::<W, F>(f), av, bv, n, t); }

        if n < av.p.len() && n < bv.p.len() { lemma_pfx_apart(true, fq::<W, F>(f), av, bv, n); }
        if n == bv.p.len() && bv.v.is_some() && fq::<W, F>(f)(bv.v.unwrap()) { lemma_pfx_all(true, fq::<W, F>(f), av, bv); }
    }
//@ endfn
}
