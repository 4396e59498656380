//@ include radix_api.vrs
//@ include tvpred.vrs
//@ tag rxp
//@ # ---- inclusion and overlap ----------------------------------------------------------------------------------------
type BMS<'a, A, B> = BoolOpMergeState<'a, A, B>;
/// the tree with its prefix replaced
spec fn wp<K, V>(t: TV<K, V>, p: Seq<K>) -> TV<K, V> { TV { p, ..t } }
/// a disjunction over the elements only a has, and the matched pairs
spec fn any_ops<K: Ord, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool) -> Ops<bool, TA, TB> {
    Ops { ea: |o: bool, a: TA| o || pa, eb: |o: bool, b: TB| o, ec: |o: bool, a: TA, b: TB| o || m(a@, b@), cmp: |a: TA, b: TB| oc(hd(a@), hd(b@)) }
}
spec fn m_sub<K, V, W>() -> spec_fn(TV<K, V>, TV<K, W>) -> bool { |a: TV<K, V>, b: TV<K, W>| !tsub(a, b) }
spec fn m_int<K, V, W>() -> spec_fn(TV<K, V>, TV<K, W>) -> bool { |a: TV<K, V>, b: TV<K, W>| tint(a, b) }
proof fn lemma_any_mono<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, a: Seq<TA>, b: Seq<TB>)
    requires key_laws::<K>(), csorted(vs(a)), csorted(vs(b))
    ensures any_ops::<K, V, W, TA, TB>(pa, m).mono(a, b)
{
    let (l, r, c) = (tnone::<K, V, V>(), tnone::<K, W, V>(), |x: TV<K, V>, y: TV<K, W>| None::<TV<K, V>>);
    lemma_tj_mono::<K, V, W, TA, TB>(l, r, c, a, b);
    assert(any_ops::<K, V, W, TA, TB>(pa, m).cmp =~= tj_ops::<K, V, W, TA, TB>(l, r, c).cmp);
}
proof fn lemma_any_fa<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, o: bool, a: Seq<TA>)
    ensures any_ops::<K, V, W, TA, TB>(pa, m).fold_a(o, a) == (o || (pa && a.len() > 0))
    decreases a.len()
{ if a.len() > 0 { lemma_any_fa::<K, V, W, TA, TB>(pa, m, o || pa, a.skip(1)); } }
proof fn lemma_any_fb<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, o: bool, b: Seq<TB>)
    ensures any_ops::<K, V, W, TA, TB>(pa, m).fold_b(o, b) == o
    decreases b.len()
{ if b.len() > 0 { lemma_any_fb::<K, V, W, TA, TB>(pa, m, o, b.skip(1)); } }
proof fn lemma_any_true<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, a: Seq<TA>, b: Seq<TB>)
    ensures any_ops::<K, V, W, TA, TB>(pa, m).fold(true, a, b)
    decreases a.len() + b.len()
{
    if a.len() == 0 { lemma_any_fb::<K, V, W, TA, TB>(pa, m, true, b); } else if b.len() == 0 { lemma_any_fa::<K, V, W, TA, TB>(pa, m, true, a); }
    else { match oc(hd(a[0]@), hd(b[0]@)) { Ordering::Less => lemma_any_true::<K, V, W, TA, TB>(pa, m, a.skip(1), b), Ordering::Greater => lemma_any_true::<K, V, W, TA, TB>(pa, m, a, b.skip(1)), Ordering::Equal => lemma_any_true::<K, V, W, TA, TB>(pa, m, a.skip(1), b.skip(1)) } }
}
proof fn lemma_any_fold<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(a: Seq<TA>, b: Seq<TB>)
    requires key_laws::<K>(), cok(vs(a)), cok(vs(b))
    ensures any_ops::<K, V, W, TA, TB>(true, m_sub::<K, V, W>()).fold(false, a, b) == !sub_all(vs(a), vs(b)), any_ops::<K, V, W, TA, TB>(false, m_int::<K, V, W>()).fold(false, a, b) == int_any(vs(a), vs(b))
    decreases a.len() + b.len()
{
    let (ms, mi) = (m_sub::<K, V, W>(), m_int::<K, V, W>());
    let (x, y) = (vs(a), vs(b));
    lemma_vs(a); lemma_vs(b);
    if a.len() == 0 { lemma_any_fb::<K, V, W, TA, TB>(true, ms, false, b); lemma_any_fb::<K, V, W, TA, TB>(false, mi, false, b); assert(sub_all(x, y)); assert(!int_any(x, y)); }
    else if b.len() == 0 { lemma_any_fa::<K, V, W, TA, TB>(true, ms, false, a); lemma_any_fa::<K, V, W, TA, TB>(false, mi, false, a); assert(!sub_in(x[0], y)); assert(!int_any(x, y)); }
    else {
        lemma_sub_drop(x, y);
        let (a1, b1) = (a.skip(1), b.skip(1));
        match oc(hd(a[0]@), hd(b[0]@)) {
            Ordering::Less => { lemma_any_fold::<K, V, W, TA, TB>(a1, b); lemma_any_true::<K, V, W, TA, TB>(true, ms, a1, b); }
            Ordering::Greater => { lemma_any_fold::<K, V, W, TA, TB>(a, b1); }
            Ordering::Equal => { lemma_any_fold::<K, V, W, TA, TB>(a1, b1); lemma_any_true::<K, V, W, TA, TB>(true, ms, a1, b1); lemma_any_true::<K, V, W, TA, TB>(false, mi, a1, b1); }
        }
    }
}
//@ tag rxp.is_subset
//@ struct src/radix_tree/mod.rs NonSubsetOp
//@ rw `PhantomData` => `Ghost`
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn is_subset_rec<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>(l: &A, r: &B, Ghost(vx_top): Ghost<(TV<K, V>, TV<K, W>)>) -> (res: bool)
    requires key_laws::<K>(), wf(l@), wf(r@), vx_lt(l@, vx_top.0), vx_lt(r@, vx_top.1)
    ensures res == tsub(l@, r@)
{ unimplemented!() }
impl<'a, K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>> MergeOperation<BMS<'a, A, B>> for NonSubsetOp<(TV<K, V>, TV<K, W>)> {
    spec fn ops(&self) -> Ops<bool, A, B> { any_ops(true, m_sub::<K, V, W>()) }
    spec fn okk(&self) -> bool { key_laws::<K>() }
    spec fn oka(&self, a: A) -> bool { tree_ok(a) && vx_lt(a@, self.0@.0) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && vx_lt(b@, self.0@.1) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for NonSubsetOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &A, b: &B`
//@ start
    proof { lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for NonSubsetOp | from_a
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ start
    proof { lemma_any_fa::<K, V, W, A, B>(true, m_sub::<K, V, W>(), m.out(), m.a().take(n as int)); lemma_fold_true(|o: bool, x: A| <BMS<'a, A, B> as MergeStateMut>::ta(o, x), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for NonSubsetOp | from_b
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ start
    let ghost x0 = m.b()[0];
    proof { lemma_any_fb::<K, V, W, A, B>(true, m_sub::<K, V, W>(), m.out(), m.b().take(n as int)); }
//@ end
    proof { let o1 = m.out(); assert(<BMS<'a, A, B> as MergeStateMut>::tb(o1, x0)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for NonSubsetOp | collision
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ rw `a . is_subset ( b )` => `is_subset_rec(a, b, Ghost(self.0@))`
//@ rw `is_subset ( a , b )` => `is_subset_rec(a, b, Ghost(self.0@))`
//@ rw `a . intersects ( b )` => `intersects_rec(a, b, Ghost(self.0@))`
//@ rw `intersects ( a , b )` => `intersects_rec(a, b, Ghost(self.0@))`
//@ start
    proof { lemma_fold_true(|o: bool, x: A| <BMS<'a, A, B> as MergeStateMut>::ta(o, x), m.out(), m.a().take(1)); assert(tree_ok(m.a()[0]) && tree_ok(m.b()[0])); }
//@ endfn
}
//@ tag rxp.intersects
//@ struct src/radix_tree/mod.rs IntersectOp
//@ rw `PhantomData` => `Ghost`
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn intersects_rec<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>(l: &A, r: &B, Ghost(vx_top): Ghost<(TV<K, V>, TV<K, W>)>) -> (res: bool)
    requires key_laws::<K>(), wf(l@), wf(r@), vx_lt(l@, vx_top.0), vx_lt(r@, vx_top.1)
    ensures res == tint(l@, r@)
{ unimplemented!() }
impl<'a, K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>> MergeOperation<BMS<'a, A, B>> for IntersectOp<(TV<K, V>, TV<K, W>)> {
    spec fn ops(&self) -> Ops<bool, A, B> { any_ops(false, m_int::<K, V, W>()) }
    spec fn okk(&self) -> bool { key_laws::<K>() }
    spec fn oka(&self, a: A) -> bool { tree_ok(a) && vx_lt(a@, self.0@.0) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && vx_lt(b@, self.0@.1) }
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for IntersectOp | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &A, b: &B`
//@ start
    proof { lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for IntersectOp | from_a
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ start
    proof { lemma_any_fa::<K, V, W, A, B>(false, m_int::<K, V, W>(), m.out(), m.a().take(n as int)); lemma_fold_true(|o: bool, x: A| <BMS<'a, A, B> as MergeStateMut>::ta(o, x), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for IntersectOp | from_b
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ start
    let ghost x0 = m.b()[0];
    proof { lemma_any_fb::<K, V, W, A, B>(false, m_int::<K, V, W>(), m.out(), m.b().take(n as int)); }
//@ end
    proof { let o1 = m.out(); assert(<BMS<'a, A, B> as MergeStateMut>::tb(o1, x0)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<I> for IntersectOp | collision
//@ sigrw `m : & mut I` => `m: &mut BMS<'a, A, B>`
//@ rw `a . is_subset ( b )` => `is_subset_rec(a, b, Ghost(self.0@))`
//@ rw `is_subset ( a , b )` => `is_subset_rec(a, b, Ghost(self.0@))`
//@ rw `a . intersects ( b )` => `intersects_rec(a, b, Ghost(self.0@))`
//@ rw `intersects ( a , b )` => `intersects_rec(a, b, Ghost(self.0@))`
//@ start
    proof { lemma_fold_true(|o: bool, x: A| <BMS<'a, A, B> as MergeStateMut>::ta(o, x), m.out(), m.a().take(1)); assert(tree_ok(m.a()[0]) && tree_ok(m.b()[0])); }
//@ endfn
}
//@ tag rxp.is_subset
//@ fn src/radix_tree/mod.rs | - | is_subset0
//@ ret res
//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &A`
//@ sigrw `< K : TKey , V : TValue , W : TValue >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &B`
    requires key_laws::<K>(), wf(wp(l@, l_prefix@)), wf(wp(r@, r_prefix@))
    ensures res == tsub(wp(l@, l_prefix@), wp(r@, r_prefix@))
    decreases l@, r@
//@ rw `NonSubsetOp ( PhantomData )` => `NonSubsetOp(Ghost((l@, r@)))`
//@ rw `IntersectOp ( PhantomData )` => `IntersectOp(Ghost((l@, r@)))`
//@ rw `& $x [ n .. ]` => `vstd::slice::slice_subrange($x, n, $x.len())`
//@ rw `l . children ( ) . iter ( ) . all ( | $q | $$e )` => `vx_all(l.children(), |$q: &A| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, l@), wf(wp(r@, r_prefix@)) ensures b == tsub($q@, wp(r@, r_prefix@)) { proof { lemma_wp($q@); } $e })`
//@ rw `l . children ( ) . iter ( ) . any ( | $q | $$e )` => `vx_any(l.children(), |$q: &A| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, l@), wf(wp(r@, r_prefix@)) ensures b == tsub($q@, wp(r@, r_prefix@)) { proof { lemma_wp($q@); } $e })`
//@ rw `r . children ( ) . iter ( ) . all ( | $q | $$e )` => `vx_all(r.children(), |$q: &B| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, r@), wf(wp(l@, l_prefix@)) ensures b == tsub(wp(l@, l_prefix@), $q@) { proof { lemma_wp($q@); } $e })`
//@ rw `r . children ( ) . iter ( ) . any ( | $q | $$e )` => `vx_any(r.children(), |$q: &B| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, r@), wf(wp(l@, l_prefix@)) ensures b == tsub(wp(l@, l_prefix@), $q@) { proof { lemma_wp($q@); } $e })`
//@ start
    let ghost (lv, rv) = (wp(l@, l_prefix@), wp(r@, r_prefix@));
    proof {
        let n = cpl(lv.p, rv.p);
        l.lemma_tree(); r.lemma_tree(); lemma_cpl(lv.p, rv.p); lemma_sub_cases(lv, rv, n);
        let (s, t) = (l.kids(), r.kids());
        lemma_vs(s); lemma_vs(t); lemma_any_fold(s, t); lemma_any_mono(true, m_sub::<K, V, W>(), s, t); lemma_any_mono(false, m_int::<K, V, W>(), s, t);
        assert forall|i: int| 0 <= i < s.len() implies tree_ok(#[trigger] s[i]) && vs(s)[i] == s[i]@ && vx_lt(s[i]@, l@) by { assert(wfc(vs(s)[i])); }
        assert forall|i: int| 0 <= i < t.len() implies tree_ok(#[trigger] t[i]) && vs(t)[i] == t[i]@ && vx_lt(t[i]@, r@) by { assert(wfc(vs(t)[i])); }
        assert(wp(l@, lv.p.skip(n)) == short(lv, n)); assert(wp(r@, rv.p.skip(n)) == short(rv, n));
        assert(lv.p.subrange(n, lv.p.len() as int) =~= lv.p.skip(n)); assert(rv.p.subrange(n, rv.p.len() as int) =~= rv.p.skip(n));
        if n == lv.p.len() && n < rv.p.len() {
            let sb = short(rv, n);
            assert(tsub(lv, rv) == (lv.v.is_none() && forall|i: int| 0 <= i < s.len() ==> tsub((#[trigger] s[i])@, sb))) by {
                if forall|i: int| 0 <= i < s.len() ==> tsub((#[trigger] s[i])@, sb) { assert forall|i: int| 0 <= i < lv.c.len() implies tsub(#[trigger] lv.c[i], sb) by { assert(s[i]@ == lv.c[i]); } }
            }
        }
        if n == rv.p.len() && n < lv.p.len() {
            let sa = short(lv, n);
            assert(tsub(lv, rv) == exists|j: int| 0 <= j < t.len() && tsub(sa, (#[trigger] t[j])@)) by {
                if exists|j: int| 0 <= j < rv.c.len() && tsub(sa, #[trigger] rv.c[j]) { let j = choose|j: int| 0 <= j < rv.c.len() && tsub(sa, #[trigger] rv.c[j]); assert(tsub(sa, t[j]@)); }
            }
        }
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | - | is_subset
//@ ret res
//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &A`
//@ sigrw `< K : TKey , V : TValue , W : TValue >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &B`
    requires key_laws::<K>(), wf(l@), wf(r@)
    ensures res == tsub(l@, r@)
//@ endfn
//@ tag rxp.intersects
//@ fn src/radix_tree/mod.rs | - | intersects0
//@ ret res
//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &A`
//@ sigrw `< K : TKey , V : TValue , W : TValue >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &B`
    requires key_laws::<K>(), wf(wp(l@, l_prefix@)), wf(wp(r@, r_prefix@))
    ensures res == tint(wp(l@, l_prefix@), wp(r@, r_prefix@))
    decreases l@, r@
//@ rw `NonSubsetOp ( PhantomData )` => `NonSubsetOp(Ghost((l@, r@)))`
//@ rw `IntersectOp ( PhantomData )` => `IntersectOp(Ghost((l@, r@)))`
//@ rw `& $x [ n .. ]` => `vstd::slice::slice_subrange($x, n, $x.len())`
//@ rw `l . children ( ) . iter ( ) . all ( | $q | $$e )` => `vx_all(l.children(), |$q: &A| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, l@), wf(wp(r@, r_prefix@)) ensures b == tint($q@, wp(r@, r_prefix@)) { proof { lemma_wp($q@); } $e })`
//@ rw `l . children ( ) . iter ( ) . any ( | $q | $$e )` => `vx_any(l.children(), |$q: &A| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, l@), wf(wp(r@, r_prefix@)) ensures b == tint($q@, wp(r@, r_prefix@)) { proof { lemma_wp($q@); } $e })`
//@ rw `r . children ( ) . iter ( ) . all ( | $q | $$e )` => `vx_all(r.children(), |$q: &B| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, r@), wf(wp(l@, l_prefix@)) ensures b == tint(wp(l@, l_prefix@), $q@) { proof { lemma_wp($q@); } $e })`
//@ rw `r . children ( ) . iter ( ) . any ( | $q | $$e )` => `vx_any(r.children(), |$q: &B| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), vx_lt($q@, r@), wf(wp(l@, l_prefix@)) ensures b == tint(wp(l@, l_prefix@), $q@) { proof { lemma_wp($q@); } $e })`
//@ start
    let ghost (lv, rv) = (wp(l@, l_prefix@), wp(r@, r_prefix@));
    proof {
        let n = cpl(lv.p, rv.p);
        l.lemma_tree(); r.lemma_tree(); lemma_cpl(lv.p, rv.p); lemma_sub_cases(lv, rv, n);
        let (s, t) = (l.kids(), r.kids());
        lemma_vs(s); lemma_vs(t); lemma_any_fold(s, t); lemma_any_mono(true, m_sub::<K, V, W>(), s, t); lemma_any_mono(false, m_int::<K, V, W>(), s, t);
        assert forall|i: int| 0 <= i < s.len() implies tree_ok(#[trigger] s[i]) && vs(s)[i] == s[i]@ && vx_lt(s[i]@, l@) by { assert(wfc(vs(s)[i])); }
        assert forall|i: int| 0 <= i < t.len() implies tree_ok(#[trigger] t[i]) && vs(t)[i] == t[i]@ && vx_lt(t[i]@, r@) by { assert(wfc(vs(t)[i])); }
        assert(wp(l@, lv.p.skip(n)) == short(lv, n)); assert(wp(r@, rv.p.skip(n)) == short(rv, n));
        assert(lv.p.subrange(n, lv.p.len() as int) =~= lv.p.skip(n)); assert(rv.p.subrange(n, rv.p.len() as int) =~= rv.p.skip(n));
        if n == lv.p.len() && n < rv.p.len() {
            let sb = short(rv, n);
            assert(tint(lv, rv) == (exists|i: int| 0 <= i < s.len() && tint((#[trigger] s[i])@, sb))) by {
                if exists|i: int| 0 <= i < lv.c.len() && tint(#[trigger] lv.c[i], sb) { let i = choose|i: int| 0 <= i < lv.c.len() && tint(#[trigger] lv.c[i], sb); assert(tint(s[i]@, sb)); }
            }
        }
        if n == rv.p.len() && n < lv.p.len() {
            let sa = short(lv, n);
            assert(tint(lv, rv) == exists|j: int| 0 <= j < t.len() && tint(sa, (#[trigger] t[j])@)) by {
                if exists|j: int| 0 <= j < rv.c.len() && tint(sa, #[trigger] rv.c[j]) { let j = choose|j: int| 0 <= j < rv.c.len() && tint(sa, #[trigger] rv.c[j]); assert(tint(sa, t[j]@)); }
            }
        }
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | - | intersects
//@ ret res
//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &A`
//@ sigrw `< K : TKey , V : TValue , W : TValue >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &B`
    requires key_laws::<K>(), wf(l@), wf(r@)
    ensures res == tint(l@, r@)
//@ endfn
//@ tag rxp
proof fn lemma_wp<K, V>(t: TV<K, V>) ensures wp(t, t.p) == t {}
trait RadixTreePred<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | is_subset
//@ ret res
//@ sigrw `< W : TValue >` => `<W: TValue, B: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires key_laws::<K>(), wf(self@), wf(that@)
    ensures res == tsub(self@, that@)
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | is_superset
//@ ret res
//@ sigrw `< W : TValue >` => `<W: TValue, B: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires key_laws::<K>(), wf(self@), wf(that@)
    ensures res == tsub(that@, self@)
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | intersects
//@ ret res
//@ sigrw `< W : TValue >` => `<W: TValue, B: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires key_laws::<K>(), wf(self@), wf(that@)
    ensures res == tint(self@, that@)
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | is_disjoint
//@ ret res
//@ sigrw `< W : TValue >` => `<W: TValue, B: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires key_laws::<K>(), wf(self@), wf(that@)
    ensures res == !tint(self@, that@)
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreePred<K, V> for T {}
