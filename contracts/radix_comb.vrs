//@ include radix_state.vrs
//@ tag rxc
//@ # ---- merging child lists: the operations as joins ---------------------------------------------------------------
type L1<K, V> = spec_fn(TV<K, V>) -> Option<TV<K, V>>;
spec fn tj_ops<K: Ord, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>) -> Ops<Seq<TV<K, V>>, TA, TB> {
    Ops { ea: |o: Seq<TV<K, V>>, a: TA| o + os(l(a@)), eb: |o: Seq<TV<K, V>>, b: TB| o + os(r(b@)),
      ec: |o: Seq<TV<K, V>>, a: TA, b: TB| o + os(c(a@, b@)), cmp: |a: TA, b: TB| oc(hd(a@), hd(b@)) }
}
proof fn lemma_vs<K, V, TA: View<V = TV<K, V>>>(s: Seq<TA>)
    ensures vs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] vs(s)[i] == s[i]@, s.len() > 0 ==> vs(s.skip(1)) == vs(s).skip(1)
{ if s.len() > 0 { assert(vs(s.skip(1)) =~= vs(s).skip(1)); } }
/// one step of a join, and associativity of appending its result
proof fn lemma_tj_step<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, x: Seq<TV<K, V>>, y: Seq<TV<K, W>>)
    ensures x.len() == 0 && y.len() == 0 ==> o + tjoin(l, r, c, x, y) == o,
      x.len() > 0 && (y.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Less) ==> o + tjoin(l, r, c, x, y) == o + os(l(x[0])) + tjoin(l, r, c, x.skip(1), y),
      y.len() > 0 && (x.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Greater) ==> o + tjoin(l, r, c, x, y) == o + os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)),
      x.len() > 0 && y.len() > 0 && oc(hd(x[0]), hd(y[0])) == Ordering::Equal ==> o + tjoin(l, r, c, x, y) == o + os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1))
{
    if x.len() == 0 && y.len() == 0 { assert(o + tjoin(l, r, c, x, y) =~= o); }
    else if y.len() == 0 || (x.len() > 0 && oc(hd(x[0]), hd(y[0])) == Ordering::Less) { assert(o + os(l(x[0])) + tjoin(l, r, c, x.skip(1), y) =~= o + (os(l(x[0])) + tjoin(l, r, c, x.skip(1), y))); }
    else if x.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Greater { assert(o + os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)) =~= o + (os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)))); }
    else { assert(o + os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1)) =~= o + (os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1)))); }
}
proof fn lemma_tj_fa<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<TA>, b: Seq<TB>)
    requires b.len() == 0
    ensures tj_ops::<K, V, W, TA, TB>(l, r, c).fold_a(o, a) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases a.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if a.len() > 0 { lemma_tj_fa::<K, V, W, TA, TB>(l, r, c, o + os(l(a[0]@)), a.skip(1), b); }
}
proof fn lemma_tj_fb<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<TA>, b: Seq<TB>)
    requires a.len() == 0
    ensures tj_ops::<K, V, W, TA, TB>(l, r, c).fold_b(o, b) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases b.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if b.len() > 0 { lemma_tj_fb::<K, V, W, TA, TB>(l, r, c, o + os(r(b[0]@)), a, b.skip(1)); }
}
proof fn lemma_tj_fold<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<TA>, b: Seq<TB>)
    ensures tj_ops::<K, V, W, TA, TB>(l, r, c).fold(o, a, b) == o + tjoin(l, r, c, vs(a), vs(b)), a.len() == 0 ==> tj_ops::<K, V, W, TA, TB>(l, r, c).fold_b(o, b) == o + tjoin(l, r, c, vs(a), vs(b)), b.len() == 0 ==> tj_ops::<K, V, W, TA, TB>(l, r, c).fold_a(o, a) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases a.len() + b.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if a.len() == 0 { lemma_tj_fb::<K, V, W, TA, TB>(l, r, c, o, a, b); if b.len() == 0 { lemma_tj_fa::<K, V, W, TA, TB>(l, r, c, o, a, b); } }
    else if b.len() == 0 { lemma_tj_fa::<K, V, W, TA, TB>(l, r, c, o, a, b); }
    else {
        match oc(hd(a[0]@), hd(b[0]@)) {
            Ordering::Less => lemma_tj_fold::<K, V, W, TA, TB>(l, r, c, o + os(l(a[0]@)), a.skip(1), b),
            Ordering::Greater => lemma_tj_fold::<K, V, W, TA, TB>(l, r, c, o + os(r(b[0]@)), a, b.skip(1)),
            Ordering::Equal => lemma_tj_fold::<K, V, W, TA, TB>(l, r, c, o + os(c(a[0]@, b[0]@)), a.skip(1), b.skip(1)),
        }
    }
}
proof fn lemma_tj_mono<K: Ord + Clone, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, a: Seq<TA>, b: Seq<TB>)
    requires key_laws::<K>(), csorted(vs(a)), csorted(vs(b))
    ensures tj_ops::<K, V, W, TA, TB>(l, r, c).mono(a, b)
{
    lemma_vs(a); lemma_vs(b);
    let cmp = tj_ops::<K, V, W, TA, TB>(l, r, c).cmp;
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() && (#[trigger] cmp(a[i], b[j]) == Ordering::Less || cmp(a[i], b[j]) == Ordering::Equal) implies #[trigger] cmp(a[i], b[k]) == Ordering::Less by {
        assert(oc(vs(b)[j].p[0], vs(b)[k].p[0]) == Ordering::Less);
        lemma_kord(hd(a[i]@), hd(b[j]@), hd(b[k]@));
    }
    assert forall|i: int, j: int, k: int| 0 <= i < k < a.len() && 0 <= j < b.len() && (#[trigger] cmp(a[i], b[j]) == Ordering::Greater || cmp(a[i], b[j]) == Ordering::Equal) implies #[trigger] cmp(a[k], b[j]) == Ordering::Greater by {
        assert(oc(vs(a)[i].p[0], vs(a)[k].p[0]) == Ordering::Less);
        lemma_kord(hd(a[i]@), hd(b[j]@), hd(a[k]@)); lemma_kord(hd(b[j]@), hd(a[i]@), hd(a[k]@)); lemma_kord(hd(b[j]@), hd(a[k]@), hd(a[k]@));
    }
}
/// elements only one side has: all kept, or all dropped
proof fn lemma_fa_some<K: Ord, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<TA>)
    ensures tj_ops::<K, V, W, TA, TB>(tsome::<K, V>(), r, c).fold_a(o, s) == o + vs(s)
    decreases s.len()
{
    if s.len() == 0 { assert(o + vs(s) =~= o); }
    else { lemma_vs(s); lemma_fa_some::<K, V, W, TA, TB>(r, c, o + os(Some(s[0]@)), s.skip(1)); assert(o + os(Some(s[0]@)) + vs(s.skip(1)) =~= o + vs(s)); }
}
proof fn lemma_fa_none<K: Ord, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<TA>)
    ensures tj_ops::<K, V, W, TA, TB>(tnone::<K, V, V>(), r, c).fold_a(o, s) == o
    decreases s.len()
{ if s.len() > 0 { lemma_fa_none::<K, V, W, TA, TB>(r, c, o, s.skip(1)); assert(o + os(None::<TV<K, V>>) =~= o); } }
proof fn lemma_fb_some<K: Ord, V, TA: View<V = TV<K, V>>, TB: View<V = TV<K, V>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, V>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<TB>)
    ensures tj_ops::<K, V, V, TA, TB>(l, tsome::<K, V>(), c).fold_b(o, s) == o + vs(s)
    decreases s.len()
{
    if s.len() == 0 { assert(o + vs(s) =~= o); }
    else { lemma_vs(s); lemma_fb_some::<K, V, TA, TB>(l, c, o + os(Some(s[0]@)), s.skip(1)); assert(o + os(Some(s[0]@)) + vs(s.skip(1)) =~= o + vs(s)); }
}
proof fn lemma_fb_none<K: Ord, V, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<TB>)
    ensures tj_ops::<K, V, W, TA, TB>(l, tnone::<K, W, V>(), c).fold_b(o, s) == o
    decreases s.len()
{ if s.len() > 0 { lemma_fb_none::<K, V, W, TA, TB>(l, c, o, s.skip(1)); assert(o + os(None::<TV<K, V>>) =~= o); } }
/// what merging two lists of children needs
proof fn lemma_tj_lists<K: TKey, V: TValue, W, TA: View<V = TV<K, V>>, TB: View<V = TV<K, W>>>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>)
    requires key_laws::<K>()
    ensures forall|s: Seq<TA>, t: Seq<TB>| #[trigger] tj_ops::<K, V, W, TA, TB>(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, vs(s), vs(t)),
      forall|s: Seq<TA>, t: Seq<TB>| csorted(vs(s)) && csorted(vs(t)) ==> #[trigger] tj_ops::<K, V, W, TA, TB>(l, r, c).mono(s, t)
{
    assert forall|s: Seq<TA>, t: Seq<TB>| #[trigger] tj_ops::<K, V, W, TA, TB>(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, vs(s), vs(t)) by {
        lemma_tj_fold::<K, V, W, TA, TB>(l, r, c, Seq::empty(), s, t); assert(Seq::<TV<K, V>>::empty() + tjoin(l, r, c, vs(s), vs(t)) =~= tjoin(l, r, c, vs(s), vs(t))); }
    assert forall|s: Seq<TA>, t: Seq<TB>| csorted(vs(s)) && csorted(vs(t)) implies #[trigger] tj_ops::<K, V, W, TA, TB>(l, r, c).mono(s, t) by { lemma_tj_mono(l, r, c, s, t); }
}
/// lists of subtrees: single ones, and what is known of each
proof fn lemma_lists<K: TKey, V: TValue, TA: View<V = TV<K, V>>>()
    ensures forall|s: Seq<TA>| #[trigger] s.len() == 1 ==> vs(s) == seq![s[0]@],
      forall|s: Seq<TA>, i: int| 0 <= i < s.len() ==> ltc(vs(s), (#[trigger] s[i])@),
      forall|s: Seq<TA>, i: int| cok(vs(s)) && 0 <= i < s.len() ==> tree_ok::<K, V, TA>(#[trigger] s[i])
{
    assert forall|s: Seq<TA>, i: int| 0 <= i < s.len() implies ltc(vs(s), (#[trigger] s[i])@) by { lemma_vs(s); lemma_ltc(vs(s)); assert(vs(s)[i] == s[i]@); }
    assert forall|s: Seq<TA>| #[trigger] s.len() == 1 implies vs(s) == seq![s[0]@] by { assert(vs(s) =~= seq![s[0]@]); }
    assert forall|s: Seq<TA>, i: int| cok(vs(s)) && 0 <= i < s.len() implies tree_ok::<K, V, TA>(#[trigger] s[i]) by { lemma_vs(s); assert(wfc(vs(s)[i])); }
}
spec fn tree_ok<K: Ord + Clone, V, T: View<V = TV<K, V>>>(t: T) -> bool { wfc(t@) && t@.p.len() > 0 }
//@ # ---- by-reference combination ------------------------------------------------------------------------------------
spec fn fvo<V, W, F: Fn(&V, &W) -> Option<V>>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| fv2::<&V, &W, Option<V>, F>(f, &v, &w) }
spec fn fpo<V, W, F: Fn(&V, &W) -> Option<V>>(f: F) -> bool { fpure2::<&V, &W, Option<V>, F>(f) }
spec fn fvl<V, W, F: Fn(&V, Option<&W>) -> Option<V>>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| fv2::<&V, Option<&W>, Option<V>, F>(f, &v, Some(&w)) }
spec fn fpl<V, W, F: Fn(&V, Option<&W>) -> Option<V>>(f: F) -> bool { fpure2::<&V, Option<&W>, Option<V>, F>(f) }

/// joining two single subtrees with different heads
proof fn lemma_apart<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), hd(a) != hd(b)
    ensures tjoin(l, r, c, seq![a], seq![b]) == if oc(hd(a), hd(b)) == Ordering::Less { os(l(a)) + os(r(b)) } else { os(r(b)) + os(l(a)) }
{
    lemma_kord(hd(a), hd(b), hd(a));
    reveal_with_fuel(tjoin, 3);
    assert(seq![a].skip(1) =~= Seq::empty()); assert(seq![b].skip(1) =~= Seq::empty());
    assert(tjoin(l, r, c, seq![a], seq![b]) =~= if oc(hd(a), hd(b)) == Ordering::Less { os(l(a)) + os(r(b)) } else { os(r(b)) + os(l(a)) });
}
proof fn lemma_sort2<K: Ord + Clone, V>(s: Seq<RadixTree<K, V>>, a: RadixTree<K, V>, b: RadixTree<K, V>)
    requires key_laws::<K>(), hd(a@) != hd(b@), s.len() == 2, s.contains(a), s.contains(b), oc(hd(s[0]@), hd(s[1]@)) != Ordering::Greater
    ensures vs(s) == if oc(hd(a@), hd(b@)) == Ordering::Less { seq![a@, b@] } else { seq![b@, a@] }
{
    lemma_kord(hd(a@), hd(b@), hd(a@)); lemma_kord(hd(b@), hd(a@), hd(b@));
    let i = s.index_of(a); let j = s.index_of(b);
    assert(s[i] == a && s[j] == b); assert(i != j);
    assert(vs(s) =~= if oc(hd(a@), hd(b@)) == Ordering::Less { seq![a@, b@] } else { seq![b@, a@] });
}
/// trees whose prefixes part share no key
proof fn lemma_disjoint_keys<K, V, W>(a: TV<K, V>, b: TV<K, W>, n: int, k: Seq<K>)
    requires 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n]
    ensures tget(a, k).is_none() || tget(b, k).is_none()
{
    lemma_get_pre(a, k); lemma_get_pre(b, k);
    if pre(a.p, k) && pre(b.p, k) { assert(k.take(a.p.len() as int)[n] == k[n]); assert(k.take(b.p.len() as int)[n] == k[n]); }
}
proof fn lemma_unsp_id<K: Ord, V>(t: TV<K, V>)
    requires wf(t)
    ensures unsp(t) == t
{ if isnil(t) && !wfc(t) { assert(t.c =~= Seq::empty()); assert(t.p =~= Seq::empty()); } }
proof fn lemma_left_apart<K: Ord, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>, n: int)
    requires wf(a), 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n], forall|x: Option<V>| #[trigger] g(x, None) == x, forall|y: Option<W>| (#[trigger] g(None, y)).is_none()
    ensures unsp(a) == a, lk(a, cmb(g, a, b))
{
    lemma_unsp_id(a);
    assert forall|k: Seq<K>| #[trigger] tget(a, k) == cmb(g, a, b)(k) by { lemma_disjoint_keys(a, b, n, k); }
}
type VMS<'a, K, V, A, B, BC> = VecMergeState<'a, A, B, RadixTree<K, V>, RadixTreeConverter<K, V>, BC>;
/// what the stand-ins for the recursive calls may be given: operands below the ones at hand (their children, or one of them cut
/// short against children of the other)
type Top<K, V, W> = (bool, Seq<TV<K, V>>, Seq<TV<K, W>>);
spec fn ltc<K, V>(cs: Seq<TV<K, V>>, t: TV<K, V>) -> bool { decreases_to!(cs => t.c) }
spec fn ba<K, V, W>(top: Top<K, V, W>, t: TV<K, V>) -> bool { if top.0 { ltc(top.1, t) } else { t.c == top.1 } }
spec fn bb<K, V, W>(top: Top<K, V, W>, t: TV<K, W>) -> bool { top.0 || ltc(top.2, t) }
spec fn tops<K, V, W>(top: Top<K, V, W>, cs: Seq<TV<K, V>>, ds: Seq<TV<K, W>>) -> bool {
    (forall|i: int| 0 <= i < cs.len() ==> ba(top, #[trigger] cs[i])) && (forall|i: int| 0 <= i < ds.len() ==> bb(top, #[trigger] ds[i]))
}
proof fn lemma_ltc<K, V>(cs: Seq<TV<K, V>>)
    ensures forall|i: int| 0 <= i < cs.len() ==> ltc(cs, #[trigger] cs[i])
{ assert forall|i: int| 0 <= i < cs.len() implies ltc(cs, #[trigger] cs[i]) by { assert(decreases_to!(cs => cs[i])); assert(decreases_to!(cs[i] => cs[i].c)); } }
/// merging the children of `a`, or `a` cut short with the children of `b`
proof fn lemma_tops<K, V, W>(a: TV<K, V>, b: TV<K, W>)
    ensures forall|ds: Seq<TV<K, W>>| #[trigger] tops::<K, V, W>((true, a.c, b.c), a.c, ds),
      forall|cs: Seq<TV<K, V>>| cs.len() == 1 && cs[0].c == a.c ==> #[trigger] tops::<K, V, W>((false, a.c, b.c), cs, b.c)
{ lemma_ltc(a.c); lemma_ltc(b.c); }
//@ tag rxc.outer
//@ struct src/radix_tree/mod.rs OuterCombineOp
//@ rw `PhantomData` => `Ghost`
impl<'a, K: TKey, V: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, V>, F: Fn(&V, &V) -> Option<V> + Copy> MergeOperation<VMS<'a, K, V, A, B, RadixTreeConverter<K, V>>> for OuterCombineOp<F, Top<K, V, V>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, A, B> { tj_ops(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(self.0)))) }
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && fpo::<V, V, F>(self.0) }
    spec fn oka(&self, a: A) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, RadixTreeConverter<K, V>>> for OuterCombineOp | cmp
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, RadixTreeConverter<K, V>>> for OuterCombineOp | from_a
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.a()[0];
    proof { lemma_fa_some::<K, V, V, A, B>(tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(self.0))), m.out(), m.a().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: A| <VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::ta(o, x), |x: A| x@, m.out(), m.a().take(n as int));
      assert forall|i: int| 0 <= i < n implies <VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::ela(#[trigger] m.a()[i]) by { assert(tree_ok(m.a()[i])); } }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, RadixTreeConverter<K, V>>> for OuterCombineOp | from_b
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.b()[0];
    proof { lemma_fb_some::<K, V, A, B>(tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(self.0))), m.out(), m.b().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: B| <VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::tb(o, x), |x: B| x@, m.out(), m.b().take(n as int));
      assert forall|i: int| 0 <= i < n implies <VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::elb(#[trigger] m.b()[i]) by { assert(tree_ok(m.b()[i])); } }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, RadixTreeConverter<K, V>> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, RadixTreeConverter<K, V>>> for OuterCombineOp | collision
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ rw `outer_combine ( a , b , self . 0 )` => `outer_combine_rec(a, b, self.0, Ghost(self.1@))`
//@ rw `let res : R =` => `let res: RadixTree<K, V> =`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost r0 = m.r@;
    proof { let h = cmb(go(fvo::<V, V, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      assert forall|t: RadixTree<K, V>| (#[trigger] r0.push(t)).map_values(|x: RadixTree<K, V>| x@) == o0.push(t@) by { lemma_push_map(r0, |x: RadixTree<K, V>| x@, t); }
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn outer_combine_rec<K: TKey, V: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, V>, F: Fn(&V, &V) -> Option<V> + Copy>(a: &A, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, V>>) -> (r: RadixTree<K, V>)
    requires ba(vx_top, a@), bb(vx_top, b@), kv_ok::<K, V>(), wf(a@), wf(b@), fpo::<V, V, F>(f)
    ensures lk(r@, cmb(go(fvo::<V, V, F>(f)), a@, b@))
{ unimplemented!() }
//@ fn src/radix_tree/mod.rs | - | outer_combine
//@ ret r
//@ sigrw `< K : TKey , V : TValue , R : AbstractRadixTreeMut < K , V , Materialized = R > , A : AbstractRadixTree < K , V , Materialized = R > , B : AbstractRadixTree < K , V , Materialized = R > , >` => `<K: TKey, V: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, V>, F: Fn(&V, &V) -> Option<V> + Copy>`
//@ sigrw `f : impl Fn ( &V, &V )  -> Option<V> + Copy` => `f: F`
//@ sigrw `R` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wf(a@), wf(b@), fpo::<V, V, F>(f)
    ensures lk(r@, cmb(go(fvo::<V, V, F>(f)), a@, b@))
//@ rw `R :: new` => `RadixTree::<K, V>::new`
//@ rw `Vec :: < R > :: new` => `Vec::<RadixTree<K, V>>::new`
//@ rw `let mut children = Vec :: new ( )` => `let mut children: Vec<RadixTree<K, V>> = Vec::new()`
//@ rw `let mut value = None` => `let mut value: Option<V> = None`
//@ rw `a . prefix ( ) [ .. n ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(a.prefix(), 0, n))`
//@ rw `prefix = a . prefix ( ) . into ( )` => `prefix = vx_frag(a.prefix())`
//@ rw `a . value ( ) . cloned ( )` => `vx_cloned(a.value())`
//@ rw `b . value ( ) . cloned ( )` => `vx_cloned(b.value())`
//@ rw `a . children ( ) . iter ( ) . map ( | $x | $$b ) . collect ( )` => `vx_map_vec(a.children(), |$x: &A| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc($x@), $x@.p.len() > 0 ensures r@ == $x@ { $b })`
//@ rw `children . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(&mut children, |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `OuterCombineOp ( f , PhantomData )` => `OuterCombineOp(f, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (a@, b@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fpure2); a.lemma_tree(); b.lemma_tree(); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(go(fvo::<V, V, F>(f)), tsome::<K, V>())); assert(rfits1(go(fvo::<V, V, F>(f)), tsome::<K, V>()));
        lemma_outer_pairs(go(fvo::<V, V, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join1(go(fvo::<V, V, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_tj_lists::<K, V, V, A, B>(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(f))));
        lemma_tj_lists::<K, V, V, A, RadixTree<K, V>>(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(f))));
        lemma_tj_lists::<K, V, V, RadixTree<K, V>, B>(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(f))));
        lemma_lists::<K, V, A>(); lemma_lists::<K, V, B>(); lemma_lists::<K, V, RadixTree<K, V>>();
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == go(fvo::<V, V, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(go(fvo::<V, V, F>(f)), av, bv)) by { assert(node_is(go(fvo::<V, V, F>(f)), av, bv, n, t)); lemma_node(go(fvo::<V, V, F>(f)), av, bv, n, t); }
        { let (x, y) = (short(av, n), short(bv, n)); assert(os(Some(x)) + os(Some(y)) =~= seq![x, y]); assert(os(Some(y)) + os(Some(x)) =~= seq![y, x]); }
        if n < av.p.len() && n < bv.p.len() { lemma_apart(tsome::<K, V>(), tsome::<K, V>(), tcmb(go(fvo::<V, V, F>(f))), short(av, n), short(bv, n));  }
    }
//@ before `children . sort_by_key ( $$x )`
            let ghost (sa, sb) = (children@[0], children@[1]);
//@ after `children . sort_by_key ( $$x )`
            proof { lemma_sort2(children@, sa, sb); }
//@ endfn
/// an operand whose materialized form is M: what `materialize_shortened` promises (shown for the flavour at hand, in the copying section)
trait RadixTreeMatB<K: TKey, W: TValue, M: AbstractRadixTree<K, W>>: AbstractRadixTree<K, W> {
    fn materialize_own(&self, n: usize) -> (r: M)
        requires kv_ok::<K, W>(), wfc(self@), n < self@.p.len()
        ensures r@ == short(self@, n as int);
}
impl<K: TKey, W: TValue, T: AbstractRadixTree<K, W>> RadixTreeMatB<K, W, RadixTree<K, W>> for T {
    fn materialize_own(&self, n: usize) -> RadixTree<K, W> { RadixTreeMat::materialize_shortened(self, n) }
}
//@ tag rxc.inner
//@ struct src/radix_tree/mod.rs InnerCombineOp
//@ rw `PhantomData` => `Ghost`
impl<'a, K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>, F: Fn(&V, &W) -> Option<V> + Copy> MergeOperation<VMS<'a, K, V, A, B, NoConverter>> for InnerCombineOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, A, B> { tj_ops(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(self.0)))) }
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fpo::<V, W, F>(self.0) }
    spec fn oka(&self, a: A) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for InnerCombineOp | cmp
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for InnerCombineOp | from_a
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.a()[0];
    proof { lemma_fa_none::<K, V, W, A, B>(tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(self.0))), m.out(), m.a().take(n as int)); }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for InnerCombineOp | from_b
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.b()[0];
    proof { lemma_fb_none::<K, V, W, A, B>(tnone::<K, V, V>(), tcmb(gi(fvo::<V, W, F>(self.0))), m.out(), m.b().take(n as int)); }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for InnerCombineOp | collision
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ rw `inner_combine ( a , b , self . 0 )` => `inner_combine_rec(a, b, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost r0 = m.r@;
    proof { let h = cmb(gi(fvo::<V, W, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      assert forall|t: RadixTree<K, V>| (#[trigger] r0.push(t)).map_values(|x: RadixTree<K, V>| x@) == o0.push(t@) by { lemma_push_map(r0, |x: RadixTree<K, V>| x@, t); }
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn inner_combine_rec<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>, F: Fn(&V, &W) -> Option<V> + Copy>(a: &A, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>) -> (r: RadixTree<K, V>)
    requires ba(vx_top, a@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(a@), wf(b@), fpo::<V, W, F>(f)
    ensures lk(r@, cmb(gi(fvo::<V, W, F>(f)), a@, b@))
{ unimplemented!() }
//@ fn src/radix_tree/mod.rs | - | inner_combine
//@ ret r
//@ sigrw `< K : TKey , V : TValue , W : TValue , R : AbstractRadixTreeMut < K , V , Materialized = R > >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&V, &W) -> Option<V> + Copy>`
//@ sigrw `a : & impl AbstractRadixTree < K , V , Materialized = R > , b : & impl AbstractRadixTree < K , W >` => `a: &A, b: &B`
//@ sigrw `f : impl Fn ( &V, &W )  -> Option<V> + Copy` => `f: F`
//@ sigrw `R` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(a@), wf(b@), fpo::<V, W, F>(f)
    ensures lk(r@, cmb(gi(fvo::<V, W, F>(f)), a@, b@))
//@ rw `R :: new` => `RadixTree::<K, V>::new`
//@ rw `Vec :: < R > :: new` => `Vec::<RadixTree<K, V>>::new`
//@ rw `let mut children = Vec :: new ( )` => `let mut children: Vec<RadixTree<K, V>> = Vec::new()`
//@ rw `let mut value = None` => `let mut value: Option<V> = None`
//@ rw `a . prefix ( ) [ .. n ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(a.prefix(), 0, n))`
//@ rw `prefix = a . prefix ( ) . into ( )` => `prefix = vx_frag(a.prefix())`
//@ rw `b . materialize_shortened ( $$x )` => `b.materialize_own($x)`
//@ rw `a . value ( ) . cloned ( )` => `vx_cloned(a.value())`
//@ rw `b . value ( ) . cloned ( )` => `vx_cloned(b.value())`
//@ rw `a . children ( ) . iter ( ) . map ( | $x | $$b ) . collect ( )` => `vx_map_vec(a.children(), |$x: &A| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc($x@), $x@.p.len() > 0 ensures r@ == $x@ { $b })`
//@ rw `children . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(&mut children, |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `InnerCombineOp ( f , PhantomData )` => `InnerCombineOp(f, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (a@, b@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fpure2); a.lemma_tree(); b.lemma_tree(); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(gi(fvo::<V, W, F>(f)), tnone::<K, V, V>())); assert(rfits0(gi(fvo::<V, W, F>(f)), tnone::<K, W, V>()));
        lemma_keyed_pairs(gi(fvo::<V, W, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join0(gi(fvo::<V, W, F>(f)), tnone::<K, V, V>(), nd(av, n).c, nd(bv, n).c);
        lemma_tj_lists::<K, V, W, A, B>(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(f))));
        lemma_tj_lists::<K, V, W, A, M>(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(f))));
        lemma_tj_lists::<K, V, W, RadixTree<K, V>, B>(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(f))));
        lemma_lists::<K, V, A>(); lemma_lists::<K, W, B>(); lemma_lists::<K, V, RadixTree<K, V>>(); lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == gi(fvo::<V, W, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(gi(fvo::<V, W, F>(f)), av, bv)) by { assert(node_is(gi(fvo::<V, W, F>(f)), av, bv, n, t)); lemma_node(gi(fvo::<V, W, F>(f)), av, bv, n, t); }
        if n < av.p.len() && n < bv.p.len() { lemma_apart(tnone::<K, V, V>(), tnone::<K, W, V>(), tcmb(gi(fvo::<V, W, F>(f))), short(av, n), short(bv, n));  }
    }
//@ endfn
//@ tag rxc.left
//@ struct src/radix_tree/mod.rs LeftCombineOp
//@ rw `PhantomData` => `Ghost`
impl<'a, K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>, F: Fn(&V, Option<&W>) -> Option<V> + Copy> MergeOperation<VMS<'a, K, V, A, B, NoConverter>> for LeftCombineOp<F, Top<K, V, W>> {
    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, A, B> { tj_ops(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(self.0)))) }
    spec fn okk(&self) -> bool { kv_ok::<K, V>() && kv_ok::<K, W>() && fpl::<V, W, F>(self.0) }
    spec fn oka(&self, a: A) -> bool { tree_ok(a) && ba(self.1@, a@) }
    spec fn okb(&self, b: B) -> bool { tree_ok(b) && bb(self.1@, b@) }
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for LeftCombineOp | cmp
//@ start
    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for LeftCombineOp | from_a
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.a()[0];
    proof { lemma_fa_some::<K, V, W, A, B>(tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(self.0))), m.out(), m.a().take(n as int));
      lemma_fold_push(|o: Seq<TV<K, V>>, x: A| <VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::ta(o, x), |x: A| x@, m.out(), m.a().take(n as int));
      assert forall|i: int| 0 <= i < n implies <VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::ela(#[trigger] m.a()[i]) by { assert(tree_ok(m.a()[i])); } }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::ta(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for LeftCombineOp | from_b
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ start
    let ghost x0 = m.b()[0];
    proof { lemma_fb_none::<K, V, W, A, B>(tsome::<K, V>(), tcmb(gl(fvl::<V, W, F>(self.0))), m.out(), m.b().take(n as int)); }
//@ end
    proof { let o1 = m.out(); assert(<VMS<'a, K, V, A, B, NoConverter> as MergeStateMut>::tb(o1, x0).len() == o1.len() + 1); }
//@ endfn
//@ fn src/radix_tree/mod.rs | MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for LeftCombineOp | collision
//@ sigrw `VecMergeState < 'a , A , B , R ,` => `VecMergeState<'a, A, B, RadixTree<K, V>,`
//@ rw `left_combine ( a , b , self . 0 )` => `left_combine_rec(a, b, self.0, Ghost(self.1@))`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost r0 = m.r@;
    proof { let h = cmb(gl(fvl::<V, W, F>(self.0)), x@, y@);
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by { lemma_the(t, h); }
      assert forall|t: RadixTree<K, V>| (#[trigger] r0.push(t)).map_values(|x: RadixTree<K, V>| x@) == o0.push(t@) by { lemma_push_map(r0, |x: RadixTree<K, V>| x@, t); }
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {} }
//@ endfn
}
/// stand-in for the recursive call: the induction hypothesis, for operands below the ones at hand
#[verifier::external_body]
fn left_combine_rec<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: AbstractRadixTree<K, W>, F: Fn(&V, Option<&W>) -> Option<V> + Copy>(a: &A, b: &B, f: F, Ghost(vx_top): Ghost<Top<K, V, W>>) -> (r: RadixTree<K, V>)
    requires ba(vx_top, a@), bb(vx_top, b@), kv_ok::<K, V>(), kv_ok::<K, W>(), wf(a@), wf(b@), fpl::<V, W, F>(f)
    ensures lk(r@, cmb(gl(fvl::<V, W, F>(f)), a@, b@))
{ unimplemented!() }
//@ fn src/radix_tree/mod.rs | - | left_combine
//@ ret r
//@ sigrw `< K : TKey , V : TValue , W : TValue , R : AbstractRadixTreeMut < K , V , Materialized = R > >` => `<K: TKey, V: TValue, W: TValue, A: AbstractRadixTree<K, V>, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&V, Option<&W>) -> Option<V> + Copy>`
//@ sigrw `a : & impl AbstractRadixTree < K , V , Materialized = R > , b : & impl AbstractRadixTree < K , W >` => `a: &A, b: &B`
//@ sigrw `f : impl Fn ( &V, Option<&W> )  -> Option<V> + Copy` => `f: F`
//@ sigrw `R` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(a@), wf(b@), fpl::<V, W, F>(f)
    ensures lk(r@, cmb(gl(fvl::<V, W, F>(f)), a@, b@))
//@ rw `R :: new` => `RadixTree::<K, V>::new`
//@ rw `Vec :: < R > :: new` => `Vec::<RadixTree<K, V>>::new`
//@ rw `let mut children = Vec :: new ( )` => `let mut children: Vec<RadixTree<K, V>> = Vec::new()`
//@ rw `let mut value = None` => `let mut value: Option<V> = None`
//@ rw `a . prefix ( ) [ .. n ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(a.prefix(), 0, n))`
//@ rw `prefix = a . prefix ( ) . into ( )` => `prefix = vx_frag(a.prefix())`
//@ rw `b . materialize_shortened ( $$x )` => `b.materialize_own($x)`
//@ rw `a . value ( ) . cloned ( )` => `vx_cloned(a.value())`
//@ rw `b . value ( ) . cloned ( )` => `vx_cloned(b.value())`
//@ rw `a . children ( ) . iter ( ) . map ( | $x | $$b ) . collect ( )` => `vx_map_vec(a.children(), |$x: &A| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc($x@), $x@.p.len() > 0 ensures r@ == $x@ { $b })`
//@ rw `children . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(&mut children, |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ rw `LeftCombineOp ( f , PhantomData )` => `LeftCombineOp(f, Ghost((cpl(av.p, bv.p) == av.p.len(), av.c, bv.c)))`
//@ start
    let ghost (av, bv) = (a@, b@);
    let ghost n = cpl(av.p, bv.p);
    proof {
        lemma_kc::<K>(); reveal(fpure2); a.lemma_tree(); b.lemma_tree(); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        assert(lfits(gl(fvl::<V, W, F>(f)), tsome::<K, V>())); assert(rfits0(gl(fvl::<V, W, F>(f)), tnone::<K, W, V>()));
        lemma_keyed_pairs(gl(fvl::<V, W, F>(f)), nd(av, n).c, nd(bv, n).c);
        lemma_join0(gl(fvl::<V, W, F>(f)), tsome::<K, V>(), nd(av, n).c, nd(bv, n).c);
        lemma_tj_lists::<K, V, W, A, B>(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(f))));
        lemma_tj_lists::<K, V, W, A, M>(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(f))));
        lemma_tj_lists::<K, V, W, RadixTree<K, V>, B>(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(f))));
        lemma_lists::<K, V, A>(); lemma_lists::<K, W, B>(); lemma_lists::<K, V, RadixTree<K, V>>(); lemma_lists::<K, W, M>(); lemma_lists::<K, W, RadixTree<K, W>>();
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == gl(fvl::<V, W, F>(f))(nd(av, n).v, nd(bv, n).v) && t.c == tjoin(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(f))), nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb(gl(fvl::<V, W, F>(f)), av, bv)) by { assert(node_is(gl(fvl::<V, W, F>(f)), av, bv, n, t)); lemma_node(gl(fvl::<V, W, F>(f)), av, bv, n, t); }
        assert forall|t: TV<K, V>| #[trigger] short(t, 0) == t by { assert(t.p.skip(0) =~= t.p); }
        assert forall|i: int| 0 <= i < a.kids().len() implies tree_ok(#[trigger] a.kids()[i]) by { assert(wfc(av.c[i])); }
        assert forall|s: Seq<RadixTree<K, V>>| s.len() == av.c.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == a.kids()[i]@) implies #[trigger] vs(s) == av.c by { assert(vs(s) =~= av.c); }
        if n < av.p.len() && n < bv.p.len() { lemma_apart(tsome::<K, V>(), tnone::<K, W, V>(), tcmb(gl(fvl::<V, W, F>(f))), short(av, n), short(bv, n)); lemma_left_apart(gl(fvl::<V, W, F>(f)), av, bv, n); }
    }
//@ endfn
