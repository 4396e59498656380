//@ include radix_state.vrs
//@ tag rxc
//@ # ---- merging child lists: the operations as joins ---------------------------------------------------------------
type L1<K, V> = spec_fn(TV<K, V>) -> Option<TV<K, V>>;
spec fn tj_ops<K: Ord, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, RadixTree<K, W>> {
    Ops { ea: |o: Seq<TV<K, V>>, a: RadixTree<K, V>| o + os(l(a@)), eb: |o: Seq<TV<K, V>>, b: RadixTree<K, W>| o + os(r(b@)),
      ec: |o: Seq<TV<K, V>>, a: RadixTree<K, V>, b: RadixTree<K, W>| o + os(c(a@, b@)), cmp: |a: RadixTree<K, V>, b: RadixTree<K, W>| oc(hd(a@), hd(b@)) }
}
proof fn lemma_vs<K, V>(s: Seq<RadixTree<K, V>>)
    ensures vs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] vs(s)[i] == s[i]@, s.len() > 0 ==> vs(s.skip(1)) == vs(s).skip(1)
{ if s.len() > 0 { assert(vs(s.skip(1)) =~= vs(s).skip(1)); } }
/// one step of a join, and associativity of appending its result
proof fn lemma_tj_step<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, x: Seq<TV<K, V>>, y: Seq<TV<K, W>>)
    ensures x.len() == 0 && y.len() == 0 ==> o + tjoin(l, r, c, x, y) == o,
      x.len() > 0 && (y.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Less) ==> o + tjoin(l, r, c, x, y) == o + os(l(x[0])) + tjoin(l, r, c, x.skip(1), y),
      y.len() > 0 && (x.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Greater) ==> o + tjoin(l, r, c, x, y) == o + os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)),
      x.len() > 0 && y.len() > 0 && oc(hd(x[0]), hd(y[0])) == Ordering::Equal ==> o + tjoin(l, r, c, x, y) == o + os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1))
{
    if x.len() == 0 && y.len() == 0 { assert(o + tjoin(l, r, c, x, y) =~= o); }
    else if y.len() == 0 || (x.len() > 0 && oc(hd(x[0]), hd(y[0])) == Ordering::Less) { assert(o + os(l(x[0])) + tjoin(l, r, c, x.skip(1), y) =~= o + (os(l(x[0])) + tjoin(l, r, c, x.skip(1), y))); }
    else if x.len() == 0 || oc(hd(x[0]), hd(y[0])) == Ordering::Greater { assert(o + os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)) =~= o + (os(r(y[0])) + tjoin(l, r, c, x, y.skip(1)))); }
    else { assert(o + os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1)) =~= o + (os(c(x[0], y[0])) + tjoin(l, r, c, x.skip(1), y.skip(1)))); }
}
proof fn lemma_tj_fa<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    requires b.len() == 0
    ensures tj_ops(l, r, c).fold_a(o, a) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases a.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if a.len() > 0 { lemma_tj_fa(l, r, c, o + os(l(a[0]@)), a.skip(1), b); }
}
proof fn lemma_tj_fb<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    requires a.len() == 0
    ensures tj_ops(l, r, c).fold_b(o, b) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases b.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if b.len() > 0 { lemma_tj_fb(l, r, c, o + os(r(b[0]@)), a, b.skip(1)); }
}
proof fn lemma_tj_fold<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    ensures tj_ops(l, r, c).fold(o, a, b) == o + tjoin(l, r, c, vs(a), vs(b)), a.len() == 0 ==> tj_ops(l, r, c).fold_b(o, b) == o + tjoin(l, r, c, vs(a), vs(b)), b.len() == 0 ==> tj_ops(l, r, c).fold_a(o, a) == o + tjoin(l, r, c, vs(a), vs(b))
    decreases a.len() + b.len()
{
    hide(tjoin);
    lemma_vs(a); lemma_vs(b); lemma_tj_step(l, r, c, o, vs(a), vs(b));
    if a.len() == 0 { lemma_tj_fb(l, r, c, o, a, b); if b.len() == 0 { lemma_tj_fa(l, r, c, o, a, b); } }
    else if b.len() == 0 { lemma_tj_fa(l, r, c, o, a, b); }
    else {
        match oc(hd(a[0]@), hd(b[0]@)) {
            Ordering::Less => lemma_tj_fold(l, r, c, o + os(l(a[0]@)), a.skip(1), b),
            Ordering::Greater => lemma_tj_fold(l, r, c, o + os(r(b[0]@)), a, b.skip(1)),
            Ordering::Equal => lemma_tj_fold(l, r, c, o + os(c(a[0]@, b[0]@)), a.skip(1), b.skip(1)),
        }
    }
}
proof fn lemma_tj_mono<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    requires key_laws::<K>(), csorted(vs(a)), csorted(vs(b))
    ensures tj_ops(l, r, c).mono(a, b)
{
    lemma_vs(a); lemma_vs(b);
    let cmp = tj_ops(l, r, c).cmp;
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() && (#[trigger] cmp(a[i], b[j]) == Ordering::Less || cmp(a[i], b[j]) == Ordering::Equal) implies #[trigger] cmp(a[i], b[k]) == Ordering::Less by {
        assert(oc(vs(b)[j].p[0], vs(b)[k].p[0]) == Ordering::Less);
        lemma_kord(hd(a[i]@), hd(b[j]@), hd(b[k]@));
    }
    assert forall|i: int, j: int, k: int| 0 <= i < k < a.len() && 0 <= j < b.len() && (#[trigger] cmp(a[i], b[j]) == Ordering::Greater || cmp(a[i], b[j]) == Ordering::Equal) implies #[trigger] cmp(a[k], b[j]) == Ordering::Greater by {
        assert(oc(vs(a)[i].p[0], vs(a)[k].p[0]) == Ordering::Less);
        lemma_kord(hd(a[i]@), hd(b[j]@), hd(a[k]@)); lemma_kord(hd(b[j]@), hd(a[i]@), hd(a[k]@)); lemma_kord(hd(b[j]@), hd(a[k]@), hd(a[k]@));
    }
}
/// elements only one side has: all kept, or all dropped
proof fn lemma_fa_some<K: Ord, V, W>(r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<RadixTree<K, V>>)
    ensures tj_ops(tsome::<K, V>(), r, c).fold_a(o, s) == o + vs(s)
    decreases s.len()
{
    if s.len() == 0 { assert(o + vs(s) =~= o); }
    else { lemma_vs(s); lemma_fa_some(r, c, o + os(Some(s[0]@)), s.skip(1)); assert(o + os(Some(s[0]@)) + vs(s.skip(1)) =~= o + vs(s)); }
}
proof fn lemma_fa_none<K: Ord, V, W>(r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<RadixTree<K, V>>)
    ensures tj_ops(tnone::<K, V, V>(), r, c).fold_a(o, s) == o
    decreases s.len()
{ if s.len() > 0 { lemma_fa_none(r, c, o, s.skip(1)); assert(o + os(None::<TV<K, V>>) =~= o); } }
proof fn lemma_fb_some<K: Ord, V>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, V>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<RadixTree<K, V>>)
    ensures tj_ops(l, tsome::<K, V>(), c).fold_b(o, s) == o + vs(s)
    decreases s.len()
{
    if s.len() == 0 { assert(o + vs(s) =~= o); }
    else { lemma_vs(s); lemma_fb_some(l, c, o + os(Some(s[0]@)), s.skip(1)); assert(o + os(Some(s[0]@)) + vs(s.skip(1)) =~= o + vs(s)); }
}
proof fn lemma_fb_none<K: Ord, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, o: Seq<TV<K, V>>, s: Seq<RadixTree<K, W>>)
    ensures tj_ops(l, tnone::<K, W, V>(), c).fold_b(o, s) == o
    decreases s.len()
{ if s.len() > 0 { lemma_fb_none(l, c, o, s.skip(1)); assert(o + os(None::<TV<K, V>>) =~= o); } }
spec fn tree_ok<K: Ord + Clone, V>(t: RadixTree<K, V>) -> bool { wfc(t@) && t@.p.len() > 0 }
//@ # ---- by-reference combination ------------------------------------------------------------------------------------
spec fn fvo<V, W, F: Fn(&V, &W) -> Option<V>>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| fv2::<&V, &W, Option<V>, F>(f, &v, &w) }
spec fn fpo<V, W, F: Fn(&V, &W) -> Option<V>>(f: F) -> bool { fpure2::<&V, &W, Option<V>, F>(f) }
spec fn fvl<V, W, F: Fn(&V, Option<&W>) -> Option<V>>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| fv2::<&V, Option<&W>, Option<V>, F>(f, &v, Some(&w)) }
spec fn fpl<V, W, F: Fn(&V, Option<&W>) -> Option<V>>(f: F) -> bool { fpure2::<&V, Option<&W>, Option<V>, F>(f) }

/// joining two single subtrees with different heads
proof fn lemma_apart<K: Ord + Clone, V, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), hd(a) != hd(b)
    ensures tjoin(l, r, c, seq![a], seq![b]) == if oc(hd(a), hd(b)) == Ordering::Less { os(l(a)) + os(r(b)) } else { os(r(b)) + os(l(a)) }
{
    lemma_kord(hd(a), hd(b), hd(a));
    reveal_with_fuel(tjoin, 3);
    assert(seq![a].skip(1) =~= Seq::empty()); assert(seq![b].skip(1) =~= Seq::empty());
    assert(tjoin(l, r, c, seq![a], seq![b]) =~= if oc(hd(a), hd(b)) == Ordering::Less { os(l(a)) + os(r(b)) } else { os(r(b)) + os(l(a)) });
}
proof fn lemma_sort2<K: Ord + Clone, V>(s: Seq<RadixTree<K, V>>, a: RadixTree<K, V>, b: RadixTree<K, V>)
    requires key_laws::<K>(), hd(a@) != hd(b@), s.len() == 2, s.contains(a), s.contains(b), oc(hd(s[0]@), hd(s[1]@)) != Ordering::Greater
    ensures vs(s) == if oc(hd(a@), hd(b@)) == Ordering::Less { seq![a@, b@] } else { seq![b@, a@] }
{
    lemma_kord(hd(a@), hd(b@), hd(a@)); lemma_kord(hd(b@), hd(a@), hd(b@));
    let i = s.index_of(a); let j = s.index_of(b);
    assert(s[i] == a && s[j] == b); assert(i != j);
    assert(vs(s) =~= if oc(hd(a@), hd(b@)) == Ordering::Less { seq![a@, b@] } else { seq![b@, a@] });
}
/// trees whose prefixes part share no key
proof fn lemma_disjoint_keys<K, V, W>(a: TV<K, V>, b: TV<K, W>, n: int, k: Seq<K>)
    requires 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n]
    ensures tget(a, k).is_none() || tget(b, k).is_none()
{
    lemma_get_pre(a, k); lemma_get_pre(b, k);
    if pre(a.p, k) && pre(b.p, k) { assert(k.take(a.p.len() as int)[n] == k[n]); assert(k.take(b.p.len() as int)[n] == k[n]); }
}
proof fn lemma_unsp_id<K: Ord, V>(t: TV<K, V>)
    requires wf(t)
    ensures unsp(t) == t
{ if isnil(t) && !wfc(t) { assert(t.c =~= Seq::empty()); assert(t.p =~= Seq::empty()); } }
proof fn lemma_left_apart<K: Ord, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>, n: int)
    requires wf(a), 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n], forall|x: Option<V>| #[trigger] g(x, None) == x, forall|y: Option<W>| (#[trigger] g(None, y)).is_none()
    ensures unsp(a) == a, lk(a, cmb(g, a, b))
{
    lemma_unsp_id(a);
    assert forall|k: Seq<K>| #[trigger] tget(a, k) == cmb(g, a, b)(k) by { lemma_disjoint_keys(a, b, n, k); }
}
