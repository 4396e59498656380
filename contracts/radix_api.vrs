//@ include radix_ip.vrs
//@ tag rxa
//@ # ---- the public combination methods ------------------------------------------------------------------------------
proof fn lemma_lk_ext<K: Ord, V>(h: spec_fn(Seq<K>) -> Option<V>, g: spec_fn(Seq<K>) -> Option<V>)
    requires forall|k: Seq<K>| #[trigger] h(k) == g(k)
    ensures forall|t: TV<K, V>| lk(t, h) == #[trigger] lk(t, g)
{
    assert(h =~= g);
}
/// the values of self, and of that where self has none
spec fn s_union<K, V>(a: TV<K, V>, b: TV<K, V>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(a, k).is_some() { tget(a, k) } else { tget(b, k) } }
spec fn s_inter<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(b, k).is_some() { tget(a, k) } else { None } }
spec fn s_diff<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(b, k).is_none() { tget(a, k) } else { None } }
spec fn s_insert<K, V>(a: TV<K, V>, key: Seq<K>, v: V) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if k == key { Some(v) } else { tget(a, k) } }
proof fn union_fn<K: TKey, V: TValue, F: Fn(&V, &V) -> Option<V>>(f: F, a: TV<K, V>, b: TV<K, V>)
    requires forall|x: &V, y: &V| #[trigger] f.requires((x, y)), forall|x: &V, y: &V, r: Option<V>| #[trigger] f.ensures((x, y), r) ==> r == (|v: &V, w: &V| Some(*v))(x, y)
    ensures fpo::<V, V, F>(f), cmb(go(fvo::<V, V, F>(f)), a, b) == s_union(a, b)
{
    lemma_pure2::<&V, &V, Option<V>, F>(f, |v: &V, w: &V| Some(*v));
    assert forall|v: V, w: V| #[trigger] fvo::<V, V, F>(f)(v, w) == (|v: V, w: V| Some(v))(v, w) by { assert(fv2::<&V, &V, Option<V>, F>(f, &v, &w) == (|v: &V, w: &V| Some(*v))(&v, &w)); }
    let (x, y) = (cmb(go(fvo::<V, V, F>(f)), a, b), s_union(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn intersection_fn<K: TKey, V: TValue, W: TValue, F: Fn(&V, &W) -> Option<V>>(f: F, a: TV<K, V>, b: TV<K, W>)
    requires forall|x: &V, y: &W| #[trigger] f.requires((x, y)), forall|x: &V, y: &W, r: Option<V>| #[trigger] f.ensures((x, y), r) ==> r == (|v: &V, w: &W| Some(*v))(x, y)
    ensures fpo::<V, W, F>(f), cmb(gi(fvo::<V, W, F>(f)), a, b) == s_inter(a, b)
{
    lemma_pure2::<&V, &W, Option<V>, F>(f, |v: &V, w: &W| Some(*v));
    assert forall|v: V, w: W| #[trigger] fvo::<V, W, F>(f)(v, w) == (|v: V, w: W| Some(v))(v, w) by { assert(fv2::<&V, &W, Option<V>, F>(f, &v, &w) == (|v: &V, w: &W| Some(*v))(&v, &w)); }
    let (x, y) = (cmb(gi(fvo::<V, W, F>(f)), a, b), s_inter(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn difference_fn<K: TKey, V: TValue, W: TValue, F: Fn(&V, Option<&W>) -> Option<V>>(f: F, a: TV<K, V>, b: TV<K, W>)
    requires forall|x: &V, y: Option<&W>| #[trigger] f.requires((x, y)), forall|x: &V, y: Option<&W>, r: Option<V>| #[trigger] f.ensures((x, y), r) ==> r == (|v: &V, w: Option<&W>| if w.is_none() { Some(*v) } else { None::<V> })(x, y)
    ensures fpl::<V, W, F>(f), cmb(gl(fvl::<V, W, F>(f)), a, b) == s_diff(a, b)
{
    lemma_pure2::<&V, Option<&W>, Option<V>, F>(f, |v: &V, w: Option<&W>| if w.is_none() { Some(*v) } else { None::<V> });
    assert forall|v: V, w: W| #[trigger] fvl::<V, W, F>(f)(v, w) == (|v: V, w: W| None::<V>)(v, w) by { assert(fv2::<&V, Option<&W>, Option<V>, F>(f, &v, Some(&w)) == (|v: &V, w: Option<&W>| if w.is_none() { Some(*v) } else { None::<V> })(&v, Some(&w))); }
    let (x, y) = (cmb(gl(fvl::<V, W, F>(f)), a, b), s_diff(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn union_with_fn<K: TKey, V: TValue, F: Fn(&mut V, &V) -> bool>(f: F, a: TV<K, V>, b: TV<K, V>)
    requires forall|x: &mut V, y: V| #[trigger] f.requires((x, &y)), forall|x: &mut V, y: V, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == (|v: V, w: V| (v, true))(*x, y)
    ensures fmpure::<V, V, F>(f), cmb(go(fmo::<V, V, F>(f)), a, b) == s_union(a, b)
{
    axiom_fmv::<V, V, F>(f, |v: V, w: V| (v, true));
    let (x, y) = (cmb(go(fmo::<V, V, F>(f)), a, b), s_union(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn intersection_with_fn<K: TKey, V: TValue, W: TValue, F: Fn(&mut V, &W) -> bool>(f: F, a: TV<K, V>, b: TV<K, W>)
    requires forall|x: &mut V, y: W| #[trigger] f.requires((x, &y)), forall|x: &mut V, y: W, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == (|v: V, w: W| (v, true))(*x, y)
    ensures fmpure::<V, W, F>(f), cmb(gi(fmo::<V, W, F>(f)), a, b) == s_inter(a, b)
{
    axiom_fmv::<V, W, F>(f, |v: V, w: W| (v, true));
    let (x, y) = (cmb(gi(fmo::<V, W, F>(f)), a, b), s_inter(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn difference_with_fn<K: TKey, V: TValue, W: TValue, F: Fn(&mut V, &W) -> bool>(f: F, a: TV<K, V>, b: TV<K, W>)
    requires forall|x: &mut V, y: W| #[trigger] f.requires((x, &y)), forall|x: &mut V, y: W, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == (|v: V, w: W| (v, false))(*x, y)
    ensures fmpure::<V, W, F>(f), cmb(gl(fmo::<V, W, F>(f)), a, b) == s_diff(a, b)
{
    axiom_fmv::<V, W, F>(f, |v: V, w: W| (v, false));
    let (x, y) = (cmb(gl(fmo::<V, W, F>(f)), a, b), s_diff(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {}
    assert(x =~= y);
}
proof fn insert_fn<K: TKey, V: TValue, F: Fn(&mut V, &V) -> bool>(f: F, a: TV<K, V>, b: TV<K, V>, key: Seq<K>, value: V)
    requires lk(b, |k: Seq<K>| if k == key { Some(value) } else { None }), forall|x: &mut V, y: V| #[trigger] f.requires((x, &y)), forall|x: &mut V, y: V, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == (|v: V, w: V| (w, true))(*x, y)
    ensures fmpure::<V, V, F>(f), cmb(go(fmo::<V, V, F>(f)), a, b) == s_insert(a, key, value)
{
    axiom_fmv::<V, V, F>(f, |v: V, w: V| (w, true));
    let (x, y) = (cmb(go(fmo::<V, V, F>(f)), a, b), s_insert(a, key, value));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by { let h = |k: Seq<K>| if k == key { Some(value) } else { None::<V> }; assert(tget(b, k) == h(k)); }
    assert(x =~= y);
}
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ tag rxa.ref
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | outer_combine
//@ ret r
//@ sigrw `outer_combine` => `outer_combine<B: AbstractRadixTree<K, V>, F: Fn(&V,&V) -> Option<V> + Copy>`
//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &B`
//@ sigrw `f : impl Fn ( & V , & V ) -> Option < V > + Copy` => `f: F`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wf(self@), wf(that@), fpo::<V, V, F>(f)
    ensures lk(r@, cmb(go(fvo::<V, V, F>(f)), self@, that@))
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | inner_combine
//@ ret r
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&V,&W) -> Option<V> + Copy>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & V , & W ) -> Option < V > + Copy` => `f: F`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(self@), wf(that@), fpo::<V, W, F>(f)
    ensures lk(r@, cmb(gi(fvo::<V, W, F>(f)), self@, that@))
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | left_combine
//@ ret r
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>, F: Fn(&V,Option<&W>) -> Option<V> + Copy>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `f : impl Fn ( & V , Option < & W > ) -> Option < V > + Copy` => `f: F`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(self@), wf(that@), fpl::<V, W, F>(f)
    ensures lk(r@, cmb(gl(fvl::<V, W, F>(f)), self@, that@))
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | union
//@ ret r
//@ sigrw `union` => `union<B: AbstractRadixTree<K, V>>`
//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &B`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wf(self@), wf(that@)
    ensures lk(r@, s_union(self@, that@))
//@ rw `self . outer_combine ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &V, vx_q: &V| -> (r: Option<V>) requires clone_ok::<V>() ensures r == Some(*vx_p) { let $p = vx_p; let $q = vx_q; $e }; proof { union_fn(vx_f, self@, that@); } self.outer_combine(that, vx_f) }`
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | intersection
//@ ret r
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(self@), wf(that@)
    ensures lk(r@, s_inter(self@, that@))
//@ rw `self . inner_combine ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &V, vx_q: &W| -> (r: Option<V>) requires clone_ok::<V>() ensures r == Some(*vx_p) { let $p = vx_p; let $q = vx_q; $e }; proof { intersection_fn(vx_f, self@, that@); } self.inner_combine(that, vx_f) }`
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | difference
//@ ret r
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(self@), wf(that@)
    ensures lk(r@, s_diff(self@, that@))
//@ rw `self . left_combine ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &V, vx_q: Option<&W>| -> (r: Option<V>) requires clone_ok::<V>() ensures r == (if vx_q.is_none() { Some(*vx_p) } else { None }) { let $p = vx_p; let $q = vx_q; $e }; proof { difference_fn(vx_f, self@, that@); } self.left_combine(that, vx_f) }`
//@ endfn
//@ tag rxa.ip
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | union_with
//@ sigrw `union_with` => `union_with<B: AbstractRadixTree<K, V>>`
//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &B`
    requires kv_ok::<K, V>(), wf(old(self)@), wf(that@)
    ensures lk(final(self)@, s_union(old(self)@, that@))
//@ rw `self . outer_combine_with ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &mut V, vx_q: &V| -> (r: bool) requires clone_ok::<V>() ensures *final(vx_p) == *old(vx_p) && r == true { let $p = vx_p; let $q = vx_q; $e }; proof { union_with_fn(vx_f, self@, that@); } self.outer_combine_with(that, vx_f) }`
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | intersection_with
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@)
    ensures lk(final(self)@, s_inter(old(self)@, that@))
//@ rw `self . inner_combine_with ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &mut V, vx_q: &W| -> (r: bool) requires clone_ok::<V>() ensures *final(vx_p) == *old(vx_p) && r == true { let $p = vx_p; let $q = vx_q; $e }; proof { intersection_with_fn(vx_f, self@, that@); } self.inner_combine_with(that, vx_f) }`
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | difference_with
//@ sigrw `< W : TValue >` => `<W: TValue, B: RadixTreeMatB<K, W, M>, M: AbstractRadixTree<K, W>>`
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &B`
    requires kv_ok::<K, V>(), kv_ok::<K, W>(), wf(old(self)@), wf(that@)
    ensures lk(final(self)@, s_diff(old(self)@, that@))
//@ rw `self . left_combine_with ( that , | $p , $q | $$e )` => `{ let vx_f = |vx_p: &mut V, vx_q: &W| -> (r: bool) requires clone_ok::<V>() ensures *final(vx_p) == *old(vx_p) && r == false { let $p = vx_p; let $q = vx_q; $e }; proof { difference_with_fn(vx_f, self@, that@); } self.left_combine_with(that, vx_f) }`
//@ endfn
//@ tag rxa.insert
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | insert
    requires kv_ok::<K, V>(), wf(old(self)@)
    ensures lk(final(self)@, s_insert(old(self)@, key@, value))
//@ rw `self . outer_combine_with ( $$s , | $p , $q | $$e )` => `{ let vx_s: &RadixTree<K, V> = $s; let vx_f = |vx_p: &mut V, vx_q: &V| -> (r: bool) requires clone_ok::<V>() ensures *final(vx_p) == *vx_q && r { let $p = vx_p; let $q = vx_q; $e }; proof { insert_fn(vx_f, self@, vx_s@, key@, value); } self.outer_combine_with(vx_s, vx_f) }`
//@ endfn
}
