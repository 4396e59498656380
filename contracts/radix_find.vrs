//@ include radix_node.vrs
//@ tag rxn
//@ # ---- copying ---------------------------------------------------------------------------------------------------
trait RadixTreeMat<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | materialize_shortened
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wfc(self@), n < self@.p.len()
    ensures r@ == short(self@, n as int)
//@ rw `assert ! ( $$x ) ;` => `vx_assert($x);`
//@ rw `Self :: Materialized :: new` => `RadixTree::<K, V>::new`
//@ rw `self . prefix ( ) [ n .. ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(self.prefix(), n, self.prefix().len()))`
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `self . children ( ) . iter ( ) . map ( | $x | $$b ) . collect ( )` => `vx_map_vec(self.children(), |$x: &Self| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc($x@), $x@.p.len() > 0, vx_lt($x@, self@) ensures r@ == $x@ { $b })`
//@ start
    proof { lemma_kc::<K>(); self.lemma_tree(); let c0 = self.kids(); assert forall|i: int| 0 <= i < c0.len() implies wfc((#[trigger] c0[i])@) && c0[i]@.p.len() > 0 && vx_lt(c0[i]@, self@) by { assert(wfc(self@.c[i])); assert(decreases_to!(self@.c => self@.c[i])); }
      assert forall|t: TV<K, V>| #[trigger] short(t, 0) == t by { assert(t.p.skip(0) =~= t.p); } }
//@ end
    proof { assert(vx_r@.c =~= self@.c); }
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreeMat<K, V> for T {}
//@ fn src/radix_tree/mod.rs | - | materialize_shortened
//@ ret r
//@ sigrw `T :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wfc(tree@), n < tree@.p.len()
    ensures r@ == short(tree@, n as int)
    decreases tree@, 0int
//@ rw `assert ! ( $$x ) ;` => `vx_assert($x);`
//@ rw `T :: Materialized :: new` => `RadixTree::<K, V>::new`
//@ rw `tree . prefix ( ) [ n .. ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(tree.prefix(), n, tree.prefix().len()))`
//@ rw `tree . value ( ) . cloned ( )` => `vx_cloned(tree.value())`
//@ rw `tree . children ( ) . iter ( ) . map ( materialize ) . collect ( )` => `vx_map_vec(tree.children(), |x: &T| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc(x@), x@.p.len() > 0, vx_lt(x@, tree@) ensures r@ == x@ { materialize(x) })`
//@ start
    proof { lemma_kc::<K>(); tree.lemma_tree(); let c0 = tree.kids(); assert forall|i: int| 0 <= i < c0.len() implies wfc((#[trigger] c0[i])@) && c0[i]@.p.len() > 0 && vx_lt(c0[i]@, tree@) by { assert(wfc(tree@.c[i])); } 
      assert forall|t: TV<K, V>| #[trigger] short(t, 0) == t by { assert(t.p.skip(0) =~= t.p); } }
//@ end
    proof { assert(vx_r@.c =~= tree@.c); }
//@ endfn
//@ fn src/radix_tree/mod.rs | - | materialize
//@ ret r
//@ sigrw `T :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), wfc(tree@), tree@.p.len() > 0
    ensures r@ == tree@
    decreases tree@, 1int
//@ start
    proof { assert(tree@.p.skip(0) =~= tree@.p); }
//@ endfn
//@ # ---- looking up -------------------------------------------------------------------------------------------------
//@ struct src/radix_tree/mod.rs FindResult
/// tree is the part of t below key p, found rt components above its node
spec fn below<K, V>(t: TV<K, V>, p: Seq<K>, sub: TV<K, V>, rt: int) -> bool {
    0 <= rt <= sub.p.len() && forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(short(sub, sub.p.len() - rt), k)
}
/// t has no key starting with p
spec fn absent<K, V>(t: TV<K, V>, p: Seq<K>) -> bool { forall|k: Seq<K>| (#[trigger] tget(t, p + k)).is_none() }
proof fn lemma_below_here<K, V>(t: TV<K, V>, p: Seq<K>)
    requires p.len() <= t.p.len(), t.p.take(p.len() as int) == p
    ensures below(t, p, t, t.p.len() - p.len())
{
    let n = p.len() as int;
    let s = short(t, n);
    assert forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(s, k) by {
        lemma_prepend(s, p, p + k); lemma_cat(p, k);
        assert(p + s.p =~= t.p);
        assert(TV { p: p + s.p, v: s.v, c: s.c } == t);
    }
}
proof fn lemma_absent_here<K, V>(t: TV<K, V>, p: Seq<K>)
    requires !pre(t.p, p), t.p.len() <= p.len() || t.p.take(p.len() as int) != p
    ensures absent(t, p)
{
    assert forall|k: Seq<K>| (#[trigger] tget(t, p + k)).is_none() by {
        if pre(t.p, p + k) {
            if t.p.len() <= p.len() { assert((p + k).take(t.p.len() as int) =~= p.take(t.p.len() as int)); }
            else { assert((p + k).take(t.p.len() as int).take(p.len() as int) =~= p); }
        }
    }
}
/// one step down
proof fn lemma_step<K: Ord + Clone, V>(t: TV<K, V>, p: Seq<K>, k: Seq<K>)
    requires pre(t.p, p), t.p.len() < p.len()
    ensures tget(t, p + k) == cg(t.c, p.skip(t.p.len() as int) + k)
{
    let n = t.p.len() as int;
    assert((p + k).take(n) =~= p.take(n));
    assert((p + k).skip(n) =~= p.skip(n) + k);
}
proof fn lemma_down<K: Ord + Clone, V>(t: TV<K, V>, p: Seq<K>, i: int)
    requires key_laws::<K>(), cok(t.c), pre(t.p, p), t.p.len() < p.len(), 0 <= i < t.c.len(), t.c[i].p[0] == p[t.p.len() as int]
    ensures forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(t.c[i], p.skip(t.p.len() as int) + k)
{
    lemma_cix(t.c, i);
    assert forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(t.c[i], p.skip(t.p.len() as int) + k) by { lemma_step(t, p, k); assert((p.skip(t.p.len() as int) + k)[0] == p[t.p.len() as int]); }
}
proof fn lemma_nodown<K: Ord + Clone, V>(t: TV<K, V>, p: Seq<K>)
    requires pre(t.p, p), t.p.len() < p.len(), forall|i: int| 0 <= i < t.c.len() ==> hd(#[trigger] t.c[i]) != p[t.p.len() as int]
    ensures absent(t, p)
{
    assert forall|k: Seq<K>| (#[trigger] tget(t, p + k)).is_none() by {
        lemma_step(t, p, k);
        let x = (p.skip(t.p.len() as int) + k)[0];
        assert(x == p[t.p.len() as int]);
        lemma_chas(t.c, x);
        if chas(t.c, x) { assert(hd(t.c[cix(t.c, x)]) == x); }
    }
}
proof fn lemma_kobeys<K: Ord + Clone>()
    requires key_laws::<K>()
    ensures K::obeys_cmp_spec()
{ reveal(key_laws); reveal(ord_laws); }
/// comparing ascending heads with a fixed key component
proof fn lemma_heads_mono<K: Ord + Clone, V>(c: Seq<TV<K, V>>, x: K)
    requires key_laws::<K>(), csorted(c)
    ensures forall|i: int, j: int| 0 <= i < j < c.len() ==> ordn(oc(#[trigger] hd(c[i]), x)) <= ordn(oc(#[trigger] hd(c[j]), x))
{
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies ordn(oc(#[trigger] hd(c[i]), x)) <= ordn(oc(#[trigger] hd(c[j]), x)) by {
        assert(oc(c[i].p[0], c[j].p[0]) == Ordering::Less);
        lemma_kord(hd(c[i]), hd(c[j]), x); lemma_kord(x, hd(c[i]), hd(c[j])); lemma_kord(hd(c[j]), x, x);
    }
}
//@ tag rxf
//@ fn src/radix_tree/mod.rs | - | find
//@ ret r
    requires key_laws::<K>(), wf(tree@)
    ensures match r {
        FindResult::Found(sub) => below(tree@, prefix@, sub@, 0) && (wfc(sub@) || (sub@ == tree@ && prefix@ == tree@.p)),
        FindResult::Prefix { tree: sub, rt } => rt > 0 && below(tree@, prefix@, sub@, rt as int) && wfc(sub@),
        FindResult::NotFound { .. } => absent(tree@, prefix@),
    }
    decreases tree@
//@ rw `& prefix [ n .. ]` => `vstd::slice::slice_subrange(prefix, n, prefix.len())`
//@ closure 0 |e| -> (r: Ordering) requires K::obeys_cmp_spec(), e@.p.len() > 0 ensures r == oc(e@.p[0], *c)
//@ start
    proof { lemma_cpl(tree@.p, prefix@); lemma_wf_nil(tree@); tree.lemma_tree(); lemma_kobeys::<K>(); }
    let ghost (t, p, ch) = (tree@, prefix@, tree.kids());
    let ghost n0 = cpl(t.p, p);
    proof {
        assert forall|i: int| 0 <= i < ch.len() implies (#[trigger] ch[i])@.p.len() > 0 && wfc(ch[i]@) && ch[i]@ == t.c[i] by { assert(wfc(t.c[i])); }
        assert(p.take(p.len() as int) =~= p); assert(t.p.take(t.p.len() as int) =~= t.p);
        if n0 == p.len() { lemma_below_here(t, p); }
        else if n0 < t.p.len() {
            if pre(t.p, p) { assert(t.p[n0] == p[n0]) by { assert(p.take(t.p.len() as int)[n0] == p[n0]); } }
            lemma_absent_here(t, p);
        } else {
            lemma_heads_mono(t.c, p[n0]);
            assert forall|i: int, j: int| 0 <= i < j < ch.len() implies ordn(#[trigger] oc(ch[i]@.p[0], p[n0])) <= ordn(#[trigger] oc(ch[j]@.p[0], p[n0])) by { assert(hd(t.c[i]) == ch[i]@.p[0] && hd(t.c[j]) == ch[j]@.p[0]); }
        }
    }
//@ before `find ( child , $$x )`
    proof {
        lemma_kord(hd(t.c[index as int]), p[n0], p[n0]); lemma_down(t, p, index as int);
        assert(wfc(child@));
        assert forall|sub: TV<K, V>, m: int| #[trigger] below(child@, p.skip(n0), sub, m) implies below(t, p, sub, m) by {
            assert forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(short(sub, sub.p.len() - m), k) by { assert(tget(child@, p.skip(n0) + k) == tget(short(sub, sub.p.len() - m), k)); }
        }
        assert(absent(child@, p.skip(n0)) ==> absent(t, p)) by { if absent(child@, p.skip(n0)) { assert forall|k: Seq<K>| (#[trigger] tget(t, p + k)).is_none() by { assert(tget(child@, p.skip(n0) + k).is_none()); } } }
    }
//@ before `FindResult :: NotFound { $$x }`
    proof {
        if n0 == t.p.len() && n0 < p.len() {
            assert forall|i: int| 0 <= i < t.c.len() implies hd(#[trigger] t.c[i]) != p[n0] by { assert(ch[i]@ == t.c[i]); lemma_kord(p[n0], p[n0], p[n0]); }
            lemma_nodown(t, p);
        }
    }
//@ endfn
proof fn lemma_below_at<K, V>(t: TV<K, V>, p: Seq<K>, sub: TV<K, V>, rt: int)
    ensures below(t, p, sub, rt) ==> tget(t, p) == if rt == 0 { sub.v } else { None }, absent(t, p) ==> tget(t, p).is_none()
{
    let e = Seq::<K>::empty();
    assert(p + e =~= p);
    if below(t, p, sub, rt) { assert(tget(t, p + e) == tget(short(sub, sub.p.len() - rt), e)); if rt == 0 { assert(e.take(0) =~= sub.p.skip(sub.p.len() as int)); } }
    if absent(t, p) { assert(tget(t, p + e).is_none()); }
}
/// the keys starting with p
spec fn withp<K, V>(t: TV<K, V>, p: Seq<K>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if pre(p, k) { tget(t, k) } else { None } }
proof fn lemma_withp<K: Ord, V>(t: TV<K, V>, p: Seq<K>, sub: TV<K, V>, rt: int)
    requires below(t, p, sub, rt), 0 <= rt <= sub.p.len(), wfc(sub) || (isnil(sub) && p.len() == 0 && rt == 0)
    ensures lk(TV { p: p + sub.p.skip(sub.p.len() - rt), v: sub.v, c: sub.c }, withp(t, p))
{
    let s = short(sub, sub.p.len() - rt);
    let u = TV { p: p + s.p, v: s.v, c: s.c };
    assert forall|k: Seq<K>| #[trigger] tget(u, k) == withp(t, p)(k) by {
        lemma_prepend(s, p, k);
        if pre(p, k) { lemma_uncat(p, k); assert(tget(t, p + k.skip(p.len() as int)) == tget(s, k.skip(p.len() as int))); }
    }
}
proof fn lemma_withp_none<K: Ord, V>(t: TV<K, V>, p: Seq<K>)
    requires absent(t, p)
    ensures lk(tnil::<K, V>(), withp(t, p))
{
    assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k) == withp(t, p)(k) by {
        lemma_nil_get(tnil::<K, V>(), k);
        if pre(p, k) { lemma_uncat(p, k); assert(tget(t, p + k.skip(p.len() as int)).is_none()); }
    }
}
trait RadixTreeLookup<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | contains_key
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r == tget(self@, key@).is_some()
//@ start
    proof { assert forall|s: TV<K, V>, rt: int| #[trigger] below(self@, key@, s, rt) implies tget(self@, key@) == (if rt == 0 { s.v } else { None }) by { lemma_below_at(self@, key@, s, rt); } lemma_below_at(self@, key@, self@, 0); }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | get
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r == match tget(self@, key@) { Some(v) => Some(&v), None => None }
//@ start
    proof { assert forall|s: TV<K, V>, rt: int| #[trigger] below(self@, key@, s, rt) implies tget(self@, key@) == (if rt == 0 { s.v } else { None }) by { lemma_below_at(self@, key@, s, rt); } lemma_below_at(self@, key@, self@, 0); }
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreeLookup<K, V> for T {}
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ tag rxn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | empty
//@ ret r
    ensures r@ == tnil::<K, V>()
//@ rw `Self :: default` => `<Self as Default>::default`
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | leaf
//@ ret r
    ensures lk(r@, |k: Seq<K>| if k == Seq::<K>::empty() { Some(value) } else { None })
//@ rw `Fragment :: default ( )` => `<Fragment<K> as Default>::default()`
//@ rw `Default :: default ( )` => `Vec::new()`
//@ end
    proof { let c = vx_r@.c; assert(c =~= Seq::empty()); assert forall|k: Seq<K>| #[trigger] tget(vx_r@, k) == (if k == Seq::<K>::empty() { Some(value) } else { None }) by { assert(k.take(0) =~= Seq::empty()); if k.len() == 0 { assert(k =~= Seq::empty()); } } }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | single
//@ ret r
    requires key_laws::<K>()
    ensures r@ == (TV { p: key@, v: Some(value), c: Seq::empty() }), lk(r@, |k: Seq<K>| if k == key@ { Some(value) } else { None })
//@ rw `key . into ( )` => `vx_frag(key)`
//@ start
    proof { lemma_kc::<K>(); }
//@ end
    proof { let c = vx_r@.c; assert(c =~= Seq::empty()); assert forall|k: Seq<K>| #[trigger] tget(vx_r@, k) == (if k == key@ { Some(value) } else { None }) by { assert(key@.take(key@.len() as int) =~= key@); assert(k.take(k.len() as int) =~= k); } }
//@ endfn
//@ tag rxq
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | prepend
    requires key_laws::<K>()
    ensures final(self)@ == if isnil(old(self)@) { old(self)@ } else { TV { p: prefix@ + old(self)@.p, ..old(self)@ } },
      wf(old(self)@) ==> lk(final(self)@, |k: Seq<K>| if pre(prefix@, k) { tget(old(self)@, k.skip(prefix@.len() as int)) } else { None })
//@ rw `let mut prefix1 = SmallVec :: new ( )` => `let mut prefix1: SmallVec<[K; 16]> = SmallVec::new()`
//@ rw `prefix1 . into ( )` => `Fragment::from_small_vec(prefix1)`
//@ start
    let ghost t0 = self@;
    proof { assert(Seq::<K>::empty() + t0.p =~= t0.p); assert(prefix@.len() == 0 ==> prefix@ =~= Seq::empty()); }
//@ after `prefix1 . extend_from_slice ( prefix )`
    proof { assert(prefix1@ =~= prefix@); }
//@ end
    proof {
        if wf(t0) {
            let f = |k: Seq<K>| if pre(prefix@, k) { tget(t0, k.skip(prefix@.len() as int)) } else { None };
            assert forall|k: Seq<K>| #[trigger] tget(self@, k) == f(k) by { if isnil(t0) { lemma_nil_get(t0, k); lemma_nil_get(t0, k.skip(prefix@.len() as int)); } else { lemma_prepend(t0, prefix@, k); } }
        }
    }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | filter_prefix
//@ ret r
    requires kv_ok::<K, V>(), wf(self@)
    ensures lk(r@, withp(self@, prefix@))
//@ rw `tree . clone ( )` => `vx_clone_tree(tree)`
//@ rw `prefix . into ( )` => `vx_frag(prefix)`
//@ rw `Fragment :: from ( & p [ p . len ( ) - rt .. ] )` => `vx_frag(vstd::slice::slice_subrange(p, p.len() - rt, p.len()))`
//@ rw `Self :: default` => `<Self as Default>::default`
//@ start
    proof {
        lemma_kc::<K>(); lemma_wf_nil(self@);
        assert forall|s: TV<K, V>, rt: int| #[trigger] below(self@, prefix@, s, rt) && 0 <= rt <= s.p.len() && (wfc(s) || (isnil(s) && prefix@.len() == 0 && rt == 0)) implies lk(TV { p: prefix@ + s.p.skip(s.p.len() - rt), v: s.v, c: s.c }, withp(self@, prefix@)) by { lemma_withp(self@, prefix@, s, rt); }
        assert(absent(self@, prefix@) ==> lk(tnil::<K, V>(), withp(self@, prefix@))) by { if absent(self@, prefix@) { lemma_withp_none(self@, prefix@); } }
        assert forall|s: TV<K, V>| prefix@ + #[trigger] s.p.skip(s.p.len() as int) =~= prefix@ by {}
    }
//@ endfn
}
