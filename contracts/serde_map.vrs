//@ include serde_base.vrs
//@ tag sd
//@ # ---- src/vec_map.rs ------------------------------------------------------------------------------------------------------------
/// r is the map of the pairs of s: ascending keys, the first entry for each key
spec fn first_of<K: Ord, V>(s: Seq<(K, V)>, r: Seq<(K, V)>) -> bool { ksorted(r) && forall|k: K| #[trigger] kent(r, k) == kent(s, k) }
spec fn map_dec<K: DeSpec + Ord, V: DeSpec>(t: Seq<(Tok, Tok)>, v: Seq<(K, V)>) -> bool { exists|s: Seq<(K, V)>| #[trigger] decp(t, s) && first_of(s, v) }
impl<K: DeSpec + Ord + Clone, V: DeSpec, A: Array<Item = (K, V)>> DeSpec for VecMap<A> {
    /// the entries of a map, in any order and with any duplicate keys
    spec fn dec(t: Tok, v: Self) -> bool { t is Entries && map_dec(t->Entries_0, v@) }
    spec fn dreq() -> bool { K::dreq() && V::dreq() && ord_laws::<K>() && clone_ok::<K>() }
}
proof fn lemma_decp_push<K: DeSpec, V: DeSpec>(t: Seq<(Tok, Tok)>, n: int, s: Seq<(K, V)>, v: (K, V))
    requires 0 <= n < t.len(), decp(t.take(n), s), K::dec(t[n].0, v.0), V::dec(t[n].1, v.1)
    ensures decp(t.take(n + 1), s.push(v))
{
    assert forall|i: int| 0 <= i < t.take(n + 1).len() implies K::dec(#[trigger] t.take(n + 1)[i].0, s.push(v)[i].0) && V::dec(t.take(n + 1)[i].1, s.push(v)[i].1) by { if i < n { assert(K::dec(t.take(n)[i].0, s[i].0)); } }
}
proof fn lemma_undecodable_entry<K: DeSpec + Ord, V: DeSpec>(t: Seq<(Tok, Tok)>, n: int, v: Seq<(K, V)>)
    requires 0 <= n < t.len(), !(decodable::<K>(t[n].0) && decodable::<V>(t[n].1))
    ensures !map_dec(t, v)
{
    if map_dec(t, v) { let s = choose|s: Seq<(K, V)>| #[trigger] decp(t, s) && first_of(s, v); assert(K::dec(t[n].0, s[n].0)); assert(V::dec(t[n].1, s[n].1)); }
}
proof fn lemma_kent_push<K: Ord, V>(s: Seq<(K, V)>, x: (K, V), k: K)
    ensures kent(s.push(x), k) == if kent(s, k).is_some() { kent(s, k) } else if oc(x.0, k) == Ordering::Equal { Some(x) } else { None }
    decreases s.len()
{
    reveal_with_fuel(kent, 2);
    let p = s.push(x);
    if s.len() == 0 { assert(p.skip(1) =~= Seq::<(K, V)>::empty()); assert(p[0] == x); }
    else { lemma_kent_push(s.skip(1), x, k); assert(p.skip(1) =~= s.skip(1).push(x)); assert(p[0] == s[0]); }
}
proof fn lemma_kfirst_best<K: Ord, V>(s: Seq<(K, V)>, v: (K, V), e: spec_fn((K, V), (K, V)) -> bool)
    requires forall|a: (K, V), b: (K, V)| #[trigger] e(a, b) == (oc(a.0, b.0) == Ordering::Equal)
    ensures kent(s, v.0) == best(s, v, Keep::First, e)
    decreases s.len()
{
    if s.len() > 0 { lemma_kfirst_best(s.drop_last(), v, e); lemma_kent_push(s.drop_last(), s.last(), v.0); assert(s =~= s.drop_last().push(s.last())); }
}
/// the key of a pair, as a function
spec fn keyof<K, V>() -> spec_fn((K, V)) -> K { |x: (K, V)| x.0 }
proof fn lemma_sort_dedup_key<K: Ord, V>(s0: Seq<(K, V)>, s: Seq<(K, V)>, d: Seq<(K, V)>)
    requires ord_laws::<K>(), forall|v: (K, V)| #[trigger] cls(s, v, geq(keyof::<K, V>())) == cls(s0, v, geq(keyof::<K, V>())),
      forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i].0, s[j].0) != Ordering::Greater, dedup_ok(s, d, Keep::First, geq(keyof::<K, V>()))
    ensures first_of(s0, d)
{
    let e = geq(keyof::<K, V>());
    assert forall|x: int, y: int| 0 <= x < y < d.len() implies #[trigger] oc(d[x].0, d[y].0) == Ordering::Less by {
        assert(!e(d[x], d[y]));
        let (i, k) = choose|i: int, k: int| 0 <= i < k < s.len() && #[trigger] s[i] == d[x] && #[trigger] s[k] == d[y];
        assert(oc(s[i].0, s[k].0) != Ordering::Greater);
    }
    lemma_cls_best(s, s0, Keep::First, e);
    lemma_same_best_trans(d, s, s0, Keep::First, e);
    assert forall|k: K| #[trigger] kent(d, k) == kent(s0, k) by {
        lemma_laws(k, k, k);
        if s0.len() > 0 { let v = (k, s0[0].1); lemma_kfirst_best(s0, v, e); lemma_kfirst_best(d, v, e); assert(best(d, v, Keep::First, e) == best(s0, v, Keep::First, e)); }
        else if d.len() > 0 { let v = d[0]; lemma_laws(v.0, v.0, v.0); assert(e(d[0], v)); lemma_best_some(d, 0, v, Keep::First, e); assert(best(d, v, Keep::First, e) == best(s0, v, Keep::First, e)); }
    }
}
proof fn lemma_key_contiguous<K: Ord, V>(s: Seq<(K, V)>)
    requires ord_laws::<K>(), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i].0, s[j].0) != Ordering::Greater
    ensures contiguous(s, geq(keyof::<K, V>()))
{
    let e = geq(keyof::<K, V>());
    assert forall|i: int, j: int, k: int| 0 <= i <= j <= k < s.len() && #[trigger] e(s[i], s[k]) implies #[trigger] e(s[j], s[k]) by {
        lemma_laws(s[i].0, s[j].0, s[k].0); lemma_laws(s[j].0, s[k].0, s[i].0);
        if i < j { assert(oc(s[i].0, s[j].0) != Ordering::Greater); }
        if j < k { assert(oc(s[j].0, s[k].0) != Ordering::Greater); }
    }
}
//@ struct src/vec_map.rs VecMapVisitor
//@ forbid src/vec_map.rs Visitor/VecMapVisitor visit_seq visit_newtype_struct visit_unit visit_none visit_some visit_bytes visit_str visit_u64 visit_i64 visit_bool visit_enum visit_byte_buf visit_string visit_char visit_f64
//@ head src/vec_map.rs Visitor<'de> for VecMapVisitor
//@ rw `Visitor < 'de >` => `MapVisitor<'de>`
//@ types src/vec_map.rs Visitor<'de> for VecMapVisitor
    spec fn vreq() -> bool { K::dreq() && V::dreq() && ord_laws::<K>() && clone_ok::<K>() }
    spec fn vdec(t: Seq<(Tok, Tok)>, v: VecMap<A>) -> bool { map_dec(t, v@) }
//@ fn src/vec_map.rs | Visitor<'de> for VecMapVisitor | visit_map
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ start
    let ghost t0 = map.toks();
    let ghost ok0 = map.ok();
    let ghost mut n: int = 0;
    let ghost mut v0 = Seq::<(K, V)>::empty();
    let ghost mut v1 = Seq::<(K, V)>::empty();
    proof {
        assert(t0.skip(0) =~= t0);
        assert forall|m: int, v: Seq<(K, V)>| 0 <= m < t0.len() && !(decodable::<K>(t0[m].0) && decodable::<V>(t0[m].1)) implies !(#[trigger] map_dec(t0, v)) || (decodable::<K>((#[trigger] t0[m]).0) && decodable::<V>(t0[m].1)) by { lemma_undecodable_entry(t0, m, v); }
    }
//@ rw `SmallVec :: with_capacity ( $$n )` => `SmallVec::<A>::with_capacity_untrusted($n)`
//@ rw `$s . size_hint ( ) . unwrap_or ( 0 ) . min ( $$n )` => `vx_min_usize($s.size_hint().unwrap_or(0), $n)`
//@ rw `values . sort_by_key ( | $p : & ( K , V ) | $$e ) ;` => `let vx_c = |vx_p: &(K, V)| -> (vx_r: K) ensures vx_r == vx_p.0 { let $p: &(K, V) = vx_p; $e }; proof { assert(is_key(keyof::<K, V>()) && key_fn(vx_c, keyof::<K, V>())); v0 = values@; assert(t0.take(n) =~= t0); } values.sort_by_key(vx_c);`
//@ rw `values . dedup_by_key ( | $p : & mut ( K , V ) | $$e ) ;` => `let vx_d = |vx_p: &mut (K, V)| -> (vx_r: K) ensures *final(vx_p) == *old(vx_p), vx_r == old(vx_p).0 { let $p: &mut (K, V) = vx_p; $e }; proof { assert(is_key(keyof::<K, V>()) && mkey_fn(vx_d, keyof::<K, V>())); v1 = values@; assert forall|i: int, j: int| 0 <= i < j < v1.len() implies #[trigger] oc(v1[i].0, v1[j].0) != Ordering::Greater by { assert(oc(keyof::<K, V>()(v1[i]), keyof::<K, V>()(v1[j])) != Ordering::Greater); } lemma_key_contiguous(values@); } values.dedup_by_key(vx_d);`
//@ loop 0
    invariant 0 <= n <= t0.len(), map.toks() == t0.skip(n), map.ok() == ok0, decp(t0.take(n), values@)
    ensures n == t0.len()
    decreases t0.len() - n
//@ before `values . push ( value ) ;`
        proof { lemma_decp_push(t0, n, values@, value); assert(t0.skip(n).skip(1) =~= t0.skip(n + 1)); n = n + 1; }
//@ before `Ok ( VecMap ( values ) )`
        proof { lemma_sort_dedup_key(v0, v1, values@); }
//@ endfn
}
//@ head src/vec_map.rs Deserialize<'de> for VecMap<A>
//@ fn src/vec_map.rs | Deserialize<'de> for VecMap<A> | deserialize
//@ start
    let ghost vx_t = deserializer.tok();
    proof { assert forall|v: Self| #[trigger] VecMapVisitor::<K, V, A>::vdec(vx_t->Entries_0, v) && vx_t is Entries implies Self::dec(vx_t, v) by {}
      if decodable::<Self>(vx_t) { let v = choose|v: Self| #[trigger] Self::dec(vx_t, v); assert(VecMapVisitor::<K, V, A>::vdec(vx_t->Entries_0, v)); } }
//@ endfn
}
impl<K: SerSpec, V: SerSpec, A: Array<Item = (K, V)>> SerSpec for VecMap<A> {
    /// the entries, ascending by key
    spec fn enc(&self) -> Tok { Tok::Entries(encm(self@)) }
}
spec fn encm<K: SerSpec, V: SerSpec>(s: Seq<(K, V)>) -> Seq<(Tok, Tok)> { s.map_values(|x: (K, V)| (x.0.enc(), x.1.enc())) }
//@ head src/vec_map.rs Serialize for VecMap
//@ fn src/vec_map.rs | Serialize for VecMap | serialize
//@ start
    let ghost s = self@;
    let ghost mut n: int = 0;
//@ forloop 0
    invariant 0 <= n <= s.len(), s == self@, vx_s0.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] vx_s0[i]) == s[i], vx_it0.remaining() =~= vx_s0.skip(n), vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease().is_some(),
      state.els() =~= encm(s.take(n)), state.len() == Some(s.len() as usize), forall|t: Seq<(Tok, Tok)>, o: S::Ok| #[trigger] state.done(t, o) ==> serializer.wrote(Tok::Entries(t), o)
    ensures n == s.len()
    decreases s.len() - n
//@ loopstart 0
    proof { assert(vx_s0.skip(n)[0] == vx_s0[n]); }
//@ loopend 0
    proof { assert(s.take(n + 1) =~= s.take(n).push(s[n])); assert(vx_s0.skip(n).skip(1) =~= vx_s0.skip(n + 1)); n = n + 1; }
//@ before `state . end ( )`
    proof { assert(s.take(n) =~= s); }
//@ endfn
}
//@ # ---- src/total_vec_map.rs ------------------------------------------------------------------------------------------------------
impl<K: SerSpec, V: SerSpec, A: Array<Item = (K, V)>> SerSpec for TotalVecMap<V, A> {
    spec fn enc(&self) -> Tok { Tok::List(seq![Tok::Entries(encm(self@.0)), self@.1.enc()]) }
}
/// the value is normalised: entries equal to the default are not stored
spec fn tmap_dec<K: DeSpec + Ord + Clone, V: DeSpec + PartialEq, A: Array<Item = (K, V)>>(t: Seq<Tok>, v: (Seq<(K, V)>, V)) -> bool {
    exists|m: VecMap<A>| #[trigger] VecMap::<A>::dec(t[0], m) && v.0 == m@.filter(tkeepf::<K, V>(v.1))
}
impl<K: DeSpec + Ord + Clone, V: DeSpec + PartialEq, A: Array<Item = (K, V)>> DeSpec for TotalVecMap<V, A> {
    spec fn dec(t: Tok, v: Self) -> bool { t is List && t->List_0.len() == 2 && tmap_dec::<K, V, A>(t->List_0, v@) && V::dec(t->List_0[1], v@.1) }
    spec fn dreq() -> bool { K::dreq() && V::dreq() && ord_laws::<K>() && clone_ok::<K>() && V::obeys_eq_spec() }
}
//@ head src/total_vec_map.rs Serialize for TotalVecMap
//@ fn src/total_vec_map.rs | Serialize for TotalVecMap | serialize
//@ start
    proof { assert((&self.0, &self.1).enc() == self.enc()); }
//@ endfn
}
//@ head src/total_vec_map.rs Deserialize<'de> for TotalVecMap<V, A>
//@ fn src/total_vec_map.rs | Deserialize<'de> for TotalVecMap<V, A> | deserialize
//@ start
    let ghost vx_t = deserializer.tok();
    proof { if decodable::<Self>(vx_t) { let v = choose|v: Self| #[trigger] Self::dec(vx_t, v);
        let m = choose|m: VecMap<A>| #[trigger] VecMap::<A>::dec(vx_t->List_0[0], m) && v@.0 == m@.filter(tkeepf::<K, V>(v@.1));
        assert(<(VecMap<A>, V)>::dec(vx_t, (m, v@.1))); } }
//@ endfn
}
//@ # ---- the round trip -----------------------------------------------------------------------------------------------------------------
/// two key-sorted sequences with the same entry for every key are equal
proof fn lemma_ksorted_eq<K: Ord, V>(s: Seq<(K, V)>, r: Seq<(K, V)>)
    requires ord_laws::<K>(), ksorted(s), ksorted(r), forall|k: K| #[trigger] kent(s, k) == kent(r, k)
    ensures s =~= r
    decreases s.len()
{
    if s.len() == 0 { if r.len() > 0 { lemma_laws(r[0].0, r[0].0, r[0].0); lemma_kent_at(r, 0, r[0].0); assert(kent(s, r[0].0).is_none()); } }
    else {
        lemma_laws(s[0].0, s[0].0, s[0].0);
        lemma_kent_at(s, 0, s[0].0);
        lemma_kent(r, s[0].0);
        assert(kent(r, s[0].0) == Some(s[0]));
        let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == s[0];
        lemma_laws(r[0].0, r[0].0, r[0].0);
        lemma_kent_at(r, 0, r[0].0);
        lemma_kent(s, r[0].0);
        assert(kent(s, r[0].0) == Some(r[0]));
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == r[0];
        if i > 0 { assert(oc(r[0].0, r[i].0) == Ordering::Less); if j > 0 { assert(oc(s[0].0, s[j].0) == Ordering::Less); } lemma_laws(s[0].0, r[0].0, s[0].0); }
        assert(s[0] == r[0]);
        lemma_ksorted_skip(s); lemma_ksorted_skip(r);
        assert forall|k: K| #[trigger] kent(s.skip(1), k) == kent(r.skip(1), k) by {
            assert(kent(s, k) == kent(r, k));
            if oc(s[0].0, k) == Ordering::Equal { lemma_kgt_none(s.skip(1), s[0].0, k); lemma_kgt_none(r.skip(1), s[0].0, k); }
        }
        lemma_ksorted_eq(s.skip(1), r.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1)); assert(r =~= seq![r[0]] + r.skip(1));
    }
}
/// what is written is the entries in ascending key order; reading it back gives a map with the same entries, and nothing else
proof fn theorem_map_roundtrip<K: DeSpec + SerSpec + Ord + Clone, V: DeSpec + SerSpec, A: Array<Item = (K, V)>>(x: VecMap<A>, y: VecMap<A>)
    requires ord_laws::<K>(), roundtrips::<K>(), roundtrips::<V>(), ksorted(x@)
    ensures VecMap::<A>::dec(x.enc(), y) <==> y@ == x@
{
    let t = encm(x@);
    if VecMap::<A>::dec(x.enc(), y) {
        let s = choose|s: Seq<(K, V)>| #[trigger] decp(t, s) && first_of(s, y@);
        assert forall|i: int| 0 <= i < s.len() implies s[i] == x@[i] by { assert(K::dec(t[i].0, s[i].0)); lemma_roundtrips::<K>(x@[i].0, s[i].0); lemma_roundtrips::<V>(x@[i].1, s[i].1); }
        assert(s =~= x@);
        lemma_ksorted_eq(y@, s);
    }
    if y@ == x@ {
        assert forall|i: int| 0 <= i < t.len() implies K::dec(#[trigger] t[i].0, x@[i].0) && V::dec(t[i].1, x@[i].1) by { lemma_roundtrips::<K>(x@[i].0, x@[i].0); lemma_roundtrips::<V>(x@[i].1, x@[i].1); }
        assert(decp(t, x@));
        assert(first_of(x@, x@));
    }
}
/// a normalised total map survives the round trip
proof fn theorem_total_map_roundtrip<K: DeSpec + SerSpec + Ord + Clone, V: DeSpec + SerSpec + PartialEq, A: Array<Item = (K, V)>>(x: TotalVecMap<V, A>, y: TotalVecMap<V, A>)
    requires ord_laws::<K>(), roundtrips::<K>(), roundtrips::<V>(), ksorted(x@.0), x@.0.filter(tkeepf::<K, V>(x@.1)) == x@.0
    ensures TotalVecMap::<V, A>::dec(x.enc(), y) <==> y@ == x@
{
    let t = Tok::Entries(encm(x@.0));
    lemma_roundtrips::<V>(x@.1, y@.1);
    assert(x.0.enc() == t);
    if TotalVecMap::<V, A>::dec(x.enc(), y) {
        let m = choose|m: VecMap<A>| #[trigger] VecMap::<A>::dec(t, m) && y@.0 == m@.filter(tkeepf::<K, V>(y@.1));
        theorem_map_roundtrip(x.0, m);
    }
    if y@ == x@ { theorem_map_roundtrip(x.0, x.0); assert(VecMap::<A>::dec(t, x.0)); }
}
