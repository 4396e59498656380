//@ include serde_base.vrs
//@ tag sd
//@ # ---- src/vec_set.rs ------------------------------------------------------------------------------------------------------------
impl<A: Array> DeSpec for VecSet<A> where A::Item: DeSpec + Ord {
    /// the elements of a list, in any order and with any duplicates
    spec fn dec(t: Tok, v: Self) -> bool { t is List && set_dec(t->List_0, v@) }
    spec fn dreq() -> bool { <A::Item>::dreq() && ord_laws::<A::Item>() }
}
spec fn set_dec<T: DeSpec + Ord>(t: Seq<Tok>, v: Seq<T>) -> bool { exists|s: Seq<T>| #[trigger] decs(t, s) && set_of(s, v) }
proof fn lemma_decs_push<T: DeSpec>(t: Seq<Tok>, n: int, s: Seq<T>, v: T)
    requires 0 <= n < t.len(), decs(t.take(n), s), T::dec(t[n], v)
    ensures decs(t.take(n + 1), s.push(v))
{
    assert forall|i: int| 0 <= i < t.take(n + 1).len() implies #[trigger] T::dec(t.take(n + 1)[i], s.push(v)[i]) by { if i < n { assert(T::dec(t.take(n)[i], s[i])); } }
}
proof fn lemma_undecodable<T: DeSpec + Ord>(t: Seq<Tok>, n: int, v: Seq<T>)
    requires 0 <= n < t.len(), !decodable::<T>(t[n])
    ensures !set_dec(t, v)
{
    if set_dec(t, v) { let s = choose|s: Seq<T>| #[trigger] decs(t, s) && set_of(s, v); assert(T::dec(t[n], s[n])); }
}
//@ struct src/vec_set.rs VecSetVisitor
//@ forbid src/vec_set.rs Visitor/VecSetVisitor visit_map visit_newtype_struct visit_unit visit_none visit_some visit_bytes visit_str visit_u64 visit_i64 visit_bool visit_enum visit_byte_buf visit_string visit_char visit_f64
//@ head src/vec_set.rs Visitor<'de> for VecSetVisitor<A>
//@ rw `Visitor < 'de >` => `SeqVisitor<'de>`
//@ types src/vec_set.rs Visitor<'de> for VecSetVisitor<A>
    spec fn vreq() -> bool { <A::Item>::dreq() && ord_laws::<A::Item>() }
    spec fn vdec(t: Seq<Tok>, v: VecSet<A>) -> bool { set_dec(t, v@) }
//@ fn src/vec_set.rs | Visitor<'de> for VecSetVisitor<A> | visit_seq
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ start
    let ghost t0 = seq.toks();
    let ghost ok0 = seq.ok();
    let ghost mut n: int = 0;
    let ghost mut v0 = Seq::<A::Item>::empty();
    let ghost mut v1 = Seq::<A::Item>::empty();
    proof {
        assert(t0.skip(0) =~= t0);
        assert forall|m: int, v: Seq<A::Item>| 0 <= m < t0.len() && !decodable::<A::Item>(t0[m]) implies !(#[trigger] set_dec(t0, v)) || decodable::<A::Item>(#[trigger] t0[m]) by { lemma_undecodable(t0, m, v); }
    }
//@ rw `SmallVec :: with_capacity ( $$n )` => `SmallVec::<A>::with_capacity_untrusted($n)`
//@ rw `$s . size_hint ( ) . unwrap_or ( 0 ) . min ( $$n )` => `vx_min_usize($s.size_hint().unwrap_or(0), $n)`
//@ loop 0
    invariant 0 <= n <= t0.len(), seq.toks() == t0.skip(n), seq.ok() == ok0, decs(t0.take(n), values@), <A::Item>::dreq(), ord_laws::<A::Item>(),
      forall|m: int, v: Seq<A::Item>| 0 <= m < t0.len() && !decodable::<A::Item>(t0[m]) ==> !(#[trigger] set_dec(t0, v)) || decodable::<A::Item>(#[trigger] t0[m])
    ensures n == t0.len()
    decreases t0.len() - n
//@ before `values . push ( value ) ;`
        proof { lemma_decs_push(t0, n, values@, value); assert(t0.skip(n).skip(1) =~= t0.skip(n + 1)); n = n + 1; }
//@ before `values . sort ( ) ;`
        proof { v0 = values@; assert(t0.take(n) =~= t0); }
//@ before `values . dedup ( ) ;`
        proof { v1 = values@; lemma_oc_contiguous(values@); }
//@ before `Ok ( VecSet ( values ) )`
        proof { lemma_sort_dedup(v0, v1, values@); }
//@ endfn
}
//@ head src/vec_set.rs Deserialize<'de> for VecSet<A>
//@ fn src/vec_set.rs | Deserialize<'de> for VecSet<A> | deserialize
//@ start
    let ghost vx_t = deserializer.tok();
    proof { assert forall|v: Self| #[trigger] VecSetVisitor::<A>::vdec(vx_t->List_0, v) && vx_t is List implies Self::dec(vx_t, v) by {}
      if decodable::<Self>(vx_t) { let v = choose|v: Self| #[trigger] Self::dec(vx_t, v); assert(VecSetVisitor::<A>::vdec(vx_t->List_0, v)); } }
//@ endfn
}
impl<A: Array> SerSpec for VecSet<A> where A::Item: SerSpec {
    /// a list of the elements, ascending
    spec fn enc(&self) -> Tok { Tok::List(encs(self@)) }
}
spec fn encs<T: SerSpec>(s: Seq<T>) -> Seq<Tok> { s.map_values(|x: T| x.enc()) }
//@ head src/vec_set.rs Serialize for VecSet
//@ fn src/vec_set.rs | Serialize for VecSet | serialize
//@ start
    let ghost s = self@;
    let ghost mut n: int = 0;
//@ forloop 0
    invariant 0 <= n <= s.len(), s == self@, vx_s0.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] vx_s0[i]) == s[i], vx_it0.remaining() =~= vx_s0.skip(n), vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease().is_some(),
      state.els() =~= encs(s.take(n)), state.len() == Some(s.len() as usize), forall|t: Seq<Tok>, o: S::Ok| #[trigger] state.done(t, o) ==> serializer.wrote(Tok::List(t), o)
    ensures n == s.len()
    decreases s.len() - n
//@ loopstart 0
    let ghost els0 = state.els();
    proof { assert(vx_s0.skip(n)[0] == vx_s0[n]); }
//@ loopend 0
    proof { assert(s.take(n + 1) =~= s.take(n).push(s[n])); assert(vx_s0.skip(n).skip(1) =~= vx_s0.skip(n + 1)); n = n + 1; }
//@ before `state . end ( )`
    proof { assert(s.take(n) =~= s); }
//@ endfn
}
//@ # ---- src/total_vec_set.rs ------------------------------------------------------------------------------------------------------
impl<A: Array> SerSpec for TotalVecSet<A> where A::Item: SerSpec {
    spec fn enc(&self) -> Tok { Tok::List(seq![Tok::List(encs(self@.0)), bool_tok(self@.1)]) }
}
impl<A: Array> DeSpec for TotalVecSet<A> where A::Item: DeSpec + Ord {
    spec fn dec(t: Tok, v: Self) -> bool { t is List && t->List_0.len() == 2 && t->List_0[0] is List && set_dec(t->List_0[0]->List_0, v@.0) && t->List_0[1] == bool_tok(v@.1) }
    spec fn dreq() -> bool { <A::Item>::dreq() && ord_laws::<A::Item>() }
}
//@ head src/total_vec_set.rs Serialize for TotalVecSet
//@ fn src/total_vec_set.rs | Serialize for TotalVecSet | serialize
//@ start
    proof { assert((&self.elements, &self.negated).enc() == self.enc()); }
//@ endfn
}
//@ head src/total_vec_set.rs Deserialize<'de> for TotalVecSet<A>
//@ fn src/total_vec_set.rs | Deserialize<'de> for TotalVecSet<A> | deserialize
//@ start
    let ghost vx_t = deserializer.tok();
    proof { if decodable::<Self>(vx_t) { let v = choose|v: Self| #[trigger] Self::dec(vx_t, v); assert(<(VecSet<A>, bool)>::dec(vx_t, (v.elements, v.negated))); } }
//@ endfn
}
//@ # ---- the round trip -----------------------------------------------------------------------------------------------------------------
proof fn lemma_sorted_best<T: Ord>(s: Seq<T>, i: int)
    requires ord_laws::<T>(), sorted(s), 0 <= i < s.len()
    ensures best(s, s[i], Keep::First, oceq()) == Some(s[i])
{
    lemma_oceq_equiv::<T>();
    lemma_best_meaning(s, s[i], Keep::First, oceq());
    lemma_laws(s[i], s[i], s[i]);
    lemma_best_some(s, i, s[i], Keep::First, oceq());
    let x = best(s, s[i], Keep::First, oceq()).unwrap();
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x;
    if k < i { assert(oc(s[k], s[i]) == Ordering::Less); } else if i < k { assert(oc(s[i], s[k]) == Ordering::Less); lemma_laws(s[i], s[k], s[i]); }
}
spec fn occurs<T>(r: Seq<T>, x: T) -> bool { exists|k: int| 0 <= k < r.len() && #[trigger] r[k] == x }
spec fn within<T>(s: Seq<T>, r: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> occurs(r, #[trigger] s[i]) }
proof fn lemma_set_of_sub<T: Ord>(s: Seq<T>, r: Seq<T>)
    requires ord_laws::<T>(), sorted(s), sorted(r), same_best(r, s, Keep::First, oceq())
    ensures within(s, r)
{
    assert forall|i: int| 0 <= i < s.len() implies occurs(r, #[trigger] s[i]) by {
        lemma_sorted_best(s, i);
        assert(best(r, s[i], Keep::First, oceq()) == best(s, s[i], Keep::First, oceq()));
        lemma_best_meaning(r, s[i], Keep::First, oceq());
    }
}
proof fn lemma_sorted_last<T: Ord>(s: Seq<T>, i: int)
    requires ord_laws::<T>(), sorted(s), 0 <= i < s.len()
    ensures oc(s[i], s.last()) == if i == s.len() - 1 { Ordering::Equal } else { Ordering::Less }, i < s.len() - 1 ==> s[i] != s.last()
{ lemma_laws(s[i], s.last(), s[i]); if i < s.len() - 1 { assert(oc(s[i], s[s.len() - 1]) == Ordering::Less); } }
/// two ascending sequences with the same elements are equal
proof fn lemma_sorted_eq<T: Ord>(s: Seq<T>, r: Seq<T>)
    requires ord_laws::<T>(), sorted(s), sorted(r), within(s, r), within(r, s)
    ensures s =~= r
    decreases s.len()
{
    if s.len() == 0 { if r.len() > 0 { assert(occurs(s, r[0])); } }
    else {
        let n = s.len() - 1;
        assert(occurs(r, s[n]));
        let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k] == s[n];
        let m = r.len() - 1;
        assert(occurs(s, r[m]));
        let l = choose|l: int| 0 <= l < s.len() && #[trigger] s[l] == r[m];
        assert(s[n] == r[m]) by { lemma_sorted_last(s, l); lemma_sorted_last(r, k); lemma_laws(s[n], r[m], s[n]); }
        let s1 = s.drop_last(); let r1 = r.drop_last();
        assert(sorted(s1)) by { assert forall|i: int, j: int| 0 <= i < j < s1.len() implies #[trigger] oc(s1[i], s1[j]) == Ordering::Less by { assert(oc(s[i], s[j]) == Ordering::Less); } }
        assert(sorted(r1)) by { assert forall|i: int, j: int| 0 <= i < j < r1.len() implies #[trigger] oc(r1[i], r1[j]) == Ordering::Less by { assert(oc(r[i], r[j]) == Ordering::Less); } }
        lemma_within_init(s, r); lemma_within_init(r, s);
        lemma_sorted_eq(s1, r1);
        assert(s =~= s1.push(s[n])); assert(r =~= r1.push(r[m]));
    }
}
proof fn lemma_within_init<T: Ord>(s: Seq<T>, r: Seq<T>)
    requires ord_laws::<T>(), sorted(s), within(s, r), s.len() > 0, r.len() > 0, s.last() == r.last()
    ensures within(s.drop_last(), r.drop_last())
{
    let s1 = s.drop_last(); let r1 = r.drop_last();
    assert forall|i: int| 0 <= i < s1.len() implies occurs(r1, #[trigger] s1[i]) by {
        assert(occurs(r, s[i]));
        let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k] == s[i];
        lemma_sorted_last(s, i);
        assert(r1[k] == s1[i]);
    }
}
/// what is written is a list of the elements in ascending order; reading it back gives a set with the same elements, and nothing else
proof fn theorem_set_roundtrip<A: Array>(x: VecSet<A>, y: VecSet<A>) where A::Item: DeSpec + SerSpec + Ord
    requires ord_laws::<A::Item>(), roundtrips::<A::Item>(), sorted(x@)
    ensures VecSet::<A>::dec(x.enc(), y) <==> y@ == x@
{
    let t = encs(x@);
    if VecSet::<A>::dec(x.enc(), y) {
        let s = choose|s: Seq<A::Item>| #[trigger] decs(t, s) && set_of(s, y@);
        assert forall|i: int| 0 <= i < s.len() implies s[i] == x@[i] by { assert(<A::Item>::dec(t[i], s[i])); lemma_roundtrips::<A::Item>(x@[i], s[i]); }
        assert(s =~= x@);
        lemma_set_of_sub(s, y@);
        assert(same_best(s, y@, Keep::First, oceq())) by { assert forall|v: A::Item| #[trigger] best(s, v, Keep::First, oceq()) == best(y@, v, Keep::First, oceq()) by { assert(best(y@, v, Keep::First, oceq()) == best(s, v, Keep::First, oceq())); } }
        lemma_set_of_sub(y@, s);
        lemma_sorted_eq(s, y@);
    }
    if y@ == x@ {
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] <A::Item>::dec(t[i], x@[i]) by { lemma_roundtrips::<A::Item>(x@[i], x@[i]); }
        assert(decs(t, x@));
        lemma_set_of(x@, x@);
    }
}
proof fn theorem_total_set_roundtrip<A: Array>(x: TotalVecSet<A>, y: TotalVecSet<A>) where A::Item: DeSpec + SerSpec + Ord
    requires ord_laws::<A::Item>(), roundtrips::<A::Item>(), roundtrips::<bool>(), sorted(x@.0)
    ensures TotalVecSet::<A>::dec(x.enc(), y) <==> y@ == x@
{
    theorem_set_roundtrip(x.elements, y.elements);
    lemma_roundtrips::<bool>(x@.1, y@.1);
}
