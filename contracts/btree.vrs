//@ tag base
//@ include mapspec.vrs
//@ tag bt
//@ # ---- std's ordered map: trusted shims over its entries in iteration order ----------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct BTreeMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
/// `rkyv::collections::ArchivedBTreeMap`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct ArchivedBTreeMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> View for ArchivedBTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
/// the two borrowing iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct BtIter<'a, K, V> { p: PhantomData<&'a (K, V)> }
impl<'a, K, V> View for BtIter<'a, K, V> { type V = Seq<(&'a K, &'a V)>; uninterp spec fn view(&self) -> Seq<(&'a K, &'a V)>; }
impl<'a, K, V> BtIter<'a, K, V> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
      ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct ABtIter<'a, K, V> { p: PhantomData<&'a (K, V)> }
impl<'a, K, V> View for ABtIter<'a, K, V> { type V = Seq<(&'a K, &'a V)>; uninterp spec fn view(&self) -> Seq<(&'a K, &'a V)>; }
impl<'a, K, V> ABtIter<'a, K, V> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
      ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
/// r are references to the entries s
spec fn refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
/// what a callback that may change the value does
uninterp spec fn bmv<K, V, W, F: Fn(&K, &mut V, W) -> bool>(f: F, k: K, v: V, w: W) -> (V, bool);
/// the callback is total and deterministic
#[verifier::opaque]
#[verifier::prophetic]
spec fn bmpure<K, V, W, F: Fn(&K, &mut V, W) -> bool>(f: F) -> bool {
    &&& forall|k: K, m: &mut V, w: W| #[trigger] f.requires((&k, m, w))
    &&& forall|k: K, m: &mut V, w: W, r: bool| #[trigger] f.ensures((&k, m, w), r) ==> (*final(m), r) == bmv(f, k, *m, w)
}
spec fn keep2<V>(x: (V, bool)) -> Option<V> { if x.1 { Some(x.0) } else { None } }
/// entry by entry: g keeps and changes, or drops
spec fn ret_ent<K, V>(g: spec_fn(K, V) -> (V, bool), e: Option<(K, V)>) -> Option<(K, V)> {
    match e { Some(e) => mk(e.0, keep2(g(e.0, e.1))), None => None }
}
/// names the function a predicate computes
spec fn is_fn<K, V>(g: spec_fn(K, V) -> (V, bool)) -> bool { true }
/// f computes g
#[verifier::prophetic]
spec fn det<K, V, F: Fn(&K, &mut V) -> bool>(f: F, g: spec_fn(K, V) -> (V, bool)) -> bool {
    &&& forall|k: K, m: &mut V| #[trigger] f.requires((&k, m))
    &&& forall|k: K, m: &mut V, r: bool| #[trigger] f.ensures((&k, m), r) ==> (*final(m), r) == g(k, *m)
}
impl<K: Ord, V> BTreeMap<K, V> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn iter(&self) -> (r: BtIter<K, V>) ensures r@ == refs(self@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
      requires ord_laws::<K>(), ksorted(self@)
      ensures r == (match kent(self@, *k) { Some(e) => Some(&e.1), None => None })
    { unimplemented!() }
    /// an existing key is kept, its value replaced
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
      requires ord_laws::<K>(), ksorted(old(self)@)
      ensures ksorted(final(self)@),
        forall|q: K| #[trigger] kent(final(self)@, q) == if oc(k, q) == Ordering::Equal { Some((match kent(old(self)@, k) { Some(e) => e.0, None => k }, v)) } else { kent(old(self)@, q) }
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (r: Option<V>)
      requires ord_laws::<K>(), ksorted(old(self)@)
      ensures ksorted(final(self)@),
        forall|q: K| #[trigger] kent(final(self)@, q) == if oc(*k, q) == Ordering::Equal { None } else { kent(old(self)@, q) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
      requires ord_laws::<K>(), ksorted(old(self)@)
      ensures ksorted(final(self)@), match r {
          None => kent(old(self)@, *k).is_none() && final(self)@ == old(self)@,
          Some(m) => kent(old(self)@, *k).is_some() && *m == kent(old(self)@, *k).unwrap().1
            && forall|q: K| #[trigger] kent(final(self)@, q) == if oc(*k, q) == Ordering::Equal { Some((kent(old(self)@, *k).unwrap().0, *final(m))) } else { kent(old(self)@, q) },
      }
    { unimplemented!() }
    /// each entry is offered once; the predicate's effect on the value stays
    #[verifier::external_body]
    fn retain<F: Fn(&K, &mut V) -> bool>(&mut self, f: F)
      requires ksorted(old(self)@), exists|g: spec_fn(K, V) -> (V, bool)| #[trigger] is_fn(g) && det(f, g)
      ensures ksorted(final(self)@),
        forall|g: spec_fn(K, V) -> (V, bool), q: K| #![trigger is_fn(g), kent(final(self)@, q)] is_fn(g) && det(f, g) ==> kent(final(self)@, q) == ret_ent(g, kent(old(self)@, q))
    { unimplemented!() }
}
impl<K: Ord, V> ArchivedBTreeMap<K, V> {
    #[verifier::external_body]
    fn iter(&self) -> (r: ABtIter<K, V>) ensures r@ == refs(self@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
      requires ord_laws::<K>(), ksorted(self@)
      ensures r == (match kent(self@, *k) { Some(e) => Some(&e.1), None => None })
    { unimplemented!() }
}
//@ # ---- the abstract iterator and the abstract map -------------------------------------------------------------------
//@ struct src/btree_map.rs AbstractBTreeMapIter
//@ rw `rkyv :: collections :: btree_map :: Iter` => `ABtIter`
//@ rw `btree_map :: Iter` => `BtIter`
impl<'a, K, V> AbstractBTreeMapIter<'a, K, V> {
    spec fn remaining(self) -> Seq<(&'a K, &'a V)> { match self { AbstractBTreeMapIter::BTreeMap(x) => x@, AbstractBTreeMapIter::ArchivedBTreeMap(x) => x@ } }
    /// `Iterator::size_hint` (only ever a hint)
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
//@ fn src/btree_map.rs | Iterator for AbstractBTreeMapIter | next
//@ sigrw `Self :: Item` => `(&'a K, &'a V)`
//@ ret r
    ensures old(self).remaining().len() == 0 ==> r.is_none() && final(self).remaining() == old(self).remaining(),
      old(self).remaining().len() > 0 ==> r == Some(old(self).remaining()[0]) && final(self).remaining() == old(self).remaining().skip(1)
//@ endfn
}
proof fn lemma_kent_take<K: Ord, V>(s: Seq<(K, V)>, n: int)
    requires ord_laws::<K>(), ksorted(s), 0 <= n < s.len()
    ensures forall|k: K| #[trigger] kent(s.take(n + 1), k) == if oc(s[n].0, k) == Ordering::Equal { Some(s[n]) } else { kent(s.take(n), k) },
      forall|k: K| oc(s[n].0, k) == Ordering::Equal ==> kent(s, k) == Some(s[n]) && (#[trigger] kent(s.take(n), k)).is_none(),
      ksorted(s.take(n)), ksorted(s.take(n + 1))
{
    let (a, b) = (s.take(n), s.take(n + 1));
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] oc(a[i].0, a[j].0) == Ordering::Less by { assert(oc(s[i].0, s[j].0) == Ordering::Less); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] oc(b[i].0, b[j].0) == Ordering::Less by { assert(oc(s[i].0, s[j].0) == Ordering::Less); }
    assert forall|k: K| oc(s[n].0, k) == Ordering::Equal implies kent(s, k) == Some(s[n]) && (#[trigger] kent(a, k)).is_none() by {
        lemma_kent_at(s, n, k);
        assert forall|i: int| 0 <= i < a.len() implies oc((#[trigger] a[i]).0, k) != Ordering::Equal by {
            assert(oc(s[i].0, s[n].0) == Ordering::Less);
            lemma_laws(s[i].0, s[n].0, k);
        }
        lemma_kent_none(a, k);
    }
    assert forall|k: K| #[trigger] kent(b, k) == if oc(s[n].0, k) == Ordering::Equal { Some(s[n]) } else { kent(a, k) } by {
        assert(b[n] == s[n]);
        if oc(s[n].0, k) == Ordering::Equal { lemma_kent_at(b, n, k); }
        else {
            lemma_kent(a, k);
            if kent(a, k).is_some() {
                let e = kent(a, k).unwrap();
                let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == e && oc(e.0, k) == Ordering::Equal;
                assert(b[i] == e);
                lemma_kent_at(b, i, k);
            } else {
                assert forall|i: int| 0 <= i < b.len() implies oc((#[trigger] b[i]).0, k) != Ordering::Equal by { if i < n { assert(a[i] == b[i]); } }
                lemma_kent_none(b, k);
            }
        }
    }
}
/// equivalent keys select the same entries
proof fn lemma_eqv<K: Ord, V>(s: Seq<(K, V)>)
    requires ord_laws::<K>(), ksorted(s)
    ensures forall|k: K, q: K| #![trigger oc(k, q), kent(s, q)] oc(k, q) == Ordering::Equal ==> kent(s, k) == kent(s, q)
{
    assert forall|k: K, q: K| #![trigger oc(k, q), kent(s, q)] oc(k, q) == Ordering::Equal implies kent(s, k) == kent(s, q) by { lemma_kent_eqv(s, k, q); }
}
type JL<K, V, R> = spec_fn((K, V)) -> Option<R>;
type JC<K, V, W, R> = spec_fn((K, V), (K, W)) -> Option<R>;
/// the entries of a in place, those of b missing
spec fn jleft<K, V, W, R>(l: JL<K, V, R>, r: JL<K, W, R>, c: JC<K, V, W, R>, x: Option<(K, V)>, y: Option<(K, W)>) -> Option<(K, R)> { if x.is_some() { jent(l, r, c, x, y) } else { None } }
spec fn jright<K, V, W, R>(l: JL<K, V, R>, r: JL<K, W, R>, c: JC<K, V, W, R>, x: Option<(K, V)>, y: Option<(K, W)>) -> Option<(K, R)> { if y.is_some() { jent(l, r, c, x, y) } else { None } }
/// keys that compare equal are the same key (joins that walk the right operand store its copy)
#[verifier::opaque]
spec fn key_id<K: Ord>() -> bool { forall|a: K, b: K| #[trigger] oc(a, b) == Ordering::Equal ==> a == b }
proof fn lemma_key_id<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires key_id::<K>()
    ensures kent(s, k).is_some() ==> kent(s, k).unwrap().0 == k
{ reveal(key_id); lemma_kent(s, k); }
trait AbstractBTreeMap<K: Ord, V>: Sized {
    spec fn ents(&self) -> Seq<(K, V)>;
//@ fn src/btree_map.rs | trait AbstractBTreeMap | iter
//@ decl
//@ ret r
    ensures r.remaining() == refs(self.ents())
//@ endfn
//@ fn src/btree_map.rs | trait AbstractBTreeMap | get
//@ decl
//@ sigrw `get < Q >` => `get`
//@ sigrw `& Q` => `&K`
//@ sigrw `K : Ord + Borrow < Q > , Q : Ord + ? Sized` => `K: Ord`
//@ ret r
    requires ord_laws::<K>(), ksorted(self.ents())
    ensures r == (match kent(self.ents(), *key) { Some(e) => Some(&e.1), None => None })
//@ endfn
}
/// the default methods, lifted to a trait of their own (a Verus trait may not call itself in a default method); overrides are detected
trait BTreeJoins<K: Ord, V>: AbstractBTreeMap<K, V> {
//@ fn src/btree_map.rs | trait AbstractBTreeMap | outer_join
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.ents()), ksorted(that.ents()), fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(f)
    ensures join_ok(oj_l::<K, V, W, R, F>(f), oj_r::<K, V, W, R, F>(f), oj_c::<K, V, W, R, F>(f), self.ents(), that.ents(), r@)
//@ start
    let ghost (a, b) = (self.ents(), that.ents());
    let ghost (jl, jr, jc) = (oj_l::<K, V, W, R, F>(f), oj_r::<K, V, W, R, F>(f), oj_c::<K, V, W, R, F>(f));
    let ghost mut n: int = 0;
    let ghost mut n1: int = 0;
    proof { assert(a.take(0) =~= Seq::<(K, V)>::empty()); assert(b.take(0) =~= Seq::<(K, W)>::empty()); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); assert(refs(a).skip(0) =~= refs(a)); assert(refs(b).skip(0) =~= refs(b)); }
    proof { reveal(fpure1); reveal(ord_laws); lemma_eqv(a); lemma_eqv(b); }
//@ forloop 0
    invariant 0 <= n <= a.len(), vx_it0.remaining() =~= refs(a).skip(n), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), clone_ok::<K>(), fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(f),
      jl == oj_l::<K, V, W, R, F>(f), jr == oj_r::<K, V, W, R, F>(f), jc == oj_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jleft(jl, jr, jc, kent(a.take(n), k), kent(b, k))
    ensures n == a.len()
    decreases a.len() - n
//@ loopstart 0
    proof { reveal(fpure1); assert(refs(a).skip(n)[0] == refs(a)[n]); lemma_kent_take(a, n); lemma_eqv(b); }
//@ loopend 0
    proof {
        let k0 = a[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        assert forall|q: K| #[trigger] kent(res@, q) == jleft(jl, jr, jc, kent(a.take(n + 1), q), kent(b, q)) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ forloop 1
    invariant 0 <= n1 <= b.len(), vx_it1.remaining() =~= refs(b).skip(n1), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), clone_ok::<K>(), fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(f),
      jl == oj_l::<K, V, W, R, F>(f), jr == oj_r::<K, V, W, R, F>(f), jc == oj_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jent(jl, jr, jc, kent(a, k), if kent(a, k).is_some() { kent(b, k) } else { kent(b.take(n1), k) })
    ensures n1 == b.len()
    decreases b.len() - n1
//@ loopstart 1
    proof { reveal(fpure1); assert(refs(b).skip(n1)[0] == refs(b)[n1]); lemma_kent_take(b, n1); lemma_eqv(a); }
//@ loopend 1
    proof {
        let k0 = b[n1].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        assert forall|q: K| #[trigger] kent(res@, q) == jent(jl, jr, jc, kent(a, q), if kent(a, q).is_some() { kent(b, q) } else { kent(b.take(n1 + 1), q) }) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n1 = n1 + 1;
    }
//@ endfn
//@ fn src/btree_map.rs | trait AbstractBTreeMap | left_join
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.ents()), ksorted(that.ents()), fpure3::<&K, &V, Option<&W>, Option<R>, F>(f)
    ensures join_ok(lj_l::<K, V, W, R, F>(f), lj_r::<K, V, W, R, F>(f), lj_c::<K, V, W, R, F>(f), self.ents(), that.ents(), r@)
//@ start
    let ghost (a, b) = (self.ents(), that.ents());
    let ghost (jl, jr, jc) = (lj_l::<K, V, W, R, F>(f), lj_r::<K, V, W, R, F>(f), lj_c::<K, V, W, R, F>(f));
    let ghost mut n: int = 0;
    let ghost mut n1: int = 0;
    proof { assert(a.take(0) =~= Seq::<(K, V)>::empty()); assert(b.take(0) =~= Seq::<(K, W)>::empty()); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); assert(refs(a).skip(0) =~= refs(a)); assert(refs(b).skip(0) =~= refs(b)); }
    proof { reveal(fpure3); reveal(ord_laws); lemma_eqv(a); lemma_eqv(b); }
//@ forloop 0
    invariant 0 <= n <= a.len(), vx_it0.remaining() =~= refs(a).skip(n), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), clone_ok::<K>(), fpure3::<&K, &V, Option<&W>, Option<R>, F>(f),
      jl == lj_l::<K, V, W, R, F>(f), jr == lj_r::<K, V, W, R, F>(f), jc == lj_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jleft(jl, jr, jc, kent(a.take(n), k), kent(b, k))
    ensures n == a.len()
    decreases a.len() - n
//@ loopstart 0
    proof { reveal(fpure3); assert(refs(a).skip(n)[0] == refs(a)[n]); lemma_kent_take(a, n); lemma_eqv(b); }
//@ loopend 0
    proof {
        let k0 = a[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        assert forall|q: K| #[trigger] kent(res@, q) == jleft(jl, jr, jc, kent(a.take(n + 1), q), kent(b, q)) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ endfn
//@ fn src/btree_map.rs | trait AbstractBTreeMap | right_join
//@ ret r
    requires ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), ksorted(self.ents()), ksorted(that.ents()), fpure3::<&K, Option<&V>, &W, Option<R>, F>(f)
    ensures join_ok(rj_l::<K, V, W, R, F>(f), rj_r::<K, V, W, R, F>(f), rj_c::<K, V, W, R, F>(f), self.ents(), that.ents(), r@)
//@ start
    let ghost (a, b) = (self.ents(), that.ents());
    let ghost (jl, jr, jc) = (rj_l::<K, V, W, R, F>(f), rj_r::<K, V, W, R, F>(f), rj_c::<K, V, W, R, F>(f));
    let ghost mut n: int = 0;
    let ghost mut n1: int = 0;
    proof { assert(a.take(0) =~= Seq::<(K, V)>::empty()); assert(b.take(0) =~= Seq::<(K, W)>::empty()); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); assert(refs(a).skip(0) =~= refs(a)); assert(refs(b).skip(0) =~= refs(b)); }
    proof { reveal(fpure3); reveal(ord_laws); lemma_eqv(a); lemma_eqv(b); }
//@ forloop 0
    invariant 0 <= n <= b.len(), vx_it0.remaining() =~= refs(b).skip(n), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), fpure3::<&K, Option<&V>, &W, Option<R>, F>(f),
      jl == rj_l::<K, V, W, R, F>(f), jr == rj_r::<K, V, W, R, F>(f), jc == rj_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jright(jl, jr, jc, kent(a, k), kent(b.take(n), k))
    ensures n == b.len()
    decreases b.len() - n
//@ loopstart 0
    proof { reveal(fpure3); assert(refs(b).skip(n)[0] == refs(b)[n]); lemma_kent_take(b, n); lemma_eqv(a); }
//@ loopend 0
    proof {
        let k0 = b[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        lemma_key_id(a, k0); lemma_key_id(b, k0);
        assert forall|q: K| #[trigger] kent(res@, q) == jright(jl, jr, jc, kent(a, q), kent(b.take(n + 1), q)) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ endfn
//@ fn src/btree_map.rs | trait AbstractBTreeMap | inner_join
//@ ret r
    requires ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), ksorted(self.ents()), ksorted(that.ents()), fpure3::<&K, &V, &W, Option<R>, F>(f)
    ensures join_ok(ij_l::<K, V, W, R, F>(f), ij_r::<K, V, W, R, F>(f), ij_c::<K, V, W, R, F>(f), self.ents(), that.ents(), r@)
//@ start
    let ghost (a, b) = (self.ents(), that.ents());
    let ghost (jl, jr, jc) = (ij_l::<K, V, W, R, F>(f), ij_r::<K, V, W, R, F>(f), ij_c::<K, V, W, R, F>(f));
    let ghost mut n: int = 0;
    let ghost mut n1: int = 0;
    proof { assert(a.take(0) =~= Seq::<(K, V)>::empty()); assert(b.take(0) =~= Seq::<(K, W)>::empty()); assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); assert(refs(a).skip(0) =~= refs(a)); assert(refs(b).skip(0) =~= refs(b)); }
    proof { reveal(fpure3); reveal(ord_laws); lemma_eqv(a); lemma_eqv(b); }
//@ forloop 0
    invariant 0 <= n <= a.len(), vx_it0.remaining() =~= refs(a).skip(n), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), fpure3::<&K, &V, &W, Option<R>, F>(f),
      jl == ij_l::<K, V, W, R, F>(f), jr == ij_r::<K, V, W, R, F>(f), jc == ij_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jent(jl, jr, jc, kent(a.take(n), k), kent(b, k))
    ensures n == a.len()
    decreases a.len() - n
//@ loopstart 0
    proof { reveal(fpure3); assert(refs(a).skip(n)[0] == refs(a)[n]); lemma_kent_take(a, n); lemma_eqv(b); }
//@ loopend 0
    proof {
        let k0 = a[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        lemma_key_id(a, k0); lemma_key_id(b, k0);
        assert forall|q: K| #[trigger] kent(res@, q) == jent(jl, jr, jc, kent(a.take(n + 1), q), kent(b, q)) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ forloop 1
    invariant 0 <= n <= b.len(), vx_it1.remaining() =~= refs(b).skip(n), a == self.ents(), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), fpure3::<&K, &V, &W, Option<R>, F>(f),
      jl == ij_l::<K, V, W, R, F>(f), jr == ij_r::<K, V, W, R, F>(f), jc == ij_c::<K, V, W, R, F>(f),
      ksorted(res@), forall|k: K| #[trigger] kent(res@, k) == jent(jl, jr, jc, kent(a, k), kent(b.take(n), k))
    ensures n == b.len()
    decreases b.len() - n
//@ loopstart 1
    proof { reveal(fpure3); assert(refs(b).skip(n)[0] == refs(b)[n]); lemma_kent_take(b, n); lemma_eqv(a); }
//@ loopend 1
    proof {
        let k0 = b[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        lemma_key_id(a, k0); lemma_key_id(b, k0);
        assert forall|q: K| #[trigger] kent(res@, q) == jent(jl, jr, jc, kent(a, q), kent(b.take(n + 1), q)) by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ endfn
}
impl<K: Ord, V, T: AbstractBTreeMap<K, V>> BTreeJoins<K, V> for T {}
//@ forbid src/btree_map.rs AbstractBTreeMap outer_join left_join right_join inner_join
impl<K: Ord, V> AbstractBTreeMap<K, V> for BTreeMap<K, V> {
    spec fn ents(&self) -> Seq<(K, V)> { self@ }
//@ fn src/btree_map.rs | AbstractBTreeMap for BTreeMap | iter
//@ endfn
//@ fn src/btree_map.rs | AbstractBTreeMap for BTreeMap | get
//@ sigrw `get < Q >` => `get`
//@ sigrw `& Q` => `&K`
//@ sigrw `K : Ord + Borrow < Q > , Q : Ord + ? Sized` => `K: Ord`
//@ endfn
}
impl<K: Ord, V> AbstractBTreeMap<K, V> for ArchivedBTreeMap<K, V> {
    spec fn ents(&self) -> Seq<(K, V)> { self@ }
//@ fn src/btree_map.rs | AbstractBTreeMap for ArchivedBTreeMap | iter
//@ endfn
//@ fn src/btree_map.rs | AbstractBTreeMap for ArchivedBTreeMap | get
//@ sigrw `get < Q >` => `get`
//@ sigrw `& Q` => `&K`
//@ sigrw `K : Ord + Borrow < Q > , Q : Ord + ? Sized` => `K: Ord`
//@ endfn
}
//@ # ---- in place -----------------------------------------------------------------------------------------------------
spec fn wl_l<K, V, W, F: Fn(&K, &mut V, Option<&W>) -> bool>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| keep2(bmv(f, a.0, a.1, None::<&W>)) }
spec fn wl_c<K, V, W, F: Fn(&K, &mut V, Option<&W>) -> bool>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| keep2(bmv(f, a.0, a.1, Some(&b.1))) }
spec fn wi_c<K, V, W, F: Fn(&K, &mut V, &W) -> bool>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| keep2(bmv(f, a.0, a.1, &b.1)) }
spec fn wn<K, V, R>() -> spec_fn((K, V)) -> Option<R> { |a: (K, V)| None }
spec fn wo_r<K, V, W, R: Fn(&K, &W) -> Option<V>>(r: R) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| fv2(r, &b.0, &b.1) }
impl<K: Ord, V> BTreeMap<K, V> {
//@ fn src/btree_map.rs | InPlaceRelationalOps for BTreeMap | inner_join_with
//@ sigrw `K : Ord ,` => ``
    requires ord_laws::<K>(), ksorted(old(self)@), ksorted(that.ents()), bmpure::<K, V, &W, F>(f)
    ensures join_ok(wn::<K, V, V>(), wn::<K, W, V>(), wi_c::<K, V, W, F>(f), old(self)@, that.ents(), final(self)@)
//@ start
    let ghost (a, b) = (self@, that.ents());
    let ghost g = |k: K, v: V| match kent(b, k) { Some(e) => bmv(f, k, v, &e.1), None => (v, false) };
    proof { reveal(bmpure); assert(is_fn(g)); }
//@ rw `that . get ( k ) . map ( | $w | $$e ) . unwrap_or_default ( )` => `match that.get(k) { Some($w) => $e, None => false }`
//@ end
    proof {
        assert forall|q: K| #[trigger] kent(self@, q) == jent(wn::<K, V, V>(), wn::<K, W, V>(), wi_c::<K, V, W, F>(f), kent(a, q), kent(b, q)) by {
            let e = kent(a, q);
            lemma_kent(a, q);
            if e.is_some() { lemma_kent_eqv(b, e.unwrap().0, q);  }
        }
    }
//@ closure 0 |k: &K, v: &mut V| -> (vx_r: bool) ensures (*final(v), vx_r) == g(*k, *old(v))
//@ endfn
//@ fn src/btree_map.rs | InPlaceRelationalOps for BTreeMap | left_join_with
//@ sigrw `K : Ord ,` => ``
    requires ord_laws::<K>(), ksorted(old(self)@), ksorted(that.ents()), bmpure::<K, V, Option<&W>, F>(f)
    ensures join_ok(wl_l::<K, V, W, F>(f), wn::<K, W, V>(), wl_c::<K, V, W, F>(f), old(self)@, that.ents(), final(self)@)
//@ start
    let ghost (a, b) = (self@, that.ents());
    let ghost g = |k: K, v: V| bmv(f, k, v, match kent(b, k) { Some(e) => Some(&e.1), None => None });
    proof { reveal(bmpure); assert(is_fn(g)); }
//@ end
    proof {
        assert forall|q: K| #[trigger] kent(self@, q) == jent(wl_l::<K, V, W, F>(f), wn::<K, W, V>(), wl_c::<K, V, W, F>(f), kent(a, q), kent(b, q)) by {
            let e = kent(a, q);
            lemma_kent(a, q);
            if e.is_some() { lemma_kent_eqv(b, e.unwrap().0, q);  }
        }
    }
//@ closure 0 |k: &K, v: &mut V| -> (vx_r: bool) ensures (*final(v), vx_r) == g(*k, *old(v))
//@ endfn
//@ fn src/btree_map.rs | InPlaceRelationalOps for BTreeMap | outer_join_with
    requires ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), ksorted(old(self)@), ksorted(that.ents()), bmpure::<K, V, Option<&W>, L>(l), fpure2::<&K, &W, Option<V>, R>(r)
    ensures join_ok(wl_l::<K, V, W, L>(l), wo_r::<K, V, W, R>(r), wl_c::<K, V, W, L>(l), old(self)@, that.ents(), final(self)@)
//@ start
    let ghost (a, b) = (self@, that.ents());
    let ghost (jl, jr, jc) = (wl_l::<K, V, W, L>(l), wo_r::<K, V, W, R>(r), wl_c::<K, V, W, L>(l));
    let ghost g = |k: K, v: V| if kent(b, k).is_some() { (v, true) } else { bmv(l, k, v, None::<&W>) };
    let ghost mut n: int = 0;
    let ghost mut s1 = self@;
    proof { reveal(bmpure); reveal(fpure2); assert(is_fn(g)); assert(b.take(0) =~= Seq::<(K, W)>::empty()); assert(b.take(b.len() as int) =~= b); assert(refs(b).skip(0) =~= refs(b)); }
//@ forloop 0
    invariant 0 <= n <= b.len(), vx_it0.remaining() =~= refs(b).skip(n), b == that.ents(), ksorted(a), ksorted(b), ord_laws::<K>(), key_id::<K>(), clone_ok::<K>(), bmpure::<K, V, Option<&W>, L>(l), fpure2::<&K, &W, Option<V>, R>(r),
      jl == wl_l::<K, V, W, L>(l), jr == wo_r::<K, V, W, R>(r), jc == wl_c::<K, V, W, L>(l),
      ksorted(self@), forall|k: K| #[trigger] kent(self@, k) == if kent(b.take(n), k).is_some() { jent(jl, jr, jc, kent(a, k), kent(b.take(n), k)) } else { kent(a, k) }
    ensures n == b.len()
    decreases b.len() - n
//@ loopstart 0
    proof { reveal(bmpure); reveal(fpure2); assert(refs(b).skip(n)[0] == refs(b)[n]); lemma_kent_take(b, n); lemma_eqv(a); }
//@ before `self . retain ( $$f )`
        proof { s1 = self@; }
//@ loopend 0
    proof {
        let k0 = b[n].0;
        assert(oc(k0, k0) == Ordering::Equal) by { reveal(ord_laws); }
        lemma_key_id(a, k0); lemma_key_id(b, k0);
        assert forall|q: K| #[trigger] kent(self@, q) == if kent(b.take(n + 1), q).is_some() { jent(jl, jr, jc, kent(a, q), kent(b.take(n + 1), q)) } else { kent(a, q) } by { if oc(k0, q) == Ordering::Equal { lemma_kent_eqv(a, k0, q); lemma_kent_eqv(b, k0, q); } }
        n = n + 1;
    }
//@ end
    proof {
        assert forall|q: K| #[trigger] kent(self@, q) == jent(jl, jr, jc, kent(a, q), kent(b, q)) by {
            let e = kent(s1, q);
            lemma_kent(s1, q);
            if e.is_some() { lemma_kent_eqv(b, e.unwrap().0, q); lemma_key_id(s1, q); lemma_key_id(a, q); }
        }
    }
//@ closure 0 |k: &K, v: &mut V| -> (vx_r: bool) ensures (*final(v), vx_r) == g(*k, *old(v))
//@ endfn
}
