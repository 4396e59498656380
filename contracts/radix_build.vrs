//@ include radix_iter.vrs
//@ tag rxb
use vstd::std_specs::iter::*;
//@ # ---- bulk construction -------------------------------------------------------------------------------------------
/// a finite iterator (it may yield any number of entries)
#[verifier::prophetic]
spec fn fini<I: Iterator>(i: I) -> bool { i.obeys_prophetic_iter_laws() && i.will_return_none() && i.decrease().is_some() }
/// `core::convert::AsRef` stand-in: a key type whose elements can be looked at
trait AsRef<T: ?Sized> {
    spec fn ar(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.ar();
}
/// the value given last for key k
spec fn lastv<E, K: AsRef<[E]>, V>(s: Seq<(K, V)>, k: Seq<E>) -> Option<V>
    decreases s.len()
{
    if s.len() == 0 { None } else if s.last().0.ar()@ == k { Some(s.last().1) } else { lastv(s.drop_last(), k) }
}
spec fn last_map<E, K: AsRef<[E]>, V>(s: Seq<(K, V)>) -> spec_fn(Seq<E>) -> Option<V> { |k: Seq<E>| lastv(s, k) }
/// what `lastv` means, position by position
proof fn lemma_lastv<E, K: AsRef<[E]>, V>(s: Seq<(K, V)>, k: Seq<E>)
    ensures match lastv(s, k) {
        None => forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].0.ar()@ != k,
        Some(v) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0.ar()@ == k && s[i].1 == v && forall|j: int| i < j < s.len() ==> #[trigger] s[j].0.ar()@ != k,
    }
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_lastv(t, k);
        if s.last().0.ar()@ == k { assert(s[s.len() - 1].0.ar()@ == k); }
        else if lastv(t, k).is_some() {
            let v = lastv(t, k).unwrap();
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].0.ar()@ == k && t[i].1 == v && forall|j: int| i < j < t.len() ==> #[trigger] t[j].0.ar()@ != k;
            assert(s[i].0.ar()@ == k);
            assert forall|j: int| i < j < s.len() implies #[trigger] s[j].0.ar()@ != k by { if j < t.len() { assert(t[j].0.ar()@ != k); } }
        } else {
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].0.ar()@ != k by { if i < t.len() { assert(t[i].0.ar()@ != k); } }
        }
    }
}
proof fn lemma_last_push<E: Ord, K: AsRef<[E]>, V>(a: TV<E, V>, b: TV<E, V>, s: Seq<(K, V)>, x: (K, V))
    requires lk(a, last_map(s)), lk(b, s_insert(a, x.0.ar()@, x.1))
    ensures lk(b, last_map(s.push(x)))
{
    assert(s.push(x).drop_last() =~= s);
    let (p, q) = (s_insert(a, x.0.ar()@, x.1), last_map::<E, K, V>(s.push(x)));
    let l = last_map::<E, K, V>(s);
    assert forall|k: Seq<E>| #[trigger] p(k) == q(k) by { assert(tget(a, k) == l(k)); }
    lemma_lk_ext(p, q);
}
trait FromIterator<A>: Sized {
    spec fn fi_req() -> bool;
    spec fn fi_ens(s: Seq<A>, r: Self) -> bool;
    fn from_iter<T: Iterator<Item = A>>(iter: T) -> (r: Self)
      requires fini(iter), Self::fi_req()
      ensures Self::fi_ens(iter.remaining(), r);
}
//@ head src/radix_tree/flat_radix_tree.rs FromIterator for RadixTree
    spec fn fi_req() -> bool { kv_ok::<E, V>() }
    spec fn fi_ens(s: Seq<(K, V)>, r: Self) -> bool { lk(r@, last_map(s)) }
//@ fn src/radix_tree/flat_radix_tree.rs | FromIterator for RadixTree | from_iter
//@ sigrw `IntoIterator` => `Iterator`
//@ rw `iter . into_iter ( )` => `iter`
//@ rw `RadixTree :: default ( )` => `<RadixTree<E, V> as Default>::default()`
//@ start
    let ghost s = iter.remaining();
    let ghost mut n: int = 0;
    proof {
        assert(s.skip(0) =~= s); assert(s.take(0) =~= Seq::<(K, V)>::empty());
        let (p, q) = (|k: Seq<E>| None::<V>, last_map::<E, K, V>(s.take(0)));
        assert(p =~= q);
    }
//@ forloop 0
    invariant_except_break vx_it0.obeys_prophetic_iter_laws(), vx_it0.will_return_none(), vx_it0.decrease().is_some(), vx_it0.remaining() =~= s.skip(n)
    invariant 0 <= n <= s.len(), kv_ok::<E, V>(), lk(res@, last_map(s.take(n)))
    ensures n == s.len()
    decreases vx_it0.decrease()->0
//@ loopstart 0
    let ghost r0 = res@;
    proof { assert(s.skip(n)[0] == s[n]); }
//@ loopend 0
    proof {
        lemma_last_push(r0, res@, s.take(n), s[n]);
        assert(s.take(n + 1) =~= s.take(n).push(s[n]));
        assert(s.skip(n).skip(1) =~= s.skip(n + 1));
        n = n + 1;
    }
//@ end
    proof { assert(s.take(s.len() as int) =~= s); }
//@ endfn
}
//@ tag rx
/// canonical trees are equal exactly when they hold the same mapping, however they were built
proof fn theorem_equal_iff_same_mapping<K: TKey, V>(a: RadixTree<K, V>, b: RadixTree<K, V>)
    requires key_laws::<K>(), wf(a@), wf(b@)
    ensures a@ == b@ <==> forall|k: Seq<K>| #[trigger] tget(a@, k) == tget(b@, k)
{
    if forall|k: Seq<K>| #[trigger] tget(a@, k) == tget(b@, k) { lemma_unique(a@, b@); }
}
