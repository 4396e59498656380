//@ include dedup.vrs
//@ include conv.vrs
//@ tag base
//@ # ---- trusted: std collections and the conversions between them ------------------------------------------
/// `slice::sort` on a Vec: a stable sort
#[verifier::external_body]
fn vx_sort<T: Ord>(v: &mut Vec<T>)
    requires ord_laws::<T>()
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] oc(final(v)@[i], final(v)@[j]) != Ordering::Greater,
      forall|x: T| #[trigger] cls(final(v)@, x, oceq()) == cls(old(v)@, x, oceq())
{ unimplemented!() }
/// `Vec::dedup`: all but the first of consecutive equal elements removed (`==` agrees with `cmp`, as Ord documents)
#[verifier::external_body]
fn vx_dedup<T: Ord>(v: &mut Vec<T>)
    requires ord_laws::<T>(), contiguous(old(v)@, oceq())
    ensures dedup_ok(old(v)@, final(v)@, Keep::First, oceq())
{ unimplemented!() }
/// `BTreeSet<T>`: its elements in iteration order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct BTreeSet<T> { p: PhantomData<T> }
impl<T> View for BTreeSet<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// `BTreeMap<K, V>`: its entries in iteration order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct BTreeMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
/// collections that `into_iter` and `collect` move through in order
trait IntoSeq<T>: Sized { spec fn sq(&self) -> Seq<T>; }
impl<T> IntoSeq<T> for BTreeSet<T> { spec fn sq(&self) -> Seq<T> { self@ } }
impl<K, V> IntoSeq<(K, V)> for BTreeMap<K, V> { spec fn sq(&self) -> Seq<(K, V)> { self@ } }
impl<A: Array> IntoSeq<A::Item> for SmallVec<A> { spec fn sq(&self) -> Seq<A::Item> { self@ } }
/// `v.into_iter().collect()` into a SmallVec
#[verifier::external_body]
fn vx_collect<T, I: IntoSeq<T>, A: Array<Item = T>>(v: I) -> (r: SmallVec<A>) ensures r@ == v.sq() { unimplemented!() }
/// `v.into_iter().map(f).collect()` into a SmallVec
#[verifier::external_body]
fn vx_map_collect<T, R, I: IntoSeq<T>, A: Array<Item = R>, F: Fn(T) -> R>(v: I, f: F) -> (r: SmallVec<A>)
    requires forall|x: T| #[trigger] f.requires((x,))
    ensures r@.len() == v.sq().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((v.sq()[i],), #[trigger] r@[i])
{ unimplemented!() }
impl<A: Array> SmallVec<A> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Seq::<A::Item>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn from_vec(v: Vec<A::Item>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<A::Item>) ensures r@ == self@ { unimplemented!() }
    /// `SmallVec::retain` (its `&mut` argument is used as `&` by the callers)
    #[verifier::external_body]
    fn retain_by<F: Fn(&A::Item) -> bool>(&mut self, f: F)
      requires forall|x: A::Item| #[trigger] f.requires((&x,)), forall|x: A::Item, a: bool, b: bool| #[trigger] f.ensures((&x,), a) && #[trigger] f.ensures((&x,), b) ==> a == b
      ensures final(self)@ == old(self)@.filter(|x: A::Item| f.ensures((&x,), true))
    { unimplemented!() }
    #[verifier::external_body]
    fn as_mut_slice(&mut self) -> (r: &mut [A::Item]) ensures r@ == old(self)@, final(r)@ == final(self)@, final(r)@.len() == r@.len() { unimplemented!() }
}
//@ # ---- stand-ins for core traits, so that contracts can be attached ---------------------------------------
trait FromIterator<T>: Sized {
    spec fn fi_req() -> bool;
    spec fn fi_ens(s: Seq<T>, r: Self) -> bool;
    fn from_iter<I: Iterator<Item = T>>(iter: I) -> (r: Self)
      requires fin(iter), Self::fi_req()
      ensures Self::fi_ens(iter.remaining(), r);
}
trait Extend<T>: Sized {
    spec fn ex_req(self) -> bool;
    spec fn ex_ens(self, s: Seq<T>, fin: Self) -> bool;
    fn extend<I: Iterator<Item = T>>(&mut self, iter: I)
      requires fin(iter), old(self).ex_req()
      ensures old(self).ex_ens(iter.remaining(), *final(self));
}
//@ # ---- set contents of a sequence ----------------------------------------------------------------------------
/// r is the set of the elements of s: ascending, the first occurrence of each class of equal elements
spec fn set_of<T: Ord>(s: Seq<T>, r: Seq<T>) -> bool {
    &&& sorted(r)
    &&& same_best(r, s, Keep::First, oceq())
    &&& forall|v: T| #[trigger] mem(r, v) == mem(s, v)
}
proof fn lemma_set_of<T: Ord>(s: Seq<T>, r: Seq<T>)
    requires sorted(r), same_best(r, s, Keep::First, oceq())
    ensures set_of(s, r)
{
    assert forall|v: T| #[trigger] mem(r, v) == mem(s, v) by { lemma_best_mem(s, v); lemma_best_mem(r, v); assert(best(r, v, Keep::First, oceq()) == best(s, v, Keep::First, oceq())); }
}
proof fn lemma_best_mem<T: Ord>(s: Seq<T>, v: T)
    ensures mem(s, v) == best(s, v, Keep::First, oceq()).is_some()
{
    lemma_best_meaning(s, v, Keep::First, oceq());
    if mem(s, v) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], v) == Ordering::Equal; assert(oceq()(s[i], v)); }
    else if best(s, v, Keep::First, oceq()).is_some() {
        let x = best(s, v, Keep::First, oceq()).unwrap();
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x;
        assert(oc(s[k], v) == Ordering::Equal);
    }
}
proof fn lemma_oceq_equiv<T: Ord>()
    requires ord_laws::<T>()
    ensures equiv(oceq::<T>())
{
    reveal(equiv);
    let e = oceq::<T>();
    assert forall|a: T| #[trigger] e(a, a) by { lemma_laws(a, a, a); }
    assert forall|a: T, b: T| #[trigger] e(a, b) == e(b, a) by { lemma_laws(a, b, a); }
    assert forall|a: T, b: T, c: T| #[trigger] e(a, b) && #[trigger] e(b, c) implies e(a, c) by { lemma_laws(a, b, c); }
}
proof fn lemma_oc_contiguous<T: Ord>(s: Seq<T>)
    requires ord_laws::<T>(), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i], s[j]) != Ordering::Greater
    ensures contiguous(s, oceq())
{
    let e = oceq::<T>();
    assert forall|i: int, j: int, k: int| 0 <= i <= j <= k < s.len() && #[trigger] e(s[i], s[k]) implies #[trigger] e(s[j], s[k]) by {
        lemma_laws(s[i], s[j], s[k]); lemma_laws(s[j], s[k], s[i]);
        if i < j { assert(oc(s[i], s[j]) != Ordering::Greater); }
        if j < k { assert(oc(s[j], s[k]) != Ordering::Greater); }
    }
}
proof fn lemma_sort_dedup<T: Ord>(s0: Seq<T>, s: Seq<T>, d: Seq<T>)
    requires ord_laws::<T>(), forall|v: T| #[trigger] cls(s, v, oceq()) == cls(s0, v, oceq()),
      forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i], s[j]) != Ordering::Greater, dedup_ok(s, d, Keep::First, oceq())
    ensures set_of(s0, d)
{
    assert forall|x: int, y: int| 0 <= x < y < d.len() implies #[trigger] oc(d[x], d[y]) == Ordering::Less by {
        assert(!oceq()(d[x], d[y]));
        let (i, k) = choose|i: int, k: int| 0 <= i < k < s.len() && #[trigger] s[i] == d[x] && #[trigger] s[k] == d[y];
        assert(oc(s[i], s[k]) != Ordering::Greater);
    }
    lemma_cls_best(s, s0, Keep::First, oceq());
    lemma_same_best_trans(d, s, s0, Keep::First, oceq());
    lemma_set_of(s0, d);
}
/// keeping the elements that satisfy a predicate
proof fn lemma_filter_set<T: Ord>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires ord_laws::<T>(), sorted(s)
    ensures sorted(s.filter(p)), forall|i: int| 0 <= i < s.filter(p).len() ==> contains(s, #[trigger] s.filter(p)[i]) && p(s.filter(p)[i]),
      forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> contains(s.filter(p), s[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_set(t, p);
        let r = s.filter(p);
        let x = s.last();
        assert forall|i: int| 0 <= i < r.len() implies contains(s, #[trigger] r[i]) && p(r[i]) by {
            if i < t.filter(p).len() { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == r[i]; assert(s[k] == r[i]); }
            else { assert(s[s.len() - 1] == r[i]); }
        }
        assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies contains(r, s[i]) by {
            if i < t.len() { assert(t[i] == s[i]); let k = choose|k: int| 0 <= k < t.filter(p).len() && #[trigger] t.filter(p)[k] == s[i]; assert(r[k] == s[i]); }
            else { assert(r[r.len() - 1] == s[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] oc(r[i], r[j]) == Ordering::Less by {
            if j < t.filter(p).len() { assert(oc(t.filter(p)[i], t.filter(p)[j]) == Ordering::Less); }
            else { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == r[i]; assert(oc(s[k], s[s.len() - 1]) == Ordering::Less); }
        }
    }
}
