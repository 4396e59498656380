use std::sync::Arc;
//@ include state_mut_el.vrs
//@ include state_bool.vrs
//@ include fpure.vrs
//@ include conv.vrs
//@ include tvops.vrs
//@ tag rx
//@ # ---- src/radix_tree: the flavour RadixTree<K, V>; key and value bounds kept, serialization bounds dropped
trait TKey: Ord + Copy {}
trait TValue: Clone {}
impl<T> SmallVec<[T; 16]> {
    #[verifier::external_body]
    fn extend_from_slice(&mut self, s: &[T]) where T: Copy ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
/// `SmallVec::from(&[T])`
#[verifier::external_body]
fn vx_from_slice<T: Clone>(s: &[T]) -> (r: SmallVec<[T; 16]>)
    requires clone_ok::<T>()
    ensures r@ == s@
{ unimplemented!() }
#[verifier::reject_recursive_types(T)]
//@ struct src/radix_tree/mod.rs Fragment
impl<T> View for Fragment<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.0@ } }
impl<T> Fragment<T> {
//@ fn src/radix_tree/mod.rs | AsRef<[T]> for Fragment | as_ref
//@ ret r
    ensures r@ == self@
//@ endfn
}
impl<T> Fragment<T> {
//@ fn src/radix_tree/mod.rs | Borrow<[T]> for Fragment | borrow
//@ name vx_borrow
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/radix_tree/mod.rs | Deref for Fragment | deref
//@ name vx_deref
//@ ret r
    ensures r@ == self@
//@ endfn
}
impl<'a, T: Clone> Fragment<T> {
//@ fn src/radix_tree/mod.rs | From<&'a [T]> for Fragment | from
//@ name from_slice
//@ ret r
    requires clone_ok::<T>()
    ensures r@ == value@
//@ rw `value . into ( )` => `vx_from_slice(value)`
//@ endfn
}
impl<T> Fragment<T> {
//@ fn src/radix_tree/mod.rs | From<SmallVec<[T; 16]>> for Fragment | from
//@ name from_small_vec
//@ ret r
    ensures r@ == value@
//@ endfn
}
//@ head src/radix_tree/mod.rs Default for Fragment
    spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() }
//@ fn src/radix_tree/mod.rs | Default for Fragment | default
//@ endfn
}
/// `<Option<V> as std::default::Default>::default`
impl<V> Default for Option<V> { spec fn is_default(&self) -> bool { *self == None::<V> } fn default() -> Self { None } }
//@ # ---- generic helpers for std operations -----------------------------------------------------------------
/// `slice.into()`
fn vx_frag<K: TKey>(s: &[K]) -> (r: Fragment<K>) requires clone_ok::<K>() ensures r@ == s@ { Fragment::from_slice(s) }
/// `Option<&V>::cloned`
fn vx_cloned<V: Clone>(o: Option<&V>) -> (r: Option<V>)
    requires clone_ok::<V>()
    ensures r == match o { Some(v) => Some(*v), None => None }
{ match o { Some(v) => Some(v.clone()), None => None } }
/// `s.iter().map(f).collect::<Vec<_>>()`
fn vx_map_vec<T, U, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), #[trigger] r@[i])
{
    let mut r = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
      invariant i <= s@.len(), r@.len() == i, forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)), forall|k: int| 0 <= k < i ==> #[trigger] f.ensures((&s@[k],), r@[k])
      decreases s@.len() - i
    {
        let ghost r0 = r@;
        let x = f(&s[i]);
        r.push(x);
        proof { assert forall|k: int| 0 <= k < i + 1 implies #[trigger] f.ensures((&s@[k],), r@[k]) by { if k < i { assert(r@[k] == r0[k]); } } }
        i += 1;
    }
    r
}
/// `s.iter().all(f)`
fn vx_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), true),
      !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), false)
{
    let mut i: usize = 0;
    while i < s.len()
      invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] s@[k],), true)
      decreases s@.len() - i
    {
        if !f(&s[i]) { proof { assert(f.ensures((&s@[i as int],), false)); } return false; }
        i += 1;
    }
    true
}
/// `s.iter().any(f)`
fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false),
      r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true)
{
    let mut i: usize = 0;
    while i < s.len()
      invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] s@[k],), false)
      decreases s@.len() - i
    {
        if f(&s[i]) { proof { assert(f.ensures((&s@[i as int],), true)); } return true; }
        i += 1;
    }
    false
}
/// `Vec::retain`
#[verifier::external_body]
fn vx_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],))
    ensures (forall|i: int, b: bool| 0 <= i < old(v)@.len() && #[trigger] f.ensures((&old(v)@[i],), b) ==> b) ==> final(v)@ == old(v)@
{ unimplemented!() }
/// `slice::sort_by_key` on a Vec
#[verifier::external_body]
fn vx_sort_by_key<T, K: Ord, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F)
    requires ord_laws::<K>(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],))
    ensures final(v)@.len() == old(v)@.len(),
      forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]),
      forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
      forall|i: int| 0 <= i < final(v)@.len() ==> f.ensures((&#[trigger] final(v)@[i],), fv1::<&T, K, F>(f, &final(v)@[i])),
      forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> oc(fv1::<&T, K, F>(f, &#[trigger] final(v)@[i]), fv1::<&T, K, F>(f, &#[trigger] final(v)@[j])) != Ordering::Greater
{ unimplemented!() }
/// `assert!`
fn vx_assert(b: bool) requires b {}
/// `a.iter().zip(b).take_while(|(a, b)| a == b).count()`
fn vx_common<T: Ord + Clone>(a: &[T], b: &[T]) -> (r: usize)
    requires key_laws::<T>()
    ensures r == cpl(a@, b@)
{
    let mut i: usize = 0;
    proof { reveal(key_laws); assert(a@.skip(0) =~= a@); assert(b@.skip(0) =~= b@); }
    while i < a.len() && i < b.len() && a[i] == b[i]
      invariant i <= a@.len(), i <= b@.len(), i + cpl(a@.skip(i as int), b@.skip(i as int)) == cpl(a@, b@), T::obeys_eq_spec(), forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a == b)
      decreases a@.len() - i
    {
        proof {
            assert(a@.skip(i as int).skip(1) =~= a@.skip(i + 1)); assert(b@.skip(i as int).skip(1) =~= b@.skip(i + 1));
            assert(a@.skip(i as int)[0] == a@[i as int]); assert(b@.skip(i as int)[0] == b@[i as int]);
        }
        i += 1;
    }
    proof {
        if i < a.len() { assert(a@.skip(i as int)[0] == a@[i as int]); }
        if i < b.len() { assert(b@.skip(i as int)[0] == b@[i as int]); }
        assert(cpl(a@.skip(i as int), b@.skip(i as int)) == 0);
    }
    i
}
//@ fn src/radix_tree/mod.rs | - | common_prefix
//@ ret r
//@ sigrw `T : Eq` => `T: Ord + Clone`
    requires key_laws::<T>()
    ensures r == cpl(a@, b@)
//@ rw `a . iter ( ) . zip ( b ) . take_while ( | ( a , b ) | a == b ) . count ( )` => `vx_common(a, b)`
//@ endfn
//@ # ---- the interface of all flavours: what a node stands for, and its accessors ------------------------------------------------
/// the views of a list of trees
/// s is a part of t (the order in which recursion over trees descends)
spec fn vx_lt<K, V>(s: TV<K, V>, t: TV<K, V>) -> bool { decreases_to!(t => s) }
spec fn vs<K, V, T: View<V = TV<K, V>>>(s: Seq<T>) -> Seq<TV<K, V>> { s.map_values(|t: T| t@) }
trait AbstractRadixTree<K: TKey, V: TValue>: Sized + View<V = TV<K, V>> {
    spec fn kids(&self) -> Seq<Self>;
    proof fn lemma_tree(&self)
        ensures self@.c == vs(self.kids()), self@.c.len() == self.kids().len(), forall|i: int| 0 <= i < self.kids().len() ==> self@.c[i] == (#[trigger] self.kids()[i])@;
    fn prefix(&self) -> (r: &[K])
        ensures r@ == self@.p;
    fn value(&self) -> (r: Option<&V>)
        ensures r == match self@.v { Some(v) => Some(&v), None => None };
    fn children(&self) -> (r: &[Self])
        ensures r@ == self.kids(), vs(r@) == self@.c;
}
/// the provided methods of the interface
trait RadixTreeOps<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | is_empty
//@ ret r
    ensures r == isnil(self@)
//@ start
    proof { self.lemma_tree(); }
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreeOps<K, V> for T {}
