#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::cmp::min;
use core::marker::PhantomData;
verus! {
//@ # ---- ordering: the lawfulness of the element type's Ord/Clone is a precondition -------------
pub open spec fn rev(o: Ordering) -> Ordering {
  match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn ordn(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

pub open spec fn oc<T: Ord>(a: T, b: T) -> Ordering { a.cmp_spec(&b) }
/// `T: Ord` is a lawful total order (up to the equivalence `cmp == Equal`; no assumption that equivalent values are identical)
#[verifier::opaque]
pub open spec fn ord_laws<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T| #[trigger] oc(a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] oc(a, b) == rev(oc(b, a))
    &&& forall|a: T, b: T, c: T| ordn(#[trigger] oc(a, b)) <= 0 && ordn(#[trigger] oc(b, c)) <= 0 ==>
            ordn(oc(a, c)) <= 0 && (oc(a, c) == Ordering::Equal ==> oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Equal)
}
/// `T: Clone` returns an equal value
pub open spec fn clone_ok<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }

pub assume_specification [ <Ordering as PartialEq>::eq ] (a: &Ordering, b: &Ordering) -> (r: bool)
  ensures r == (*a == *b);
pub assume_specification [ Ordering::reverse ] (o: Ordering) -> (r: Ordering)
  ensures r == rev(o);

pub assume_specification <'a, T, F: FnMut(&'a T) -> Ordering> [ <[T]>::binary_search_by::<F> ] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
  requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)),
    forall|i: int, j: int, ri: Ordering, rj: Ordering| 0 <= i < j < s@.len() && #[trigger] f.ensures((&s@[i],), ri) && #[trigger] f.ensures((&s@[j],), rj) ==> ordn(ri) <= ordn(rj)
  ensures match r {
    Ok(i) => i < s@.len() && f.ensures((&s@[i as int],), Ordering::Equal),
    Err(i) => i <= s@.len() && (forall|j: int| #![trigger s@[j]] 0 <= j < i ==> f.ensures((&s@[j],), Ordering::Less))
        && (forall|j: int| #![trigger s@[j]] i <= j < s@.len() ==> f.ensures((&s@[j],), Ordering::Greater))
  };

pub open spec fn sorted<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i], s[j]) == Ordering::Less }
pub open spec fn mem<T: Ord>(s: Seq<T>, v: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], v) == Ordering::Equal }

pub assume_specification <T: Ord> [ <[T]>::binary_search ] (s: &[T], x: &T) -> (r: Result<usize, usize>)
  requires ord_laws::<T>(), sorted(s@)
  ensures match r {
    Ok(i) => i < s@.len() && oc(s@[i as int], *x) == Ordering::Equal,
    Err(i) => i <= s@.len() && (forall|j: int| 0 <= j < i ==> #[trigger] oc(s@[j], *x) == Ordering::Less)
        && (forall|j: int| i <= j < s@.len() ==> #[trigger] oc(s@[j], *x) == Ordering::Greater)
  };

//@ # ---- smallvec: trusted shims -----------------------------------------------------------------
trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }

#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
struct SmallVec<A: Array> { p: PhantomData<A> }
impl<A: Array> View for SmallVec<A> { type V = Seq<A::Item>; uninterp spec fn view(&self) -> Seq<A::Item>; }
impl<A: Array> SmallVec<A> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<A::Item>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<A::Item>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, v: A::Item) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[A::Item]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[A::Item]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, i: usize, v: A::Item) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, i: usize) -> (r: A::Item) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int), r == old(self)@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn truncate(&mut self, n: usize) ensures final(self)@ == if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, i: usize, v: A::Item) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
    /// `std::mem::swap(x, &mut self[i])`
    #[verifier::external_body]
    fn swap_at(&mut self, x: &mut A::Item, i: usize) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, *old(x)), *final(x) == old(self)@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn into_iter(self) -> (r: IntoIter<A>) ensures r@ == self@ { unimplemented!() }
}
impl<A: Array> Clone for SmallVec<A> where A::Item: Clone {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures clone_ok::<A::Item>() ==> r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
struct IntoIter<A: Array> { p: PhantomData<A> }
impl<A: Array> View for IntoIter<A> { type V = Seq<A::Item>; uninterp spec fn view(&self) -> Seq<A::Item>; }
impl<A: Array> IntoIter<A> {
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[A::Item]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<A::Item>) ensures
       old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
       old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
/// `smallvec::smallvec![x]`
#[verifier::external_body]
fn smallvec1<A: Array>(x: A::Item) -> (r: SmallVec<A>) ensures r@ == seq![x] { unimplemented!() }
mod smallvec { pub(crate) use super::IntoIter; pub(crate) use super::SmallVec; pub(crate) use super::Array; }
