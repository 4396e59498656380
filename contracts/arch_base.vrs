//@ tag ar
//@ # ---- rkyv and bytecheck: contracts of their traits and containers (trusted stand-ins) ---------------------------------------------
/// an archived vector: its target is a slice inside the archive once it has been checked (`backed`)
#[verifier::accept_recursive_types(T)]
struct ArchivedVec<T> { v: Vec<T> }
impl<T> View for ArchivedVec<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
/// the relative pointer is known to lead to `len` aligned elements inside the archive: looking at them is only allowed then
uninterp spec fn backed<T>(v: &ArchivedVec<T>) -> bool;
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for ArchivedVec<T> { closed spec fn index_req(&self, i: &usize) -> bool { backed(self) && *i < self@.len() } }
impl<T> core::ops::Index<usize> for ArchivedVec<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() }
}
struct VecResolver { p: usize }
trait Fallible { type Error; }
trait Serializer: Fallible {}
trait ScratchSpace {}
impl<T> ArchivedVec<T> {
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: AIter<&'a T>) requires backed(self) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[T]) requires backed(self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[T]) requires backed(self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// every element restored in order
    #[verifier::external_body]
    fn deserialize<U, D: Fallible>(&self, d: &mut D) -> (r: Result<Vec<U>, D::Error>)
        ensures r matches Ok(v) ==> restored(self@, v@)
    { unimplemented!() }
    /// the elements and their targets written to the archive
    #[verifier::external_body]
    fn serialize_from_slice<X, S: Fallible>(s: &[X], serializer: &mut S) -> (r: Result<VecResolver, S::Error>)
        ensures r matches Ok(x) ==> vec_wrote(s@, x)
    { unimplemented!() }
    #[verifier::external_body]
    fn resolve_from_slice<X>(s: &[X], pos: usize, resolver: VecResolver, out: &mut ArchivedVec<T>)
        requires vec_wrote(s@, resolver), posof(old(out)) == pos
        ensures archived(s@, final(out)@), posof(final(out)) == posof(old(out))
    { unimplemented!() }
}
/// a is an archived form of x (as the element type's own `Serialize` and `resolve` make it)
uninterp spec fn arch<X, U>(x: X, a: U) -> bool;
/// the archived value restores to x (by the element type's own `Deserialize`)
uninterp spec fn rest<U, X>(a: U, x: X) -> bool;
#[verifier::external_body]
proof fn axiom_arch_pair<K, V, X, Y>(e: (K, V), a: (X, Y)) ensures arch(e, a) == (arch(e.0, a.0) && arch(e.1, a.1)), rest(a, e) == (rest(a.0, e.0) && rest(a.1, e.1)) {}
spec fn archived<X, T>(s: Seq<X>, a: Seq<T>) -> bool { s.len() == a.len() && forall|i: int| 0 <= i < s.len() ==> arch(#[trigger] s[i], #[trigger] a[i]) }
spec fn restored<T, U>(a: Seq<T>, s: Seq<U>) -> bool { s.len() == a.len() && forall|i: int| 0 <= i < s.len() ==> rest(#[trigger] a[i], s[i]) }
/// the resolver describes where the elements were written
uninterp spec fn vec_wrote<X>(s: Seq<X>, r: VecResolver) -> bool;
/// the position in the archive of the place a value is built in
uninterp spec fn posof<X>(x: &X) -> int;
trait Archive: Sized {
    type Archived;
    type Resolver;
    spec fn archived_as(&self, a: &Self::Archived) -> bool;
    spec fn wrote(&self, r: Self::Resolver) -> bool;
    spec fn placed(out: &Self::Archived) -> bool;
    fn resolve(&self, pos: usize, resolver: Self::Resolver, out: &mut Self::Archived)
        requires self.wrote(resolver), posof(old(out)) == pos, Self::placed(old(out))
        ensures self.archived_as(final(out));
}
trait Serialize<S: Fallible>: Archive {
    spec fn sreq() -> bool;
    fn serialize(&self, serializer: &mut S) -> (r: Result<Self::Resolver, S::Error>)
        requires Self::sreq()
        ensures r matches Ok(x) ==> self.wrote(x);
}
trait Deserialize<T, D: Fallible>: Sized {
    spec fn dreq() -> bool;
    spec fn gives(&self, t: T) -> bool;
    fn deserialize(&self, deserializer: &mut D) -> (r: Result<T, D::Error>)
        requires Self::dreq()
        ensures r matches Ok(t) ==> self.gives(t);
}
trait CheckBytes<C>: Sized {
    type Error;
    spec fn creq() -> bool;
    /// the bytes are a valid value, as far as the type and everything it refers to go
    spec fn checked(&self) -> bool;
    fn check_bytes<'a>(value: &'a Self, context: &mut C) -> (r: Result<&'a Self, Self::Error>)
        requires Self::creq()
        ensures match r { Ok(v) => *v == *value && value.checked(), Err(_) => !value.checked() };
}
spec fn all_checked<C, T: CheckBytes<C>>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).checked() }
impl<C, T: CheckBytes<C>> CheckBytes<C> for ArchivedVec<T> {
    type Error = usize;
    spec fn creq() -> bool { T::creq() }
    spec fn checked(&self) -> bool { backed(self) && all_checked::<C, T>(self@) }
    #[verifier::external_body]
    fn check_bytes<'a>(value: &'a Self, context: &mut C) -> Result<&'a Self, usize> { unimplemented!() }
}
impl<C, X: CheckBytes<C>, Y: CheckBytes<C>> CheckBytes<C> for (X, Y) {
    type Error = usize;
    spec fn creq() -> bool { X::creq() && Y::creq() }
    spec fn checked(&self) -> bool { self.0.checked() && self.1.checked() }
    #[verifier::external_body]
    fn check_bytes<'a>(value: &'a Self, context: &mut C) -> Result<&'a Self, usize> { unimplemented!() }
}
impl<C, X: CheckBytes<C>> CheckBytes<C> for Option<X> {
    type Error = usize;
    spec fn creq() -> bool { X::creq() }
    spec fn checked(&self) -> bool { match self { Some(x) => x.checked(), None => true } }
    #[verifier::external_body]
    fn check_bytes<'a>(value: &'a Self, context: &mut C) -> Result<&'a Self, usize> { unimplemented!() }
}
mod rkyv {
    pub(crate) use super::{Archive, Serialize, Deserialize, Fallible};
    pub(crate) mod vec { pub(crate) use super::super::{ArchivedVec, VecResolver}; }
}
mod bytecheck { pub(crate) use super::CheckBytes; }
//@ # ---- iterators over archived slices ----------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
struct AIter<X> { p: PhantomData<X> }
impl<X> View for AIter<X> { type V = Seq<X>; uninterp spec fn view(&self) -> Seq<X>; }
impl<X> AIter<X> {
    #[verifier::external_body]
    fn skip(self, n: usize) -> (r: AIter<X>) ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: AIter<X>) ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ } { unimplemented!() }
    #[verifier::external_body]
    fn zip<Y>(self, o: AIter<Y>) -> (r: AIter<(X, Y)>) ensures r@.len() == if self@.len() <= o@.len() { self@.len() } else { o@.len() }, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o@[i]) { unimplemented!() }
    #[verifier::external_body]
    fn all<F: Fn(X) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
          !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
}
//@ # ---- comparing with `<` ------------------------------------------------------------------------------------------------------------
/// `T: Ord` is lawful and its `PartialOrd` agrees with it
#[verifier::opaque]
spec fn po_ok<T: Ord>() -> bool { &&& T::obeys_partial_cmp_spec() &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(oc(a, b)) }
proof fn lemma_po<T: Ord>(a: T, b: T) requires po_ok::<T>() ensures a.partial_cmp_spec(&b) == Some(oc(a, b)) { reveal(po_ok); }
/// neighbours nascending
spec fn nb<T: Ord>(s: Seq<T>, i: int) -> bool { oc(s[i], s[i + 1]) == Ordering::Less }
spec fn nascending<T: Ord>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] nb(s, i) }
proof fn lemma_nascending<T: Ord>(s: Seq<T>)
    requires ord_laws::<T>()
    ensures nascending(s) ==> sorted(s)
{
    if nascending(s) {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] oc(s[i], s[j]) == Ordering::Less by { lemma_ascending_pair(s, i, j); }
    }
}
proof fn lemma_ascending_pair<T: Ord>(s: Seq<T>, i: int, j: int)
    requires ord_laws::<T>(), nascending(s), 0 <= i < j < s.len()
    ensures oc(s[i], s[j]) == Ordering::Less
    decreases j - i
{
    assert(nb(s, i));
    if i + 1 < j { lemma_ascending_pair(s, i + 1, j); lemma_laws(s[i], s[i + 1], s[j]); }
}
/// what each element type's own rkyv implementations have to provide: restoring an archived form gives the value back
#[verifier::opaque]
spec fn el_roundtrips<T, U>() -> bool { forall|t: T, a: U, y: T| #[trigger] arch(t, a) && #[trigger] rest(a, y) ==> y == t }
proof fn lemma_restored<T, U>(s: Seq<T>, a: Seq<U>, y: Seq<T>)
    requires el_roundtrips::<T, U>(), archived(s, a), restored(a, y)
    ensures y =~= s
{ reveal(el_roundtrips); assert forall|i: int| 0 <= i < s.len() implies y[i] == s[i] by { assert(arch(s[i], a[i]) && rest(a[i], y[i])); } }
/// the archived forms compare like the values
#[verifier::opaque]
spec fn el_order<T: Ord, U: Ord>() -> bool { forall|t: T, a: U, u: T, b: U| #[trigger] arch(t, a) && #[trigger] arch(u, b) ==> oc(a, b) == oc(t, u) }
proof fn lemma_order_kept<T: Ord, U: Ord>(s: Seq<T>, a: Seq<U>)
    requires el_order::<T, U>(), archived(s, a)
    ensures sorted(s) == sorted(a)
{
    reveal(el_order);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies oc(a[i], a[j]) == oc(s[i], s[j]) by { assert(arch(s[i], a[i]) && arch(s[j], a[j])); }
    if sorted(s) { assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] oc(a[i], a[j]) == Ordering::Less by { assert(oc(s[i], s[j]) == Ordering::Less); } }
    if sorted(a) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] oc(s[i], s[j]) == Ordering::Less by { assert(oc(a[i], a[j]) == Ordering::Less); } }
}
