//@ include builder_spec.vrs
//@ subst GEN A: Array
//@ subst ARG A
//@ subst ITEM A::Item
//@ subst COLL SmallVec<A>
//@ subst BLD InPlaceSmallVecBuilder
//@ include builder_decl.vrs
//@ unsubst GEN ARG ITEM COLL BLD
/// `(&mut b).map(C::convert)` over an owned collection's iterator
#[verifier::reject_recursive_types(B)]
struct VxMapInto<'x, B: Array, T, C> { it: &'x mut IntoIter<B>, c: PhantomData<(T, C)> }
impl<'x, B: Array, T, C: Converter<B::Item, T>> VxMapInto<'x, B, T, C> {
    fn new(it: &'x mut IntoIter<B>) -> (r: Self) ensures r.src() == old(it)@, r.after() == final(it)@ { VxMapInto { it, c: PhantomData } }
}
impl<'x, B: Array, T, C: Converter<B::Item, T>> VxIter for VxMapInto<'x, B, T, C> {
    type Item = T;
    type Src = B::Item;
    spec fn src(&self) -> Seq<B::Item> { self.it@ }
    spec fn okk(s: B::Item) -> bool { C::conv_ok() }
    spec fn rel(s: B::Item, i: T) -> bool { i == C::conv(s) }
    #[verifier::prophetic]
    spec fn after(&self) -> Seq<B::Item> { final(self.it)@ }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { Some(x) => Some(C::convert(x)), None => None } }
    fn vx_drop(self) { }
}
/// `(&mut b).map(C::convert)` over a borrowed slice
#[verifier::reject_recursive_types(B)]
struct VxMapRef<'x, 'b, B, T, C> { it: &'x mut SliceIterator<'b, B>, c: PhantomData<(T, C)> }
impl<'x, 'b, B, T, C: Converter<&'b B, T>> VxMapRef<'x, 'b, B, T, C> {
    fn new(it: &'x mut SliceIterator<'b, B>) -> (r: Self) ensures r.src() == old(it)@, r.after() == final(it)@ { VxMapRef { it, c: PhantomData } }
}
impl<'x, 'b, B, T, C: Converter<&'b B, T>> VxIter for VxMapRef<'x, 'b, B, T, C> {
    type Item = T;
    type Src = B;
    spec fn src(&self) -> Seq<B> { self.it@ }
    spec fn okk(s: B) -> bool { C::conv_ok() }
    spec fn rel(s: B, i: T) -> bool { i == C::conv(&s) }
    #[verifier::prophetic]
    spec fn after(&self) -> Seq<B> { final(self.it)@ }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { Some(x) => Some(C::convert(x)), None => None } }
    fn vx_drop(self) { }
}
/// stands for std's AsRef<[B]>
trait AsSlice<B> {
    spec fn sl(&self) -> Seq<B>;
    fn as_ref(&self) -> (r: &[B]) ensures r@ == self.sl();
}
impl<A: Array> AsSlice<A::Item> for SmallVec<A> {
    spec fn sl(&self) -> Seq<A::Item> { self@ }
    fn as_ref(&self) -> (r: &[A::Item]) { self.as_slice() }
}
impl<'x, B> AsSlice<B> for &'x [B] {
    spec fn sl(&self) -> Seq<B> { (*self)@ }
    fn as_ref(&self) -> (r: &[B]) { self }
}
impl<B> AsSlice<B> for Vec<B> {
    spec fn sl(&self) -> Seq<B> { self@ }
    fn as_ref(&self) -> (r: &[B]) { self.as_slice() }
}
