//@ include radix_base.vrs
//@ # ---- conversions between the flavours ---------------------------------------------------------------------------
//@ include radix_flat.vrs
//@ subst RadixTree ArcRadixTree
//@ subst rview rview_arc
//@ subst lemma_view lemma_view_arc
//@ subst vx_make_mut_children vx_make_mut_children_arc
//@ include radix_arc.vrs
//@ unsubst
//@ subst RadixTree LazyRadixTree
//@ subst rview rview_lazy
//@ subst lemma_view lemma_view_lazy
//@ subst vx_make_mut_children vx_make_mut_children_lazy
//@ include radix_lazy.vrs
//@ unsubst
//@ tag cv
/// `s.into_iter().map(f).collect::<Vec<_>>()` on a Vec
fn vx_map_into<T, U, F: Fn(T) -> U>(s: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((s@[i],))
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((s@[i],), #[trigger] r@[i])
{
    let ghost s0 = s@;
    let mut s = s;
    let mut r: Vec<U> = Vec::new();
    while s.len() > 0
      invariant r@.len() + s@.len() == s0.len(), s@ == s0.skip(r@.len() as int), forall|i: int| 0 <= i < s0.len() ==> #[trigger] f.requires((s0[i],)), forall|k: int| 0 <= k < r@.len() ==> #[trigger] f.ensures((s0[k],), r@[k])
      decreases s@.len()
    {
        let ghost r0 = r@;
        proof { assert(s0.skip(r@.len() as int)[0] == s0[r@.len() as int]); }
        let x = s.remove(0);
        r.push(f(x));
        proof {
            assert(s@ =~= s0.skip(r@.len() as int));
            assert forall|k: int| 0 <= k < r@.len() implies #[trigger] f.ensures((s0[k],), r@[k]) by { if k < r0.len() { assert(r@[k] == r0[k]); } }
        }
    }
    r
}
//@ # ---- from the plain flavour; the recursive call is checked against the function's own contract, on a child -----------------
/// lists that stand for the children of a node hold smaller trees
proof fn lemma_below<K, V, T: View<V = TV<K, V>>>(t: TV<K, V>)
    ensures forall|s: Seq<T>, i: int| vs(s) == t.c && 0 <= i < s.len() ==> vx_lt((#[trigger] s[i])@, t)
{
    assert forall|s: Seq<T>, i: int| vs(s) == t.c && 0 <= i < s.len() implies vx_lt((#[trigger] s[i])@, t) by { assert(vs(s)[i] == s[i]@); assert(decreases_to!(t => t.c)); assert(decreases_to!(t.c => t.c[i])); }
}
//@ tag cv.arc
#[verifier::external_body]
fn arc_from_rec<K: TKey, V: TValue>(value: RadixTree<K, V>, Ghost(vx_top): Ghost<TV<K, V>>) -> (r: ArcRadixTree<K, V>) requires vx_lt(value@, vx_top) ensures r@ == value@ { unimplemented!() }
//@ head src/radix_tree/arc_radix_tree.rs From<RadixTree<K, V>> for ArcRadixTree
    spec fn from_req(v: RadixTree<K, V>) -> bool { true }
    spec fn from_ens(v: RadixTree<K, V>, r: Self) -> bool { r@ == v@ }
//@ fn src/radix_tree/arc_radix_tree.rs | From<RadixTree<K, V>> for ArcRadixTree | from
//@ rw `children . into_iter ( ) . map ( Self :: from ) . collect :: < Vec < _ > > ( )` => `vx_map_into(children, |vx_t: RadixTree<K, V>| -> (vx_u: Self) requires vx_lt(vx_t@, t0@) ensures vx_u@ == vx_t@ { arc_from_rec(vx_t, Ghost(t0@)) })`
//@ start
    let ghost t0 = value;
    proof { lemma_view(t0); lemma_below::<K, V, RadixTree<K, V>>(t0@); }
//@ end
    proof { lemma_view_arc(vx_r); assert(vx_r@.c =~= t0@.c); }
//@ endfn
}
//@ tag cv.lazy
#[verifier::external_body]
fn lazy_from_rec<K: TKey, V: TValue>(value: RadixTree<K, V>, Ghost(vx_top): Ghost<TV<K, V>>) -> (r: LazyRadixTree<K, V>) requires vx_lt(value@, vx_top) ensures r@ == value@ { unimplemented!() }
//@ head src/radix_tree/lazy_radix_tree.rs From<RadixTree<K, V>> for LazyRadixTree
//@ rw `< 'static , K , V >` => `<K, V>`
    spec fn from_req(v: RadixTree<K, V>) -> bool { true }
    spec fn from_ens(v: RadixTree<K, V>, r: Self) -> bool { r@ == v@ }
//@ fn src/radix_tree/lazy_radix_tree.rs | From<RadixTree<K, V>> for LazyRadixTree | from
//@ rw `children . into_iter ( ) . map ( Self :: from ) . collect :: < Vec < _ > > ( )` => `vx_map_into(children, |vx_t: RadixTree<K, V>| -> (vx_u: Self) requires vx_lt(vx_t@, t0@) ensures vx_u@ == vx_t@ { lazy_from_rec(vx_t, Ghost(t0@)) })`
//@ rw `Lazy :: initialized ( $$x )` => `$x`
//@ start
    let ghost t0 = value;
    proof { lemma_view(t0); lemma_below::<K, V, RadixTree<K, V>>(t0@); }
//@ end
    proof { lemma_view_lazy(vx_r); assert(vx_r@.c =~= t0@.c); }
//@ endfn
}
//@ include arch_base.vrs
//@ subst rview rview_ar
//@ subst lemma_view lemma_view_ar
//@ subst axiom_only_checked_tree axiom_only_checked_tree_ar
//@ include arch_flat.vrs
//@ unsubst
//@ subst rview rview_aa
//@ subst lemma_view lemma_view_aa
//@ subst axiom_only_checked_tree axiom_only_checked_tree_aa
//@ include arch_arc.vrs
//@ unsubst
//@ subst rview rview_al
//@ subst lemma_view lemma_view_al
//@ subst axiom_only_checked_tree axiom_only_checked_tree_al
//@ include arch_lazy.vrs
//@ unsubst
//@ tag cv.arch
#[verifier::external_body]
fn arc_from_archived_rec<K: TKey, V: TValue>(value: &ArchivedArcRadixTree<K, V>, Ghost(vx_top): Ghost<TV<K, V>>) -> (r: ArcRadixTree<K, V>) requires vx_lt(value@, vx_top), clone_ok::<K>(), clone_ok::<V>() ensures r@ == value@ { unimplemented!() }
//@ head src/radix_tree/arc_radix_tree.rs From<&ArchivedArcRadixTree<K, V>> for ArcRadixTree
//@ rw `V : TValue + Archive < Archived = V >` => `V: TValue`
    spec fn from_req(v: &ArchivedArcRadixTree<K, V>) -> bool { clone_ok::<K>() && clone_ok::<V>() }
    spec fn from_ens(v: &ArchivedArcRadixTree<K, V>, r: Self) -> bool { r@ == v@ }
//@ fn src/radix_tree/arc_radix_tree.rs | From<&ArchivedArcRadixTree<K, V>> for ArcRadixTree | from
//@ rw `value . children ( ) . iter ( ) . map ( Self :: from ) . collect :: < Vec < _ > > ( )` => `vx_map_vec(value.children(), |vx_t: &ArchivedArcRadixTree<K, V>| -> (vx_u: Self) requires vx_lt(vx_t@, value@), clone_ok::<K>(), clone_ok::<V>() ensures vx_u@ == vx_t@ { arc_from_archived_rec(vx_t, Ghost(value@)) })`
//@ rw `value . prefix ( ) . into ( )` => `vx_frag(value.prefix())`
//@ rw `value . value ( ) . cloned ( )` => `vx_cloned(value.value())`
//@ start
    proof { lemma_view_aa(*value); lemma_below::<K, V, ArchivedArcRadixTree<K, V>>(value@); }
//@ end
    proof { lemma_view_arc(vx_r); assert(vx_r@.c =~= value@.c); }
//@ endfn
}
#[verifier::external_body]
fn lazy_from_archived_rec<K: TKey, V: TValue>(value: &ArchivedLazyRadixTree<K, V>, Ghost(vx_top): Ghost<TV<K, V>>) -> (r: LazyRadixTree<K, V>) requires vx_lt(value@, vx_top), clone_ok::<K>(), clone_ok::<V>() ensures r@ == value@ { unimplemented!() }
//@ head src/radix_tree/lazy_radix_tree.rs From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree
//@ rw `K : TKey + Archive < Archived = K >` => `K: TKey`
//@ rw `V : TValue + Archive < Archived = V >` => `V: TValue`
//@ rw `LazyRadixTree < 'a , K , V >` => `LazyRadixTree<K, V>`
    spec fn from_req(v: &'a ArchivedLazyRadixTree<K, V>) -> bool { clone_ok::<K>() && clone_ok::<V>() }
    spec fn from_ens(v: &'a ArchivedLazyRadixTree<K, V>, r: Self) -> bool { r@ == v@ }
//@ fn src/radix_tree/lazy_radix_tree.rs | From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree | from
//@ rw `value . children ( ) . iter ( ) . map ( Self :: from ) . collect :: < Vec < _ > > ( )` => `vx_map_vec(value.children(), |vx_t: &ArchivedLazyRadixTree<K, V>| -> (vx_u: Self) requires vx_lt(vx_t@, value@), clone_ok::<K>(), clone_ok::<V>() ensures vx_u@ == vx_t@ { lazy_from_archived_rec(vx_t, Ghost(value@)) })`
//@ rw `Lazy :: initialized ( $$x )` => `$x`
//@ rw `value . prefix ( ) . into ( )` => `vx_frag(value.prefix())`
//@ rw `value . value ( ) . cloned ( )` => `vx_cloned(value.value())`
//@ start
    proof { lemma_view_al(*value); lemma_below::<K, V, ArchivedLazyRadixTree<K, V>>(value@); }
//@ end
    proof { lemma_view_lazy(vx_r); assert(vx_r@.c =~= value@.c); }
//@ endfn
}
/// a slice iterator, collected right after `map`
struct VxSlice<'a, T> { s: &'a [T] }
impl<'a, T> VxSlice<'a, T> {
    fn map<U, F: Fn(&T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.s@.len() ==> #[trigger] f.requires((&self.s@[i],))
        ensures r@.len() == self.s@.len(), forall|i: int| 0 <= i < self.s@.len() ==> f.ensures((&self.s@[i],), #[trigger] r@[i])
    { vx_map_vec(self.s, f) }
}
/// the children of a lazily loaded node, on first access: a `Lazy` that is not yet initialised stands for what this function makes of its slice
#[verifier::external_body]
fn materialize_rec<K: TKey, V: TValue>(children: &[ArchivedLazyRadixTree<K, V>]) -> (r: Arc<Vec<LazyRadixTree<K, V>>>) requires clone_ok::<K>(), clone_ok::<V>() ensures vs(r@) == vs(children@) { unimplemented!() }
//@ fn src/radix_tree/lazy_radix_tree.rs | - | materialize_shallow
//@ ret r
    requires clone_ok::<K>(), clone_ok::<V>()
    ensures vs(r@) == vs(children@)
//@ rw `children . iter ( )` => `VxSlice { s: children }`
//@ rw `. collect ( )` => ``
//@ closure 0 |child: &ArchivedLazyRadixTree<K, V>| -> (vx_u: LazyRadixTree<K, V>) requires clone_ok::<K>(), clone_ok::<V>() ensures vx_u.prefix@ == child.prefix@, vx_u.value == child.value, vs(vx_u.children@) == vs(child.children@)
//@ rw `child . prefix . as_ref ( ) . into ( )` => `{ proof { axiom_only_checked_tree_al(child); lemma_view_al(*child); } vx_frag(child.prefix.as_slice()) }`
//@ rw `child . value . as_ref ( ) . cloned ( )` => `vx_cloned(child.value.as_ref())`
//@ rw `Lazy :: uninitialized ( child . children . as_ref ( ) )` => `materialize_rec(child.children.as_slice())`
//@ end
    proof {
        assert forall|i: int| 0 <= i < vx_r@.len() implies (#[trigger] vx_r@[i])@ == children@[i]@ by { lemma_view_lazy(vx_r@[i]); lemma_view_al(children@[i]); }
        assert(vs(vx_r@) =~= vs(children@));
    }
//@ endfn
//@ tag cv.lazy
//@ struct src/radix_tree/lazy_radix_tree.rs Either
impl<A: Copy, B> Either<A, B> {
//@ fn src/radix_tree/lazy_radix_tree.rs | Either | a_to_b
    requires match *old(self) { Either::A(a) => f.requires((a,)), Either::B(b) => true }
    ensures match (*old(self), *final(self)) { (Either::A(a), Either::B(b)) => f.ensures((a,), b), (Either::B(b0), Either::B(b)) => b == b0, _ => false }
//@ endfn
}
//@ head src/radix_tree/lazy_radix_tree.rs Default for Either
    spec fn is_default(&self) -> bool { self matches Either::A(a) && a.is_default() }
//@ fn src/radix_tree/lazy_radix_tree.rs | Default for Either | default
//@ endfn
}
//@ # the lazily initialised cell. The cell is its content, the mutex a token `VxLock`: what a shared reference to the cell can
//@ # reach concurrently (children are shared through `Arc`, `Lazy` is `Send`) is read or written only while the token is
//@ # held, except that an initialised cell may be read without it (it changes no more while it is shared). In `get_or_create`
//@ # `& self` becomes `& mut self`: the writer under the lock is the only one (trusted: the mutex excludes)
struct VxLock { held: Ghost<bool> }
struct VxGuard;
impl VxLock {
    fn free() -> (r: Self) ensures !r.held@ { VxLock { held: Ghost(false) } }
    fn lock(&mut self) -> (r: VxGuard) requires !old(self).held@ ensures final(self).held@ { self.held = Ghost(true); VxGuard }
    fn unlock(&mut self, g: VxGuard) requires old(self).held@ ensures !final(self).held@ { self.held = Ghost(false); }
}
fn vx_excl<'a, A, B>(e: &'a mut Either<A, B>, l: &'a VxLock) -> (r: &'a mut Either<A, B>) requires l.held@ ensures *r == *old(e), *final(e) == *final(r) { e }
fn vx_shared<'a, A, B>(e: &'a Either<A, B>, l: &VxLock) -> (r: &'a Either<A, B>) requires l.held@ || (e matches Either::B(_)) ensures *r == *e { e }
#[verifier::external_body]
fn vx_unreachable<T>() -> T requires false { unimplemented!() }
//@ struct src/radix_tree/lazy_radix_tree.rs Lazy
//@ rw `mutex : Mutex < ( ) > ,` => ``
//@ rw `UnsafeCell < Either < A , B > >` => `Either<A, B>`
impl<A: Copy, B> Lazy<A, B> {
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | new
//@ ret r
    ensures r.data == data
//@ rw `mutex : Mutex :: new ( ( ) ) ,` => ``
//@ rw `UnsafeCell :: new ( data )` => `data`
//@ endfn
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | uninitialized
//@ ret r
    ensures r.data == Either::<A, B>::A(data)
//@ endfn
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | initialized
//@ ret r
    ensures r.data == Either::<A, B>::B(data)
//@ endfn
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | get
//@ ret r
    ensures match self.data { Either::A(_) => r is None, Either::B(b) => r == Some(&b) }
//@ start
    let mut vx_lk = VxLock::free();
//@ rw `self . mutex . lock ( )` => `vx_lk.lock()`
//@ rw `drop ( $$g ) ;` => `vx_lk.unlock($g);`
//@ rw `& * self . data . get ( )` => `vx_shared(&self.data, &vx_lk)`
//@ endfn
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | get_or_create
//@ ret r
//@ sigrw `& self` => `&mut self`
    requires match old(self).data { Either::A(a) => f.requires((a,)), Either::B(b) => true }
    ensures match old(self).data { Either::A(a) => f.ensures((a,), *r), Either::B(b) => *r == b }, final(self).data == Either::<A, B>::B(*r)
//@ start
    let mut vx_lk = VxLock::free();
//@ rw `self . mutex . lock ( )` => `vx_lk.lock()`
//@ rw `drop ( $$g ) ;` => `vx_lk.unlock($g);`
//@ rw `& mut * self . data . get ( )` => `vx_excl(&mut self.data, &vx_lk)`
//@ rw `& * self . data . get ( )` => `vx_shared(&self.data, &vx_lk)`
//@ rw `panic ! ( )` => `vx_unreachable()`
//@ endfn
//@ fn src/radix_tree/lazy_radix_tree.rs | Lazy | get_or_create_mut
//@ ret r
    requires match old(self).data { Either::A(a) => f.requires((a,)), Either::B(b) => true }
    ensures match old(self).data { Either::A(a) => f.ensures((a,), *r), Either::B(b) => *r == b }, final(self).data == Either::<A, B>::B(*final(r))
//@ rw `self . mutex . lock ( )` => `()`
//@ rw `drop ( guard ) ;` => ``
//@ rw `& mut * self . data . get ( )` => `&mut self.data`
//@ rw `panic ! ( )` => `vx_unreachable()`
//@ endfn
}
/// `#[derive(Clone)]` on Either
#[verifier::external_body]
fn vx_clone_either<A: Clone, B: Clone>(e: &Either<A, B>) -> (r: Either<A, B>) requires clone_ok::<A>(), clone_ok::<B>() ensures r == *e { unimplemented!() }
impl<A: Clone, B: Clone> Lazy<A, B> {
//@ fn src/radix_tree/lazy_radix_tree.rs | Clone for Lazy | clone
//@ ret r
    requires clone_ok::<A>(), clone_ok::<B>()
    ensures r.data == self.data
//@ start
    let mut vx_lk = VxLock::free();
//@ rw `self . mutex . lock ( )` => `vx_lk.lock()`
//@ rw `drop ( $$g ) ;` => `vx_lk.unlock($g);`
//@ rw `( & * self . data . get ( ) ) . clone ( )` => `vx_clone_either(vx_shared(&self.data, &vx_lk))`
//@ rw `mutex : Mutex :: new ( ( ) ) ,` => ``
//@ rw `UnsafeCell :: new ( data )` => `data`
//@ endfn
}
