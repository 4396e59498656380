//@ include radix_base.vrs
//@ include arch_base.vrs
//@ include radix_flat.vrs
//@ subst RadixTree ArcRadixTree
//@ subst rview rview_arc
//@ subst lemma_view lemma_view_arc
//@ subst vx_make_mut_children vx_make_mut_children_arc
//@ include radix_arc.vrs
//@ unsubst
//@ subst RadixTree LazyRadixTree
//@ subst rview rview_lazy
//@ subst lemma_view lemma_view_lazy
//@ subst vx_make_mut_children vx_make_mut_children_lazy
//@ include radix_lazy.vrs
//@ unsubst
//@ tag ar
//@ # ---- trees: keys and values are their own archived form (as reading an archived tree requires) -------------------------------------
/// the children of every node have non-empty labels, first components strictly ascending
spec fn shaped<K: Ord, V>(t: TV<K, V>) -> bool
    decreases t
{ csorted(t.c) && forall|i: int| 0 <= i < t.c.len() ==> (#[trigger] t.c[i]).p.len() > 0 && shaped(t.c[i]) }
proof fn lemma_wf_shaped<K: Ord, V>(t: TV<K, V>)
    requires wfc(t)
    ensures shaped(t)
    decreases t
{ assert forall|i: int| 0 <= i < t.c.len() implies (#[trigger] t.c[i]).p.len() > 0 && shaped(t.c[i]) by { lemma_wf_shaped(t.c[i]); } }
/// the type's own rkyv implementations keep the value: its archived form and what that restores to equal it
#[verifier::opaque]
spec fn keeps<T>() -> bool { (forall|a: T, b: T| #[trigger] arch(a, b) ==> a == b) && (forall|a: T, b: T| #[trigger] rest(a, b) ==> a == b) }
proof fn lemma_keeps<T>(s: Seq<T>, a: Seq<T>) requires keeps::<T>() ensures archived(s, a) ==> s == a, restored(s, a) ==> s == a
{
    reveal(keeps);
    if archived(s, a) { assert forall|i: int| 0 <= i < s.len() implies s[i] == a[i] by { assert(arch(s[i], a[i])); } assert(s =~= a); }
    if restored(s, a) { assert forall|i: int| 0 <= i < s.len() implies s[i] == a[i] by { assert(rest(s[i], a[i])); } assert(s =~= a); }
}
spec fn okeeps<T>(o: Option<T>, a: Option<T>) -> bool { match (o, a) { (Some(x), Some(y)) => arch(x, y), (None, None) => true, _ => false } }
spec fn orest<T>(a: Option<T>, o: Option<T>) -> bool { match (a, o) { (Some(x), Some(y)) => rest(x, y), (None, None) => true, _ => false } }
proof fn lemma_okeeps<T>(o: Option<T>, a: Option<T>) requires keeps::<T>() ensures okeeps(o, a) ==> o == a, orest(o, a) ==> o == a { reveal(keeps); }
uninterp spec fn opt_wrote<V>(o: Option<V>, r: OptResolver) -> bool;
struct OptResolver { p: usize }
/// archived options are identified with options
trait OptArch<V>: Sized {
    spec fn ov(self) -> Option<V>;
    fn resolve(self, pos: usize, resolver: OptResolver, out: &mut Option<V>)
        requires opt_wrote(self.ov(), resolver), posof(old(out)) == pos
        ensures okeeps(self.ov(), *final(out));
    fn serialize<S: Fallible>(self, serializer: &mut S) -> (r: Result<OptResolver, S::Error>) ensures r matches Ok(x) ==> opt_wrote(self.ov(), x);
    fn deserialize<D: Fallible>(&self, d: &mut D) -> (r: Result<Option<V>, D::Error>) ensures r matches Ok(o) ==> orest(self.ov(), o);
}
impl<V> OptArch<V> for Option<V> {
    spec fn ov(self) -> Option<V> { self }
    #[verifier::external_body]
    fn resolve(self, pos: usize, resolver: OptResolver, out: &mut Option<V>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize<S: Fallible>(self, serializer: &mut S) -> Result<OptResolver, S::Error> { unimplemented!() }
    #[verifier::external_body]
    fn deserialize<D: Fallible>(&self, d: &mut D) -> Result<Option<V>, D::Error> { unimplemented!() }
}
/// a shared vector is archived like the vector it points to
trait ArcArch<X>: Sized {
    spec fn av(&self) -> Seq<X>;
    fn resolve<T>(&self, pos: usize, resolver: VecResolver, out: &mut ArchivedVec<T>)
        requires vec_wrote(self.av(), resolver), posof(old(out)) == pos
        ensures archived(self.av(), final(out)@);
    fn serialize<S: Fallible>(&self, serializer: &mut S) -> (r: Result<VecResolver, S::Error>) ensures r matches Ok(x) ==> vec_wrote(self.av(), x);
}
impl<X> ArcArch<X> for Arc<Vec<X>> {
    spec fn av(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn resolve<T>(&self, pos: usize, resolver: VecResolver, out: &mut ArchivedVec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn serialize<S: Fallible>(&self, serializer: &mut S) -> Result<VecResolver, S::Error> { unimplemented!() }
}
impl<X> ArchivedVec<X> {
    /// an archived shared vector restores to a shared vector
    #[verifier::external_body]
    fn deserialize_arc<U, D: Fallible>(&self, d: &mut D) -> (r: Result<Arc<Vec<U>>, D::Error>)
        ensures r matches Ok(v) ==> restored(self@, v@)
    { unimplemented!() }
}
/// `offset_from(out, ptr)`: the distance of a field from the start of the value it lies in
#[verifier::external_body]
fn vx_offset<X>(base: Ghost<int>, p: &X) -> (r: usize)
    requires base@ <= posof(p)
    ensures base@ + r == posof(p)
{ unimplemented!() }
/// what checking the children of a node reports
struct ChildrenError { e: usize }
impl ChildrenError {
    #[verifier::external_body]
    fn to_string(&self) -> Msg { unimplemented!() }
}
/// the text of an error
pub struct Msg { m: usize }
#[verifier::external_body]
fn vx_msg(s: &str) -> Msg { unimplemented!() }
//@ # ---- the plain flavour -------------------------------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/flat_radix_tree.rs ArchivedRadixTree
//@ rw `Archived < Vec < K > >` => `ArchivedVec<K>`
//@ rw `Archived < Option < V > >` => `Option<V>`
//@ rw `Archived < Vec < RadixTree < K , V > > >` => `ArchivedVec<ArchivedRadixTree<K, V>>`
//@ rw `< K : TKey , V : TValue >` => `<K, V>`
//@ subst Arch ArchivedRadixTree
//@ subst ChildrenError usize
//@ include arch_view.vrs
//@ unsubst
/// trusted: rkyv archives and restores the children of a node by the node type's own implementations (their contract, one level down)
#[verifier::external_body]
proof fn axiom_arch_tree<K, V>(t: RadixTree<K, V>, a: ArchivedRadixTree<K, V>) ensures arch(t, a) ==> a@ == t@, rest(a, t) ==> t@ == a@ {}
proof fn lemma_arch_trees<K, V>(t: Seq<RadixTree<K, V>>, a: Seq<ArchivedRadixTree<K, V>>)
    ensures archived(t, a) ==> avs(a) == vs(t), restored(a, t) ==> vs(t) == avs(a)
{
    if archived(t, a) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@ == a[i]@ by { axiom_arch_tree(t[i], a[i]); assert(arch(t[i], a[i])); } assert(avs(a) =~= vs(t)); }
    if restored(a, t) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@ == a[i]@ by { axiom_arch_tree(t[i], a[i]); assert(rest(a[i], t[i])); } assert(avs(a) =~= vs(t)); }
}
//@ struct src/radix_tree/flat_radix_tree.rs RadixTreeResolver
//@ rw `Resolver < Vec < K > >` => `VecResolver`
//@ rw `Resolver < Option < V > >` => `OptResolver`
//@ rw `Resolver < Vec < RadixTree < K , V > > >` => `VecResolver`
//@ rw `< K : TKey , V : TValue >` => ``
//@ struct src/radix_tree/flat_radix_tree.rs ArchivedRadixTreeError
impl<K: TKey, V: TValue> ArchivedRadixTree<K, V> {
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for ArchivedRadixTree | prefix
//@ ret r
    requires backed(&self.prefix)
    ensures r@ == self@.p
//@ rw `& self . prefix` => `self.prefix.as_slice()`
//@ start
    proof { lemma_aview(*self); }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for ArchivedRadixTree | value
//@ ret r
    ensures r == match self@.v { Some(v) => Some(&v), None => None }
//@ start
    proof { lemma_aview(*self); }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for ArchivedRadixTree | children
//@ ret r
    requires backed(&self.children)
    ensures avs(r@) == self@.c, r@ == self.children@
//@ rw `& self . children` => `self.children.as_slice()`
//@ start
    proof { lemma_aview(*self); }
//@ endfn
}
//@ head src/radix_tree/flat_radix_tree.rs Archive for RadixTree
//@ rw `K : TKey + Archive , V : TValue + Archive ,` => `K: TKey, V: TValue,`
    type Archived = ArchivedRadixTree<K, V>;
    type Resolver = RadixTreeResolver;
    spec fn archived_as(&self, a: &ArchivedRadixTree<K, V>) -> bool { a@ == self@ }
    spec fn wrote(&self, r: RadixTreeResolver) -> bool { vec_wrote(self@.p, r.prefix) && opt_wrote(self@.v, r.value) && vec_wrote(self.children@, r.children) }
    spec fn placed(out: &ArchivedRadixTree<K, V>) -> bool {
        &&& posof(out) <= posof(&out.prefix) <= usize::MAX && posof(out) <= posof(&out.value) <= usize::MAX && posof(out) <= posof(&out.children) <= usize::MAX
        &&& keeps::<K>() && keeps::<V>() && clone_ok::<V>()
    }
//@ fn src/radix_tree/flat_radix_tree.rs | Archive for RadixTree | resolve
//@ sigrw `* mut Self :: Archived` => `&mut Self::Archived`
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `offset_from ( out , $p )` => `vx_offset(Ghost(vx_base), &*$p)`
//@ start
    let ghost vx_base = posof(out);
    proof { lemma_view(*self); }
//@ end
    proof { lemma_aview(*out); lemma_view(*self); lemma_keeps(self@.p, out.prefix@); lemma_okeeps(self@.v, out.value); lemma_arch_trees(self.children@, out.children@); }
//@ endfn
}
//@ head src/radix_tree/flat_radix_tree.rs Serialize for RadixTree
//@ rw `K : TKey + Serialize < S > , V : TValue + Serialize < S > , S : ScratchSpace + Serializer ,` => `K: TKey, V: TValue, S: Fallible,`
    spec fn sreq() -> bool { clone_ok::<V>() }
//@ fn src/radix_tree/flat_radix_tree.rs | Serialize for RadixTree | serialize
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `ArchivedVec :: serialize_from_slice` => `ArchivedVec::<()>::serialize_from_slice`
//@ start
    proof { lemma_view(*self); }
//@ endfn
}
//@ head src/radix_tree/flat_radix_tree.rs Deserialize for ArchivedRadixTree
//@ rw `D : Fallible + ? Sized ,` => `D: Fallible,`
//@ rw `Archived < K > : Deserialize < K , D > , Archived < V > : Deserialize < V , D > ,` => ``
    spec fn dreq() -> bool { keeps::<K>() && keeps::<V>() && clone_ok::<K>() }
    spec fn gives(&self, t: RadixTree<K, V>) -> bool { t@ == self@ }
//@ fn src/radix_tree/flat_radix_tree.rs | Deserialize for ArchivedRadixTree | deserialize
//@ rw `Fragment :: from ( $x . as_ref ( ) )` => `vx_frag($x.as_slice())`
//@ start
    proof {
        lemma_aview(*self);
        assert forall|p: Seq<K>| #[trigger] restored(self.prefix@, p) implies p == self@.p by { lemma_keeps(self.prefix@, p); }
        assert forall|o: Option<V>| #[trigger] orest(self.value, o) implies o == self@.v by { lemma_okeeps(self.value, o); }
        assert forall|c: Seq<RadixTree<K, V>>| #[trigger] restored(self.children@, c) implies vs(c) == self@.c by { lemma_arch_trees(c, self.children@); }
    }
//@ endfn
}
//@ head src/radix_tree/flat_radix_tree.rs CheckBytes for ArchivedRadixTree
//@ rw `C : ? Sized + ArchiveContext , C :: Error : std :: error :: Error , K : TKey , V : TValue , Archived < Vec < K > > : bytecheck :: CheckBytes < C > , Archived < Option < V > > : bytecheck :: CheckBytes < C > ,` => `K: TKey + CheckBytes<C>, V: TValue + CheckBytes<C>,`
//@ types src/radix_tree/flat_radix_tree.rs CheckBytes for ArchivedRadixTree
    spec fn creq() -> bool { K::creq() && V::creq() && ord_laws::<K>() && po_ok::<K>() }
    spec fn checked(&self) -> bool { achecked::<C, K, V>(*self) }
//@ fn src/radix_tree/flat_radix_tree.rs | CheckBytes for ArchivedRadixTree | check_bytes
//@ sigrw `* const Self` => `&'a Self`
//@ rw `CheckBytes :: check_bytes ( children , context )` => `check_children_rec(children, context)`
//@ rw `. map_err ( | _ | $$e )` => `.map_err(|vx_e: usize| -> (vx_x: ArchivedRadixTreeError) { $e })`
//@ rw `. all ( | child | $$e )` => `.all(|child: &ArchivedRadixTree<K, V>| -> (vx_b: bool) ensures vx_b == (child.prefix@.len() > 0) { $e })`
//@ rw `. all ( | ( $a , $b ) | $$e )` => `.all(|vx_p: (&ArchivedRadixTree<K, V>, &ArchivedRadixTree<K, V>)| -> (vx_b: bool) requires po_ok::<K>(), vx_p.0.prefix@.len() > 0, vx_p.1.prefix@.len() > 0, backed(&vx_p.0.prefix), backed(&vx_p.1.prefix) ensures vx_b == (oc(vx_p.0.prefix@[0], vx_p.1.prefix@[0]) == Ordering::Less) { proof { reveal(po_ok); } let ($a, $b) = vx_p; $e })`
//@ start
    let ghost vx_t = *this;
    proof { lemma_alabels::<C, K, V>(vx_t); }
//@ endfn
}
//@ # ---- the copy-on-write flavour ----------------------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/arc_radix_tree.rs ArchivedArcRadixTree
//@ rw `where K : TKey , V : TValue ,` => ``
//@ rw `Archived < Vec < K > >` => `ArchivedVec<K>`
//@ rw `Archived < Option < V > >` => `Option<V>`
//@ rw `Archived < Arc < Vec < ArcRadixTree < K , V > > > >` => `ArchivedVec<ArchivedArcRadixTree<K, V>>`
//@ subst Arch ArchivedArcRadixTree
//@ subst aview aview_arc
//@ subst avs avs_arc
//@ subst lemma_aview lemma_aview_arc
//@ subst achecked achecked_arc
//@ subst alabels alabels_arc
//@ subst anb anb_arc
//@ subst aneighbours aneighbours_arc
//@ subst lemma_achecked lemma_achecked_arc
//@ subst lemma_aneighbours lemma_aneighbours_arc
//@ subst lemma_alabels lemma_alabels_arc
//@ subst check_children_rec check_children_rec_arc
//@ include arch_view.vrs
//@ unsubst
/// trusted: as for the plain flavour
#[verifier::external_body]
proof fn axiom_arch_tree_arc<K, V>(t: ArcRadixTree<K, V>, a: ArchivedArcRadixTree<K, V>) ensures arch(t, a) ==> a@ == t@, rest(a, t) ==> t@ == a@ {}
proof fn lemma_arch_trees_arc<K, V>(t: Seq<ArcRadixTree<K, V>>, a: Seq<ArchivedArcRadixTree<K, V>>)
    ensures archived(t, a) ==> avs_arc(a) == vs(t), restored(a, t) ==> vs(t) == avs_arc(a)
{
    if archived(t, a) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@ == a[i]@ by { axiom_arch_tree_arc(t[i], a[i]); assert(arch(t[i], a[i])); } assert(avs_arc(a) =~= vs(t)); }
    if restored(a, t) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@ == a[i]@ by { axiom_arch_tree_arc(t[i], a[i]); assert(rest(a[i], t[i])); } assert(avs_arc(a) =~= vs(t)); }
}
//@ struct src/radix_tree/arc_radix_tree.rs ArcRadixTreeResolver
//@ rw `Resolver < Vec < K > >` => `VecResolver`
//@ rw `Resolver < Option < V > >` => `OptResolver`
//@ rw `Resolver < Arc < Vec < ArcRadixTree < K , V > > > >` => `VecResolver`
//@ rw `< K : TKey , V : TValue >` => ``
impl<K: TKey, V: TValue> ArchivedArcRadixTree<K, V> {
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | prefix
//@ ret r
    requires backed(&self.prefix)
    ensures r@ == self@.p
//@ rw `& self . prefix` => `self.prefix.as_slice()`
//@ start
    proof { lemma_aview_arc(*self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | value
//@ ret r
    ensures r == match self@.v { Some(v) => Some(&v), None => None }
//@ start
    proof { lemma_aview_arc(*self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | children
//@ ret r
    requires backed(&self.children)
    ensures avs_arc(r@) == self@.c, r@ == self.children@
//@ rw `& self . children` => `self.children.as_slice()`
//@ start
    proof { lemma_aview_arc(*self); }
//@ endfn
}
//@ head src/radix_tree/arc_radix_tree.rs Archive for ArcRadixTree
    type Archived = ArchivedArcRadixTree<K, V>;
    type Resolver = ArcRadixTreeResolver;
    spec fn archived_as(&self, a: &ArchivedArcRadixTree<K, V>) -> bool { a@ == self@ }
    spec fn wrote(&self, r: ArcRadixTreeResolver) -> bool { vec_wrote(self@.p, r.prefix) && opt_wrote(self@.v, r.value) && vec_wrote(self.children@, r.children) }
    spec fn placed(out: &ArchivedArcRadixTree<K, V>) -> bool {
        &&& posof(out) <= posof(&out.prefix) <= usize::MAX && posof(out) <= posof(&out.value) <= usize::MAX && posof(out) <= posof(&out.children) <= usize::MAX
        &&& keeps::<K>() && keeps::<V>() && clone_ok::<V>()
    }
//@ fn src/radix_tree/arc_radix_tree.rs | Archive for ArcRadixTree | resolve
//@ sigrw `* mut Self :: Archived` => `&mut Self::Archived`
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `offset_from ( out , $p )` => `vx_offset(Ghost(vx_base), &*$p)`
//@ start
    let ghost vx_base = posof(out);
    proof { lemma_view_arc(*self); }
//@ end
    proof { lemma_aview_arc(*out); lemma_view_arc(*self); lemma_keeps(self@.p, out.prefix@); lemma_okeeps(self@.v, out.value); lemma_arch_trees_arc(self.children@, out.children@); }
//@ endfn
}
//@ head src/radix_tree/arc_radix_tree.rs Serialize for ArcRadixTree
//@ rw `K : TKey + Serialize < S > , V : TValue + Serialize < S > , S : ScratchSpace + Serializer + SharedSerializeRegistry ,` => `K: TKey, V: TValue, S: Fallible,`
    spec fn sreq() -> bool { clone_ok::<V>() }
//@ fn src/radix_tree/arc_radix_tree.rs | Serialize for ArcRadixTree | serialize
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `ArchivedVec :: serialize_from_slice` => `ArchivedVec::<()>::serialize_from_slice`
//@ rw `unsafe { std :: mem :: transmute ( arc ) }` => `arc`
//@ start
    proof { lemma_view_arc(*self); }
//@ endfn
}
//@ head src/radix_tree/arc_radix_tree.rs Deserialize for ArchivedArcRadixTree
//@ rw `D : SharedDeserializeRegistry ,` => `D: Fallible,`
//@ rw `Archived < K > : Deserialize < K , D > , Archived < V > : Deserialize < V , D > ,` => ``
    spec fn dreq() -> bool { keeps::<K>() && keeps::<V>() && clone_ok::<K>() }
    spec fn gives(&self, t: ArcRadixTree<K, V>) -> bool { t@ == self@ }
//@ fn src/radix_tree/arc_radix_tree.rs | Deserialize for ArchivedArcRadixTree | deserialize
//@ rw `Fragment :: from ( $x . as_ref ( ) )` => `vx_frag($x.as_slice())`
//@ rw `self . children . deserialize` => `self.children.deserialize_arc`
//@ start
    proof {
        lemma_aview_arc(*self);
        assert forall|p: Seq<K>| #[trigger] restored(self.prefix@, p) implies p == self@.p by { lemma_keeps(self.prefix@, p); }
        assert forall|o: Option<V>| #[trigger] orest(self.value, o) implies o == self@.v by { lemma_okeeps(self.value, o); }
        assert forall|c: Seq<ArcRadixTree<K, V>>| #[trigger] restored(self.children@, c) implies vs(c) == self@.c by { lemma_arch_trees_arc(c, self.children@); }
        assert forall|t: ArcRadixTree<K, V>| #[trigger] t@ == (TV { p: t.prefix@, v: t.value, c: vs(t.children@) }) by { lemma_view_arc(t); }
    }
//@ endfn
}
mod vx_arc_validation { #[allow(unused_imports)] use super::*;
pub
//@ struct src/radix_tree/arc_radix_tree.rs ArchivedRadixTreeError
//@ rw `Children ( String )` => `Children(Msg)`
//@ head src/radix_tree/arc_radix_tree.rs CheckBytes for ArchivedArcRadixTree
//@ rw `C : ? Sized + ArchiveContext + SharedContext , C :: Error : std :: error :: Error , K : TKey , V : TValue , Archived < Vec < K > > : bytecheck :: CheckBytes < C > , Archived < Option < V > > : bytecheck :: CheckBytes < C > ,` => `K: TKey + CheckBytes<C>, V: TValue + CheckBytes<C>,`
//@ types src/radix_tree/arc_radix_tree.rs CheckBytes for ArchivedArcRadixTree
    closed spec fn creq() -> bool { K::creq() && V::creq() && ord_laws::<K>() && po_ok::<K>() }
    closed spec fn checked(&self) -> bool { achecked_arc::<C, K, V>(*self) }
//@ fn src/radix_tree/arc_radix_tree.rs | CheckBytes for ArchivedArcRadixTree | check_bytes
//@ sigrw `* const Self` => `&'a Self`
//@ rw `CheckBytes :: check_bytes ( children , context )` => `check_children_rec_arc(children, context)`
//@ rw `. map_err ( | _ | $$e )` => `.map_err(|vx_e: usize| -> (vx_x: ArchivedRadixTreeError) { $e })`
//@ rw `. map_err ( | e | $$e )` => `.map_err(|e: ChildrenError| -> (vx_x: ArchivedRadixTreeError) { $e })`
//@ rw `"empty child prefix" . into ( )` => `vx_msg("empty child prefix")`
//@ rw `. all ( | child | $$e )` => `.all(|child: &ArchivedArcRadixTree<K, V>| -> (vx_b: bool) ensures vx_b == (child.prefix@.len() > 0) { $e })`
//@ rw `. all ( | ( $a , $b ) | $$e )` => `.all(|vx_p: (&ArchivedArcRadixTree<K, V>, &ArchivedArcRadixTree<K, V>)| -> (vx_b: bool) requires po_ok::<K>(), vx_p.0.prefix@.len() > 0, vx_p.1.prefix@.len() > 0, backed(&vx_p.0.prefix), backed(&vx_p.1.prefix) ensures vx_b == (oc(vx_p.0.prefix@[0], vx_p.1.prefix@[0]) == Ordering::Less) { proof { reveal(po_ok); } let ($a, $b) = vx_p; $e })`
//@ start
    let ghost vx_t = *this;
    proof { lemma_alabels_arc::<C, K, V>(vx_t); }
//@ endfn
}
}
//@ # ---- the lazily loaded flavour (it has no validation of its own) -----------------------------------------------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/lazy_radix_tree.rs ArchivedLazyRadixTree
//@ rw `where K : TKey , V : TValue ,` => ``
//@ rw `Archived < Vec < K > >` => `ArchivedVec<K>`
//@ rw `Archived < Option < V > >` => `Option<V>`
//@ rw `Archived < Arc < Vec < LazyRadixTree < 'static , K , V > > > >` => `ArchivedVec<ArchivedLazyRadixTree<K, V>>`
//@ subst Arch ArchivedLazyRadixTree
//@ subst aview aview_lazy
//@ subst avs avs_lazy
//@ subst lemma_aview lemma_aview_lazy
//@ subst achecked achecked_lazy
//@ subst alabels alabels_lazy
//@ subst anb anb_lazy
//@ subst aneighbours aneighbours_lazy
//@ subst lemma_achecked lemma_achecked_lazy
//@ subst lemma_aneighbours lemma_aneighbours_lazy
//@ subst lemma_alabels lemma_alabels_lazy
//@ subst check_children_rec check_children_rec_lazy
//@ include arch_view.vrs
//@ unsubst
/// trusted: as for the plain flavour
#[verifier::external_body]
proof fn axiom_arch_tree_lazy<K, V>(t: LazyRadixTree<K, V>, a: ArchivedLazyRadixTree<K, V>) ensures arch(t, a) ==> a@ == t@ {}
proof fn lemma_arch_trees_lazy<K, V>(t: Seq<LazyRadixTree<K, V>>, a: Seq<ArchivedLazyRadixTree<K, V>>)
    ensures archived(t, a) ==> avs_lazy(a) == vs(t)
{
    if archived(t, a) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i])@ == a[i]@ by { axiom_arch_tree_lazy(t[i], a[i]); assert(arch(t[i], a[i])); } assert(avs_lazy(a) =~= vs(t)); }
}
//@ struct src/radix_tree/lazy_radix_tree.rs LazyRadixTreeResolver
//@ rw `Resolver < Vec < K > >` => `VecResolver`
//@ rw `Resolver < Option < V > >` => `OptResolver`
//@ rw `Resolver < Arc < Vec < LazyRadixTree < 'static , K , V > > > >` => `VecResolver`
//@ rw `< K : TKey + Archive , V : TValue + Archive >` => ``
//@ head src/radix_tree/lazy_radix_tree.rs Archive for LazyRadixTree
//@ rw `LazyRadixTree < 'a , K , V >` => `LazyRadixTree<K, V>`
//@ rw `impl < 'a ,` => `impl <`
    type Archived = ArchivedLazyRadixTree<K, V>;
    type Resolver = LazyRadixTreeResolver;
    spec fn archived_as(&self, a: &ArchivedLazyRadixTree<K, V>) -> bool { a@ == self@ }
    spec fn wrote(&self, r: LazyRadixTreeResolver) -> bool { vec_wrote(self@.p, r.prefix) && opt_wrote(self@.v, r.value) && vec_wrote(self.children@, r.children) }
    spec fn placed(out: &ArchivedLazyRadixTree<K, V>) -> bool {
        &&& posof(out) <= posof(&out.prefix) <= usize::MAX && posof(out) <= posof(&out.value) <= usize::MAX && posof(out) <= posof(&out.children) <= usize::MAX
        &&& keeps::<K>() && keeps::<V>() && clone_ok::<V>()
    }
//@ fn src/radix_tree/lazy_radix_tree.rs | Archive for LazyRadixTree | resolve
//@ sigrw `* mut Self :: Archived` => `&mut Self::Archived`
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `offset_from ( out , $p )` => `vx_offset(Ghost(vx_base), &*$p)`
//@ start
    let ghost vx_base = posof(out);
    proof { lemma_view_lazy(*self); }
//@ end
    proof { lemma_aview_lazy(*out); lemma_view_lazy(*self); lemma_keeps(self@.p, out.prefix@); lemma_okeeps(self@.v, out.value); lemma_arch_trees_lazy(self.children@, out.children@); }
//@ endfn
}
//@ head src/radix_tree/lazy_radix_tree.rs Serialize for LazyRadixTree
//@ rw `LazyRadixTree < 'a , K , V >` => `LazyRadixTree<K, V>`
//@ rw `impl < 'a ,` => `impl <`
//@ rw `K : TKey + Serialize < S > , V : TValue + Serialize < S > , S : ScratchSpace + Serializer + SharedSerializeRegistry ,` => `K: TKey, V: TValue, S: Fallible,`
    spec fn sreq() -> bool { clone_ok::<V>() }
//@ fn src/radix_tree/lazy_radix_tree.rs | Serialize for LazyRadixTree | serialize
//@ rw `self . value ( ) . cloned ( )` => `vx_cloned(self.value())`
//@ rw `ArchivedVec :: serialize_from_slice` => `ArchivedVec::<()>::serialize_from_slice`
//@ rw `unsafe { std :: mem :: transmute ( arc ) }` => `arc`
//@ rw `LazyRadixTree < 'static , K , V >` => `LazyRadixTree<K, V>`
//@ start
    proof { lemma_view_lazy(*self); }
//@ endfn
}
/// archiving a tree, checking and restoring it: the shape validation asks for is there, and what is restored stands for the same map
proof fn theorem_tree_arch<K: TKey, V: TValue>(t: RadixTree<K, V>, a: ArchivedRadixTree<K, V>, u: RadixTree<K, V>)
    requires t.archived_as(&a), u@ == a@, wf(t@)
    ensures u@ == t@, a@ == t@, shaped(a@)
{ if wfc(t@) { lemma_wf_shaped(t@); } }
