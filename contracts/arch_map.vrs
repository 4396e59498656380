//@ include arch_base.vrs
//@ tag ar
//@ # ---- src/vec_map.rs ---------------------------------------------------------------------------------------------------------------
//@ struct src/vec_map.rs ArchivedVecMap
impl<K, V> View for ArchivedVecMap<K, V> { type V = Seq<(K, V)>; closed spec fn view(&self) -> Seq<(K, V)> { self.0@ } }
/// a reference on which the collection's own methods are called is only made from a checked archive (rkyv's safety contract)
#[verifier::external_body]
proof fn axiom_only_checked_map<K, V>(a: &ArchivedVecMap<K, V>) ensures backed(&a.0) {}
/// `#[repr(transparent)]`
#[verifier::external_body]
proof fn axiom_map_at<K, V>(a: &ArchivedVecMap<K, V>) ensures posof(a) == posof(&a.0) {}
struct ArchK<A> { p: PhantomData<A> }
struct ArchV<A> { p: PhantomData<A> }
//@ struct src/vec_map.rs ArchivedVecMapError
//@ head src/vec_map.rs AbstractVecMap for ArchivedVecMap
    spec fn els(&self) -> Seq<(K, V)> { self@ }
//@ fn src/vec_map.rs | AbstractVecMap for ArchivedVecMap | as_slice
//@ start
    proof { axiom_only_checked_map(self); }
//@ endfn
}
//@ head src/vec_map.rs Archive for VecMap
//@ rw `impl < K , V , A >` => `impl<A>`
//@ rw `A : Array < Item = ( K , V ) > , K : rkyv :: Archive , V : rkyv :: Archive ,` => `A: Array,`
    /// `ArchK<A>` and `ArchV<A>` stand for the archived forms of the key and value types
    type Archived = ArchivedVecMap<ArchK<A>, ArchV<A>>;
    type Resolver = VecResolver;
    /// the archived forms of the entries, in the same order
    spec fn archived_as(&self, a: &ArchivedVecMap<ArchK<A>, ArchV<A>>) -> bool { archived(self@, a@) }
    spec fn wrote(&self, r: VecResolver) -> bool { vec_wrote(self@, r) }
    spec fn placed(out: &ArchivedVecMap<ArchK<A>, ArchV<A>>) -> bool { true }
//@ fn src/vec_map.rs | Archive for VecMap | resolve
//@ sigrw `* mut Self :: Archived` => `&mut Self::Archived`
//@ start
    proof { axiom_map_at(out); }
//@ endfn
}
//@ head src/vec_map.rs rkyv::Serialize<S> for VecMap<A>
//@ rw `impl < S , K , V , A >` => `impl<S, A>`
//@ rw `A : Array < Item = ( K , V ) > , K : rkyv :: Archive + rkyv :: Serialize < S > , V : rkyv :: Archive + rkyv :: Serialize < S > ,` => `A: Array,`
//@ rw `S : rkyv :: ser :: ScratchSpace + rkyv :: ser :: Serializer ,` => `S: rkyv::Fallible,`
    spec fn sreq() -> bool { true }
//@ fn src/vec_map.rs | rkyv::Serialize<S> for VecMap<A> | serialize
//@ rw `ArchivedVec :: serialize_from_slice` => `ArchivedVec::<()>::serialize_from_slice`
//@ endfn
}
//@ head src/vec_map.rs Deserialize for ArchivedVecMap
//@ rw `impl < D , K , V , A >` => `impl<D, K, V, A, X, Y>`
//@ rw `ArchivedVecMap < K :: Archived , V :: Archived >` => `ArchivedVecMap<X, Y>`
//@ rw `K : rkyv :: Archive ,` => ``
//@ rw `V : rkyv :: Archive ,` => ``
//@ rw `D : rkyv :: Fallible + ? Sized ,` => `D: rkyv::Fallible,`
//@ rw `[ < < A as Array > :: Item as rkyv :: Archive > :: Archived ] : rkyv :: DeserializeUnsized < [ < A as Array > :: Item ] , D > ,` => ``
    spec fn dreq() -> bool { true }
    spec fn gives(&self, t: VecMap<A>) -> bool { restored(self@, t@) }
//@ fn src/vec_map.rs | Deserialize for ArchivedVecMap | deserialize
//@ rw `items . into ( )` => `SmallVec::from_vec(items)`
//@ endfn
}
//@ head src/vec_map.rs CheckBytes for ArchivedVecMap
//@ rw `C : ? Sized` => `C`
//@ rw `C : ArchiveContext , C :: Error : std :: error :: Error , K : Ord + Archive + CheckBytes < C > , V : Archive + CheckBytes < C > , bool : bytecheck :: CheckBytes < C > ,` => `K: Ord + CheckBytes<C>, V: CheckBytes<C>,`
//@ types src/vec_map.rs CheckBytes for ArchivedVecMap
    spec fn creq() -> bool { K::creq() && V::creq() && ord_laws::<K>() && po_ok::<K>() }
    /// every entry is valid and the keys are strictly ascending
    spec fn checked(&self) -> bool { self.0.checked() && ksorted(self@) }
//@ fn src/vec_map.rs | CheckBytes for ArchivedVecMap | check_bytes
//@ sigrw `* const Self` => `&'a Self`
//@ start
    let ghost vs0 = value@;
    proof { lemma_mascending(vs0); }
//@ rw `. all ( | ( ( $a , _ ) , ( $b , _ ) ) | $$e )` => `.all(|vx_p: (&(K, V), &(K, V))| -> (vx_b: bool) requires po_ok::<K>() ensures vx_b == (oc((*vx_p.0).0, (*vx_p.1).0) == Ordering::Less) { proof { reveal(po_ok); } let $a = &vx_p.0.0; let $b = &vx_p.1.0; $e })`
//@ rw `. map_err ( | _ | $$e )` => `.map_err(|vx_e: usize| -> (vx_x: ArchivedVecMapError) { $e })`
//@ endfn
}
/// neighbouring keys ascending
spec fn mnb<K: Ord, V>(s: Seq<(K, V)>, i: int) -> bool { oc(s[i].0, s[i + 1].0) == Ordering::Less }
spec fn mascending<K: Ord, V>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] mnb(s, i) }
proof fn lemma_mascending<K: Ord, V>(s: Seq<(K, V)>)
    requires ord_laws::<K>()
    ensures mascending(s) ==> ksorted(s)
{
    if mascending(s) {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies oc(s[i].0, s[j].0) == Ordering::Less by { lemma_mascending_pair(s, i, j); }
    }
}
proof fn lemma_mascending_pair<K: Ord, V>(s: Seq<(K, V)>, i: int, j: int)
    requires ord_laws::<K>(), mascending(s), 0 <= i < j < s.len()
    ensures oc(s[i].0, s[j].0) == Ordering::Less
    decreases j - i
{
    assert(mnb(s, i));
    if i + 1 < j { lemma_mascending_pair(s, i + 1, j); lemma_laws(s[i].0, s[i + 1].0, s[j].0); }
}
/// archiving and restoring gives an equal map; the keys of the archived map are ascending like the original's, so validation accepts it and lookups find the same entries
proof fn theorem_map_arch<K: Ord, V, X: Ord, Y>(x: Seq<(K, V)>, a: Seq<(X, Y)>, y: Seq<(K, V)>)
    requires archived(x, a), restored(a, y), el_roundtrips::<K, X>(), el_roundtrips::<V, Y>(), el_order::<K, X>(), ksorted(x)
    ensures y == x, ksorted(a)
{
    reveal(el_roundtrips);
    reveal(el_order);
    assert forall|i: int| 0 <= i < x.len() implies y[i] == x[i] by { axiom_arch_pair(x[i], a[i]); axiom_arch_pair(y[i], a[i]); assert(arch(x[i], a[i]) && rest(a[i], y[i])); assert(arch(x[i].0, a[i].0) && rest(a[i].0, y[i].0)); assert(arch(x[i].1, a[i].1) && rest(a[i].1, y[i].1)); }
    assert(y =~= x);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] oc(a[i].0, a[j].0) == Ordering::Less by { axiom_arch_pair(x[i], a[i]); axiom_arch_pair(x[j], a[j]); assert(arch(x[i], a[i]) && arch(x[j], a[j])); assert(arch(x[i].0, a[i].0) && arch(x[j].0, a[j].0)); assert(oc(x[i].0, x[j].0) == Ordering::Less); }
}
