//@ include arch_base.vrs
//@ tag ar
//@ # ---- src/vec_set.rs ---------------------------------------------------------------------------------------------------------------
//@ struct src/vec_set.rs ArchivedVecSet
impl<T> View for ArchivedVecSet<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.0@ } }
/// a reference on which the collection's own methods are called is only made from a checked archive (rkyv's safety contract)
#[verifier::external_body]
proof fn axiom_only_checked_set<T>(a: &ArchivedVecSet<T>) ensures backed(&a.0) {}
/// `#[repr(transparent)]`
#[verifier::external_body]
proof fn axiom_set_at<T>(a: &ArchivedVecSet<T>) ensures posof(a) == posof(&a.0) {}
//@ struct src/vec_set.rs ArchivedVecSetError
//@ head src/vec_set.rs AbstractVecSet for ArchivedVecSet
    spec fn els(&self) -> Seq<T> { self@ }
//@ fn src/vec_set.rs | AbstractVecSet for ArchivedVecSet | as_slice
//@ start
    proof { axiom_only_checked_set(self); }
//@ endfn
}
//@ head src/vec_set.rs Archive for VecSet
//@ types src/vec_set.rs Archive for VecSet
    /// the archived forms of the elements, in the same order
    spec fn archived_as(&self, a: &ArchivedVecSet<<A::Item as rkyv::Archive>::Archived>) -> bool { archived(self@, a@) }
    spec fn wrote(&self, r: VecResolver) -> bool { vec_wrote(self@, r) }
    spec fn placed(out: &ArchivedVecSet<<A::Item as rkyv::Archive>::Archived>) -> bool { true }
//@ fn src/vec_set.rs | Archive for VecSet | resolve
//@ sigrw `* mut Self :: Archived` => `&mut Self::Archived`
//@ start
    proof { axiom_set_at(out); }
//@ endfn
}
//@ head src/vec_set.rs rkyv::Serialize<S> for VecSet<A>
//@ rw `T : rkyv :: Archive + rkyv :: Serialize < S > ,` => `T: rkyv::Archive,`
//@ rw `S : rkyv :: ser :: ScratchSpace + rkyv :: ser :: Serializer ,` => `S: rkyv::Fallible,`
    spec fn sreq() -> bool { true }
//@ fn src/vec_set.rs | rkyv::Serialize<S> for VecSet<A> | serialize
//@ rw `ArchivedVec :: serialize_from_slice` => `ArchivedVec::<()>::serialize_from_slice`
//@ endfn
}
//@ head src/vec_set.rs Deserialize for ArchivedVecSet
//@ rw `D : rkyv :: Fallible + ? Sized ,` => `D: rkyv::Fallible,`
//@ rw `T : rkyv :: Archive ,` => ``
//@ rw `impl < D , T , A >` => `impl<D, T, A, U>`
//@ rw `ArchivedVecSet < T :: Archived >` => `ArchivedVecSet<U>`
//@ rw `[ < < A as Array > :: Item as rkyv :: Archive > :: Archived ] : rkyv :: DeserializeUnsized < [ < A as Array > :: Item ] , D > ,` => ``
    spec fn dreq() -> bool { true }
    spec fn gives(&self, t: VecSet<A>) -> bool { restored(self@, t@) }
//@ fn src/vec_set.rs | Deserialize for ArchivedVecSet | deserialize
//@ rw `items . into ( )` => `SmallVec::from_vec(items)`
//@ endfn
}
//@ head src/vec_set.rs CheckBytes for ArchivedVecSet
//@ rw `C : ? Sized` => `C`
//@ rw `C : ArchiveContext , C :: Error : std :: error :: Error , T : Ord + Archive + CheckBytes < C > , bool : bytecheck :: CheckBytes < C > ,` => `T: Ord + CheckBytes<C>,`
//@ types src/vec_set.rs CheckBytes for ArchivedVecSet
    spec fn creq() -> bool { T::creq() && ord_laws::<T>() && po_ok::<T>() }
    /// every element is valid and they are strictly ascending
    spec fn checked(&self) -> bool { self.0.checked() && sorted(self@) }
//@ fn src/vec_set.rs | CheckBytes for ArchivedVecSet | check_bytes
//@ sigrw `* const Self` => `&'a Self`
//@ start
    let ghost vs0 = value@;
    proof { lemma_nascending(vs0); }
//@ rw `. all ( | ( $a , $b ) | $$e )` => `.all(|vx_p: (&T, &T)| -> (vx_b: bool) requires po_ok::<T>() ensures vx_b == (oc(*vx_p.0, *vx_p.1) == Ordering::Less) { proof { reveal(po_ok); } let ($a, $b) = vx_p; $e })`
//@ rw `. map_err ( | _ | $$e )` => `.map_err(|vx_e: usize| -> (vx_x: ArchivedVecSetError) { $e })`
//@ endfn
}
/// archiving and restoring gives an equal set; the archived set is ascending like the original, so validation accepts it and lookups find the same elements
proof fn theorem_set_arch<A: Array<Item = T>, T: rkyv::Archive + Ord>(x: VecSet<A>, a: ArchivedVecSet<T::Archived>, y: VecSet<A>)
    where T::Archived: Ord
    requires x.archived_as(&a), restored(a@, y@), el_roundtrips::<T, T::Archived>(), el_order::<T, T::Archived>(), sorted(x@)
    ensures y@ == x@, sorted(a@)
{ lemma_restored(x@, a@, y@); lemma_order_kept(x@, a@); }
