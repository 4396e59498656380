//@ include vec_set.vrs
//@ include conv.vrs
//@ tag tset
//@ # ---- src/total_vec_set.rs ------------------------------------------------------------------------------
//@ head src/vec_set.rs Clone for VecSet
//@ rw `impl < T : Clone , A : Array < Item = T > > Clone for VecSet < A >` => `impl<A: Array> Clone for VecSet<A> where A::Item: Clone`
//@ fn src/vec_set.rs | Clone for VecSet | clone
//@ ret r
    ensures clone_ok::<A::Item>() ==> r@ == self@
//@ endfn
}
#[verifier::reject_recursive_types(A)]
//@ struct src/total_vec_set.rs TotalVecSet
//@ head src/total_vec_set.rs Clone for TotalVecSet
//@ rw `impl < T : Clone , A : Array < Item = T > > Clone for TotalVecSet < A >` => `impl<A: Array> Clone for TotalVecSet<A> where A::Item: Clone`
//@ fn src/total_vec_set.rs | Clone for TotalVecSet | clone
//@ ret r
    ensures clone_ok::<A::Item>() ==> r@ == self@
//@ endfn
}
/// the values a complementable set contains
spec fn tmem<T: Ord>(s: (Seq<T>, bool), v: T) -> bool { s.1 != mem(s.0, v) }
/// no finite list exhausts the universe of values
spec fn unbounded<T: Ord>() -> bool { forall|s: Seq<T>, t: Seq<T>| #[trigger] s.len() >= 0 && #[trigger] t.len() >= 0 ==> exists|v: T| !mem(s, v) && !#[trigger] mem(t, v) }
proof fn lemma_fresh<T: Ord>(s: Seq<T>, t: Seq<T>) -> (v: T)
    requires unbounded::<T>()
    ensures !mem(s, v), !mem(t, v)
{ assert(s.len() >= 0 && t.len() >= 0); choose|v: T| !mem(s, v) && !#[trigger] mem(t, v) }
impl<T, A: Array<Item = T>> View for TotalVecSet<A> { type V = (Seq<T>, bool); closed spec fn view(&self) -> (Seq<T>, bool) { (self.elements@, self.negated) } }
spec fn twf<T: Ord>(s: (Seq<T>, bool)) -> bool { sorted(s.0) }
/// r is the set that contains a value exactly when op of the memberships says so; co-finite exactly when op(..) of the flags
spec fn tand<T: Ord>(a: (Seq<T>, bool), b: (Seq<T>, bool), r: (Seq<T>, bool)) -> bool { sorted(r.0) && r.1 == (a.1 && b.1) && forall|v: T| #[trigger] tmem(r, v) == (tmem(a, v) && tmem(b, v)) }
spec fn tor<T: Ord>(a: (Seq<T>, bool), b: (Seq<T>, bool), r: (Seq<T>, bool)) -> bool { sorted(r.0) && r.1 == (a.1 || b.1) && forall|v: T| #[trigger] tmem(r, v) == (tmem(a, v) || tmem(b, v)) }
spec fn txor<T: Ord>(a: (Seq<T>, bool), b: (Seq<T>, bool), r: (Seq<T>, bool)) -> bool { sorted(r.0) && r.1 == (a.1 != b.1) && forall|v: T| #[trigger] tmem(r, v) == (tmem(a, v) != tmem(b, v)) }
spec fn tsub<T: Ord>(a: (Seq<T>, bool), b: (Seq<T>, bool), r: (Seq<T>, bool)) -> bool { sorted(r.0) && r.1 == (a.1 && !b.1) && forall|v: T| #[trigger] tmem(r, v) == (tmem(a, v) && !tmem(b, v)) }

//@ head src/total_vec_set.rs TotalVecSet # is_empty
//@ fn src/total_vec_set.rs | TotalVecSet | new
//@ ret r
    ensures r@ == (elements@, negated)
//@ endfn
//@ tag tset.pred
//@ fn src/total_vec_set.rs | TotalVecSet | is_empty
//@ ret r
    ensures r == (!self@.1 && self@.0.len() == 0)
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | is_all
//@ ret r
    ensures r == (self@.1 && self@.0.len() == 0)
//@ endfn
//@ tag tset
//@ fn src/total_vec_set.rs | TotalVecSet | constant
//@ ret r
    ensures r@ == (Seq::<T>::empty(), value)
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | empty
//@ ret r
    ensures r@ == (Seq::<T>::empty(), false)
//@ rw `false . into ( )` => `<TotalVecSet<A> as From<bool>>::from(false)`
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | all
//@ ret r
    ensures r@ == (Seq::<T>::empty(), true)
//@ rw `true . into ( )` => `<TotalVecSet<A> as From<bool>>::from(true)`
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | shrink_to_fit
    ensures final(self)@ == old(self)@
//@ endfn
}
//@ head src/total_vec_set.rs From<bool> for TotalVecSet<A>
    spec fn from_req(v: bool) -> bool { true }
    spec fn from_ens(v: bool, r: Self) -> bool { r@ == (Seq::<T>::empty(), v) }
//@ fn src/total_vec_set.rs | From<bool> for TotalVecSet<A> | from
//@ endfn
}
//@ head src/total_vec_set.rs From<VecSet<A>> for TotalVecSet<A>
    spec fn from_req(v: VecSet<A>) -> bool { true }
    spec fn from_ens(v: VecSet<A>, r: Self) -> bool { r@ == (v@, false) }
//@ fn src/total_vec_set.rs | From<VecSet<A>> for TotalVecSet<A> | from
//@ endfn
}
//@ tag tset.pred
/// is_empty and is_all in terms of membership (over an unbounded universe)
proof fn lemma_empty_all<T: Ord>(s: (Seq<T>, bool))
    requires ord_laws::<T>(), unbounded::<T>()
    ensures (!s.1 && s.0.len() == 0) == (forall|v: T| !#[trigger] tmem(s, v)), (s.1 && s.0.len() == 0) == (forall|v: T| #[trigger] tmem(s, v))
{
    let f = lemma_fresh(s.0, s.0);
    assert(tmem(s, f) == s.1);
    if s.0.len() > 0 { let x = s.0[0]; lemma_laws(x, x, x); assert(mem(s.0, x)); assert(tmem(s, x) == !s.1); }
}
proof fn lemma_tpred<T: Ord>(a: (Seq<T>, bool), b: (Seq<T>, bool))
    requires ord_laws::<T>(), unbounded::<T>()
    ensures
      !a.1 && !b.1 ==> (forall|v: T| #[trigger] mem(a.0, v) ==> mem(b.0, v)) == (forall|v: T| #[trigger] tmem(a, v) ==> tmem(b, v)),
      !a.1 && b.1 ==> !(exists|v: T| mem(a.0, v) && #[trigger] mem(b.0, v)) == (forall|v: T| #[trigger] tmem(a, v) ==> tmem(b, v)),
      a.1 && !b.1 ==> !(forall|v: T| #[trigger] tmem(a, v) ==> tmem(b, v)),
      a.1 && b.1 ==> (forall|v: T| #[trigger] mem(b.0, v) ==> mem(a.0, v)) == (forall|v: T| #[trigger] tmem(a, v) ==> tmem(b, v)),
      !a.1 && !b.1 ==> !(exists|v: T| mem(a.0, v) && #[trigger] mem(b.0, v)) == !(exists|v: T| tmem(a, v) && #[trigger] tmem(b, v)),
      !a.1 && b.1 ==> (forall|v: T| #[trigger] mem(a.0, v) ==> mem(b.0, v)) == !(exists|v: T| tmem(a, v) && #[trigger] tmem(b, v)),
      a.1 && !b.1 ==> (forall|v: T| #[trigger] mem(b.0, v) ==> mem(a.0, v)) == !(exists|v: T| tmem(a, v) && #[trigger] tmem(b, v)),
      a.1 && b.1 ==> (exists|v: T| tmem(a, v) && #[trigger] tmem(b, v))
{
    let f = lemma_fresh(a.0, b.0);
    assert(tmem(a, f) == a.1 && tmem(b, f) == b.1);
    assert forall|v: T| #[trigger] mem(a.0, v) == (a.1 != tmem(a, v)) by {}
    assert forall|v: T| #[trigger] mem(b.0, v) == (b.1 != tmem(b, v)) by {}
    let s1 = forall|v: T| #[trigger] mem(a.0, v) ==> mem(b.0, v);
    let s2 = forall|v: T| #[trigger] mem(b.0, v) ==> mem(a.0, v);
    let d = exists|v: T| mem(a.0, v) && #[trigger] mem(b.0, v);
    let ts = forall|v: T| #[trigger] tmem(a, v) ==> tmem(b, v);
    let td = exists|v: T| tmem(a, v) && #[trigger] tmem(b, v);
    if !s1 { let v = choose|v: T| #[trigger] mem(a.0, v) && !mem(b.0, v); assert(tmem(a, v) == !a.1 && tmem(b, v) == b.1); }
    if !s2 { let v = choose|v: T| #[trigger] mem(b.0, v) && !mem(a.0, v); assert(tmem(a, v) == a.1 && tmem(b, v) == !b.1); }
    if d { let v = choose|v: T| mem(a.0, v) && #[trigger] mem(b.0, v); assert(tmem(a, v) == !a.1 && tmem(b, v) == !b.1); }
    if !ts { let v = choose|v: T| #[trigger] tmem(a, v) && !tmem(b, v); assert(mem(a.0, v) == !a.1 && mem(b.0, v) == b.1); }
    if td { let v = choose|v: T| tmem(a, v) && #[trigger] tmem(b, v); assert(mem(a.0, v) == !a.1 && mem(b.0, v) == !b.1); }
}
//@ head src/total_vec_set.rs TotalVecSet # is_subset
//@ fn src/total_vec_set.rs | TotalVecSet | contains
//@ ret r
    requires ord_laws::<T>(), sorted(self@.0)
    ensures r == tmem(self@, *value)
//@ endfn
//@ tag tset.point
//@ fn src/total_vec_set.rs | TotalVecSet | insert
    requires ord_laws::<T>(), sorted(old(self)@.0)
    ensures sorted(final(self)@.0), final(self)@.1 == old(self)@.1, forall|v: T| #[trigger] tmem(final(self)@, v) == (tmem(old(self)@, v) || oc(that, v) == Ordering::Equal)
//@ endfn
//@ tag tset.pred
//@ fn src/total_vec_set.rs | TotalVecSet | is_superset
//@ ret r
    requires ord_laws::<T>(), unbounded::<T>(), sorted(self@.0), sorted(that@.0)
    ensures r == (forall|v: T| #[trigger] tmem(that@, v) ==> tmem(self@, v))
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | is_subset
//@ ret r
    requires ord_laws::<T>(), unbounded::<T>(), sorted(self@.0), sorted(that@.0)
    ensures r == (forall|v: T| #[trigger] tmem(self@, v) ==> tmem(that@, v))
//@ start
    proof { lemma_tpred(self@, that@); }
//@ endfn
//@ fn src/total_vec_set.rs | TotalVecSet | is_disjoint
//@ ret r
    requires ord_laws::<T>(), unbounded::<T>(), sorted(self@.0), sorted(that@.0)
    ensures r == !(exists|v: T| tmem(self@, v) && #[trigger] tmem(that@, v))
//@ start
    proof { lemma_tpred(self@, that@); }
//@ endfn
}
//@ tag tset.point
//@ head src/total_vec_set.rs TotalVecSet # remove
//@ fn src/total_vec_set.rs | TotalVecSet | remove
    requires ord_laws::<T>(), clone_ok::<T>(), sorted(old(self)@.0)
    ensures sorted(final(self)@.0), final(self)@.1 == old(self)@.1, forall|v: T| #[trigger] tmem(final(self)@, v) == (tmem(old(self)@, v) && oc(*that, v) != Ordering::Equal)
//@ endfn
}
//@ tag tset.byref
//@ head src/total_vec_set.rs BitAnd for &TotalVecSet<A>
//@ types src/total_vec_set.rs BitAnd for &TotalVecSet<A>
    spec fn bitand_req(self, that: Self) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitand_ens(self, that: Self, r: TotalVecSet<A>) -> bool { tand(self@, that@, r@) }
//@ fn src/total_vec_set.rs | BitAnd for &TotalVecSet<A> | bitand
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ rw `& self . elements & & that . elements` => `(&self.elements).bitand(&that.elements)`
//@ rw `& that . elements & & self . elements` => `(&that.elements).bitand(&self.elements)`
//@ rw `& self . elements | & that . elements` => `(&self.elements).bitor(&that.elements)`
//@ rw `& that . elements | & self . elements` => `(&that.elements).bitor(&self.elements)`
//@ rw `& self . elements ^ & that . elements` => `(&self.elements).bitxor(&that.elements)`
//@ rw `& that . elements ^ & self . elements` => `(&that.elements).bitxor(&self.elements)`
//@ rw `& self . elements - & that . elements` => `(&self.elements).sub(&that.elements)`
//@ rw `& that . elements - & self . elements` => `(&that.elements).sub(&self.elements)`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.inplace
//@ head src/total_vec_set.rs BitAndAssign for TotalVecSet<A>
    spec fn bitand_assign_req(self, that: Self) -> bool { ord_laws::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitand_assign_ens(self, that: Self, fin: Self) -> bool { tand(self@, that@, fin@) }
//@ fn src/total_vec_set.rs | BitAndAssign for TotalVecSet<A> | bitand_assign
//@ rw `self . elements &= that . elements ;` => `self.elements.bitand_assign(that.elements);`
//@ rw `self . elements |= that . elements ;` => `self.elements.bitor_assign(that.elements);`
//@ rw `self . elements ^= that . elements ;` => `self.elements.bitxor_assign(that.elements);`
//@ rw `self . elements -= that . elements ;` => `self.elements.sub_assign(that.elements);`
//@ rw `mem :: swap` => `core::mem::swap`
//@ rw `self . negated ^= that . negated` => `self.negated = self.negated ^ that.negated`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.byref
//@ head src/total_vec_set.rs BitOr for &TotalVecSet<A>
//@ types src/total_vec_set.rs BitOr for &TotalVecSet<A>
    spec fn bitor_req(self, that: Self) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitor_ens(self, that: Self, r: TotalVecSet<A>) -> bool { tor(self@, that@, r@) }
//@ fn src/total_vec_set.rs | BitOr for &TotalVecSet<A> | bitor
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ rw `& self . elements & & that . elements` => `(&self.elements).bitand(&that.elements)`
//@ rw `& that . elements & & self . elements` => `(&that.elements).bitand(&self.elements)`
//@ rw `& self . elements | & that . elements` => `(&self.elements).bitor(&that.elements)`
//@ rw `& that . elements | & self . elements` => `(&that.elements).bitor(&self.elements)`
//@ rw `& self . elements ^ & that . elements` => `(&self.elements).bitxor(&that.elements)`
//@ rw `& that . elements ^ & self . elements` => `(&that.elements).bitxor(&self.elements)`
//@ rw `& self . elements - & that . elements` => `(&self.elements).sub(&that.elements)`
//@ rw `& that . elements - & self . elements` => `(&that.elements).sub(&self.elements)`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.inplace
//@ head src/total_vec_set.rs BitOrAssign for TotalVecSet<A>
    spec fn bitor_assign_req(self, that: Self) -> bool { ord_laws::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitor_assign_ens(self, that: Self, fin: Self) -> bool { tor(self@, that@, fin@) }
//@ fn src/total_vec_set.rs | BitOrAssign for TotalVecSet<A> | bitor_assign
//@ rw `self . elements &= that . elements ;` => `self.elements.bitand_assign(that.elements);`
//@ rw `self . elements |= that . elements ;` => `self.elements.bitor_assign(that.elements);`
//@ rw `self . elements ^= that . elements ;` => `self.elements.bitxor_assign(that.elements);`
//@ rw `self . elements -= that . elements ;` => `self.elements.sub_assign(that.elements);`
//@ rw `mem :: swap` => `core::mem::swap`
//@ rw `self . negated ^= that . negated` => `self.negated = self.negated ^ that.negated`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.byref
//@ head src/total_vec_set.rs BitXor for &TotalVecSet<A>
//@ types src/total_vec_set.rs BitXor for &TotalVecSet<A>
    spec fn bitxor_req(self, that: Self) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitxor_ens(self, that: Self, r: TotalVecSet<A>) -> bool { txor(self@, that@, r@) }
//@ fn src/total_vec_set.rs | BitXor for &TotalVecSet<A> | bitxor
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ rw `& self . elements & & that . elements` => `(&self.elements).bitand(&that.elements)`
//@ rw `& that . elements & & self . elements` => `(&that.elements).bitand(&self.elements)`
//@ rw `& self . elements | & that . elements` => `(&self.elements).bitor(&that.elements)`
//@ rw `& that . elements | & self . elements` => `(&that.elements).bitor(&self.elements)`
//@ rw `& self . elements ^ & that . elements` => `(&self.elements).bitxor(&that.elements)`
//@ rw `& that . elements ^ & self . elements` => `(&that.elements).bitxor(&self.elements)`
//@ rw `& self . elements - & that . elements` => `(&self.elements).sub(&that.elements)`
//@ rw `& that . elements - & self . elements` => `(&that.elements).sub(&self.elements)`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.inplace
//@ head src/total_vec_set.rs BitXorAssign for TotalVecSet<A>
    spec fn bitxor_assign_req(self, that: Self) -> bool { ord_laws::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn bitxor_assign_ens(self, that: Self, fin: Self) -> bool { txor(self@, that@, fin@) }
//@ fn src/total_vec_set.rs | BitXorAssign for TotalVecSet<A> | bitxor_assign
//@ rw `self . elements &= that . elements ;` => `self.elements.bitand_assign(that.elements);`
//@ rw `self . elements |= that . elements ;` => `self.elements.bitor_assign(that.elements);`
//@ rw `self . elements ^= that . elements ;` => `self.elements.bitxor_assign(that.elements);`
//@ rw `self . elements -= that . elements ;` => `self.elements.sub_assign(that.elements);`
//@ rw `mem :: swap` => `core::mem::swap`
//@ rw `self . negated ^= that . negated` => `self.negated = self.negated ^ that.negated`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.byref
//@ head src/total_vec_set.rs Sub for &TotalVecSet<A>
//@ types src/total_vec_set.rs Sub for &TotalVecSet<A>
    spec fn sub_req(self, that: Self) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn sub_ens(self, that: Self, r: TotalVecSet<A>) -> bool { tsub(self@, that@, r@) }
//@ fn src/total_vec_set.rs | Sub for &TotalVecSet<A> | sub
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ rw `& self . elements & & that . elements` => `(&self.elements).bitand(&that.elements)`
//@ rw `& that . elements & & self . elements` => `(&that.elements).bitand(&self.elements)`
//@ rw `& self . elements | & that . elements` => `(&self.elements).bitor(&that.elements)`
//@ rw `& that . elements | & self . elements` => `(&that.elements).bitor(&self.elements)`
//@ rw `& self . elements ^ & that . elements` => `(&self.elements).bitxor(&that.elements)`
//@ rw `& that . elements ^ & self . elements` => `(&that.elements).bitxor(&self.elements)`
//@ rw `& self . elements - & that . elements` => `(&self.elements).sub(&that.elements)`
//@ rw `& that . elements - & self . elements` => `(&that.elements).sub(&self.elements)`
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ tag tset.inplace
//@ head src/total_vec_set.rs SubAssign for TotalVecSet<A>
    spec fn sub_assign_req(self, that: Self) -> bool { ord_laws::<T>() && sorted(self@.0) && sorted(that@.0) }
    spec fn sub_assign_ens(self, that: Self, fin: Self) -> bool { tsub(self@, that@, fin@) }
//@ fn src/total_vec_set.rs | SubAssign for TotalVecSet<A> | sub_assign
//@ rw `self . elements &= that . elements ;` => `self.elements.bitand_assign(that.elements);`
//@ rw `self . elements |= that . elements ;` => `self.elements.bitor_assign(that.elements);`
//@ rw `self . elements ^= that . elements ;` => `self.elements.bitxor_assign(that.elements);`
//@ rw `self . elements -= that . elements ;` => `self.elements.sub_assign(that.elements);`
//@ rw `mem :: swap` => `core::mem::swap`
//@ rw `self . negated ^= that . negated` => `self.negated = self.negated ^ that.negated`
//@ start
    broadcast use group_sets;
//@ endfn
}
trait Not: Sized {
    type Output;
    spec fn not_req(self) -> bool;
    spec fn not_ens(self, r: Self::Output) -> bool;
    fn not(self) -> (r: Self::Output) requires self.not_req() ensures self.not_ens(r);
}
//@ tag tset.byref
//@ head src/total_vec_set.rs Not for &TotalVecSet<A>
//@ types src/total_vec_set.rs Not for &TotalVecSet<A>
    spec fn not_req(self) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@.0) }
    spec fn not_ens(self, r: TotalVecSet<A>) -> bool { sorted(r@.0) && r@.1 == !self@.1 && forall|v: T| #[trigger] tmem(r@, v) == !tmem(self@, v) }
//@ fn src/total_vec_set.rs | Not for &TotalVecSet<A> | not
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ endfn
}
//@ tag tset.inplace
//@ head src/total_vec_set.rs Not for TotalVecSet<A>
//@ types src/total_vec_set.rs Not for TotalVecSet<A>
    spec fn not_req(self) -> bool { ord_laws::<T>() && true && sorted(self@.0) }
    spec fn not_ens(self, r: TotalVecSet<A>) -> bool { sorted(r@.0) && r@.1 == !self@.1 && forall|v: T| #[trigger] tmem(r@, v) == !tmem(self@, v) }
//@ fn src/total_vec_set.rs | Not for TotalVecSet<A> | not
//@ sigrw `Self :: Output` => `TotalVecSet<A>`
//@ rw `Self :: Output :: new` => `TotalVecSet::<A>::new`
//@ endfn
}
