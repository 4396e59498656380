//@ include setops.vrs
//@ tag set
//@ # ---- src/vec_set.rs: VecSet -----------------------------------------------------------------------
#[verifier::reject_recursive_types(A)]
//@ struct src/vec_set.rs VecSet
impl<A: Array> View for VecSet<A> { type V = Seq<A::Item>; closed spec fn view(&self) -> Seq<A::Item> { self.0@ } }

trait AbstractVecSet<T: Ord>: Sized {
    spec fn els(&self) -> Seq<T>;
//@ fn src/vec_set.rs | trait AbstractVecSet | as_slice
//@ ret r
    ensures r@ == self.els()
//@ endfn
}
/// the default methods of AbstractVecSet (no impl overrides them), lifted to a blanket-implemented trait
//@ forbid src/vec_set.rs AbstractVecSet is_empty contains is_disjoint is_subset is_superset union intersection symmetric_difference difference
trait AbstractVecSetOps<T: Ord>: AbstractVecSet<T> {
//@ tag set.pred
//@ fn src/vec_set.rs | trait AbstractVecSet | is_empty
//@ decl
//@ ret r
    ensures r == (self.els().len() == 0)
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | contains
//@ decl
//@ ret r
    requires ord_laws::<T>(), sorted(self.els())
    ensures r == mem(self.els(), *value)
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_disjoint
//@ decl
//@ ret r
    requires ord_laws::<T>(), sorted(self.els()), sorted(that.els())
    ensures r == !(exists|v: T| mem(self.els(), v) && #[trigger] mem(that.els(), v))
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_subset
//@ decl
//@ ret r
    requires ord_laws::<T>(), sorted(self.els()), sorted(that.els())
    ensures r == (forall|v: T| #[trigger] mem(self.els(), v) ==> mem(that.els(), v))
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_superset
//@ decl
//@ ret r
    requires ord_laws::<T>(), sorted(self.els()), sorted(that.els())
    ensures r == (forall|v: T| #[trigger] mem(that.els(), v) ==> mem(self.els(), v))
//@ endfn
//@ tag set.byref
//@ fn src/vec_set.rs | trait AbstractVecSet | union
//@ decl
//@ ret r
    requires ord_laws::<T>(), clone_ok::<T>(), sorted(self.els()), sorted(that.els())
    ensures setop_ok(true, true, true, self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | intersection
//@ decl
//@ ret r
    requires ord_laws::<T>(), clone_ok::<T>(), sorted(self.els()), sorted(that.els())
    ensures setop_ok(false, false, true, self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | symmetric_difference
//@ decl
//@ ret r
    requires ord_laws::<T>(), clone_ok::<T>(), sorted(self.els()), sorted(that.els())
    ensures setop_ok(true, true, false, self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | difference
//@ decl
//@ ret r
    requires ord_laws::<T>(), clone_ok::<T>(), sorted(self.els()), sorted(that.els())
    ensures setop_ok(true, false, false, self.els(), that.els(), r@)
//@ endfn
}
impl<T: Ord, X: AbstractVecSet<T>> AbstractVecSetOps<T> for X {
//@ tag set.pred
//@ fn src/vec_set.rs | trait AbstractVecSet | is_empty
//@ ret r
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | contains
//@ ret r
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_disjoint
//@ ret r
//@ start
    broadcast use group_sets;
    proof {
      if exists|v: T| #[trigger] setop_mem(false, false, true, self.els(), that.els(), v) { let v = choose|v: T| #[trigger] setop_mem(false, false, true, self.els(), that.els(), v); assert(mem(self.els(), v)); }
      assert forall|v: T| #[trigger] mem(self.els(), v) implies !mem(that.els(), v) || setop_mem(false, false, true, self.els(), that.els(), v) by {}
    }
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_subset
//@ ret r
//@ start
    broadcast use group_sets;
    proof {
      if exists|v: T| #[trigger] setop_mem(true, false, false, self.els(), that.els(), v) { let v = choose|v: T| #[trigger] setop_mem(true, false, false, self.els(), that.els(), v); assert(mem(self.els(), v)); }
      assert forall|v: T| #[trigger] mem(self.els(), v) implies mem(that.els(), v) || setop_mem(true, false, false, self.els(), that.els(), v) by {}
    }
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | is_superset
//@ ret r
//@ start
    broadcast use group_sets;
    proof {
      if exists|v: T| #[trigger] setop_mem(true, false, false, that.els(), self.els(), v) { let v = choose|v: T| #[trigger] setop_mem(true, false, false, that.els(), self.els(), v); assert(mem(that.els(), v)); }
      assert forall|v: T| #[trigger] mem(that.els(), v) implies mem(self.els(), v) || setop_mem(true, false, false, that.els(), self.els(), v) by {}
    }
//@ endfn
//@ tag set.byref
//@ fn src/vec_set.rs | trait AbstractVecSet | union
//@ ret r
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | intersection
//@ ret r
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | symmetric_difference
//@ ret r
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | trait AbstractVecSet | difference
//@ ret r
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs AbstractVecSet for VecSet
   spec fn els(&self) -> Seq<A::Item> { self@ }
//@ tag set
//@ fn src/vec_set.rs | AbstractVecSet for VecSet | as_slice
//@ endfn
}

//@ # vec_set.rs: operator traits (stand-ins for core::ops, so that contracts can be attached)
trait BitAnd<R = Self>: Sized {
    type Output;
    spec fn bitand_req(self, that: R) -> bool;
    spec fn bitand_ens(self, that: R, r: Self::Output) -> bool;
    fn bitand(self, that: R) -> (r: Self::Output)
      requires self.bitand_req(that)
      ensures self.bitand_ens(that, r);
}
trait BitAndAssign<R = Self>: Sized {
    spec fn bitand_assign_req(self, that: R) -> bool;
    spec fn bitand_assign_ens(self, that: R, fin: Self) -> bool;
    fn bitand_assign(&mut self, that: R)
      requires old(self).bitand_assign_req(that)
      ensures old(self).bitand_assign_ens(that, *final(self));
}
trait BitOr<R = Self>: Sized {
    type Output;
    spec fn bitor_req(self, that: R) -> bool;
    spec fn bitor_ens(self, that: R, r: Self::Output) -> bool;
    fn bitor(self, that: R) -> (r: Self::Output)
      requires self.bitor_req(that)
      ensures self.bitor_ens(that, r);
}
trait BitOrAssign<R = Self>: Sized {
    spec fn bitor_assign_req(self, that: R) -> bool;
    spec fn bitor_assign_ens(self, that: R, fin: Self) -> bool;
    fn bitor_assign(&mut self, that: R)
      requires old(self).bitor_assign_req(that)
      ensures old(self).bitor_assign_ens(that, *final(self));
}
trait BitXor<R = Self>: Sized {
    type Output;
    spec fn bitxor_req(self, that: R) -> bool;
    spec fn bitxor_ens(self, that: R, r: Self::Output) -> bool;
    fn bitxor(self, that: R) -> (r: Self::Output)
      requires self.bitxor_req(that)
      ensures self.bitxor_ens(that, r);
}
trait BitXorAssign<R = Self>: Sized {
    spec fn bitxor_assign_req(self, that: R) -> bool;
    spec fn bitxor_assign_ens(self, that: R, fin: Self) -> bool;
    fn bitxor_assign(&mut self, that: R)
      requires old(self).bitxor_assign_req(that)
      ensures old(self).bitxor_assign_ens(that, *final(self));
}
trait Sub<R = Self>: Sized {
    type Output;
    spec fn sub_req(self, that: R) -> bool;
    spec fn sub_ens(self, that: R, r: Self::Output) -> bool;
    fn sub(self, that: R) -> (r: Self::Output)
      requires self.sub_req(that)
      ensures self.sub_ens(that, r);
}
trait SubAssign<R = Self>: Sized {
    spec fn sub_assign_req(self, that: R) -> bool;
    spec fn sub_assign_ens(self, that: R, fin: Self) -> bool;
    fn sub_assign(&mut self, that: R)
      requires old(self).sub_assign_req(that)
      ensures old(self).sub_assign_ens(that, *final(self));
}

//@ head src/vec_set.rs VecSet # new_unsafe
//@ fn src/vec_set.rs | VecSet | new_unsafe
//@ ret r
    ensures r@ == a@
//@ endfn
//@ tag set.point
//@ fn src/vec_set.rs | VecSet | single
//@ ret r
    ensures r@ == seq![value]
//@ end
    assert(vx_r@ =~= seq![value]);
//@ endfn
//@ fn src/vec_set.rs | VecSet | empty
//@ ret r
    ensures r@ == Seq::<A::Item>::empty()
//@ endfn
//@ tag set
//@ fn src/vec_set.rs | VecSet | as_slice
//@ ret r
    ensures r@ == self@
//@ rw `& self . 0` => `self.0.as_slice()`
//@ endfn
//@ fn src/vec_set.rs | AsRef<[A::Item]> for VecSet | as_ref
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/vec_set.rs | VecSet | len
//@ ret r
    ensures r == self@.len()
//@ endfn
//@ tag set.point
//@ fn src/vec_set.rs | VecSet | shrink_to_fit
    ensures final(self)@ == old(self)@
//@ endfn
//@ tag set
//@ fn src/vec_set.rs | VecSet | is_empty
//@ ret r
    ensures r == (self@.len() == 0)
//@ endfn
//@ tag set.point
//@ fn src/vec_set.rs | VecSet | into_inner
//@ ret r
    ensures r@ == self@
//@ endfn
}
//@ tag set.point
proof fn lemma_insert_sorted<T: Ord>(s: Seq<T>, i: int, v: T)
    requires ord_laws::<T>(), sorted(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] oc(s[j], v) == Ordering::Less,
      forall|j: int| i <= j < s.len() ==> #[trigger] oc(s[j], v) == Ordering::Greater
    ensures sorted(s.insert(i, v)), !mem(s, v), forall|w: T| #[trigger] mem(s.insert(i, v), w) == (mem(s, w) || oc(v, w) == Ordering::Equal)
{
    let t = s.insert(i, v);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] oc(t[x], t[y]) == Ordering::Less by {
        let x0 = if x < i { x } else { x - 1 };
        let y0 = if y < i { y } else { y - 1 };
        if x == i { assert(oc(s[y0], v) == Ordering::Greater); lemma_laws(s[y0], v, v); }
        else if y == i { assert(oc(s[x0], v) == Ordering::Less); }
        else { assert(t[x] == s[x0]); assert(t[y] == s[y0]); assert(oc(s[x0], s[y0]) == Ordering::Less); }
    }
    assert forall|w: T| #[trigger] mem(t, w) == (mem(s, w) || oc(v, w) == Ordering::Equal) by {
        if mem(t, w) {
            let k = choose|k: int| 0 <= k < t.len() && #[trigger] oc(t[k], w) == Ordering::Equal;
            if k != i { let k0 = if k < i { k } else { k - 1 }; assert(t[k] == s[k0]); assert(oc(s[k0], w) == Ordering::Equal); }
        }
        if mem(s, w) {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] oc(s[k], w) == Ordering::Equal;
            let k1 = if k < i { k } else { k + 1 };
            assert(t[k1] == s[k]); assert(oc(t[k1], w) == Ordering::Equal);
        }
        if oc(v, w) == Ordering::Equal { assert(t[i] == v); assert(oc(t[i], w) == Ordering::Equal); }
    }
}
proof fn lemma_update_sorted<T: Ord>(s: Seq<T>, i: int, v: T)
    requires ord_laws::<T>(), sorted(s), 0 <= i < s.len(), oc(s[i], v) == Ordering::Equal
    ensures sorted(s.update(i, v)), mem(s, v), forall|w: T| #[trigger] mem(s.update(i, v), w) == mem(s, w)
{
    let t = s.update(i, v);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] oc(t[x], t[y]) == Ordering::Less by {
        assert(oc(s[x], s[y]) == Ordering::Less);
        if x == i { lemma_laws(s[i], v, s[y]); lemma_laws(v, s[i], s[y]); }
        if y == i { lemma_laws(s[x], s[i], v); }
    }
    assert forall|w: T| #[trigger] mem(t, w) == mem(s, w) by {
        lemma_laws(s[i], v, w); lemma_laws(v, s[i], w);
        if mem(t, w) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] oc(t[k], w) == Ordering::Equal; if k != i { assert(oc(s[k], w) == Ordering::Equal); } else { assert(oc(s[i], w) == Ordering::Equal); } }
        if mem(s, w) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] oc(s[k], w) == Ordering::Equal; assert(oc(t[k], w) == Ordering::Equal); }
    }
}
proof fn lemma_remove_sorted<T: Ord>(s: Seq<T>, i: int, v: T)
    requires ord_laws::<T>(), sorted(s), 0 <= i < s.len(), oc(s[i], v) == Ordering::Equal
    ensures sorted(s.remove(i)), mem(s, v), forall|w: T| #[trigger] mem(s.remove(i), w) == (mem(s, w) && oc(v, w) != Ordering::Equal)
{
    let t = s.remove(i);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] oc(t[x], t[y]) == Ordering::Less by {
        let x0 = if x < i { x } else { x + 1 };
        let y0 = if y < i { y } else { y + 1 };
        assert(t[x] == s[x0]); assert(t[y] == s[y0]); assert(oc(s[x0], s[y0]) == Ordering::Less);
    }
    assert forall|w: T| #[trigger] mem(t, w) == (mem(s, w) && oc(v, w) != Ordering::Equal) by {
        lemma_laws(s[i], v, w); lemma_laws(v, s[i], w);
        if mem(t, w) {
            let k = choose|k: int| 0 <= k < t.len() && #[trigger] oc(t[k], w) == Ordering::Equal;
            let k0 = if k < i { k } else { k + 1 };
            assert(t[k] == s[k0]); assert(oc(s[k0], w) == Ordering::Equal);
            if oc(v, w) == Ordering::Equal {
                lemma_laws(s[i], v, w); lemma_laws(s[k0], w, s[i]); lemma_laws(w, s[i], w); lemma_laws(s[i], w, s[k0]);
                if k0 < i { assert(oc(s[k0], s[i]) == Ordering::Less); } else { assert(oc(s[i], s[k0]) == Ordering::Less); }
                lemma_laws(s[k0], s[i], w);
            }
        }
        if mem(s, w) && oc(v, w) != Ordering::Equal {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] oc(s[k], w) == Ordering::Equal;
            assert(k != i);
            let k1 = if k < i { k } else { k - 1 };
            assert(t[k1] == s[k]); assert(oc(t[k1], w) == Ordering::Equal);
        }
    }
}
//@ head src/vec_set.rs VecSet # insert
//@ fn src/vec_set.rs | VecSet | insert
//@ ret r
    requires ord_laws::<A::Item>(), sorted(old(self)@)
    ensures sorted(final(self)@), r == !mem(old(self)@, that), contains(final(self)@, that),
       forall|w: A::Item| #[trigger] mem(final(self)@, w) == (mem(old(self)@, w) || oc(that, w) == Ordering::Equal)
//@ rw `self . 0 . binary_search ( $$x )` => `self.0.as_slice().binary_search($x)`
//@ rw `self . 0 [ $i ] = $$e ;` => `self.0.set($i, $e);`
//@ start
    let ghost s0 = self@;
    let ghost v0 = that;
    proof {
       lemma_laws(that, that, that);
       assert forall|i: int| 0 <= i < s0.len() && #[trigger] oc(s0[i], v0) == Ordering::Equal implies sorted(s0.update(i, v0)) && mem(s0, v0) && s0.update(i, v0)[i] == v0 && (forall|w: A::Item| #[trigger] mem(s0.update(i, v0), w) == mem(s0, w)) by { lemma_update_sorted(s0, i, v0); }
       assert forall|w: A::Item| mem(s0, v0) && #[trigger] oc(v0, w) == Ordering::Equal implies mem(s0, w) by { lemma_mem_eqv(s0, v0, w); }
    }
//@ before `self . 0 . insert`
    proof { lemma_insert_sorted(s0, index as int, v0); assert(s0.insert(index as int, v0)[index as int] == v0); }
//@ endfn
//@ fn src/vec_set.rs | VecSet | remove
//@ ret r
    requires ord_laws::<A::Item>(), sorted(old(self)@)
    ensures sorted(final(self)@), r == mem(old(self)@, *that),
       forall|w: A::Item| #[trigger] mem(final(self)@, w) == (mem(old(self)@, w) && oc(*that, w) != Ordering::Equal)
//@ rw `self . 0 . binary_search ( $$x )` => `self.0.as_slice().binary_search($x)`
//@ start
    let ghost s0 = self@;
    proof {
       assert forall|i: int| 0 <= i < s0.len() && #[trigger] oc(s0[i], *that) == Ordering::Equal implies sorted(s0.remove(i)) && mem(s0, *that) && (forall|w: A::Item| #[trigger] mem(s0.remove(i), w) == (mem(s0, w) && oc(*that, w) != Ordering::Equal)) by { lemma_remove_sorted(s0, i, *that); }
       assert forall|w: A::Item| !mem(s0, *that) && #[trigger] mem(s0, w) implies oc(*that, w) != Ordering::Equal by { lemma_laws(*that, w, w); if oc(*that, w) == Ordering::Equal { lemma_mem_eqv(s0, w, *that); } }
    }
//@ endfn
}
//@ head src/vec_set.rs VecSet # union
//@ tag set.byref
//@ fn src/vec_set.rs | VecSet | union
//@ ret r
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(self@), sorted(that.els())
    ensures setop_ok(true, true, true, self@, that.els(), r@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | intersection
//@ ret r
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(self@), sorted(that.els())
    ensures setop_ok(false, false, true, self@, that.els(), r@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | symmetric_difference
//@ ret r
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(self@), sorted(that.els())
    ensures setop_ok(true, true, false, self@, that.els(), r@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | difference
//@ ret r
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(self@), sorted(that.els())
    ensures setop_ok(true, false, false, self@, that.els(), r@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ tag set.inplace
//@ fn src/vec_set.rs | VecSet | union_with
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(old(self)@), sorted(that.els())
    ensures setop_ok(true, true, true, old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | intersection_with
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(old(self)@), sorted(that.els())
    ensures setop_ok(false, false, true, old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | xor_with
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(old(self)@), sorted(that.els())
    ensures setop_ok(true, true, false, old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_sets;
//@ endfn
//@ fn src/vec_set.rs | VecSet | difference_with
    requires ord_laws::<A::Item>(), clone_ok::<A::Item>(), sorted(old(self)@), sorted(that.els())
    ensures setop_ok(true, false, false, old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitAnd<&VecSet<B>> for &VecSet<A>
//@ types src/vec_set.rs BitAnd<&VecSet<B>> for &VecSet<A>
    spec fn bitand_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitand_ens(self, that: &VecSet<B>, r: VecSet<A>) -> bool { setop_ok(false, false, true, self@, that@, r@) }
//@ tag set.byref
//@ fn src/vec_set.rs | BitAnd<&VecSet<B>> for &VecSet<A> | bitand
//@ endfn
}
//@ head src/vec_set.rs BitAndAssign<VecSet<B>> for VecSet<A>
    spec fn bitand_assign_req(self, that: VecSet<B>) -> bool { ord_laws::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitand_assign_ens(self, that: VecSet<B>, fin: Self) -> bool { setop_ok(false, false, true, self@, that@, fin@) }
//@ tag set.inplace
//@ fn src/vec_set.rs | BitAndAssign<VecSet<B>> for VecSet<A> | bitand_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitAndAssign<&VecSet<B>> for VecSet<A>
    spec fn bitand_assign_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitand_assign_ens(self, that: &VecSet<B>, fin: Self) -> bool { setop_ok(false, false, true, self@, that@, fin@) }
//@ fn src/vec_set.rs | BitAndAssign<&VecSet<B>> for VecSet<A> | bitand_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitOr<&VecSet<B>> for &VecSet<A>
//@ types src/vec_set.rs BitOr<&VecSet<B>> for &VecSet<A>
    spec fn bitor_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitor_ens(self, that: &VecSet<B>, r: VecSet<A>) -> bool { setop_ok(true, true, true, self@, that@, r@) }
//@ tag set.byref
//@ fn src/vec_set.rs | BitOr<&VecSet<B>> for &VecSet<A> | bitor
//@ endfn
}
//@ head src/vec_set.rs BitOrAssign<VecSet<B>> for VecSet<A>
    spec fn bitor_assign_req(self, that: VecSet<B>) -> bool { ord_laws::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitor_assign_ens(self, that: VecSet<B>, fin: Self) -> bool { setop_ok(true, true, true, self@, that@, fin@) }
//@ tag set.inplace
//@ fn src/vec_set.rs | BitOrAssign<VecSet<B>> for VecSet<A> | bitor_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitOrAssign<&VecSet<B>> for VecSet<A>
    spec fn bitor_assign_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitor_assign_ens(self, that: &VecSet<B>, fin: Self) -> bool { setop_ok(true, true, true, self@, that@, fin@) }
//@ fn src/vec_set.rs | BitOrAssign<&VecSet<B>> for VecSet<A> | bitor_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitXor<&VecSet<B>> for &VecSet<A>
//@ types src/vec_set.rs BitXor<&VecSet<B>> for &VecSet<A>
    spec fn bitxor_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitxor_ens(self, that: &VecSet<B>, r: VecSet<A>) -> bool { setop_ok(true, true, false, self@, that@, r@) }
//@ tag set.byref
//@ fn src/vec_set.rs | BitXor<&VecSet<B>> for &VecSet<A> | bitxor
//@ endfn
}
//@ head src/vec_set.rs BitXorAssign<VecSet<B>> for VecSet<A>
    spec fn bitxor_assign_req(self, that: VecSet<B>) -> bool { ord_laws::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitxor_assign_ens(self, that: VecSet<B>, fin: Self) -> bool { setop_ok(true, true, false, self@, that@, fin@) }
//@ tag set.inplace
//@ fn src/vec_set.rs | BitXorAssign<VecSet<B>> for VecSet<A> | bitxor_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs BitXorAssign<&VecSet<B>> for VecSet<A>
    spec fn bitxor_assign_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn bitxor_assign_ens(self, that: &VecSet<B>, fin: Self) -> bool { setop_ok(true, true, false, self@, that@, fin@) }
//@ fn src/vec_set.rs | BitXorAssign<&VecSet<B>> for VecSet<A> | bitxor_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs Sub<&VecSet<B>> for &VecSet<A>
//@ types src/vec_set.rs Sub<&VecSet<B>> for &VecSet<A>
    spec fn sub_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn sub_ens(self, that: &VecSet<B>, r: VecSet<A>) -> bool { setop_ok(true, false, false, self@, that@, r@) }
//@ tag set.byref
//@ fn src/vec_set.rs | Sub<&VecSet<B>> for &VecSet<A> | sub
//@ endfn
}
//@ head src/vec_set.rs SubAssign<VecSet<B>> for VecSet<A>
    spec fn sub_assign_req(self, that: VecSet<B>) -> bool { ord_laws::<T>() && sorted(self@) && sorted(that@) }
    spec fn sub_assign_ens(self, that: VecSet<B>, fin: Self) -> bool { setop_ok(true, false, false, self@, that@, fin@) }
//@ tag set.inplace
//@ fn src/vec_set.rs | SubAssign<VecSet<B>> for VecSet<A> | sub_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
//@ head src/vec_set.rs SubAssign<&VecSet<B>> for VecSet<A>
    spec fn sub_assign_req(self, that: &VecSet<B>) -> bool { ord_laws::<T>() && clone_ok::<T>() && sorted(self@) && sorted(that@) }
    spec fn sub_assign_ens(self, that: &VecSet<B>, fin: Self) -> bool { setop_ok(true, false, false, self@, that@, fin@) }
//@ fn src/vec_set.rs | SubAssign<&VecSet<B>> for VecSet<A> | sub_assign
//@ start
    broadcast use group_sets;
//@ endfn
}
