//@ include vec_set.vrs
//@ include colls.vrs
//@ include fpure.vrs
//@ tag set.point
//@ # ---- src/vec_set.rs: construction, retain, conversions ------------------------------------------------
//@ head src/vec_set.rs VecSet # from_vec
//@ fn src/vec_set.rs | VecSet | retain
//@ sigrw `FnMut` => `Fn`
    requires fpure1::<&A::Item, bool, F>(f), ord_laws::<A::Item>(), sorted(old(self)@)
    ensures final(self)@ == old(self)@.filter(|x: A::Item| keepf(&f, x)), sorted(final(self)@),
       forall|i: int| 0 <= i < final(self)@.len() ==> contains(old(self)@, #[trigger] final(self)@[i]) && keepf(&f, final(self)@[i]),
       forall|i: int| 0 <= i < old(self)@.len() && keepf(&f, #[trigger] old(self)@[i]) ==> contains(final(self)@, old(self)@[i])
//@ start
    let ghost fg = f;
    proof { reveal(fpure1); lemma_filter_set(self@, |x: A::Item| keepf(&fg, x)); }
//@ rw `self . 0 . retain ( | entry | $$e )` => `{ let vx_c = |entry: &A::Item| -> (vx_b: bool) ensures vx_b == keepf(&f, *entry) { $e }; proof { lemma_pure1(vx_c, |x: &A::Item| keepf(&fg, *x)); assert forall|x: A::Item| #[trigger] vx_c.ensures((&x,), true) == keepf(&fg, x) by { axiom_fv1_total(vx_c, &x); } assert((|x: A::Item| vx_c.ensures((&x,), true)) =~= (|x: A::Item| keepf(&fg, x))); } self.0.retain_by(vx_c) }`
//@ endfn
//@ fn src/vec_set.rs | VecSet | from_vec
//@ ret r
    requires ord_laws::<A::Item>()
    ensures set_of(vec@, r@)
//@ start
    let ghost v0 = vec@;
//@ rw `vec . sort ( ) ;` => `vx_sort(&mut vec); let ghost v1 = vec@; proof { lemma_oc_contiguous(v1); }`
//@ rw `vec . dedup ( ) ;` => `vx_dedup(&mut vec); proof { lemma_sort_dedup(v0, v1, vec@); }`
//@ endfn
}
//@ head src/vec_set.rs From<Vec<T>> for VecSet<A>
    spec fn from_req(v: Vec<T>) -> bool { ord_laws::<T>() }
    spec fn from_ens(v: Vec<T>, r: Self) -> bool { set_of(v@, r@) }
//@ fn src/vec_set.rs | From<Vec<T>> for VecSet<A> | from
//@ endfn
}
//@ head src/vec_set.rs From<BTreeSet<T>> for VecSet<A>
    spec fn from_req(v: BTreeSet<T>) -> bool { true }
    spec fn from_ens(v: BTreeSet<T>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_set.rs | From<BTreeSet<T>> for VecSet<A> | from
//@ rw `value . into_iter ( ) . collect ( )` => `vx_collect(value)`
//@ endfn
}
//@ head src/vec_set.rs FromIterator<T> for VecSet<A>
    spec fn fi_req() -> bool { ord_laws::<T>() }
    spec fn fi_ens(s: Seq<T>, r: Self) -> bool { set_of(s, r@) }
//@ fn src/vec_set.rs | FromIterator<T> for VecSet<A> | from_iter
//@ sigrw `IntoIterator` => `Iterator`
//@ rw `iter . into_iter ( )` => `iter`
//@ start
    let ghost s = iter.remaining();
//@ after `let mut vec : SmallVec < A > = $$x ;`
    proof { lemma_set_of(s, vec@); }
//@ endfn
}
//@ head src/vec_set.rs Extend<T> for VecSet<A>
    spec fn ex_req(self) -> bool { ord_laws::<T>() && sorted(self@) }
    spec fn ex_ens(self, s: Seq<T>, fin: Self) -> bool {
        sorted(fin@) && (forall|v: T| #[trigger] mem(fin@, v) == (mem(self@, v) || mem(s, v)))
        && forall|i: int| 0 <= i < fin@.len() ==> #[trigger] contains(self@, fin@[i]) || !mem(self@, fin@[i])
    }
//@ fn src/vec_set.rs | Extend<T> for VecSet<A> | extend
//@ sigrw `IntoIterator` => `Iterator`
//@ rw `* self |= $$e ;` => `self.bitor_assign($e);`
//@ endfn
}
//@ head src/vec_set.rs From<VecSet<A>> for Vec<A::Item>
    spec fn from_req(v: VecSet<A>) -> bool { true }
    spec fn from_ens(v: VecSet<A>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_set.rs | From<VecSet<A>> for Vec<A::Item> | from
//@ endfn
}
//@ head src/vec_set.rs From<VecSet<A>> for SmallVec<A>
    spec fn from_req(v: VecSet<A>) -> bool { true }
    spec fn from_ens(v: VecSet<A>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_set.rs | From<VecSet<A>> for SmallVec<A> | from
//@ endfn
}
