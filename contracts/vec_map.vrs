//@ include mapops.vrs
//@ include colls.vrs
//@ tag map
//@ # ---- src/vec_map.rs: VecMap -----------------------------------------------------------------------
#[verifier::reject_recursive_types(A)]
//@ struct src/vec_map.rs VecMap
impl<A: Array> View for VecMap<A> { type V = Seq<A::Item>; closed spec fn view(&self) -> Seq<A::Item> { self.0@ } }
/// stands for core::borrow::Borrow; bv is the borrowed value
trait Borrow<Q>: Sized {
    spec fn bv(&self) -> Q;
    fn borrow(&self) -> (r: &Q) ensures *r == self.bv();
}
/// the borrowed form of the keys is ordered like the keys (the contract std documents for Borrow)
#[verifier::opaque]
spec fn borrow_ok<K: Ord + Borrow<Q>, Q: Ord>() -> bool { ord_laws::<K>() && ord_laws::<Q>() && forall|a: K, b: K| oc(#[trigger] a.bv(), #[trigger] b.bv()) == oc(a, b) }
/// the entry whose key borrows to something equal to q
spec fn bent<K: Ord + Borrow<Q>, V, Q: Ord>(s: Seq<(K, V)>, q: Q) -> Option<(K, V)>
    decreases s.len()
{
    if s.len() == 0 { None } else if oc(s[0].0.bv(), q) == Ordering::Equal { Some(s[0]) } else { bent(s.skip(1), q) }
}
proof fn lemma_bent<K: Ord + Borrow<Q>, V, Q: Ord>(s: Seq<(K, V)>, q: Q)
    ensures match bent(s, q) {
        Some(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && oc(e.0.bv(), q) == Ordering::Equal,
        None => forall|i: int| 0 <= i < s.len() ==> oc((#[trigger] s[i]).0.bv(), q) != Ordering::Equal,
    }
    decreases s.len()
{
    if s.len() > 0 {
        if oc(s[0].0.bv(), q) == Ordering::Equal { assert(s[0] == bent(s, q).unwrap()); }
        else {
            lemma_bent(s.skip(1), q);
            if bent(s.skip(1), q).is_some() {
                let i = choose|i: int| 0 <= i < s.skip(1).len() && #[trigger] s.skip(1)[i] == bent(s, q).unwrap() && oc(bent(s, q).unwrap().0.bv(), q) == Ordering::Equal;
                assert(s[i + 1] == bent(s, q).unwrap());
            } else {
                assert forall|i: int| 0 <= i < s.len() implies oc((#[trigger] s[i]).0.bv(), q) != Ordering::Equal by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
            }
        }
    }
}
/// the keys, borrowed, ascend
proof fn lemma_borrow_sorted<K: Ord + Borrow<Q>, V, Q: Ord>(s: Seq<(K, V)>, i: int, j: int)
    requires borrow_ok::<K, Q>(), ksorted(s), 0 <= i < j < s.len()
    ensures oc(s[i].0.bv(), s[j].0.bv()) == Ordering::Less
{
    reveal(borrow_ok);
    assert(oc(s[i].0, s[j].0) == Ordering::Less);
}
proof fn lemma_kins<K: Ord, V>(s: Seq<(K, V)>, i: int, e: (K, V))
    requires ord_laws::<K>(), ksorted(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> oc((#[trigger] s[j]).0, e.0) == Ordering::Less,
      forall|j: int| i <= j < s.len() ==> oc((#[trigger] s[j]).0, e.0) == Ordering::Greater
    ensures ksorted(s.insert(i, e)), kent(s, e.0).is_none(), forall|k: K| #[trigger] kent(s.insert(i, e), k) == if oc(e.0, k) == Ordering::Equal { Some(e) } else { kent(s, k) }
{
    let t = s.insert(i, e);
    lemma_kent_none(s, e.0);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] oc(t[x].0, t[y].0) == Ordering::Less by {
        let x0 = if x < i { x } else { x - 1 };
        let y0 = if y < i { y } else { y - 1 };
        if x == i { assert(t[y] == s[y0]); lemma_laws(s[y0].0, e.0, e.0); }
        else if y == i { assert(t[x] == s[x0]); }
        else { assert(t[x] == s[x0]); assert(t[y] == s[y0]); assert(oc(s[x0].0, s[y0].0) == Ordering::Less); }
    }
    assert forall|k: K| #[trigger] kent(t, k) == if oc(e.0, k) == Ordering::Equal { Some(e) } else { kent(s, k) } by {
        lemma_kent(s, k);
        if oc(e.0, k) == Ordering::Equal { assert(t[i] == e); lemma_kent_at(t, i, k); }
        else if kent(s, k).is_some() {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == kent(s, k).unwrap() && oc(kent(s, k).unwrap().0, k) == Ordering::Equal;
            let j1 = if j < i { j } else { j + 1 };
            assert(t[j1] == s[j]); lemma_kent_at(t, j1, k);
        } else {
            assert forall|j: int| 0 <= j < t.len() implies oc((#[trigger] t[j]).0, k) != Ordering::Equal by { if j != i { let j0 = if j < i { j } else { j - 1 }; assert(t[j] == s[j0]); } }
            lemma_kent_none(t, k);
        }
    }
}
proof fn lemma_kupd<K: Ord, V>(s: Seq<(K, V)>, i: int, e: (K, V))
    requires ord_laws::<K>(), ksorted(s), 0 <= i < s.len(), oc(s[i].0, e.0) == Ordering::Equal
    ensures ksorted(s.update(i, e)), kent(s, e.0) == Some(s[i]), forall|k: K| #[trigger] kent(s.update(i, e), k) == if oc(e.0, k) == Ordering::Equal { Some(e) } else { kent(s, k) }
{
    let t = s.update(i, e);
    lemma_kent_at(s, i, e.0);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] oc(t[x].0, t[y].0) == Ordering::Less by {
        assert(oc(s[x].0, s[y].0) == Ordering::Less);
        if x == i { lemma_laws(s[i].0, e.0, s[y].0); lemma_laws(e.0, s[i].0, s[y].0); }
        if y == i { lemma_laws(s[x].0, s[i].0, e.0); }
    }
    assert forall|k: K| #[trigger] kent(t, k) == if oc(e.0, k) == Ordering::Equal { Some(e) } else { kent(s, k) } by {
        lemma_kent(s, k);
        if oc(e.0, k) == Ordering::Equal { assert(t[i] == e); lemma_kent_at(t, i, k); }
        else if kent(s, k).is_some() {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == kent(s, k).unwrap() && oc(kent(s, k).unwrap().0, k) == Ordering::Equal;
            if j == i { lemma_laws(e.0, s[i].0, k); lemma_laws(s[i].0, e.0, k); }
            assert(t[j] == s[j]); lemma_kent_at(t, j, k);
        } else {
            assert forall|j: int| 0 <= j < t.len() implies oc((#[trigger] t[j]).0, k) != Ordering::Equal by { if j != i { assert(t[j] == s[j]); } }
            lemma_kent_none(t, k);
        }
    }
}
proof fn lemma_bent_at<K: Ord + Borrow<Q>, V, Q: Ord>(s: Seq<(K, V)>, i: int, q: Q)
    requires borrow_ok::<K, Q>(), ksorted(s), 0 <= i < s.len(), oc(s[i].0.bv(), q) == Ordering::Equal
    ensures bent(s, q) == Some(s[i])
{
    reveal(borrow_ok);
    lemma_bent(s, q);
    let e = bent(s, q).unwrap();
    let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == e && oc(e.0.bv(), q) == Ordering::Equal;
    lemma_laws(s[i].0.bv(), q, s[j].0.bv()); lemma_laws(s[j].0.bv(), q, s[i].0.bv()); lemma_laws(q, s[i].0.bv(), s[j].0.bv());
    if i < j { lemma_borrow_sorted::<K, V, Q>(s, i, j); } else if j < i { lemma_borrow_sorted::<K, V, Q>(s, j, i); }
}
/// the in-place outer join with an owned right operand
fn outer_merge<K: Ord, V, A: Array<Item = (K, V)>, B: Array<Item = (K, V)>, F: Fn(OuterJoinArg<&K, V, V>) -> Option<V>>(a: &mut SmallVec<A>, b: SmallVec<B>, f: F)
    requires ord_laws::<K>(), ksorted(old(a)@), ksorted(b@), fpure1::<OuterJoinArg<&K, V, V>, Option<V>, F>(f)
    ensures join_ok(ojo_l::<K, V, V, F>(f), ojo_r::<K, V, V, F>(f), ojo_c::<K, V, V, F>(f), old(a)@, b@, final(a)@)
{
    broadcast use group_joins;
    InPlaceMergeState::merge(a, b, OuterJoinOp(f), NoConverter);
}
/// the callback combine_with hands to the outer join
spec fn comb<K, V, F: Fn(V, V) -> V>(f: &F, arg: OuterJoinArg<&K, V, V>) -> Option<V> {
    Some(match arg { OuterJoinArg::Left(_, v) => v, OuterJoinArg::Right(_, v) => v, OuterJoinArg::Both(_, v, w) => fv2(*f, v, w) })
}
spec fn val<K, V>(o: Option<(K, V)>) -> Option<V> { match o { Some(e) => Some(e.1), None => None } }

trait AbstractVecMap<K, V>: Sized {
    spec fn els(&self) -> Seq<(K, V)>;
//@ fn src/vec_map.rs | trait AbstractVecMap | as_slice
//@ ret r
    ensures r@ == self.els()
//@ endfn
}
/// the default methods of AbstractVecMap (no impl overrides them), lifted to a blanket-implemented trait
//@ forbid src/vec_map.rs AbstractVecMap is_empty get outer_join left_join right_join inner_join
trait AbstractVecMapOps<K, V>: AbstractVecMap<K, V> {
//@ tag map.point
//@ fn src/vec_map.rs | trait AbstractVecMap | is_empty
//@ decl
//@ ret r
    ensures r == (self.els().len() == 0)
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | get
//@ decl
//@ sigrw `K : Borrow < Q > + 'static` => `K: Ord + Borrow<Q> + 'static`
//@ sigrw `Q : Ord + ? Sized` => `Q: Ord`
//@ ret r
    requires borrow_ok::<K, Q>(), ksorted(self.els())
    ensures match r { Some(v) => val(bent(self.els(), *key)) == Some(*v), None => bent(self.els(), *key).is_none() }
//@ endfn
//@ tag map.byref
//@ fn src/vec_map.rs | trait AbstractVecMap | outer_join
//@ decl
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.els()), ksorted(that.els()), fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(f)
    ensures join_ok(oj_l::<K, V, W, R, F>(f), oj_r::<K, V, W, R, F>(f), oj_c::<K, V, W, R, F>(f), self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | left_join
//@ decl
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.els()), ksorted(that.els()), fpure3::<&K, &V, Option<&W>, Option<R>, F>(f)
    ensures join_ok(lj_l::<K, V, W, R, F>(f), lj_r::<K, V, W, R, F>(f), lj_c::<K, V, W, R, F>(f), self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | right_join
//@ decl
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.els()), ksorted(that.els()), fpure3::<&K, Option<&V>, &W, Option<R>, F>(f)
    ensures join_ok(rj_l::<K, V, W, R, F>(f), rj_r::<K, V, W, R, F>(f), rj_c::<K, V, W, R, F>(f), self.els(), that.els(), r@)
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | inner_join
//@ decl
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(self.els()), ksorted(that.els()), fpure3::<&K, &V, &W, Option<R>, F>(f)
    ensures join_ok(ij_l::<K, V, W, R, F>(f), ij_r::<K, V, W, R, F>(f), ij_c::<K, V, W, R, F>(f), self.els(), that.els(), r@)
//@ endfn
}
impl<K, V, X: AbstractVecMap<K, V>> AbstractVecMapOps<K, V> for X {
//@ tag map.point
//@ fn src/vec_map.rs | trait AbstractVecMap | is_empty
//@ ret r
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | get
//@ sigrw `K : Borrow < Q > + 'static` => `K: Ord + Borrow<Q> + 'static`
//@ sigrw `Q : Ord + ? Sized` => `Q: Ord`
//@ ret r
//@ rw `. binary_search_by ( | $p | $$e ) . map ( | $i | $$m ) . ok ( )` => `.binary_search_by(|$p: &(K, V)| -> (vx_o: Ordering) ensures vx_o == oc($p.0.bv(), *key) { proof { reveal(borrow_ok); reveal(ord_laws); } $e }).map(|$i: usize| -> (vx_m: &V) requires $i < elements@.len() ensures *vx_m == elements@[$i as int].1 { $m }).ok()`
//@ start
    proof { reveal(borrow_ok); 
      assert forall|i: int, j: int| 0 <= i < j < self.els().len() implies #[trigger] oc(self.els()[i].0.bv(), *key) == Ordering::Less || #[trigger] oc(self.els()[j].0.bv(), *key) == Ordering::Greater by { 
         lemma_borrow_sorted::<K, V, Q>(self.els(), i, j); lemma_laws(self.els()[i].0.bv(), self.els()[j].0.bv(), *key); lemma_laws(self.els()[j].0.bv(), self.els()[i].0.bv(), *key); }
      assert forall|i: int| 0 <= i < self.els().len() && #[trigger] oc(self.els()[i].0.bv(), *key) == Ordering::Equal implies bent(self.els(), *key) == Some(self.els()[i]) by { lemma_bent_at(self.els(), i, *key); }
      lemma_bent(self.els(), *key);
    }
//@ endfn
//@ tag map.byref
//@ fn src/vec_map.rs | trait AbstractVecMap | outer_join
//@ ret r
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | left_join
//@ ret r
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | right_join
//@ ret r
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | trait AbstractVecMap | inner_join
//@ ret r
//@ start
    broadcast use group_joins;
//@ endfn
}
//@ tag map
//@ head src/vec_map.rs AbstractVecMap for VecMap
    spec fn els(&self) -> Seq<(K, V)> { self@ }
//@ fn src/vec_map.rs | AbstractVecMap for VecMap | as_slice
//@ endfn
}
//@ tag map.point
//@ head src/vec_map.rs VecMap # new
//@ fn src/vec_map.rs | VecMap | new
//@ ret r
    ensures r@ == value@
//@ endfn
//@ fn src/vec_map.rs | VecMap | is_empty
//@ ret r
    ensures r == (self@.len() == 0)
//@ endfn
//@ fn src/vec_map.rs | VecMap | empty
//@ ret r
    ensures r@ == Seq::<A::Item>::empty()
//@ endfn
//@ fn src/vec_map.rs | VecMap | len
//@ ret r
    ensures r == self@.len()
//@ endfn
//@ fn src/vec_map.rs | VecMap | as_slice
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/vec_map.rs | AsRef<[A::Item]> for VecMap | as_ref
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/vec_map.rs | VecMap | retain
//@ sigrw `FnMut` => `Fn`
    requires fpure1::<&A::Item, bool, F>(f)
    ensures final(self)@ == old(self)@.filter(|x: A::Item| keepf(&f, x))
//@ start
    let ghost fg = f; proof { reveal(fpure1); reveal(fpure2); }
//@ rw `self . 0 . retain ( | entry | $$e )` => `{ let vx_c = |entry: &A::Item| -> (vx_b: bool) ensures vx_b == keepf(&f, *entry) { $e }; proof { lemma_pure1(vx_c, |x: &A::Item| keepf(&fg, *x)); assert forall|x: A::Item| #[trigger] vx_c.ensures((&x,), true) == keepf(&fg, x) by { axiom_fv1_total(vx_c, &x); } assert((|x: A::Item| vx_c.ensures((&x,), true)) =~= (|x: A::Item| keepf(&fg, x))); } self.0.retain_by(vx_c) }`
//@ endfn
//@ fn src/vec_map.rs | VecMap | into_inner
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/vec_map.rs | VecMap | single
//@ ret r
    ensures r@ == seq![item]
//@ rw `smallvec :: smallvec ! [ $$x ]` => `smallvec1($x)`
//@ end
    assert(vx_r@ =~= seq![item]);
//@ endfn
}
//@ head src/vec_map.rs VecMap # insert
//@ fn src/vec_map.rs | VecMap | insert
//@ ret r
    requires ord_laws::<K>(), ksorted(old(self)@)
    ensures ksorted(final(self)@), r == val(kent(old(self)@, key)),
       forall|k: K| #[trigger] kent(final(self)@, k) == if oc(key, k) == Ordering::Equal { Some((key, value)) } else { kent(old(self)@, k) }
//@ rw `self . 0 . binary_search_by ( | ( k , _ ) | $$e )` => `self.0.as_slice().binary_search_by(|vx_p: &(K, V)| -> (vx_o: Ordering) ensures vx_o == oc(vx_p.0, key) { proof { reveal(ord_laws); } let (k, _) = vx_p; $e })`
//@ rw `std :: mem :: swap ( & mut $x , & mut self . 0 [ $i ] )` => `self.0.swap_at(&mut $x, $i)`
//@ start
    let ghost s0 = self@;
    let ghost e0 = (key, value);
    proof {
      assert forall|i: int, j: int| 0 <= i < j < s0.len() implies #[trigger] oc(s0[i].0, key) == Ordering::Less || #[trigger] oc(s0[j].0, key) == Ordering::Greater by {
         assert(oc(s0[i].0, s0[j].0) == Ordering::Less); lemma_laws(s0[i].0, s0[j].0, key); lemma_laws(s0[j].0, s0[i].0, key); }
      assert forall|i: int| 0 <= i < s0.len() && #[trigger] oc(s0[i].0, key) == Ordering::Equal implies ksorted(s0.update(i, e0)) && kent(s0, key) == Some(s0[i])
         && forall|k: K| #[trigger] kent(s0.update(i, e0), k) == if oc(key, k) == Ordering::Equal { Some(e0) } else { kent(s0, k) } by { lemma_kupd(s0, i, e0); }
    }
//@ before `self . 0 . insert ( $$x )`
    proof { lemma_kins(s0, ip as int, e0); }
//@ endfn
//@ tag map.inplace
//@ fn src/vec_map.rs | VecMap | inner_join_with
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(old(self)@), ksorted(that.els()), fpure3::<&K, V, &W, Option<V>, F>(f)
    ensures join_ok(ijw_l::<K, V, W, F>(f), ijw_r::<K, V, W, F>(f), ijw_c::<K, V, W, F>(f), old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | VecMap | left_join_with
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(old(self)@), ksorted(that.els()), fpure3::<&K, V, Option<&W>, Option<V>, F>(f)
    ensures join_ok(ljw_l::<K, V, W, F>(f), ljw_r::<K, V, W, F>(f), ljw_c::<K, V, W, F>(f), old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | VecMap | right_join_with
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(old(self)@), ksorted(that.els()), fpure3::<&K, Option<V>, &W, Option<V>, F>(f)
    ensures join_ok(rjw_l::<K, V, W, F>(f), rjw_r::<K, V, W, F>(f), rjw_c::<K, V, W, F>(f), old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | VecMap | outer_join_with
    requires ord_laws::<K>(), clone_ok::<K>(), ksorted(old(self)@), ksorted(that.els()), fpure1::<OuterJoinArg<&K, V, &W>, Option<V>, F>(f)
    ensures join_ok(ojw_l::<K, V, W, F>(f), ojw_r::<K, V, W, F>(f), ojw_c::<K, V, W, F>(f), old(self)@, that.els(), final(self)@)
//@ start
    broadcast use group_joins;
//@ endfn
//@ fn src/vec_map.rs | VecMap | merge_with
    requires ord_laws::<K>(), ksorted(old(self)@), ksorted(that@)
    ensures ksorted(final(self)@), forall|k: K| #[trigger] kent(final(self)@, k) == match (kent(old(self)@, k), kent(that@, k)) { (Some(a), Some(b)) => Some((a.0, b.1)), (Some(a), None) => Some(a), (None, y) => y }
//@ rw `self . combine_with ( that , | _ , r | $$e )` => `{ let vx_c = |_l: V, r: V| -> (vx_v: V) ensures vx_v == r { $e }; proof { lemma_pure2(vx_c, |a: V, b: V| b); } self.combine_with(that, vx_c) }`
//@ endfn
//@ fn src/vec_map.rs | VecMap | combine_with
    requires ord_laws::<K>(), ksorted(old(self)@), ksorted(that@), fpure2::<V, V, V, F>(f)
    ensures ksorted(final(self)@), forall|k: K| #[trigger] kent(final(self)@, k) == match (kent(old(self)@, k), kent(that@, k)) { (Some(a), Some(b)) => Some((a.0, fv2(f, a.1, b.1))), (Some(a), None) => Some(a), (None, y) => y }
//@ rw `InPlaceMergeState :: merge ( & mut self . 0 , that . 0 , OuterJoinOp ( move | arg : OuterJoinArg < & K , V , V > | $$e ) , NoConverter , )` => `{ let ghost fg = f; proof { reveal(fpure2); } let vx_c = move |arg: OuterJoinArg<&K, V, V>| -> (vx_o: Option<V>) ensures vx_o == comb(&f, arg) { $e }; proof { lemma_pure1(vx_c, |arg: OuterJoinArg<&K, V, V>| comb(&fg, arg)); } outer_merge(&mut self.0, that.0, vx_c) }`
//@ start
    broadcast use group_joins;
//@ endfn
}

//@ head src/vec_map.rs VecMap # get_mut
//@ rw `Borrow < Q >` => `Borrow<Q>`
//@ fn src/vec_map.rs | VecMap | get_mut
//@ sigrw `Q : Ord + ? Sized` => `Q: Ord`
//@ ret r
    requires borrow_ok::<K, Q>(), ksorted(old(self)@)
    ensures match r {
        Some(v) => val(bent(old(self)@, *key)) == Some(*v) && final(self)@.len() == old(self)@.len()
            && (forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] final(self)@[i] == if oc(old(self)@[i].0.bv(), *key) == Ordering::Equal { (old(self)@[i].0, *final(v)) } else { old(self)@[i] }),
        None => bent(old(self)@, *key).is_none() && final(self)@ == old(self)@,
    }
//@ rw `. binary_search_by ( | $p | $$e )` => `.binary_search_by(|$p: &(K, V)| -> (vx_o: Ordering) ensures vx_o == oc($p.0.bv(), *key) { proof { reveal(borrow_ok); reveal(ord_laws); } $e })`
//@ start
    let ghost s0 = self@;
    proof { reveal(borrow_ok); 
      assert forall|i: int, j: int| 0 <= i < j < s0.len() implies #[trigger] oc(s0[i].0.bv(), *key) == Ordering::Less || #[trigger] oc(s0[j].0.bv(), *key) == Ordering::Greater by { 
         lemma_borrow_sorted::<K, V, Q>(s0, i, j); lemma_laws(s0[i].0.bv(), s0[j].0.bv(), *key); lemma_laws(s0[j].0.bv(), s0[i].0.bv(), *key); }
      assert forall|i: int| 0 <= i < s0.len() && #[trigger] oc(s0[i].0.bv(), *key) == Ordering::Equal implies bent(s0, *key) == Some(s0[i]) by { lemma_bent_at(s0, i, *key); }
      lemma_bent(s0, *key);
    }
//@ endfn
}
/// the last entry of s for the key k
spec fn klast<K: Ord, V>(s: Seq<(K, V)>, k: K) -> Option<(K, V)>
    decreases s.len()
{
    if s.len() == 0 { None } else if oc(s.last().0, k) == Ordering::Equal { Some(s.last()) } else { klast(s.drop_last(), k) }
}
/// r is the map of the pairs of s: ascending keys, the last entry for each key
spec fn map_of<K: Ord, V>(s: Seq<(K, V)>, r: Seq<(K, V)>) -> bool { ksorted(r) && forall|k: K| #[trigger] kent(r, k) == klast(s, k) }
proof fn lemma_klast_best<K: Ord, V>(s: Seq<(K, V)>, v: (K, V), e: spec_fn((K, V), (K, V)) -> bool)
    requires forall|a: (K, V), b: (K, V)| #[trigger] e(a, b) == (oc(a.0, b.0) == Ordering::Equal)
    ensures klast(s, v.0) == best(s, v, Keep::Last, e)
    decreases s.len()
{
    if s.len() > 0 { lemma_klast_best(s.drop_last(), v, e); }
}
proof fn lemma_klast_kent<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires ord_laws::<K>(), ksorted(s)
    ensures klast(s, k) == kent(s, k)
    decreases s.len()
{
    lemma_kent(s, k);
    lemma_klast(s, k);
    if klast(s, k).is_some() {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == klast(s, k).unwrap() && oc(s[i].0, k) == Ordering::Equal;
        lemma_kent_at(s, i, k);
    }
}
proof fn lemma_klast<K: Ord, V>(s: Seq<(K, V)>, k: K)
    ensures match klast(s, k) {
        Some(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && oc(s[i].0, k) == Ordering::Equal,
        None => forall|i: int| 0 <= i < s.len() ==> oc((#[trigger] s[i]).0, k) != Ordering::Equal,
    }
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        if oc(s.last().0, k) == Ordering::Equal { assert(s[s.len() - 1] == klast(s, k).unwrap()); }
        else {
            lemma_klast(t, k);
            if klast(t, k).is_some() { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == klast(t, k).unwrap() && oc(t[i].0, k) == Ordering::Equal; assert(s[i] == klast(s, k).unwrap()); }
            else { assert forall|i: int| 0 <= i < s.len() implies oc((#[trigger] s[i]).0, k) != Ordering::Equal by { if i < t.len() { assert(t[i] == s[i]); } } }
        }
    }
}
proof fn lemma_map_of<K: Ord, V>(s: Seq<(K, V)>, r: Seq<(K, V)>, e: spec_fn((K, V), (K, V)) -> bool)
    requires ord_laws::<K>(), forall|a: (K, V), b: (K, V)| #[trigger] e(a, b) == (oc(a.0, b.0) == Ordering::Equal), ksorted(r), same_best(r, s, Keep::Last, e)
    ensures map_of(s, r)
{
    assert forall|k: K| #[trigger] kent(r, k) == klast(s, k) by {
        lemma_klast_kent(r, k);
        if s.len() > 0 { let v = (k, s[0].1); lemma_klast_best(s, v, e); lemma_klast_best(r, v, e); assert(best(r, v, Keep::Last, e) == best(s, v, Keep::Last, e)); }
        else if r.len() > 0 { let v = r[0]; lemma_laws(v.0, v.0, v.0); assert(e(r[0], v)); lemma_best_some(r, 0, v, Keep::Last, e); assert(best(r, v, Keep::Last, e) == best(s, v, Keep::Last, e)); }
    }
}
proof fn lemma_keyfn<K: Ord, V, F: Fn(&(K, V)) -> &K>(f: F)
    requires forall|x: (K, V)| #[trigger] f.requires((&x,)), forall|x: (K, V), r: &K| #[trigger] f.ensures((&x,), r) ==> *r == x.0
    ensures key_ok::<(K, V), K, F>(f), forall|x: (K, V)| kf::<(K, V), K, F>(f, x) == x.0
{
    assert forall|x: (K, V)| kf::<(K, V), K, F>(f, x) == x.0 by { axiom_kf_total(f, x); }
}
/// trusted: a terminating closure returns some value allowed by its contract
#[verifier::external_body]
proof fn axiom_kf_total<T, K, F: Fn(&T) -> &K>(f: F, x: T)
    requires f.requires((&x,))
    ensures f.ensures((&x,), &kf::<T, K, F>(f, x))
{}
/// gives a key closure its higher-ranked type
fn vx_keyfn<T, K, F: Fn(&T) -> &K>(f: F) -> (r: F) ensures r == f { f }
//@ head src/vec_map.rs FromIterator<(K, V)> for VecMap
    spec fn fi_req() -> bool { ord_laws::<K>() }
    spec fn fi_ens(s: Seq<(K, V)>, r: Self) -> bool { map_of(s, r@) }
//@ fn src/vec_map.rs | FromIterator<(K, V)> for VecMap | from_iter
//@ sigrw `IntoIterator` => `Iterator`
//@ rw `sort_dedup_by_key ( iter . into_iter ( ) , $$k , | $p | $$e )` => `{ let ghost s = iter.remaining(); let vx_k = vx_keyfn(|vx_p: &(K, V)| -> (vx_o: &K) ensures *vx_o == vx_p.0 { let $p = vx_p; $e }); proof { lemma_keyfn(vx_k); } let vx_d: SmallVec<A> = sort_dedup_by_key(iter, $k, vx_k); proof { assert forall|i: int, j: int| 0 <= i < j < vx_d@.len() implies #[trigger] oc(vx_d@[i].0, vx_d@[j].0) == Ordering::Less by { assert(koc::<(K, V), K, _>(vx_k, vx_d.dv()[i], vx_d.dv()[j]) == Ordering::Less); } lemma_map_of(s, vx_d@, koeq::<(K, V), K, _>(vx_k)); } vx_d }`
//@ endfn
}
//@ head src/vec_map.rs From<BTreeMap<K, V>> for VecMap
    spec fn from_req(v: BTreeMap<K, V>) -> bool { true }
    spec fn from_ens(v: BTreeMap<K, V>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_map.rs | From<BTreeMap<K, V>> for VecMap | from
//@ rw `value . into_iter ( ) . collect ( )` => `vx_collect(value)`
//@ endfn
}
//@ head src/vec_map.rs Extend<A::Item> for VecMap
    spec fn ex_req(self) -> bool { ord_laws::<K>() && ksorted(self@) }
    spec fn ex_ens(self, s: Seq<(K, V)>, fin: Self) -> bool {
        ksorted(fin@) && forall|k: K| #[trigger] kent(fin@, k) == match (kent(self@, k), klast(s, k)) { (Some(a), Some(b)) => Some((a.0, b.1)), (Some(a), None) => Some(a), (None, y) => y }
    }
//@ fn src/vec_map.rs | Extend<A::Item> for VecMap | extend
//@ sigrw `IntoIterator` => `Iterator`
//@ rw `iter . into_iter ( ) . collect ( )` => `VecMap::<A>::from_iter(iter)`
//@ endfn
}
//@ head src/vec_map.rs Clone for VecMap
//@ rw `impl < T : Clone , A : Array < Item = T > > Clone for VecMap < A >` => `impl<A: Array> Clone for VecMap<A> where A::Item: Clone`
//@ fn src/vec_map.rs | Clone for VecMap | clone
//@ ret r
    ensures clone_ok::<A::Item>() ==> r@ == self@
//@ endfn
}
//@ head src/vec_map.rs Default for VecMap
    spec fn is_default(&self) -> bool { self@ == Seq::<A::Item>::empty() }
//@ fn src/vec_map.rs | Default for VecMap | default
//@ endfn
}
//@ head src/vec_map.rs From<VecMap<A>> for SmallVec<A>
    spec fn from_req(v: VecMap<A>) -> bool { true }
    spec fn from_ens(v: VecMap<A>, r: Self) -> bool { r@ == v@ }
//@ fn src/vec_map.rs | From<VecMap<A>> for SmallVec<A> | from
//@ endfn
}
/// the entry function map_values applies
spec fn mapent<K, V, R, F: Fn(V) -> R>(f: &F, x: (K, V)) -> (K, R) { (x.0, fv1(*f, x.1)) }
//@ head src/vec_map.rs VecMap # map_values
//@ fn src/vec_map.rs | VecMap | map_values
//@ sigrw `FnMut` => `Fn`
//@ ret r
    requires fpure1::<V, R, F>(f)
    ensures r@ == self@.map_values(|x: (K, V)| (x.0, fv1(f, x.1)))
//@ start
    let ghost fg = f; proof { reveal(fpure1); reveal(fpure2); }
    let ghost s0 = self@;
//@ rw `self . 0 . into_iter ( ) . map ( | entry | $$e ) . collect ( )` => `{ let vx_c = |entry: (K, V)| -> (vx_e: (K, R)) ensures vx_e == mapent(&f, entry) { $e }; let vx_v: SmallVec<B> = vx_map_collect(self.0, vx_c); proof { assert(vx_v@ =~= s0.map_values(|x: (K, V)| (x.0, fv1(fg, x.1)))); } vx_v }`
//@ endfn
}
