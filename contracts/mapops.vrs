//@ include state.vrs
//@ include dedup.vrs
//@ include mapspec.vrs
//@ tag map
//@ # ---- as effects of the merge algorithm ------------------------------------------------------------------
spec fn join_ops<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>) -> Ops<Seq<(K, R)>, (K, V), (K, W)> {
    Ops {
        ea: |o: Seq<(K, R)>, a: (K, V)| o + opt1(a.0, l(a)),
        eb: |o: Seq<(K, R)>, b: (K, W)| o + opt1(b.0, r(b)),
        ec: |o: Seq<(K, R)>, a: (K, V), b: (K, W)| o + opt1(a.0, c(a, b)),
        cmp: |a: (K, V), b: (K, W)| oc(a.0, b.0),
    }
}
proof fn lemma_join_mono<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>)
    requires ord_laws::<K>(), ksorted(a), ksorted(b)
    ensures join_ops(l, r, c).mono(a, b)
{
    let op = join_ops(l, r, c);
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() &&
         (#[trigger] (op.cmp)(a[i], b[j]) == Ordering::Less || (op.cmp)(a[i], b[j]) == Ordering::Equal) implies #[trigger] (op.cmp)(a[i], b[k]) == Ordering::Less by {
        assert(oc(b[j].0, b[k].0) == Ordering::Less); lemma_laws(a[i].0, b[j].0, b[k].0);
    }
    assert forall|i: int, j: int, k: int| 0 <= i < k < a.len() && 0 <= j < b.len() &&
         (#[trigger] (op.cmp)(a[i], b[j]) == Ordering::Greater || (op.cmp)(a[i], b[j]) == Ordering::Equal) implies #[trigger] (op.cmp)(a[k], b[j]) == Ordering::Greater by {
        assert(oc(a[i].0, a[k].0) == Ordering::Less); lemma_laws(a[i].0, a[k].0, a[k].0); lemma_laws(a[k].0, a[i].0, b[j].0);
    }
}
proof fn lemma_join_fold<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, o: Seq<(K, R)>, a: Seq<(K, V)>, b: Seq<(K, W)>)
    ensures join_ops(l, r, c).fold(o, a, b) == o + join(l, r, c, a, b)
    decreases a.len() + b.len()
{
    hide(join_ops);
    let op = join_ops(l, r, c);
    if a.len() == 0 && b.len() == 0 { assert(o + join(l, r, c, a, b) =~= o); }
    else if b.len() == 0 || (a.len() > 0 && oc(a[0].0, b[0].0) == Ordering::Less) {
        let o1 = o + opt1(a[0].0, l(a[0]));
        assert((op.ea)(o, a[0]) == o1) by { reveal(join_ops); }
        lemma_join_fold(l, r, c, o1, a.skip(1), b);
        assert(op.fold(o, a, b) == op.fold(o1, a.skip(1), b)) by {
            if b.len() == 0 { lemma_fold_nil(op, o1, a.skip(1), b); lemma_fold_nil(op, o, a, b); } else { assert((op.cmp)(a[0], b[0]) == Ordering::Less) by { reveal(join_ops); } }
        }
        lemma_cat3(o, opt1(a[0].0, l(a[0])), join(l, r, c, a.skip(1), b));
    } else if a.len() == 0 || oc(a[0].0, b[0].0) == Ordering::Greater {
        let o1 = o + opt1(b[0].0, r(b[0]));
        assert((op.eb)(o, b[0]) == o1) by { reveal(join_ops); }
        lemma_join_fold(l, r, c, o1, a, b.skip(1));
        assert(op.fold(o, a, b) == op.fold(o1, a, b.skip(1))) by {
            if a.len() > 0 { assert((op.cmp)(a[0], b[0]) == Ordering::Greater) by { reveal(join_ops); } }
        }
        lemma_cat3(o, opt1(b[0].0, r(b[0])), join(l, r, c, a, b.skip(1)));
    } else {
        let o1 = o + opt1(a[0].0, c(a[0], b[0]));
        assert((op.ec)(o, a[0], b[0]) == o1) by { reveal(join_ops); }
        lemma_join_fold(l, r, c, o1, a.skip(1), b.skip(1));
        assert(op.fold(o, a, b) == op.fold(o1, a.skip(1), b.skip(1))) by { assert((op.cmp)(a[0], b[0]) == Ordering::Equal) by { reveal(join_ops); } }
        lemma_cat3(o, opt1(a[0].0, c(a[0], b[0])), join(l, r, c, a.skip(1), b.skip(1)));
    }
}
proof fn lemma_cat3<X>(a: Seq<X>, b: Seq<X>, c: Seq<X>)
    ensures (a + b) + c == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn b_join_mono<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>)
    requires ord_laws::<K>(), ksorted(a), ksorted(b)
    ensures #[trigger] join_ops(l, r, c).mono(a, b)
{ lemma_join_mono(l, r, c, a, b); }
broadcast proof fn b_join_fold<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>)
    requires ord_laws::<K>(), ksorted(a), ksorted(b)
    ensures join_ok(l, r, c, a, b, #[trigger] join_ops(l, r, c).fold(Seq::empty(), a, b))
{
    lemma_join_fold(l, r, c, Seq::empty(), a, b);
    lemma_join(l, r, c, a, b);
    assert(Seq::<(K, R)>::empty() + join(l, r, c, a, b) =~= join(l, r, c, a, b));
}
broadcast group group_joins { b_join_mono, b_join_fold }
proof fn lemma_fold_a_push<O, A, B>(op: Ops<O, A, B>, o: O, s: Seq<A>, i: int)
    requires 0 <= i < s.len()
    ensures op.fold_a(o, s.take(i + 1)) == (op.ea)(op.fold_a(o, s.take(i)), s[i])
{
    let t = s.take(i + 1);
    lemma_fold_a_split(op, o, t, i);
    assert(t.take(i) =~= s.take(i));
    assert(t.skip(i) =~= seq![s[i]]);
    assert(seq![s[i]].skip(1) =~= Seq::<A>::empty());
    reveal_with_fuel(Ops::fold_a, 2);
}
proof fn lemma_fold_b_push<O, A, B>(op: Ops<O, A, B>, o: O, s: Seq<B>, i: int)
    requires 0 <= i < s.len()
    ensures op.fold_b(o, s.take(i + 1)) == (op.eb)(op.fold_b(o, s.take(i)), s[i])
{
    let t = s.take(i + 1);
    lemma_fold_b_split(op, o, t, i);
    assert(t.take(i) =~= s.take(i));
    assert(t.skip(i) =~= seq![s[i]]);
    assert(seq![s[i]].skip(1) =~= Seq::<B>::empty());
    reveal_with_fuel(Ops::fold_b, 2);
}
proof fn lemma_none_fold_a<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, o: Seq<(K, R)>, s: Seq<(K, V)>)
    requires forall|x: (K, V)| (#[trigger] l(x)).is_none()
    ensures join_ops(l, r, c).fold_a(o, s) == o
    decreases s.len()
{
    if s.len() > 0 { assert(l(s[0]).is_none()); assert(o + opt1(s[0].0, l(s[0])) =~= o); lemma_none_fold_a(l, r, c, o, s.skip(1)); }
}
proof fn lemma_none_fold_b<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, o: Seq<(K, R)>, s: Seq<(K, W)>)
    requires forall|x: (K, W)| (#[trigger] r(x)).is_none()
    ensures join_ops(l, r, c).fold_b(o, s) == o
    decreases s.len()
{
    if s.len() > 0 { assert(r(s[0]).is_none()); assert(o + opt1(s[0].0, r(s[0])) =~= o); lemma_none_fold_b(l, r, c, o, s.skip(1)); }
}
//@ tag map
//@ struct src/vec_map.rs OuterJoinOp
//@ struct src/vec_map.rs LeftJoinOp
//@ struct src/vec_map.rs RightJoinOp
//@ struct src/vec_map.rs InnerJoinOp
//@ tag map.byref
//@ head src/vec_map.rs MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for OuterJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, R)>, (K, V), (K, W)> { join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for OuterJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for OuterJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0));
    proof { assert(a0.take(0) =~= seq![]); assert(a0.skip(0) =~= a0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(self.0), op == join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0)), n <= a0.len(), m.fr() == f0, m.b() == b0, m.a() =~= a0.skip(it.index@ as int),
        m.out() == op.fold_a(o0, a0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_a_push(op, o0, a0, i0); assert(a0.skip(i0)[0] == a0[i0]); assert(a0.skip(i0).skip(1) =~= a0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.ea)(o1, a0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for OuterJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0));
    proof { assert(b0.take(0) =~= seq![]); assert(b0.skip(0) =~= b0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, &V, &W>, Option<R>, F>(self.0), op == join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0)), n <= b0.len(), m.fr() == f0, m.a() == a0, m.b() =~= b0.skip(it.index@ as int),
        m.out() == op.fold_b(o0, b0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_b_push(op, o0, b0, i0); assert(b0.skip(i0)[0] == b0[i0]); assert(b0.skip(i0).skip(1) =~= b0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.eb)(o1, b0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for OuterJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(oj_l::<K, V, W, R, F>(self.0), oj_r::<K, V, W, R, F>(self.0), oj_c::<K, V, W, R, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.byref
//@ head src/vec_map.rs MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for LeftJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, R)>, (K, V), (K, W)> { join_ops(lj_l::<K, V, W, R, F>(self.0), lj_r::<K, V, W, R, F>(self.0), lj_c::<K, V, W, R, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, &V, Option<&W>, Option<R>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for LeftJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for LeftJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(lj_l::<K, V, W, R, F>(self.0), lj_r::<K, V, W, R, F>(self.0), lj_c::<K, V, W, R, F>(self.0));
    proof { assert(a0.take(0) =~= seq![]); assert(a0.skip(0) =~= a0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, &V, Option<&W>, Option<R>, F>(self.0), op == join_ops(lj_l::<K, V, W, R, F>(self.0), lj_r::<K, V, W, R, F>(self.0), lj_c::<K, V, W, R, F>(self.0)), n <= a0.len(), m.fr() == f0, m.b() == b0, m.a() =~= a0.skip(it.index@ as int),
        m.out() == op.fold_a(o0, a0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_a_push(op, o0, a0, i0); assert(a0.skip(i0)[0] == a0[i0]); assert(a0.skip(i0).skip(1) =~= a0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.ea)(o1, a0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for LeftJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_b(lj_l::<K, V, W, R, F>(self.0), lj_r::<K, V, W, R, F>(self.0), lj_c::<K, V, W, R, F>(self.0), m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for LeftJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(lj_l::<K, V, W, R, F>(self.0), lj_r::<K, V, W, R, F>(self.0), lj_c::<K, V, W, R, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.byref
//@ head src/vec_map.rs MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for RightJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, R)>, (K, V), (K, W)> { join_ops(rj_l::<K, V, W, R, F>(self.0), rj_r::<K, V, W, R, F>(self.0), rj_c::<K, V, W, R, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, Option<&V>, &W, Option<R>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for RightJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for RightJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_a(rj_l::<K, V, W, R, F>(self.0), rj_r::<K, V, W, R, F>(self.0), rj_c::<K, V, W, R, F>(self.0), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for RightJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(rj_l::<K, V, W, R, F>(self.0), rj_r::<K, V, W, R, F>(self.0), rj_c::<K, V, W, R, F>(self.0));
    proof { assert(b0.take(0) =~= seq![]); assert(b0.skip(0) =~= b0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, Option<&V>, &W, Option<R>, F>(self.0), op == join_ops(rj_l::<K, V, W, R, F>(self.0), rj_r::<K, V, W, R, F>(self.0), rj_c::<K, V, W, R, F>(self.0)), n <= b0.len(), m.fr() == f0, m.a() == a0, m.b() =~= b0.skip(it.index@ as int),
        m.out() == op.fold_b(o0, b0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_b_push(op, o0, b0, i0); assert(b0.skip(i0)[0] == b0[i0]); assert(b0.skip(i0).skip(1) =~= b0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.eb)(o1, b0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for RightJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(rj_l::<K, V, W, R, F>(self.0), rj_r::<K, V, W, R, F>(self.0), rj_c::<K, V, W, R, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.byref
//@ head src/vec_map.rs MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for InnerJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, R)>, (K, V), (K, W)> { join_ops(ij_l::<K, V, W, R, F>(self.0), ij_r::<K, V, W, R, F>(self.0), ij_c::<K, V, W, R, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, &V, &W, Option<R>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for InnerJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for InnerJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_a(ij_l::<K, V, W, R, F>(self.0), ij_r::<K, V, W, R, F>(self.0), ij_c::<K, V, W, R, F>(self.0), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for InnerJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_b(ij_l::<K, V, W, R, F>(self.0), ij_r::<K, V, W, R, F>(self.0), ij_c::<K, V, W, R, F>(self.0), m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<SmallVecMergeState<'a, (K, V), (K, W), A>> for InnerJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(ij_l::<K, V, W, R, F>(self.0), ij_r::<K, V, W, R, F>(self.0), ij_c::<K, V, W, R, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.inplace
//@ head src/vec_map.rs MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for OuterJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, V)>, (K, V), (K, W)> { join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, V, &W>, Option<V>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for OuterJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for OuterJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0));
    proof { assert(a0.take(0) =~= seq![]); assert(a0.skip(0) =~= a0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, V, &W>, Option<V>, F>(self.0), op == join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0)), n <= a0.len(), m.fr() == f0, m.b() == b0, m.a() =~= a0.skip(it.index@ as int),
        m.out() == op.fold_a(o0, a0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_a_push(op, o0, a0, i0); assert(a0.skip(i0)[0] == a0[i0]); assert(a0.skip(i0).skip(1) =~= a0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.ea)(o1, a0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for OuterJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0));
    proof { assert(b0.take(0) =~= seq![]); assert(b0.skip(0) =~= b0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure1::<OuterJoinArg<&K, V, &W>, Option<V>, F>(self.0), op == join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0)), n <= b0.len(), m.fr() == f0, m.a() == a0, m.b() =~= b0.skip(it.index@ as int),
        m.out() == op.fold_b(o0, b0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_b_push(op, o0, b0, i0); assert(b0.skip(i0)[0] == b0[i0]); assert(b0.skip(i0).skip(1) =~= b0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.eb)(o1, b0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for OuterJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(ojw_l::<K, V, W, F>(self.0), ojw_r::<K, V, W, F>(self.0), ojw_c::<K, V, W, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.inplace
//@ head src/vec_map.rs MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for LeftJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, V)>, (K, V), (K, W)> { join_ops(ljw_l::<K, V, W, F>(self.0), ljw_r::<K, V, W, F>(self.0), ljw_c::<K, V, W, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, V, Option<&W>, Option<V>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for LeftJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for LeftJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(ljw_l::<K, V, W, F>(self.0), ljw_r::<K, V, W, F>(self.0), ljw_c::<K, V, W, F>(self.0));
    proof { assert(a0.take(0) =~= seq![]); assert(a0.skip(0) =~= a0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, V, Option<&W>, Option<V>, F>(self.0), op == join_ops(ljw_l::<K, V, W, F>(self.0), ljw_r::<K, V, W, F>(self.0), ljw_c::<K, V, W, F>(self.0)), n <= a0.len(), m.fr() == f0, m.b() == b0, m.a() =~= a0.skip(it.index@ as int),
        m.out() == op.fold_a(o0, a0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_a_push(op, o0, a0, i0); assert(a0.skip(i0)[0] == a0[i0]); assert(a0.skip(i0).skip(1) =~= a0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.ea)(o1, a0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for LeftJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_b(ljw_l::<K, V, W, F>(self.0), ljw_r::<K, V, W, F>(self.0), ljw_c::<K, V, W, F>(self.0), m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for LeftJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(ljw_l::<K, V, W, F>(self.0), ljw_r::<K, V, W, F>(self.0), ljw_c::<K, V, W, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.inplace
//@ head src/vec_map.rs MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for RightJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, V)>, (K, V), (K, W)> { join_ops(rjw_l::<K, V, W, F>(self.0), rjw_r::<K, V, W, F>(self.0), rjw_c::<K, V, W, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, Option<V>, &W, Option<V>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for RightJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for RightJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_a(rjw_l::<K, V, W, F>(self.0), rjw_r::<K, V, W, F>(self.0), rjw_c::<K, V, W, F>(self.0), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for RightJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(rjw_l::<K, V, W, F>(self.0), rjw_r::<K, V, W, F>(self.0), rjw_c::<K, V, W, F>(self.0));
    proof { assert(b0.take(0) =~= seq![]); assert(b0.skip(0) =~= b0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, Option<V>, &W, Option<V>, F>(self.0), op == join_ops(rjw_l::<K, V, W, F>(self.0), rjw_r::<K, V, W, F>(self.0), rjw_c::<K, V, W, F>(self.0)), n <= b0.len(), m.fr() == f0, m.a() == a0, m.b() =~= b0.skip(it.index@ as int),
        m.out() == op.fold_b(o0, b0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_b_push(op, o0, b0, i0); assert(b0.skip(i0)[0] == b0[i0]); assert(b0.skip(i0).skip(1) =~= b0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.eb)(o1, b0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for RightJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(rjw_l::<K, V, W, F>(self.0), rjw_r::<K, V, W, F>(self.0), rjw_c::<K, V, W, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.inplace
//@ head src/vec_map.rs MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for InnerJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, V)>, (K, V), (K, W)> { join_ops(ijw_l::<K, V, W, F>(self.0), ijw_r::<K, V, W, F>(self.0), ijw_c::<K, V, W, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && clone_ok::<K>() && fpure3::<&K, V, &W, Option<V>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for InnerJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for InnerJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_a(ijw_l::<K, V, W, F>(self.0), ijw_r::<K, V, W, F>(self.0), ijw_c::<K, V, W, F>(self.0), m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for InnerJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    proof { lemma_none_fold_b(ijw_l::<K, V, W, F>(self.0), ijw_r::<K, V, W, F>(self.0), ijw_c::<K, V, W, F>(self.0), m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceSmallVecMergeStateRef<'a, A, (K, W)>> for InnerJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(ijw_l::<K, V, W, F>(self.0), ijw_r::<K, V, W, F>(self.0), ijw_c::<K, V, W, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
//@ tag map.inplace
//@ head src/vec_map.rs MergeOperation<InPlaceMergeState<'a, A, B>> for OuterJoinOp
    spec fn ops(&self) -> Ops<Seq<(K, V)>, (K, V), (K, W)> { join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0)) }
    spec fn okk(&self) -> bool { ord_laws::<K>() && fpure1::<OuterJoinArg<&K, V, W>, Option<V>, F>(self.0) }
//@ fn src/vec_map.rs | MergeOperation<InPlaceMergeState<'a, A, B>> for OuterJoinOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceMergeState<'a, A, B>> for OuterJoinOp | from_a
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0));
    proof { assert(a0.take(0) =~= seq![]); assert(a0.skip(0) =~= a0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && fpure1::<OuterJoinArg<&K, V, W>, Option<V>, F>(self.0), op == join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0)), n <= a0.len(), m.fr() == f0, m.b() == b0, m.a() =~= a0.skip(it.index@ as int),
        m.out() == op.fold_a(o0, a0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_a_push(op, o0, a0, i0); assert(a0.skip(i0)[0] == a0[i0]); assert(a0.skip(i0).skip(1) =~= a0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.ea)(o1, a0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceMergeState<'a, A, B>> for OuterJoinOp | from_b
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, a0, b0, f0) = (m.out(), m.a(), m.b(), m.fr());
    let ghost op = join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0));
    proof { assert(b0.take(0) =~= seq![]); assert(b0.skip(0) =~= b0); }
//@ loop 0 iter it
      invariant ord_laws::<K>() && fpure1::<OuterJoinArg<&K, V, W>, Option<V>, F>(self.0), op == join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0)), n <= b0.len(), m.fr() == f0, m.a() == a0, m.b() =~= b0.skip(it.index@ as int),
        m.out() == op.fold_b(o0, b0.take(it.index@ as int))
//@ loopstart 0
      proof { reveal(fpure1); reveal(fpure3); }
      let ghost o1 = m.out();
      let ghost i0 = it.index@ as int;
      proof { lemma_fold_b_push(op, o0, b0, i0); assert(b0.skip(i0)[0] == b0[i0]); assert(b0.skip(i0).skip(1) =~= b0.skip(i0 + 1)); }
//@ loopend 0
      proof { assert(m.out() =~= (op.eb)(o1, b0[i0])); }
//@ endfn
//@ fn src/vec_map.rs | MergeOperation<InPlaceMergeState<'a, A, B>> for OuterJoinOp | collision
//@ start
    proof { reveal(fpure1); reveal(fpure3); }
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
//@ end
    proof { assert(m.out() =~= ((join_ops(ojo_l::<K, V, W, F>(self.0), ojo_r::<K, V, W, F>(self.0), ojo_c::<K, V, W, F>(self.0))).ec)(o0, x, y)); }
//@ endfn
}
