//@ include setlemmas.vrs
//@ include state.vrs
//@ tag setops
//@ # ---- src/vec_set.rs: the four merge operations ----------------------------------------------------
//@ struct src/vec_set.rs SetUnionOp
//@ struct src/vec_set.rs SetIntersectionOp
//@ struct src/vec_set.rs SetXorOp
//@ struct src/vec_set.rs SetDiffOpt
spec fn set_ops<T: Ord, I: MergeStateMut<A = T, B = T>>(fa: bool, fb: bool, fc: bool) -> Ops<I::Out, T, T> {
    Ops {
        ea: |o: I::Out, a: T| if fa { I::ta(o, a) } else { o },
        eb: |o: I::Out, b: T| if fb { I::tb(o, b) } else { o },
        ec: |o: I::Out, a: T, b: T| if fc { I::ta(o, a) } else { o },
        cmp: |a: T, b: T| oc(a, b),
    }
}
proof fn lemma_set_fold_a<T: Ord, I: MergeStateMut<A = T, B = T>>(fa: bool, fb: bool, fc: bool, o: I::Out, s: Seq<T>)
    ensures set_ops::<T, I>(fa, fb, fc).fold_a(o, s) == if fa { fold_seq(|o: I::Out, x: T| I::ta(o, x), o, s) } else { o }
    decreases s.len()
{
    if s.len() > 0 { lemma_set_fold_a::<T, I>(fa, fb, fc, if fa { I::ta(o, s[0]) } else { o }, s.skip(1)); }
}
proof fn lemma_set_fold_b<T: Ord, I: MergeStateMut<A = T, B = T>>(fa: bool, fb: bool, fc: bool, o: I::Out, s: Seq<T>)
    ensures set_ops::<T, I>(fa, fb, fc).fold_b(o, s) == if fb { fold_seq(|o: I::Out, x: T| I::tb(o, x), o, s) } else { o }
    decreases s.len()
{
    if s.len() > 0 { lemma_set_fold_b::<T, I>(fa, fb, fc, if fb { I::tb(o, s[0]) } else { o }, s.skip(1)); }
}
proof fn lemma_fold_one<O, T>(f: spec_fn(O, T) -> O, o: O, s: Seq<T>)
    requires s.len() > 0
    ensures fold_seq(f, o, s.take(1)) == f(o, s[0])
{
    assert(s.take(1).skip(1) =~= seq![]);
    assert(fold_seq(f, f(o, s[0]), s.take(1).skip(1)) == f(o, s[0]));
}
//@ head src/vec_set.rs MergeOperation for SetUnionOp
    spec fn ops(&self) -> Ops<I::Out, T, T> { set_ops::<T, I>(true, true, true) }
    spec fn okk(&self) -> bool { ord_laws::<T>() && I::can_a() && I::can_b() }
//@ fn src/vec_set.rs | MergeOperation for SetUnionOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetUnionOp | from_a
//@ start
    proof { lemma_set_fold_a::<T, I>(true, true, true, m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetUnionOp | from_b
//@ start
    proof { lemma_set_fold_b::<T, I>(true, true, true, m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetUnionOp | collision
//@ start
    proof { lemma_fold_one(|o: I::Out, x: T| I::ta(o, x), m.out(), m.a()); }
//@ endfn
}
//@ head src/vec_set.rs MergeOperation for SetIntersectionOp
    spec fn ops(&self) -> Ops<I::Out, T, T> { set_ops::<T, I>(false, false, true) }
    spec fn okk(&self) -> bool { ord_laws::<T>() && I::can_a() }
//@ fn src/vec_set.rs | MergeOperation for SetIntersectionOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetIntersectionOp | from_a
//@ start
    proof { lemma_set_fold_a::<T, I>(false, false, true, m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetIntersectionOp | from_b
//@ start
    proof { lemma_set_fold_b::<T, I>(false, false, true, m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetIntersectionOp | collision
//@ start
    proof { lemma_fold_one(|o: I::Out, x: T| I::ta(o, x), m.out(), m.a()); }
//@ endfn
}
//@ head src/vec_set.rs MergeOperation for SetDiffOpt
    spec fn ops(&self) -> Ops<I::Out, T, T> { set_ops::<T, I>(true, false, false) }
    spec fn okk(&self) -> bool { ord_laws::<T>() && I::can_a() }
//@ fn src/vec_set.rs | MergeOperation for SetDiffOpt | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetDiffOpt | from_a
//@ start
    proof { lemma_set_fold_a::<T, I>(true, false, false, m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetDiffOpt | from_b
//@ start
    proof { lemma_set_fold_b::<T, I>(true, false, false, m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetDiffOpt | collision
//@ start
    proof { lemma_fold_one(|o: I::Out, x: T| I::ta(o, x), m.out(), m.a()); }
//@ endfn
}
//@ head src/vec_set.rs MergeOperation for SetXorOp
    spec fn ops(&self) -> Ops<I::Out, T, T> { set_ops::<T, I>(true, true, false) }
    spec fn okk(&self) -> bool { ord_laws::<T>() && I::can_a() && I::can_b() }
//@ fn src/vec_set.rs | MergeOperation for SetXorOp | cmp
//@ start
    proof { reveal(ord_laws); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetXorOp | from_a
//@ start
    proof { lemma_set_fold_a::<T, I>(true, true, false, m.out(), m.a().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetXorOp | from_b
//@ start
    proof { lemma_set_fold_b::<T, I>(true, true, false, m.out(), m.b().take(n as int)); }
//@ endfn
//@ fn src/vec_set.rs | MergeOperation for SetXorOp | collision
//@ start
    proof { lemma_fold_one(|o: I::Out, x: T| I::ta(o, x), m.out(), m.a()); }
//@ endfn
}
proof fn lemma_set_mono<O, T: Ord>(op: Ops<O, T, T>, a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), sorted(a), sorted(b), forall|x: T, y: T| #[trigger] (op.cmp)(x, y) == oc(x, y)
    ensures op.mono(a, b)
{
    assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() &&
         (#[trigger] (op.cmp)(a[i], b[j]) == Ordering::Less || (op.cmp)(a[i], b[j]) == Ordering::Equal) implies #[trigger] (op.cmp)(a[i], b[k]) == Ordering::Less by {
        assert(oc(b[j], b[k]) == Ordering::Less); lemma_laws(a[i], b[j], b[k]);
    }
    assert forall|i: int, j: int, k: int| 0 <= i < k < a.len() && 0 <= j < b.len() &&
         (#[trigger] (op.cmp)(a[i], b[j]) == Ordering::Greater || (op.cmp)(a[i], b[j]) == Ordering::Equal) implies #[trigger] (op.cmp)(a[k], b[j]) == Ordering::Greater by {
        assert(oc(a[i], a[k]) == Ordering::Less); lemma_laws(a[i], a[k], a[k]); lemma_laws(a[k], a[i], b[j]);
    }
}
/// folding with "push or skip" effects is the set merge
proof fn lemma_set_fold<T: Ord, I: MergeStateMut<A = T, B = T, Out = Seq<T>>>(fa: bool, fb: bool, fc: bool, o: Seq<T>, a: Seq<T>, b: Seq<T>)
    requires forall|o: Seq<T>, x: T| #[trigger] I::ta(o, x) == o.push(x), fb ==> forall|o: Seq<T>, x: T| #[trigger] I::tb(o, x) == o.push(x)
    ensures set_ops::<T, I>(fa, fb, fc).fold(o, a, b) == o + setop(fa, fb, fc, a, b)
    decreases a.len() + b.len()
{
    let op = set_ops::<T, I>(fa, fb, fc);
    if a.len() == 0 {
        lemma_set_fold_b::<T, I>(fa, fb, fc, o, b);
        if fb {
            lemma_fold_push(|o: Seq<T>, x: T| I::tb(o, x), |x: T| x, o, b);
            assert(b.map_values(|x: T| x) =~= b);
        }
        assert(o + Seq::<T>::empty() =~= o);
    } else if b.len() == 0 {
        lemma_set_fold_a::<T, I>(fa, fb, fc, o, a);
        if fa {
            lemma_fold_push(|o: Seq<T>, x: T| I::ta(o, x), |x: T| x, o, a);
            assert(a.map_values(|x: T| x) =~= a);
        }
        assert(o + Seq::<T>::empty() =~= o);
    } else {
        match oc(a[0], b[0]) {
            Ordering::Less => {
                lemma_set_fold::<T, I>(fa, fb, fc, (op.ea)(o, a[0]), a.skip(1), b);
                assert(o.push(a[0]) + setop(fa, fb, fc, a.skip(1), b) =~= o + (seq![a[0]] + setop(fa, fb, fc, a.skip(1), b)));
            }
            Ordering::Equal => {
                lemma_set_fold::<T, I>(fa, fb, fc, (op.ec)(o, a[0], b[0]), a.skip(1), b.skip(1));
                assert(o.push(a[0]) + setop(fa, fb, fc, a.skip(1), b.skip(1)) =~= o + (seq![a[0]] + setop(fa, fb, fc, a.skip(1), b.skip(1))));
            }
            Ordering::Greater => {
                lemma_set_fold::<T, I>(fa, fb, fc, (op.eb)(o, b[0]), a, b.skip(1));
                assert(o.push(b[0]) + setop(fa, fb, fc, a, b.skip(1)) =~= o + (seq![b[0]] + setop(fa, fb, fc, a, b.skip(1))));
            }
        }
    }
}
proof fn lemma_set_fold_bool<T: Ord, I: MergeStateMut<A = T, B = T, Out = bool>>(fa: bool, fb: bool, fc: bool, o: bool, a: Seq<T>, b: Seq<T>)
    requires forall|o: bool, x: T| #[trigger] I::ta(o, x), forall|o: bool, x: T| #[trigger] I::tb(o, x)
    ensures set_ops::<T, I>(fa, fb, fc).fold(o, a, b) == (o || setop(fa, fb, fc, a, b).len() > 0)
    decreases a.len() + b.len()
{
    let op = set_ops::<T, I>(fa, fb, fc);
    if a.len() == 0 {
        lemma_set_fold_b::<T, I>(fa, fb, fc, o, b);
        lemma_fold_true(|o: bool, x: T| I::tb(o, x), o, b);
    } else if b.len() == 0 {
        lemma_set_fold_a::<T, I>(fa, fb, fc, o, a);
        lemma_fold_true(|o: bool, x: T| I::ta(o, x), o, a);
    } else {
        match oc(a[0], b[0]) {
            Ordering::Less => lemma_set_fold_bool::<T, I>(fa, fb, fc, (op.ea)(o, a[0]), a.skip(1), b),
            Ordering::Equal => lemma_set_fold_bool::<T, I>(fa, fb, fc, (op.ec)(o, a[0], b[0]), a.skip(1), b.skip(1)),
            Ordering::Greater => lemma_set_fold_bool::<T, I>(fa, fb, fc, (op.eb)(o, b[0]), a, b.skip(1)),
        }
    }
}
/// a set merge is non-empty iff some element is selected
proof fn lemma_setop_nonempty<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), sorted(a), sorted(b)
    ensures (setop(fa, fb, fc, a, b).len() > 0) == (exists|v: T| #[trigger] setop_mem(fa, fb, fc, a, b, v))
{
    let r = setop(fa, fb, fc, a, b);
    lemma_setop(fa, fb, fc, a, b);
    if r.len() > 0 { lemma_laws(r[0], r[0], r[0]); assert(mem(r, r[0])); assert(setop_mem(fa, fb, fc, a, b, r[0])); }
    if exists|v: T| setop_mem(fa, fb, fc, a, b, v) {
        let v = choose|v: T| setop_mem(fa, fb, fc, a, b, v);
        assert(mem(r, v));
    }
}
broadcast proof fn b_set_mono<T: Ord, I: MergeStateMut<A = T, B = T>>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), sorted(a), sorted(b)
    ensures #[trigger] set_ops::<T, I>(fa, fb, fc).mono(a, b)
{ lemma_set_mono(set_ops::<T, I>(fa, fb, fc), a, b); }
broadcast proof fn b_set_fold<T: Ord, I: MergeStateMut<A = T, B = T, Out = Seq<T>>>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>)
    requires forall|o: Seq<T>, x: T| #[trigger] I::ta(o, x) == o.push(x), fb ==> forall|o: Seq<T>, x: T| #[trigger] I::tb(o, x) == o.push(x),
       ord_laws::<T>(), sorted(a), sorted(b)
    ensures setop_ok(fa, fb, fc, a, b, #[trigger] set_ops::<T, I>(fa, fb, fc).fold(Seq::empty(), a, b))
{
    lemma_set_fold::<T, I>(fa, fb, fc, Seq::empty(), a, b);
    lemma_setop(fa, fb, fc, a, b);
    assert(Seq::<T>::empty() + setop(fa, fb, fc, a, b) =~= setop(fa, fb, fc, a, b));
}
broadcast proof fn b_set_fold_bool<T: Ord, I: MergeStateMut<A = T, B = T, Out = bool>>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>)
    requires forall|o: bool, x: T| #[trigger] I::ta(o, x), forall|o: bool, x: T| #[trigger] I::tb(o, x), ord_laws::<T>(), sorted(a), sorted(b)
    ensures (#[trigger] set_ops::<T, I>(fa, fb, fc).fold(false, a, b)) == (exists|v: T| #[trigger] setop_mem(fa, fb, fc, a, b, v))
{
    lemma_set_fold_bool::<T, I>(fa, fb, fc, false, a, b);
    lemma_setop_nonempty(fa, fb, fc, a, b);
}
broadcast group group_sets { b_set_mono, b_set_fold, b_set_fold_bool }
