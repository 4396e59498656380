//@ tag map
//@ # ---- key-sorted sequences of pairs ------------------------------------------------------------------
spec fn ksorted<K: Ord, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] oc(s[i].0, s[j].0) == Ordering::Less }
/// the entry of s whose key is equivalent to k
spec fn kent<K: Ord, V>(s: Seq<(K, V)>, k: K) -> Option<(K, V)>
    decreases s.len()
{
    if s.len() == 0 { None } else if oc(s[0].0, k) == Ordering::Equal { Some(s[0]) } else { kent(s.skip(1), k) }
}
/// all keys of s are greater than x
spec fn kgt<K: Ord, V>(s: Seq<(K, V)>, x: K) -> bool { forall|i: int| 0 <= i < s.len() ==> oc(x, (#[trigger] s[i]).0) == Ordering::Less }
proof fn lemma_kent<K: Ord, V>(s: Seq<(K, V)>, k: K)
    ensures match kent(s, k) {
        Some(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && oc(e.0, k) == Ordering::Equal,
        None => forall|i: int| 0 <= i < s.len() ==> oc((#[trigger] s[i]).0, k) != Ordering::Equal,
    }
    decreases s.len()
{
    if s.len() > 0 {
        if oc(s[0].0, k) == Ordering::Equal { assert(s[0] == kent(s, k).unwrap()); }
        else {
            lemma_kent(s.skip(1), k);
            if kent(s.skip(1), k).is_some() {
                let i = choose|i: int| 0 <= i < s.skip(1).len() && #[trigger] s.skip(1)[i] == kent(s, k).unwrap() && oc(kent(s, k).unwrap().0, k) == Ordering::Equal;
                assert(s[i + 1] == kent(s, k).unwrap());
            } else {
                assert forall|i: int| 0 <= i < s.len() implies oc((#[trigger] s[i]).0, k) != Ordering::Equal by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
            }
        }
    }
}
proof fn lemma_kent_at<K: Ord, V>(s: Seq<(K, V)>, i: int, k: K)
    requires ord_laws::<K>(), ksorted(s), 0 <= i < s.len(), oc(s[i].0, k) == Ordering::Equal
    ensures kent(s, k) == Some(s[i])
{
    lemma_kent(s, k);
    let e = kent(s, k).unwrap();
    let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == e && oc(e.0, k) == Ordering::Equal;
    lemma_laws(s[i].0, k, s[j].0); lemma_laws(s[j].0, k, s[i].0); lemma_laws(k, s[i].0, s[j].0);
    if i < j { assert(oc(s[i].0, s[j].0) == Ordering::Less); } else if j < i { assert(oc(s[j].0, s[i].0) == Ordering::Less); }
}
proof fn lemma_kent_none<K: Ord, V>(s: Seq<(K, V)>, k: K)
    requires forall|i: int| 0 <= i < s.len() ==> oc((#[trigger] s[i]).0, k) != Ordering::Equal
    ensures kent(s, k).is_none()
{ lemma_kent(s, k); }
/// equivalent keys select the same entry
proof fn lemma_kent_eqv<K: Ord, V>(s: Seq<(K, V)>, k: K, q: K)
    requires ord_laws::<K>(), ksorted(s), oc(k, q) == Ordering::Equal
    ensures kent(s, k) == kent(s, q)
{
    lemma_kent(s, k); lemma_kent(s, q);
    lemma_laws(k, q, q);
    if kent(s, k).is_some() {
        let e = kent(s, k).unwrap();
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && oc(e.0, k) == Ordering::Equal;
        lemma_laws(s[i].0, k, q);
        lemma_kent_at(s, i, q);
    } else if kent(s, q).is_some() {
        let e = kent(s, q).unwrap();
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && oc(e.0, q) == Ordering::Equal;
        lemma_laws(s[i].0, q, k); lemma_laws(q, k, q);
        assert(oc(s[i].0, k) == Ordering::Equal);
    }
}
proof fn lemma_ksorted_skip<K: Ord, V>(s: Seq<(K, V)>)
    requires ksorted(s), s.len() > 0
    ensures ksorted(s.skip(1)), kgt(s.skip(1), s[0].0)
{
    assert forall|i: int, j: int| 0 <= i < j < s.skip(1).len() implies #[trigger] oc(s.skip(1)[i].0, s.skip(1)[j].0) == Ordering::Less by { assert(oc(s[i + 1].0, s[j + 1].0) == Ordering::Less); }
    assert forall|i: int| 0 <= i < s.skip(1).len() implies oc(s[0].0, (#[trigger] s.skip(1)[i]).0) == Ordering::Less by { assert(oc(s[0].0, s[i + 1].0) == Ordering::Less); }
}
proof fn lemma_kgt_trans<K: Ord, V>(s: Seq<(K, V)>, x: K, y: K)
    requires ord_laws::<K>(), kgt(s, y), oc(x, y) == Ordering::Less || oc(x, y) == Ordering::Equal
    ensures kgt(s, x)
{
    assert forall|i: int| 0 <= i < s.len() implies oc(x, (#[trigger] s[i]).0) == Ordering::Less by { lemma_laws(x, y, s[i].0); }
}
proof fn lemma_kgt_none<K: Ord, V>(s: Seq<(K, V)>, x: K, k: K)
    requires ord_laws::<K>(), kgt(s, x), oc(x, k) == Ordering::Equal
    ensures kent(s, k).is_none()
{
    assert forall|i: int| 0 <= i < s.len() implies oc((#[trigger] s[i]).0, k) != Ordering::Equal by { lemma_laws(x, s[i].0, k); lemma_laws(s[i].0, k, x); lemma_laws(k, x, s[i].0); }
    lemma_kent_none(s, k);
}
//@ # ---- the mathematical join ----------------------------------------------------------------------------
spec fn opt1<K, R>(k: K, o: Option<R>) -> Seq<(K, R)> { match o { Some(v) => seq![(k, v)], None => Seq::empty() } }
spec fn mk<K, R>(k: K, o: Option<R>) -> Option<(K, R)> { match o { Some(v) => Some((k, v)), None => None } }
spec fn join<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>) -> Seq<(K, R)>
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Seq::empty() }
    else if b.len() == 0 || (a.len() > 0 && oc(a[0].0, b[0].0) == Ordering::Less) { opt1(a[0].0, l(a[0])) + join(l, r, c, a.skip(1), b) }
    else if a.len() == 0 || oc(a[0].0, b[0].0) == Ordering::Greater { opt1(b[0].0, r(b[0])) + join(l, r, c, a, b.skip(1)) }
    else { opt1(a[0].0, c(a[0], b[0])) + join(l, r, c, a.skip(1), b.skip(1)) }
}
/// the entry the join holds for a key, from the operands' entries for that key
spec fn jent<K, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, x: Option<(K, V)>, y: Option<(K, W)>) -> Option<(K, R)> {
    match (x, y) {
        (None, None) => None,
        (Some(x), None) => mk(x.0, l(x)),
        (None, Some(y)) => mk(y.0, r(y)),
        (Some(x), Some(y)) => mk(x.0, c(x, y)),
    }
}
/// res is the join of a and b: keys strictly ascending, and for every key the entry is the function applied to the operands' entries
spec fn join_ok<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>, res: Seq<(K, R)>) -> bool {
    ksorted(res) && forall|k: K| #[trigger] kent(res, k) == jent(l, r, c, kent(a, k), kent(b, k))
}
proof fn lemma_opt_cons<K: Ord, R>(k0: K, o: Option<R>, rest: Seq<(K, R)>)
    requires ord_laws::<K>(), ksorted(rest), kgt(rest, k0)
    ensures ksorted(opt1(k0, o) + rest),
      forall|k: K| #[trigger] kent(opt1(k0, o) + rest, k) == if oc(k0, k) == Ordering::Equal { mk(k0, o) } else { kent(rest, k) },
      forall|x: K| oc(x, k0) == Ordering::Less ==> #[trigger] kgt(opt1(k0, o) + rest, x)
{
    let res = opt1(k0, o) + rest;
    match o {
        None => {
            assert(res =~= rest);
            assert forall|k: K| #[trigger] kent(res, k) == if oc(k0, k) == Ordering::Equal { mk(k0, o) } else { kent(rest, k) } by { if oc(k0, k) == Ordering::Equal { lemma_kgt_none(rest, k0, k); } }
            assert forall|x: K| oc(x, k0) == Ordering::Less implies #[trigger] kgt(res, x) by { lemma_kgt_trans(rest, x, k0); }
        }
        Some(v) => {
            assert(res[0] == (k0, v));
            assert(res.skip(1) =~= rest);
            assert forall|i: int, j: int| 0 <= i < j < res.len() implies #[trigger] oc(res[i].0, res[j].0) == Ordering::Less by {
                assert(res[j] == rest[j - 1]);
                if i > 0 { assert(res[i] == rest[i - 1]); assert(oc(rest[i - 1].0, rest[j - 1].0) == Ordering::Less); }
            }
            assert forall|k: K| #[trigger] kent(res, k) == if oc(k0, k) == Ordering::Equal { mk(k0, o) } else { kent(rest, k) } by {}
            assert forall|x: K| oc(x, k0) == Ordering::Less implies #[trigger] kgt(res, x) by {
                lemma_kgt_trans(rest, x, k0);
                assert forall|i: int| 0 <= i < res.len() implies oc(x, (#[trigger] res[i]).0) == Ordering::Less by { if i > 0 { assert(res[i] == rest[i - 1]); } }
            }
        }
    }
}
proof fn lemma_join<K: Ord, V, W, R>(l: spec_fn((K, V)) -> Option<R>, r: spec_fn((K, W)) -> Option<R>, c: spec_fn((K, V), (K, W)) -> Option<R>, a: Seq<(K, V)>, b: Seq<(K, W)>)
    requires ord_laws::<K>(), ksorted(a), ksorted(b)
    ensures join_ok(l, r, c, a, b, join(l, r, c, a, b)), forall|x: K| kgt(a, x) && kgt(b, x) ==> #[trigger] kgt(join(l, r, c, a, b), x)
    decreases a.len() + b.len()
{
    let res = join(l, r, c, a, b);
    if a.len() == 0 && b.len() == 0 {
    } else if b.len() == 0 || (a.len() > 0 && oc(a[0].0, b[0].0) == Ordering::Less) {
        let k0 = a[0].0;
        let a1 = a.skip(1);
        let rest = join(l, r, c, a1, b);
        lemma_ksorted_skip(a);
        lemma_join(l, r, c, a1, b);
        if b.len() > 0 { lemma_head_gt(b, k0); }
        assert(kgt(b, k0));
        assert(kgt(rest, k0));
        lemma_opt_cons(k0, l(a[0]), rest);
        assert forall|k: K| #[trigger] kent(res, k) == jent(l, r, c, kent(a, k), kent(b, k)) by {
            assert(kent(rest, k) == jent(l, r, c, kent(a1, k), kent(b, k)));
            if oc(k0, k) == Ordering::Equal { lemma_kgt_none(b, k0, k); }
        }
        assert forall|x: K| kgt(a, x) && kgt(b, x) implies #[trigger] kgt(res, x) by { assert(oc(x, a[0].0) == Ordering::Less); }
    } else if a.len() == 0 || oc(a[0].0, b[0].0) == Ordering::Greater {
        let k0 = b[0].0;
        let b1 = b.skip(1);
        let rest = join(l, r, c, a, b1);
        lemma_ksorted_skip(b);
        lemma_join(l, r, c, a, b1);
        if a.len() > 0 { lemma_laws(a[0].0, k0, k0); lemma_head_gt(a, k0); }
        assert(kgt(a, k0));
        assert(kgt(rest, k0));
        lemma_opt_cons(k0, r(b[0]), rest);
        assert forall|k: K| #[trigger] kent(res, k) == jent(l, r, c, kent(a, k), kent(b, k)) by {
            assert(kent(rest, k) == jent(l, r, c, kent(a, k), kent(b1, k)));
            if oc(k0, k) == Ordering::Equal { lemma_kgt_none(a, k0, k); }
        }
        assert forall|x: K| kgt(a, x) && kgt(b, x) implies #[trigger] kgt(res, x) by { assert(oc(x, b[0].0) == Ordering::Less); }
    } else {
        let k0 = a[0].0;
        let a1 = a.skip(1);
        let b1 = b.skip(1);
        let rest = join(l, r, c, a1, b1);
        lemma_ksorted_skip(a); lemma_ksorted_skip(b);
        lemma_join(l, r, c, a1, b1);
        lemma_kgt_trans(b1, k0, b[0].0);
        assert(kgt(rest, k0));
        lemma_opt_cons(k0, c(a[0], b[0]), rest);
        assert forall|k: K| #[trigger] kent(res, k) == jent(l, r, c, kent(a, k), kent(b, k)) by {
            assert(kent(rest, k) == jent(l, r, c, kent(a1, k), kent(b1, k)));
            lemma_laws(k0, b[0].0, k); lemma_laws(b[0].0, k0, k);
        }
        assert forall|x: K| kgt(a, x) && kgt(b, x) implies #[trigger] kgt(res, x) by { assert(oc(x, a[0].0) == Ordering::Less); }
    }
}
/// a non-empty ascending sequence lies above everything below its head
proof fn lemma_head_gt<K: Ord, V>(s: Seq<(K, V)>, x: K)
    requires ord_laws::<K>(), ksorted(s), s.len() > 0, oc(x, s[0].0) == Ordering::Less
    ensures kgt(s, x)
{
    assert forall|i: int| 0 <= i < s.len() implies oc(x, (#[trigger] s[i]).0) == Ordering::Less by { if i > 0 { assert(oc(s[0].0, s[i].0) == Ordering::Less); lemma_laws(x, s[0].0, s[i].0); } }
}
//@ include fpure.vrs
//@ tag map
//@ struct src/vec_map.rs OuterJoinArg
spec fn oj_l<K, V, W, R, F: Fn(OuterJoinArg<&K, &V, &W>) -> Option<R>>(f: F) -> spec_fn((K, V)) -> Option<R> { |a: (K, V)| fv1(f, OuterJoinArg::Left(&a.0, &a.1)) }
spec fn oj_r<K, V, W, R, F: Fn(OuterJoinArg<&K, &V, &W>) -> Option<R>>(f: F) -> spec_fn((K, W)) -> Option<R> { |b: (K, W)| fv1(f, OuterJoinArg::Right(&b.0, &b.1)) }
spec fn oj_c<K, V, W, R, F: Fn(OuterJoinArg<&K, &V, &W>) -> Option<R>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<R> { |a: (K, V), b: (K, W)| fv1(f, OuterJoinArg::Both(&a.0, &a.1, &b.1)) }
spec fn lj_l<K, V, W, R, F: Fn(&K, &V, Option<&W>) -> Option<R>>(f: F) -> spec_fn((K, V)) -> Option<R> { |a: (K, V)| fv3(f, &a.0, &a.1, None) }
spec fn lj_r<K, V, W, R, F: Fn(&K, &V, Option<&W>) -> Option<R>>(f: F) -> spec_fn((K, W)) -> Option<R> { |b: (K, W)| None }
spec fn lj_c<K, V, W, R, F: Fn(&K, &V, Option<&W>) -> Option<R>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<R> { |a: (K, V), b: (K, W)| fv3(f, &a.0, &a.1, Some(&b.1)) }
spec fn rj_l<K, V, W, R, F: Fn(&K, Option<&V>, &W) -> Option<R>>(f: F) -> spec_fn((K, V)) -> Option<R> { |a: (K, V)| None }
spec fn rj_r<K, V, W, R, F: Fn(&K, Option<&V>, &W) -> Option<R>>(f: F) -> spec_fn((K, W)) -> Option<R> { |b: (K, W)| fv3(f, &b.0, None, &b.1) }
spec fn rj_c<K, V, W, R, F: Fn(&K, Option<&V>, &W) -> Option<R>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<R> { |a: (K, V), b: (K, W)| fv3(f, &a.0, Some(&a.1), &b.1) }
spec fn ij_l<K, V, W, R, F: Fn(&K, &V, &W) -> Option<R>>(f: F) -> spec_fn((K, V)) -> Option<R> { |a: (K, V)| None }
spec fn ij_r<K, V, W, R, F: Fn(&K, &V, &W) -> Option<R>>(f: F) -> spec_fn((K, W)) -> Option<R> { |b: (K, W)| None }
spec fn ij_c<K, V, W, R, F: Fn(&K, &V, &W) -> Option<R>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<R> { |a: (K, V), b: (K, W)| fv3(f, &a.0, &a.1, &b.1) }
spec fn ojw_l<K, V, W, F: Fn(OuterJoinArg<&K, V, &W>) -> Option<V>>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| fv1(f, OuterJoinArg::Left(&a.0, a.1)) }
spec fn ojw_r<K, V, W, F: Fn(OuterJoinArg<&K, V, &W>) -> Option<V>>(f: F) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| fv1(f, OuterJoinArg::Right(&b.0, &b.1)) }
spec fn ojw_c<K, V, W, F: Fn(OuterJoinArg<&K, V, &W>) -> Option<V>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| fv1(f, OuterJoinArg::Both(&a.0, a.1, &b.1)) }
spec fn ljw_l<K, V, W, F: Fn(&K, V, Option<&W>) -> Option<V>>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| fv3(f, &a.0, a.1, None) }
spec fn ljw_r<K, V, W, F: Fn(&K, V, Option<&W>) -> Option<V>>(f: F) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| None }
spec fn ljw_c<K, V, W, F: Fn(&K, V, Option<&W>) -> Option<V>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| fv3(f, &a.0, a.1, Some(&b.1)) }
spec fn rjw_l<K, V, W, F: Fn(&K, Option<V>, &W) -> Option<V>>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| None }
spec fn rjw_r<K, V, W, F: Fn(&K, Option<V>, &W) -> Option<V>>(f: F) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| fv3(f, &b.0, None, &b.1) }
spec fn rjw_c<K, V, W, F: Fn(&K, Option<V>, &W) -> Option<V>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| fv3(f, &a.0, Some(a.1), &b.1) }
spec fn ijw_l<K, V, W, F: Fn(&K, V, &W) -> Option<V>>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| None }
spec fn ijw_r<K, V, W, F: Fn(&K, V, &W) -> Option<V>>(f: F) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| None }
spec fn ijw_c<K, V, W, F: Fn(&K, V, &W) -> Option<V>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| fv3(f, &a.0, a.1, &b.1) }
spec fn ojo_l<K, V, W, F: Fn(OuterJoinArg<&K, V, W>) -> Option<V>>(f: F) -> spec_fn((K, V)) -> Option<V> { |a: (K, V)| fv1(f, OuterJoinArg::Left(&a.0, a.1)) }
spec fn ojo_r<K, V, W, F: Fn(OuterJoinArg<&K, V, W>) -> Option<V>>(f: F) -> spec_fn((K, W)) -> Option<V> { |b: (K, W)| fv1(f, OuterJoinArg::Right(&b.0, b.1)) }
spec fn ojo_c<K, V, W, F: Fn(OuterJoinArg<&K, V, W>) -> Option<V>>(f: F) -> spec_fn((K, V), (K, W)) -> Option<V> { |a: (K, V), b: (K, W)| fv1(f, OuterJoinArg::Both(&a.0, a.1, b.1)) }
