//@ tag dedup
use vstd::std_specs::iter::IteratorSpec;
//@ # ---- comparison closures ---------------------------------------------------------------------------
/// the value a comparison closure returns (closures under contract are pure: `cmp_laws`)
spec fn co<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> Ordering { choose|r: Ordering| f.ensures((&a, &b), r) }
spec fn cb<T, F: Fn(&T, &T) -> bool>(f: F, a: T, b: T) -> bool { choose|r: bool| f.ensures((&a, &b), r) }
/// trusted: a terminating closure returns some value allowed by its contract
#[verifier::external_body]
broadcast proof fn axiom_cmp_total<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T)
    requires f.requires((&a, &b))
    ensures f.ensures((&a, &b), #[trigger] co(f, a, b))
{}
#[verifier::external_body]
broadcast proof fn axiom_cb_total<T, F: Fn(&T, &T) -> bool>(f: F, a: T, b: T)
    requires f.requires((&a, &b))
    ensures f.ensures((&a, &b), #[trigger] cb(f, a, b))
{}
/// callable everywhere, deterministic
spec fn cmp_pure<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: T, b: T| #[trigger] f.requires((&a, &b))
    &&& forall|a: T, b: T, r: Ordering| #[trigger] f.ensures((&a, &b), r) ==> r == co(f, a, b)
}
/// a lawful total preorder
#[verifier::opaque]
spec fn cmp_laws<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& cmp_pure(f)
    &&& forall|a: T| #[trigger] co(f, a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] co(f, a, b) == rev(co(f, b, a))
    &&& forall|a: T, b: T, c: T| ordn(#[trigger] co(f, a, b)) <= 0 && ordn(#[trigger] co(f, b, c)) <= 0 ==>
            ordn(co(f, a, c)) <= 0 && (co(f, a, c) == Ordering::Equal ==> co(f, a, b) == Ordering::Equal && co(f, b, c) == Ordering::Equal)
}
spec fn csorted<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] co(f, s[i], s[j]) == Ordering::Less }
spec fn cnondec<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] co(f, s[i], s[j]) != Ordering::Greater }
spec fn ceq<T, F: Fn(&T, &T) -> Ordering>(f: F) -> spec_fn(T, T) -> bool { |a: T, b: T| co(f, a, b) == Ordering::Equal }
proof fn lemma_claws<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T, c: T)
    requires cmp_laws(f)
    ensures co(f, a, b) == rev(co(f, b, a)), co(f, a, a) == Ordering::Equal, co(f, b, c) == rev(co(f, c, b)), co(f, a, c) == rev(co(f, c, a)),
      co(f, a, b) == Ordering::Less && co(f, b, c) == Ordering::Less ==> co(f, a, c) == Ordering::Less,
      co(f, a, b) == Ordering::Less && co(f, b, c) == Ordering::Equal ==> co(f, a, c) == Ordering::Less,
      co(f, a, b) == Ordering::Equal && co(f, b, c) == Ordering::Less ==> co(f, a, c) == Ordering::Less,
      co(f, a, b) == Ordering::Equal && co(f, b, c) == Ordering::Equal ==> co(f, a, c) == Ordering::Equal,
{
    reveal(cmp_laws);
    assert(co(f, a, b) == rev(co(f, b, a)));
    assert(co(f, b, c) == rev(co(f, c, b)));
    assert(co(f, a, c) == rev(co(f, c, a)));
}
#[verifier::opaque]
spec fn equiv<T>(e: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: T| #[trigger] e(a, a)
    &&& forall|a: T, b: T| #[trigger] e(a, b) == e(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] e(a, b) && #[trigger] e(b, c) ==> e(a, c)
}
proof fn lemma_eqv<T>(e: spec_fn(T, T) -> bool, a: T, b: T, c: T)
    requires equiv(e)
    ensures e(a, a), e(a, b) == e(b, a), e(b, c) == e(c, b), e(a, c) == e(c, a), e(a, b) && e(b, c) ==> e(a, c)
{ reveal(equiv); }
proof fn lemma_ceq_equiv<T, F: Fn(&T, &T) -> Ordering>(f: F)
    requires cmp_laws(f)
    ensures equiv(ceq(f))
{
    reveal(equiv);
    let e = ceq(f);
    assert forall|a: T| #[trigger] e(a, a) by { lemma_claws(f, a, a, a); }
    assert forall|a: T, b: T| #[trigger] e(a, b) == e(b, a) by { lemma_claws(f, a, b, a); }
    assert forall|a: T, b: T, c: T| #[trigger] e(a, b) && #[trigger] e(b, c) implies e(a, c) by { lemma_claws(f, a, b, c); }
}
//@ # ---- which element of a class survives ----------------------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ struct src/dedup.rs Keep
/// the element of v's class that must be kept: the first or the last one pushed
spec fn best<T>(s: Seq<T>, v: T, keep: Keep, e: spec_fn(T, T) -> bool) -> Option<T>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        let p = best(s.drop_last(), v, keep, e);
        let x = s.last();
        if e(x, v) { if keep == Keep::First && p.is_some() { p } else { Some(x) } } else { p }
    }
}
/// the subsequence of v's class
spec fn cls<T>(s: Seq<T>, v: T, e: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let p = cls(s.drop_last(), v, e); if e(s.last(), v) { p.push(s.last()) } else { p } }
}
spec fn same_best<T>(s: Seq<T>, t: Seq<T>, keep: Keep, e: spec_fn(T, T) -> bool) -> bool { forall|v: T| #[trigger] best(s, v, keep, e) == best(t, v, keep, e) }
proof fn lemma_best_cls<T>(s: Seq<T>, v: T, keep: Keep, e: spec_fn(T, T) -> bool)
    ensures ({ let c = cls(s, v, e); best(s, v, keep, e) == if c.len() == 0 { None } else if keep == Keep::First { Some(c[0]) } else { Some(c.last()) } })
    decreases s.len()
{
    if s.len() > 0 { lemma_best_cls(s.drop_last(), v, keep, e); }
}
proof fn lemma_best_push<T>(s: Seq<T>, x: T, v: T, keep: Keep, e: spec_fn(T, T) -> bool)
    ensures best(s.push(x), v, keep, e) == ({ let p = best(s, v, keep, e); if e(x, v) { if keep == Keep::First && p.is_some() { p } else { Some(x) } } else { p } })
{
    assert(s.push(x).drop_last() =~= s);
}
proof fn lemma_same_best_push<T>(s: Seq<T>, t: Seq<T>, x: T, keep: Keep, e: spec_fn(T, T) -> bool)
    requires same_best(s, t, keep, e)
    ensures same_best(s.push(x), t.push(x), keep, e)
{
    assert forall|v: T| #[trigger] best(s.push(x), v, keep, e) == best(t.push(x), v, keep, e) by { lemma_best_push(s, x, v, keep, e); lemma_best_push(t, x, v, keep, e); assert(best(s, v, keep, e) == best(t, v, keep, e)); }
}
/// what best() means, position by position
proof fn lemma_best_meaning<T>(s: Seq<T>, v: T, keep: Keep, e: spec_fn(T, T) -> bool)
    ensures match best(s, v, keep, e) {
        None => forall|i: int| 0 <= i < s.len() ==> !#[trigger] e(s[i], v),
        Some(x) => e(x, v) && exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == x
            && (keep == Keep::First ==> forall|j: int| 0 <= j < k ==> !#[trigger] e(s[j], v))
            && (keep == Keep::Last ==> forall|j: int| k < j < s.len() ==> !#[trigger] e(s[j], v)),
    }
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_best_meaning(t, v, keep, e);
        let p = best(t, v, keep, e);
        if p.is_some() {
            let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == p.unwrap()
                && (keep == Keep::First ==> forall|j: int| 0 <= j < k ==> !#[trigger] e(t[j], v))
                && (keep == Keep::Last ==> forall|j: int| k < j < t.len() ==> !#[trigger] e(t[j], v));
            assert(s[k] == p.unwrap());
            if keep == Keep::First { assert forall|j: int| 0 <= j < k implies !#[trigger] e(s[j], v) by { assert(t[j] == s[j]); assert(!e(t[j], v)); } }
            if keep == Keep::Last && !e(s.last(), v) { assert forall|j: int| k < j < s.len() implies !#[trigger] e(s[j], v) by { if j < t.len() { assert(t[j] == s[j]); assert(!e(t[j], v)); } } }
        } else {
            assert forall|i: int| 0 <= i < t.len() implies !#[trigger] e(s[i], v) by { assert(t[i] == s[i]); assert(!e(t[i], v)); }
        }
        assert(s[s.len() - 1] == s.last());
    }
}
proof fn lemma_best_some<T>(s: Seq<T>, i: int, v: T, keep: Keep, e: spec_fn(T, T) -> bool)
    requires 0 <= i < s.len(), e(s[i], v)
    ensures best(s, v, keep, e).is_some()
{ lemma_best_meaning(s, v, keep, e); }
/// in a sequence with at most one element per class, best() is membership
proof fn lemma_best_unique<T>(s: Seq<T>, i: int, v: T, keep: Keep, e: spec_fn(T, T) -> bool)
    requires 0 <= i < s.len(), e(s[i], v), equiv(e), forall|x: int, y: int| 0 <= x < y < s.len() ==> !#[trigger] e(s[x], s[y])
    ensures best(s, v, keep, e) == Some(s[i])
{
    lemma_best_meaning(s, v, keep, e);
    let x = best(s, v, keep, e).unwrap();
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x;
    lemma_eqv(e, s[k], v, s[i]); lemma_eqv(e, s[i], v, s[k]);
    if k < i { assert(!e(s[k], s[i])); } else if i < k { assert(!e(s[i], s[k])); }
}
proof fn lemma_cls_best<T>(s: Seq<T>, t: Seq<T>, keep: Keep, e: spec_fn(T, T) -> bool)
    requires forall|v: T| #[trigger] cls(s, v, e) == cls(t, v, e)
    ensures same_best(s, t, keep, e)
{
    assert forall|v: T| #[trigger] best(s, v, keep, e) == best(t, v, keep, e) by { lemma_best_cls(s, v, keep, e); lemma_best_cls(t, v, keep, e); assert(cls(s, v, e) == cls(t, v, e)); }
}
/// trusted: core's stable sort
#[verifier::external_body]
fn stable_sort_by<T, F: Fn(&T, &T) -> Ordering>(s: &mut [T], f: &F)
    requires cmp_laws(*f)
    ensures final(s)@.len() == old(s)@.len(), cnondec(*f, final(s)@), forall|v: T| #[trigger] cls(final(s)@, v, ceq(*f)) == cls(old(s)@, v, ceq(*f))
{ unimplemented!() }
pub assume_specification <T> [ <[T]>::swap ] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);

spec fn contiguous<T>(s: Seq<T>, e: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int, k: int| 0 <= i <= j <= k < s.len() && #[trigger] e(s[i], s[k]) ==> #[trigger] e(s[j], s[k]) }
spec fn cbeq<T, F: Fn(&T, &T) -> bool>(f: F) -> spec_fn(T, T) -> bool { |a: T, b: T| cb(f, a, b) }
/// d keeps one element of each class of s, in the order of s
spec fn dedup_ok<T>(s: Seq<T>, d: Seq<T>, keep: Keep, e: spec_fn(T, T) -> bool) -> bool {
    &&& same_best(d, s, keep, e)
    &&& forall|x: int, y: int| 0 <= x < y < d.len() ==> !#[trigger] e(d[x], d[y]) && exists|i: int, k: int| 0 <= i < k < s.len() && #[trigger] s[i] == d[x] && #[trigger] s[k] == d[y]
}
spec fn dpair<T>(t: Seq<T>, idx: Seq<int>, e: spec_fn(T, T) -> bool, p: int, q: int) -> bool { idx[p] < idx[q] && !e(t[p], t[q]) }
/// t is the deduplicated prefix, s what has been consumed, t[q] == s[idx[q]]
#[verifier::opaque]
spec fn dinv<T>(t: Seq<T>, s: Seq<T>, idx: Seq<int>, keep: Keep, e: spec_fn(T, T) -> bool) -> bool {
    &&& t.len() == idx.len() && t.len() > 0 && s.len() > 0
    &&& same_best(t, s, keep, e)
    &&& e(t.last(), s.last())
    &&& forall|q: int| 0 <= q < t.len() ==> 0 <= #[trigger] idx[q] < s.len() && t[q] == s[idx[q]]
    &&& forall|p: int, q: int| 0 <= p < q < t.len() ==> #[trigger] dpair(t, idx, e, p, q)
}
proof fn lemma_dinv_init<T>(x: T, keep: Keep, e: spec_fn(T, T) -> bool)
    requires equiv(e)
    ensures dinv(seq![x], seq![x], seq![0int], keep, e)
{
    reveal(dinv);
    lemma_eqv(e, x, x, x);
}
proof fn lemma_dinv_new<T>(t: Seq<T>, s: Seq<T>, idx: Seq<int>, x: T, keep: Keep, e: spec_fn(T, T) -> bool)
    requires dinv(t, s, idx, keep, e), equiv(e), contiguous(s.push(x), e), !e(x, t.last())
    ensures dinv(t.push(x), s.push(x), idx.push(s.len() as int), keep, e)
{
    reveal(dinv);
    let n = s.len() as int;
    let s1 = s.push(x); let t1 = t.push(x); let idx1 = idx.push(n); let m = t.len() as int;
    lemma_eqv(e, t.last(), x, x);
    lemma_same_best_push(t, s, x, keep, e);
    lemma_eqv(e, x, x, x);
    assert forall|p: int| 0 <= p < m implies !#[trigger] e(t[p], x) by {
        if e(t[p], x) {
            assert(0 <= idx[p] < n);
            assert(s1[idx[p]] == t[p] && s1[n] == x && s1[n - 1] == s.last());
            assert(e(s1[idx[p]], s1[n]));
            assert(e(s1[n - 1], s1[n]));
            lemma_eqv(e, t.last(), s.last(), x);
        }
    }
    assert forall|q: int| 0 <= q < t1.len() implies 0 <= #[trigger] idx1[q] < s1.len() && t1[q] == s1[idx1[q]] by { if q < m { assert(idx1[q] == idx[q]); } }
    assert forall|p: int, q: int| 0 <= p < q < t1.len() implies #[trigger] dpair(t1, idx1, e, p, q) by {
        assert(idx1[p] == idx[p] && t1[p] == t[p]);
        if q < m { assert(idx1[q] == idx[q] && t1[q] == t[q]); assert(dpair(t, idx, e, p, q)); }
        else { assert(idx1[q] == n && t1[q] == x); assert(0 <= idx[p] < n); assert(!e(t[p], x)); }
    }
    assert(t1.last() == x && s1.last() == x);
    assert(same_best(t1, s1, keep, e));
    assert(t1.len() == idx1.len());
    assert(e(t1.last(), s1.last()));
    assert(forall|q: int| 0 <= q < t1.len() ==> 0 <= #[trigger] idx1[q] < s1.len() && t1[q] == s1[idx1[q]]);
    assert(forall|p: int, q: int| 0 <= p < q < t1.len() ==> #[trigger] dpair(t1, idx1, e, p, q));
    assert(dinv(t1, s1, idx1, keep, e));
}
proof fn lemma_dinv_last<T>(t: Seq<T>, s: Seq<T>, idx: Seq<int>, x: T, e: spec_fn(T, T) -> bool)
    requires dinv(t, s, idx, Keep::Last, e), equiv(e), e(x, t.last())
    ensures dinv(t.drop_last().push(x), s.push(x), idx.drop_last().push(s.len() as int), Keep::Last, e)
{
    reveal(dinv);
    let n = s.len() as int;
    let s1 = s.push(x); let t1 = t.drop_last().push(x); let idx1 = idx.drop_last().push(n); let m = t.len() as int; let l = t.last();
    lemma_eqv(e, l, x, x);
    lemma_eqv(e, x, x, x);
    assert forall|v: T| #[trigger] best(t1, v, Keep::Last, e) == best(s1, v, Keep::Last, e) by {
        lemma_best_push(t.drop_last(), x, v, Keep::Last, e);
        lemma_best_push(s, x, v, Keep::Last, e);
        assert(best(t, v, Keep::Last, e) == best(s, v, Keep::Last, e));
        lemma_eqv(e, x, l, v); lemma_eqv(e, l, x, v);
    }
    assert forall|q: int| 0 <= q < t1.len() implies 0 <= #[trigger] idx1[q] < s1.len() && t1[q] == s1[idx1[q]] by { if q < m - 1 { assert(idx1[q] == idx[q]); } }
    assert forall|p: int, q: int| 0 <= p < q < t1.len() implies #[trigger] dpair(t1, idx1, e, p, q) by {
        assert(idx1[p] == idx[p] && t1[p] == t[p]);
        assert(dpair(t, idx, e, p, q));
        if q < m - 1 { assert(idx1[q] == idx[q] && t1[q] == t[q]); } else { lemma_eqv(e, t[p], x, l); }
    }
    assert(same_best(t1, s1, Keep::Last, e));
    assert(t1.len() == idx1.len());
    assert(t1.last() == x && s1.last() == x);
    assert(e(t1.last(), s1.last()));
    assert(forall|q: int| 0 <= q < t1.len() ==> 0 <= #[trigger] idx1[q] < s1.len() && t1[q] == s1[idx1[q]]);
    assert(forall|p: int, q: int| 0 <= p < q < t1.len() ==> #[trigger] dpair(t1, idx1, e, p, q));
    assert(dinv(t1, s1, idx1, Keep::Last, e));
}
proof fn lemma_dinv_first<T>(t: Seq<T>, s: Seq<T>, idx: Seq<int>, x: T, e: spec_fn(T, T) -> bool)
    requires dinv(t, s, idx, Keep::First, e), equiv(e), e(x, t.last())
    ensures dinv(t, s.push(x), idx, Keep::First, e)
{
    reveal(dinv);
    let s1 = s.push(x); let m = t.len() as int;
    lemma_eqv(e, t.last(), x, x);
    assert forall|v: T| #[trigger] best(t, v, Keep::First, e) == best(s1, v, Keep::First, e) by {
        lemma_best_push(s, x, v, Keep::First, e);
        assert(best(t, v, Keep::First, e) == best(s, v, Keep::First, e));
        if e(x, v) { lemma_eqv(e, t.last(), x, v); lemma_best_some(t, m - 1, v, Keep::First, e); }
    }
    assert forall|q: int| 0 <= q < t.len() implies 0 <= #[trigger] idx[q] < s1.len() && t[q] == s1[idx[q]] by {}
}
proof fn lemma_dinv_done<T>(t: Seq<T>, s: Seq<T>, idx: Seq<int>, keep: Keep, e: spec_fn(T, T) -> bool)
    requires dinv(t, s, idx, keep, e)
    ensures dedup_ok(s, t, keep, e)
{
    reveal(dinv);
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies !#[trigger] e(t[x], t[y]) && exists|i: int, k: int| 0 <= i < k < s.len() && #[trigger] s[i] == t[x] && #[trigger] s[k] == t[y] by {
        assert(dpair(t, idx, e, x, y));
        let i = idx[x]; let k = idx[y];
        assert(0 <= i < k < s.len());
        assert(s[i] == t[x] && s[k] == t[y]);
    }
    assert(same_best(t, s, keep, e) ==> dedup_ok(s, t, keep, e));
}
spec fn bcall<T, F: Fn(&T, &T) -> bool>(f: F) -> bool {
    &&& forall|a: T, b: T| #[trigger] f.requires((&a, &b))
    &&& forall|a: T, b: T, r: bool| #[trigger] f.ensures((&a, &b), r) ==> r == cb(f, a, b)
}
//@ fn src/dedup.rs | - | dedup_by
//@ ret r
    requires bcall(same_bucket), equiv(cbeq(same_bucket)), contiguous(old(d)@, cbeq(same_bucket))
    ensures r <= final(d)@.len() == old(d)@.len(), dedup_ok(old(d)@, final(d)@.take(r as int), keep, cbeq(same_bucket)), old(d)@.len() > 0 ==> r > 0
//@ start
    let ghost d0 = d@;
    let ghost e = cbeq(same_bucket);
    let ghost mut idx: Seq<int> = seq![0];
    proof {
        if d0.len() > 0 { lemma_dinv_init(d0[0], keep, e); assert(d0.take(1) =~= seq![d0[0]]); }
        else { assert(d0.take(0) =~= d0); }
    }
//@ loop 0 iter it
      invariant d@.len() == d0.len(), it.seq().len() == d0.len() - 1 || d0.len() == 0, j <= it.index@, 0 < d0.len(), e == cbeq(same_bucket),
        forall|q: int| 0 <= q < it.seq().len() ==> it.seq()[q] == q + 1,
        bcall(same_bucket), equiv(e), contiguous(d0, e),
        forall|q: int| it.index@ < q < d0.len() ==> d@[q] == d0[q],
        dinv(d@.take(j + 1), d0.take(it.index@ + 1), idx, keep, e),
//@ loopstart 0
        let ghost j0 = j as int;
        let ghost t0 = d@.take(j + 1);
        let ghost s0 = d0.take(i as int);
        let ghost x = d0[i as int];
        proof {
            assert(i == it.index@ + 1);
            assert(d0.take(i + 1) =~= s0.push(x));
            assert(contiguous(s0.push(x), e)) by {
                assert forall|a: int, b: int, c: int| 0 <= a <= b <= c < s0.push(x).len() && #[trigger] e(s0.push(x)[a], s0.push(x)[c]) implies #[trigger] e(s0.push(x)[b], s0.push(x)[c]) by {
                    assert(e(d0[a], d0[c]));
                    assert(e(d0[b], d0[c]));
                }
            }
            if !e(x, t0.last()) { lemma_dinv_new(t0, s0, idx, x, keep, e); }
            else if keep == Keep::Last { lemma_dinv_last(t0, s0, idx, x, e); }
            else { lemma_dinv_first(t0, s0, idx, x, e); }
            idx = if !e(x, t0.last()) { idx.push(i as int) } else if keep == Keep::Last { idx.drop_last().push(i as int) } else { idx };
        }
//@ loopend 0
        proof {
            if !e(x, t0.last()) { assert(d@.take(j + 1) =~= t0.push(x)); }
            else if keep == Keep::Last { assert(d@.take(j + 1) =~= t0.drop_last().push(x)); }
            else { assert(d@.take(j + 1) =~= t0); }
        }
//@ after `for i in 1 .. d . len ( ) $x`
    proof {
        assert(d0.take(d0.len() as int) =~= d0);
        lemma_dinv_done(d@.take(j + 1), d0, idx, keep, e);
    }
//@ endfn
//@ # ---- src/dedup.rs: the target collection ---------------------------------------------------------------
/// stands for the crate's `Seq: DerefMut<Target = [T]>`: the extracted methods plus the slice methods it derefs to
trait DSeq<T>: Sized {
    spec fn dv(&self) -> Seq<T>;
//@ fn src/dedup.rs | trait Seq | with_capacity
//@ ret r
      ensures r.dv() == Seq::<T>::empty()
//@ endfn
//@ fn src/dedup.rs | trait Seq | push
      ensures final(self).dv() == old(self).dv().push(value)
//@ endfn
//@ fn src/dedup.rs | trait Seq | truncate
      ensures final(self).dv() == if size <= old(self).dv().len() { old(self).dv().take(size as int) } else { old(self).dv() }
//@ endfn
    fn len(&self) -> (r: usize) ensures r == self.dv().len();
    fn deref_mut(&mut self) -> (r: &mut [T]) ensures r@ == old(self).dv(), final(r)@ == final(self).dv(), final(r)@.len() == r@.len();
    fn last_mut(&mut self) -> (r: Option<&mut T>)
      ensures match r {
          None => old(self).dv().len() == 0 && final(self).dv() == old(self).dv(),
          Some(x) => old(self).dv().len() > 0 && *x == old(self).dv().last() && final(self).dv() == old(self).dv().update(old(self).dv().len() - 1, *final(x)),
      };
}
//@ head src/dedup.rs Seq<T> for Vec<T>
//@ rw `Seq` => `DSeq`
    spec fn dv(&self) -> Seq<T> { self@ }
//@ fn src/dedup.rs | Seq<T> for Vec<T> | with_capacity
//@ rw `Self :: with_capacity` => `Vec::<T>::with_capacity`
//@ endfn
//@ fn src/dedup.rs | Seq<T> for Vec<T> | push
//@ endfn
//@ fn src/dedup.rs | Seq<T> for Vec<T> | truncate
//@ endfn
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn deref_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
    #[verifier::external_body]
    fn last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
}
//@ head src/dedup.rs Seq for SmallVec
//@ rw `Seq` => `DSeq`
    spec fn dv(&self) -> Seq<A::Item> { self@ }
//@ fn src/dedup.rs | Seq for SmallVec | with_capacity
//@ rw `Self :: with_capacity` => `SmallVec::<A>::with_capacity`
//@ endfn
//@ fn src/dedup.rs | Seq for SmallVec | push
//@ endfn
//@ fn src/dedup.rs | Seq for SmallVec | truncate
//@ endfn
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn deref_mut(&mut self) -> (r: &mut [A::Item]) { unimplemented!() }
    #[verifier::external_body]
    fn last_mut(&mut self) -> (r: Option<&mut A::Item>) { unimplemented!() }
}
//@ # ---- the aggregator --------------------------------------------------------------------------------------
//@ struct src/dedup.rs SortAndDedup
spec fn dedup_result<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>, r: Seq<T>, keep: Keep) -> bool { csorted(f, r) && same_best(r, s, keep, ceq(f)) }
proof fn lemma_same_best_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, keep: Keep, e: spec_fn(T, T) -> bool)
    requires same_best(a, b, keep, e), same_best(b, c, keep, e)
    ensures same_best(a, c, keep, e)
{
    assert forall|v: T| #[trigger] best(a, v, keep, e) == best(c, v, keep, e) by { assert(best(a, v, keep, e) == best(b, v, keep, e)); assert(best(b, v, keep, e) == best(c, v, keep, e)); }
}
proof fn lemma_dedup_sorted<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>, d: Seq<T>, keep: Keep)
    requires cmp_laws(f), cnondec(f, s), dedup_ok(s, d, keep, ceq(f))
    ensures csorted(f, d)
{
    assert forall|x: int, y: int| 0 <= x < y < d.len() implies #[trigger] co(f, d[x], d[y]) == Ordering::Less by {
        assert(!ceq(f)(d[x], d[y]));
        let (i, k) = choose|i: int, k: int| 0 <= i < k < s.len() && #[trigger] s[i] == d[x] && #[trigger] s[k] == d[y];
        assert(co(f, s[i], s[k]) != Ordering::Greater);
    }
}
proof fn lemma_nondec_contiguous<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>)
    requires cmp_laws(f), cnondec(f, s)
    ensures contiguous(s, ceq(f))
{
    let e = ceq(f);
    assert forall|i: int, j: int, k: int| 0 <= i <= j <= k < s.len() && #[trigger] e(s[i], s[k]) implies #[trigger] e(s[j], s[k]) by {
        lemma_claws(f, s[i], s[j], s[k]); lemma_claws(f, s[j], s[k], s[i]);
        if i < j { assert(co(f, s[i], s[j]) != Ordering::Greater); }
        if j < k { assert(co(f, s[j], s[k]) != Ordering::Greater); }
    }
}
impl<I: DSeq<T>, T, F: Fn(&T, &T) -> Ordering> SortAndDedup<I, T, F> {
    spec fn wf(&self) -> bool { self.sorted <= self.data.dv().len() && csorted(self.cmp, self.data.dv().take(self.sorted as int)) && cmp_laws(self.cmp) }
    spec fn same_par(&self, o: &Self) -> bool { self.cmp == o.cmp && self.keep == o.keep }
}
//@ head src/dedup.rs SortAndDedup # push
//@ rw `Seq` => `DSeq`
//@ fn src/dedup.rs | SortAndDedup | sort_and_dedup
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_par(old(self)), final(self).sorted == final(self).data.dv().len(), final(self).data.dv().len() <= old(self).data.dv().len(),
       same_best(final(self).data.dv(), old(self).data.dv(), old(self).keep, ceq(old(self).cmp))
//@ start
    broadcast use {axiom_cb_total, axiom_cmp_total};
    let ghost f = self.cmp;
    let ghost d0 = self.data.dv();
    proof { reveal(cmp_laws); assert(d0.take(d0.len() as int) =~= d0); }
//@ rw `slice . sort_by ( cmp )` => `stable_sort_by(slice, cmp)`
//@ before `let unique = $$x ;`
    let ghost d1 = slice@;
    proof {
        lemma_cls_best(d1, d0, self.keep, ceq(f));
        lemma_nondec_contiguous(f, d1);
        lemma_ceq_equiv(f);
    }
//@ rw `dedup_by ( slice , | a , b | $$e , self . keep )` => `{ let vx_c = |a: &T, b: &T| -> (r: bool) ensures r == (co(*cmp, *a, *b) == Ordering::Equal) { $e }; proof { assert forall|a: T, b: T| #[trigger] cbeq(vx_c)(a, b) == ceq(f)(a, b) by { axiom_cb_total(vx_c, a, b); } assert(cbeq(vx_c) =~= ceq(f)); } dedup_by(slice, vx_c, self.keep) }`
//@ after `let unique = $$x ;`
    let ghost d2 = slice@;
    proof {
        lemma_dedup_sorted(f, d1, slice@.take(unique as int), self.keep);
        lemma_same_best_trans(slice@.take(unique as int), d1, d0, self.keep, ceq(f));
    }
//@ after `self . sorted = self . data . len ( ) ;`
    proof { assert(self.data.dv().take(self.sorted as int) =~= self.data.dv());
    }
//@ endfn
//@ fn src/dedup.rs | SortAndDedup | into_inner
//@ ret r
    requires self.wf()
    ensures dedup_result(self.cmp, self.data.dv(), r.dv(), self.keep)
//@ before `res . data`
    proof { assert(res.data.dv().take(res.sorted as int) =~= res.data.dv()); }
//@ endfn
//@ fn src/dedup.rs | SortAndDedup | push
    requires old(self).wf(), old(self).data.dv().len() < usize::MAX
    ensures final(self).wf(), final(self).same_par(old(self)), final(self).data.dv().len() <= old(self).data.dv().len() + 1,
       same_best(final(self).data.dv(), old(self).data.dv().push(elem), old(self).keep, ceq(old(self).cmp))
//@ start
    broadcast use axiom_cmp_total;
    let ghost f = self.cmp;
    let ghost kp = self.keep;
    let ghost d0 = self.data.dv();
    let ghost n0 = d0.len() as int;
    proof { reveal(cmp_laws); lemma_ceq_equiv(f); assert(d0.take(n0) =~= d0); assert(d0.push(elem).take(n0 + 1) =~= d0.push(elem)); }
//@ before `if self . data . len ( ) >= 16 $x`
    let ghost d1 = self.data.dv();
    proof {
        if self.sorted > old(self).sorted && n0 > 0 {
            assert forall|i: int, j: int| 0 <= i < j < d1.len() implies #[trigger] co(f, d1[i], d1[j]) == Ordering::Less by {
                if j == n0 { lemma_claws(f, d0[i], d0[n0 - 1], elem); if i < n0 - 1 { assert(co(f, d0[i], d0[n0 - 1]) == Ordering::Less); } }
                else { assert(co(f, d0[i], d0[j]) == Ordering::Less); }
            }
            assert(d1.take(n0 + 1) =~= d1);
        } else if d1.len() == n0 {
            let l = d0[n0 - 1];
            lemma_claws(f, l, elem, elem);
            if kp == Keep::First {
                assert(d1 =~= d0);
                assert forall|v: T| #[trigger] best(d1, v, kp, ceq(f)) == best(d0.push(elem), v, kp, ceq(f)) by {
                    lemma_best_push(d0, elem, v, kp, ceq(f));
                    if ceq(f)(elem, v) { lemma_eqv(ceq(f), l, elem, v); lemma_best_some(d0, n0 - 1, v, kp, ceq(f)); }
                }
            } else {
                assert(d1 =~= d0.drop_last().push(elem));
                assert(d0 =~= d0.drop_last().push(l));
                assert forall|v: T| #[trigger] best(d1, v, kp, ceq(f)) == best(d0.push(elem), v, kp, ceq(f)) by {
                    lemma_best_push(d0, elem, v, kp, ceq(f));
                    lemma_best_push(d0.drop_last(), elem, v, kp, ceq(f));
                    lemma_best_push(d0.drop_last(), l, v, kp, ceq(f));
                    lemma_eqv(ceq(f), elem, l, v); lemma_eqv(ceq(f), l, elem, v);
                }
                assert(d1.take(n0) =~= d1);
                assert forall|i: int, j: int| 0 <= i < j < d1.len() implies #[trigger] co(f, d1[i], d1[j]) == Ordering::Less by {
                    assert(co(f, d0[i], d0[j]) == Ordering::Less);
                    if j == n0 - 1 { lemma_claws(f, d0[i], l, elem); }
                }
            }
        }
        if d1.len() == n0 + 1 { assert(d1 =~= d0.push(elem)); }
        assert(n0 == 0 ==> d1.len() == 1);
        assert(d1.len() == n0 || d1.len() == n0 + 1);
        assert(same_best(d1, d0.push(elem), kp, ceq(f)));
        if self.sorted == old(self).sorted && d1.len() == n0 + 1 { assert(d1.take(self.sorted as int) =~= d0.take(self.sorted as int)); }
    }
//@ after `self . sort_and_dedup ( ) ;`
    proof { lemma_same_best_trans(self.data.dv(), d1, d0.push(elem), kp, ceq(f)); }
//@ endfn
}
/// trusted: `Iterator::size_hint`, used only as a capacity hint
#[verifier::external_body]
fn vx_size_hint<I: Iterator>(i: &I) -> (r: (usize, Option<usize>)) { unimplemented!() }
pub assume_specification<T: Ord> [ core::cmp::min::<T> ] (a: T, b: T) -> (r: T)
    ensures r == a || r == b;
/// a finite iterator, and few enough elements for a Vec to hold
#[verifier::prophetic]
spec fn fin<I: Iterator>(i: I) -> bool { i.obeys_prophetic_iter_laws() && i.will_return_none() && i.decrease().is_some() && i.remaining().len() < usize::MAX }
//@ fn src/dedup.rs | - | sort_dedup_by
//@ sigrw `Seq` => `DSeq`
//@ ret r
    requires fin(iter), cmp_laws(cmp)
    ensures dedup_result(cmp, iter.remaining(), r.dv(), keep)
//@ rw `iter . size_hint ( )` => `vx_size_hint(&iter)`
//@ start
    let ghost s = iter.remaining();
    let ghost mut n: int = 0;
    proof { assert(s.skip(0) =~= s); }
//@ before `for x in iter $x`
    proof { assert(agg.data.dv().take(0) =~= Seq::<I::Item>::empty()); assert(s.take(0) =~= Seq::<I::Item>::empty()); }
//@ forloop 0
    invariant_except_break vx_it0.obeys_prophetic_iter_laws(), vx_it0.will_return_none(), vx_it0.decrease().is_some(), vx_it0.remaining() =~= s.skip(n)
    invariant agg.wf(), agg.cmp == cmp, agg.keep == keep, cmp_laws(cmp), s.len() < usize::MAX, 0 <= n <= s.len(), agg.data.dv().len() <= n,
      same_best(agg.data.dv(), s.take(n), keep, ceq(cmp))
    ensures n == s.len()
    decreases vx_it0.decrease()->0
//@ before `agg . push ( x ) ;`
    let ghost d0 = agg.data.dv();
    let ghost x0 = x;
    proof { assert(x == s.skip(n)[0]); }
//@ after `agg . push ( x ) ;`
    proof {
        lemma_same_best_push(d0, s.take(n), x0, keep, ceq(cmp));
        lemma_same_best_trans(agg.data.dv(), d0.push(x0), s.take(n).push(x0), keep, ceq(cmp));
        assert(s.take(n + 1) =~= s.take(n).push(x0));
        assert(s.skip(n).skip(1) =~= s.skip(n + 1));
        n = n + 1;
    }
//@ before `agg . into_inner ( )`
    proof { assert(s.take(n) =~= s); }
//@ endfn
/// the comparison functions built by sort_dedup / sort_dedup_by_key
spec fn ordcmp<T: Ord, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: T, b: T| #[trigger] f.requires((&a, &b))
    &&& forall|a: T, b: T, r: Ordering| #[trigger] f.ensures((&a, &b), r) ==> r == oc(a, b)
}
proof fn lemma_ordcmp<T: Ord, F: Fn(&T, &T) -> Ordering>(f: F)
    requires ordcmp(f), ord_laws::<T>()
    ensures cmp_laws(f), forall|a: T, b: T| #[trigger] co(f, a, b) == oc(a, b)
{
    broadcast use axiom_cmp_total;
    reveal(ord_laws); reveal(cmp_laws);
    assert forall|a: T, b: T| #[trigger] co(f, a, b) == oc(a, b) by { axiom_cmp_total(f, a, b); }
}
spec fn oceq<T: Ord>() -> spec_fn(T, T) -> bool { |a: T, b: T| oc(a, b) == Ordering::Equal }
//@ fn src/dedup.rs | - | sort_dedup
//@ sigrw `Seq` => `DSeq`
//@ ret r
    requires fin(iter), ord_laws::<I::Item>()
    ensures sorted(r.dv()), same_best(r.dv(), iter.remaining(), keep, oceq())
//@ rw `sort_dedup_by ( iter , keep , | a : & I :: Item , b : & I :: Item | $$e )` => `{ let vx_c = |a: &I::Item, b: &I::Item| -> (r: Ordering) ensures r == oc(*a, *b) { proof { reveal(ord_laws); } $e }; proof { lemma_ordcmp(vx_c); assert(ceq::<I::Item, _>(vx_c) =~= oceq::<I::Item>()); } let r: R = sort_dedup_by(iter, keep, vx_c); proof { assert forall|i: int, j: int| 0 <= i < j < r.dv().len() implies #[trigger] oc(r.dv()[i], r.dv()[j]) == Ordering::Less by { assert(co(vx_c, r.dv()[i], r.dv()[j]) == Ordering::Less); } } r }`
//@ endfn
/// the key a key function selects
spec fn kf<T, K, F: Fn(&T) -> &K>(f: F, a: T) -> K { choose|r: K| f.ensures((&a,), &r) }
spec fn key_ok<T, K, F: Fn(&T) -> &K>(f: F) -> bool {
    &&& forall|a: T| #[trigger] f.requires((&a,))
    &&& forall|a: T, r: &K| #[trigger] f.ensures((&a,), r) ==> *r == kf::<T, K, F>(f, a)
}
/// a comes before b by key
spec fn koc<T, K: Ord, F: Fn(&T) -> &K>(f: F, a: T, b: T) -> Ordering { oc(kf::<T, K, F>(f, a), kf::<T, K, F>(f, b)) }
spec fn kocr<T, K: Ord, F: Fn(&T) -> &K>(f: &F, a: T, b: T) -> Ordering { koc::<T, K, F>(*f, a, b) }
spec fn koeq<T, K: Ord, F: Fn(&T) -> &K>(f: F) -> spec_fn(T, T) -> bool { |a: T, b: T| koc::<T, K, F>(f, a, b) == Ordering::Equal }
proof fn lemma_keycmp<T, K: Ord, F: Fn(&T) -> &K, C: Fn(&T, &T) -> Ordering>(f: F, c: C)
    requires ord_laws::<K>(), forall|a: T, b: T| #[trigger] c.requires((&a, &b)), forall|a: T, b: T, r: Ordering| #[trigger] c.ensures((&a, &b), r) ==> r == koc::<T, K, F>(f, a, b)
    ensures cmp_laws(c), forall|a: T, b: T| #[trigger] co(c, a, b) == koc::<T, K, F>(f, a, b)
{
    reveal(ord_laws); reveal(cmp_laws);
    assert forall|a: T, b: T| #[trigger] co(c, a, b) == koc::<T, K, F>(f, a, b) by { axiom_cmp_total(c, a, b); }
}
//@ fn src/dedup.rs | - | sort_dedup_by_key
//@ sigrw `Seq` => `DSeq`
//@ ret r
    requires fin(iter), ord_laws::<K>(), key_ok::<I::Item, K, F>(key)
    ensures forall|i: int, j: int| 0 <= i < j < r.dv().len() ==> #[trigger] koc::<I::Item, K, F>(key, r.dv()[i], r.dv()[j]) == Ordering::Less,
      same_best(r.dv(), iter.remaining(), keep, koeq::<I::Item, K, F>(key))
//@ rw `sort_dedup_by ( iter , keep , | a : & I :: Item , b : & I :: Item | $$e )` => `{ let ghost kg = key; let vx_c = |a: &I::Item, b: &I::Item| -> (r: Ordering) ensures r == kocr::<I::Item, K, F>(&key, *a, *b) { proof { reveal(ord_laws); } $e }; proof { lemma_keycmp::<I::Item, K, F, _>(kg, vx_c); assert(ceq::<I::Item, _>(vx_c) =~= koeq::<I::Item, K, F>(kg)); } let r: R = sort_dedup_by(iter, keep, vx_c); proof { assert forall|i: int, j: int| 0 <= i < j < r.dv().len() implies #[trigger] koc::<I::Item, K, F>(kg, r.dv()[i], r.dv()[j]) == Ordering::Less by { assert(co(vx_c, r.dv()[i], r.dv()[j]) == Ordering::Less); } } r }`
//@ endfn
