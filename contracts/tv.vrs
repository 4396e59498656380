//@ tag rx
//@ # ---- radix trees as values: prefix, value, children ------------------------------------------------
pub struct TV<K, V> { pub p: Seq<K>, pub v: Option<V>, pub c: Seq<TV<K, V>> }
/// key components: lawful total order, whose equivalence and `==` are identity; Clone gives the same value
#[verifier::opaque]
spec fn key_laws<K: Ord + Clone>() -> bool {
    &&& ord_laws::<K>() && clone_ok::<K>()
    &&& forall|a: K, b: K| #[trigger] oc(a, b) == Ordering::Equal ==> a == b
    &&& K::obeys_eq_spec()
    &&& forall|a: K, b: K| #[trigger] a.eq_spec(&b) == (a == b)
}
proof fn lemma_kord<K: Ord + Clone>(a: K, b: K, c: K)
    requires key_laws::<K>()
    ensures oc(a, a) == Ordering::Equal, (oc(a, b) == Ordering::Equal) == (a == b), oc(a, b) == rev(oc(b, a)),
      oc(a, b) == Ordering::Less && oc(b, c) == Ordering::Less ==> oc(a, c) == Ordering::Less
{ reveal(key_laws); lemma_laws(a, b, c); lemma_laws(b, c, a); }
spec fn pre<K>(p: Seq<K>, k: Seq<K>) -> bool { p.len() <= k.len() && p == k.take(p.len() as int) }
spec fn isc<K, V>(c: Seq<TV<K, V>>, x: K, i: int) -> bool { 0 <= i < c.len() && c[i].p.len() > 0 && c[i].p[0] == x }
spec fn chas<K, V>(c: Seq<TV<K, V>>, x: K) -> bool { exists|i: int| isc(c, x, i) }
spec fn cix<K, V>(c: Seq<TV<K, V>>, x: K) -> int { choose|i: int| isc(c, x, i) }
/// the value stored under key k
spec fn tget<K, V>(t: TV<K, V>, k: Seq<K>) -> Option<V>
    decreases t
{
    if !pre(t.p, k) { None } else if k.len() == t.p.len() { t.v } else {
        let r = k.skip(t.p.len() as int);
        if chas(t.c, r[0]) { tget(t.c[cix(t.c, r[0])], r) } else { None }
    }
}
/// the value stored under the non-empty key k in a list of subtrees
spec fn cg<K, V>(c: Seq<TV<K, V>>, k: Seq<K>) -> Option<V> {
    if k.len() > 0 && chas(c, k[0]) { tget(c[cix(c, k[0])], k) } else { None }
}
spec fn csorted<K: Ord, V>(c: Seq<TV<K, V>>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] oc(c[i].p[0], c[j].p[0]) == Ordering::Less }
/// non-empty canonical tree
spec fn wfc<K: Ord, V>(t: TV<K, V>) -> bool
    decreases t
{
    &&& csorted(t.c)
    &&& forall|i: int| 0 <= i < t.c.len() ==> (#[trigger] t.c[i]).p.len() > 0 && wfc(t.c[i])
    &&& t.v.is_some() || t.c.len() >= 2
}
/// canonical child list
spec fn cok<K: Ord, V>(c: Seq<TV<K, V>>) -> bool { csorted(c) && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).p.len() > 0 && wfc(c[i]) }
spec fn tnil<K, V>() -> TV<K, V> { TV { p: Seq::empty(), v: None, c: Seq::empty() } }
spec fn isnil<K, V>(t: TV<K, V>) -> bool { t.v.is_none() && t.c.len() == 0 }
/// canonical tree
spec fn wf<K: Ord, V>(t: TV<K, V>) -> bool { wfc(t) || (isnil(t) && t.p.len() == 0) }
spec fn hd<K, V>(t: TV<K, V>) -> K { t.p[0] }

proof fn lemma_wf_nil<K: Ord, V>(t: TV<K, V>)
    requires wf(t)
    ensures isnil(t) == !wfc(t), isnil(t) ==> t == tnil::<K, V>(), cok(t.c)
{ if isnil(t) { assert(t.c =~= Seq::empty()); assert(t.p =~= Seq::empty() || wfc(t)); } }
proof fn lemma_nil_get<K, V>(t: TV<K, V>, k: Seq<K>)
    requires isnil(t)
    ensures tget(t, k).is_none()
{ if pre(t.p, k) && k.len() != t.p.len() { let r = k.skip(t.p.len() as int); if chas(t.c, r[0]) { let i = cix(t.c, r[0]); assert(isc(t.c, r[0], i)); } } }
proof fn lemma_cix<K: Ord + Clone, V>(c: Seq<TV<K, V>>, i: int)
    requires key_laws::<K>(), csorted(c), 0 <= i < c.len(), c[i].p.len() > 0
    ensures chas(c, c[i].p[0]), cix(c, c[i].p[0]) == i
{
    let x = c[i].p[0];
    assert(isc(c, x, i));
    let j = cix(c, x);
    assert(isc(c, x, j));
    lemma_kord(x, x, x);
    if i < j { assert(oc(c[i].p[0], c[j].p[0]) == Ordering::Less); } else if j < i { assert(oc(c[j].p[0], c[i].p[0]) == Ordering::Less); }
}
proof fn lemma_chas<K, V>(c: Seq<TV<K, V>>, x: K)
    ensures chas(c, x) ==> 0 <= cix(c, x) < c.len() && c[cix(c, x)].p.len() > 0 && c[cix(c, x)].p[0] == x
{ if chas(c, x) { assert(isc(c, x, cix(c, x))); } }
/// a stored key extends the prefix of the node
proof fn lemma_get_pre<K, V>(t: TV<K, V>, k: Seq<K>)
    ensures tget(t, k).is_some() ==> pre(t.p, k), tget(t, k) == if !pre(t.p, k) { None } else if k.len() == t.p.len() { t.v } else { cg(t.c, k.skip(t.p.len() as int)) }
{}
proof fn lemma_cat<K>(p: Seq<K>, r: Seq<K>)
    ensures pre(p, p + r), (p + r).skip(p.len() as int) == r, (p + r).len() == p.len() + r.len()
{ assert((p + r).take(p.len() as int) =~= p); assert((p + r).skip(p.len() as int) =~= r); }
proof fn lemma_uncat<K>(p: Seq<K>, k: Seq<K>)
    requires pre(p, k)
    ensures k == p + k.skip(p.len() as int)
{ assert(k =~= p + k.skip(p.len() as int)); }
/// a non-empty canonical tree holds a key
proof fn some_key<K: Ord + Clone, V>(t: TV<K, V>) -> (k: Seq<K>)
    requires wfc(t), key_laws::<K>()
    ensures tget(t, k).is_some(), pre(t.p, k)
    decreases t
{
    if t.v.is_some() { assert(t.p.take(t.p.len() as int) =~= t.p); t.p } else { child_key(t, 0) }
}
proof fn child_key<K: Ord + Clone, V>(t: TV<K, V>, i: int) -> (k: Seq<K>)
    requires wfc(t), key_laws::<K>(), 0 <= i < t.c.len()
    ensures tget(t, k).is_some(), pre(t.p, k), k.len() > t.p.len(), k[t.p.len() as int] == t.c[i].p[0]
    decreases t, 0int
{
    let r = some_key(t.c[i]);
    lemma_cat(t.p, r);
    assert(r.len() > 0 && r[0] == t.c[i].p[0]) by { assert(t.c[i].p =~= r.take(t.c[i].p.len() as int)); assert(t.c[i].p[0] == r[0]); }
    lemma_cix(t.c, i);
    t.p + r
}
/// if every key of a non-empty canonical tree starts with q, so does its prefix
proof fn lemma_common<K: Ord + Clone, V>(t: TV<K, V>, q: Seq<K>)
    requires wfc(t), key_laws::<K>(), forall|k: Seq<K>| (#[trigger] tget(t, k)).is_some() ==> pre(q, k)
    ensures pre(q, t.p)
{
    let k = some_key(t);
    if t.p.len() < q.len() {
        if t.v.is_some() { assert(t.p.take(t.p.len() as int) =~= t.p); assert(tget(t, t.p).is_some()); }
        else {
            let k0 = child_key(t, 0); let k1 = child_key(t, 1);
            let n = t.p.len() as int;
            assert(q[n] == k0[n]) by { assert(q =~= k0.take(q.len() as int)); assert(k0.take(q.len() as int)[n] == k0[n]); }
            assert(q[n] == k1[n]) by { assert(q =~= k1.take(q.len() as int)); assert(k1.take(q.len() as int)[n] == k1[n]); }
            assert(oc(t.c[0].p[0], t.c[1].p[0]) == Ordering::Less);
            lemma_kord(t.c[0].p[0], t.c[1].p[0], t.c[0].p[0]);
        }
    } else {
        assert(t.p.take(q.len() as int) =~= k.take(t.p.len() as int).take(q.len() as int));
        assert(k.take(t.p.len() as int).take(q.len() as int) =~= k.take(q.len() as int));
    }
}
proof fn lemma_head<K: Ord + Clone, V>(t: TV<K, V>, x: K)
    requires wfc(t), key_laws::<K>(), forall|k: Seq<K>| (#[trigger] tget(t, k)).is_some() ==> k.len() > 0 && k[0] == x
    ensures t.p.len() > 0, t.p[0] == x
{
    assert forall|k: Seq<K>| (#[trigger] tget(t, k)).is_some() implies pre(seq![x], k) by { assert(k.take(1) =~= seq![x]); }
    lemma_common(t, seq![x]);
    assert(t.p.take(1)[0] == t.p[0]); assert(seq![x][0] == x);
}
/// strictly ascending child lists with the same heads have the same heads position by position
proof fn lemma_heads<K: Ord + Clone, V, W>(a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), csorted(a), csorted(b),
      forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).p.len() > 0 && chas(b, a[i].p[0]),
      forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]).p.len() > 0 && chas(a, b[j].p[0]),
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).p[0] == b[i].p[0]
    decreases a.len() + b.len()
{
    if a.len() == 0 {
        if b.len() > 0 { lemma_chas(a, b[0].p[0]); }
    } else if b.len() == 0 { lemma_chas(b, a[0].p[0]);
    } else {
        let x = a[0].p[0]; let y = b[0].p[0];
        assert(x == y) by {
            lemma_chas(b, x); lemma_chas(a, y);
            let j = cix(b, x); let i = cix(a, y);
            if i > 0 { assert(oc(a[0].p[0], a[i].p[0]) == Ordering::Less); }
            if j > 0 { assert(oc(b[0].p[0], b[j].p[0]) == Ordering::Less); }
            lemma_kord(x, y, x); lemma_kord(y, x, y);
        }
        let a1 = a.skip(1); let b1 = b.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < a1.len() implies #[trigger] oc(a1[i].p[0], a1[j].p[0]) == Ordering::Less by { assert(oc(a[i + 1].p[0], a[j + 1].p[0]) == Ordering::Less); }
        assert forall|i: int, j: int| 0 <= i < j < b1.len() implies #[trigger] oc(b1[i].p[0], b1[j].p[0]) == Ordering::Less by { assert(oc(b[i + 1].p[0], b[j + 1].p[0]) == Ordering::Less); }
        assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).p.len() > 0 && chas(b1, a1[i].p[0]) by {
            assert(a1[i] == a[i + 1]);
            lemma_chas(b, a[i + 1].p[0]);
            let j = cix(b, a[i + 1].p[0]);
            assert(oc(a[0].p[0], a[i + 1].p[0]) == Ordering::Less); lemma_kord(x, a[i + 1].p[0], x);
            assert(j > 0);
            assert(isc(b1, a1[i].p[0], j - 1)) by { assert(b1[j - 1] == b[j]); }
        }
        assert forall|i: int| 0 <= i < b1.len() implies (#[trigger] b1[i]).p.len() > 0 && chas(a1, b1[i].p[0]) by {
            assert(b1[i] == b[i + 1]);
            lemma_chas(a, b[i + 1].p[0]);
            let j = cix(a, b[i + 1].p[0]);
            assert(oc(b[0].p[0], b[i + 1].p[0]) == Ordering::Less); lemma_kord(y, b[i + 1].p[0], y);
            assert(j > 0);
            assert(isc(a1, b1[i].p[0], j - 1)) by { assert(a1[j - 1] == a[j]); }
        }
        lemma_heads(a1, b1);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).p[0] == b[i].p[0] by { if i > 0 { assert(a1[i - 1] == a[i]); assert(b1[i - 1] == b[i]); } }
    }
}
proof fn lemma_pre_anti<K>(p: Seq<K>, q: Seq<K>)
    requires pre(p, q), pre(q, p)
    ensures p == q
{ assert(p =~= q.take(p.len() as int)); assert(q.take(q.len() as int) =~= q); }
/// canonical trees holding the same mapping are identical
proof fn lemma_unique<K: Ord + Clone, V>(a: TV<K, V>, b: TV<K, V>)
    requires key_laws::<K>(), wf(a), wf(b), forall|k: Seq<K>| #[trigger] tget(a, k) == tget(b, k)
    ensures a == b
    decreases a
{
    lemma_wf_nil(a); lemma_wf_nil(b);
    if !wfc(a) { if wfc(b) { let k = some_key(b); lemma_nil_get(a, k); } }
    else if !wfc(b) { let k = some_key(a); lemma_nil_get(b, k); assert(tget(a, k) == tget(b, k)); }
    else {
        assert forall|k: Seq<K>| (#[trigger] tget(a, k)).is_some() implies pre(b.p, k) by { assert(tget(a, k) == tget(b, k)); }
        assert forall|k: Seq<K>| (#[trigger] tget(b, k)).is_some() implies pre(a.p, k) by { assert(tget(a, k) == tget(b, k)); }
        lemma_common(a, b.p); lemma_common(b, a.p);
        lemma_pre_anti(a.p, b.p);
        let p = a.p;
        assert(p.take(p.len() as int) =~= p);
        assert(tget(a, p) == a.v); assert(tget(b, p) == b.v);
        lemma_unique_has(a, b); lemma_unique_has(b, a);
        lemma_heads(a.c, b.c);
        assert forall|i: int| 0 <= i < a.c.len() implies a.c[i] == b.c[i] by {
            lemma_unique_child(a, b, i);
            lemma_unique(a.c[i], b.c[i]);
        }
        assert(a.c =~= b.c);
    }
}
proof fn lemma_unique_has<K: Ord + Clone, V>(a: TV<K, V>, b: TV<K, V>)
    requires key_laws::<K>(), wfc(a), wfc(b), forall|k: Seq<K>| #[trigger] tget(a, k) == tget(b, k), a.p == b.p
    ensures forall|i: int| 0 <= i < a.c.len() ==> (#[trigger] a.c[i]).p.len() > 0 && chas(b.c, a.c[i].p[0])
{
    assert forall|i: int| 0 <= i < a.c.len() implies (#[trigger] a.c[i]).p.len() > 0 && chas(b.c, a.c[i].p[0]) by {
        let k = child_key(a, i);
        assert(tget(a, k) == tget(b, k));
        assert(k.skip(b.p.len() as int)[0] == k[a.p.len() as int]);
    }
}
proof fn lemma_unique_child<K: Ord + Clone, V>(a: TV<K, V>, b: TV<K, V>, i: int)
    requires key_laws::<K>(), wfc(a), wfc(b), forall|k: Seq<K>| #[trigger] tget(a, k) == tget(b, k), a.p == b.p, 0 <= i < a.c.len(), i < b.c.len(), a.c[i].p[0] == b.c[i].p[0]
    ensures forall|k: Seq<K>| #[trigger] tget(a.c[i], k) == tget(b.c[i], k)
{
    let x = a.c[i].p[0];
    assert forall|k: Seq<K>| #[trigger] tget(a.c[i], k) == tget(b.c[i], k) by {
        lemma_cix(a.c, i); lemma_cix(b.c, i);
        if k.len() > 0 && k[0] == x {
            lemma_cat(a.p, k);
            assert(tget(a, a.p + k) == tget(b, a.p + k));
            assert(tget(a, a.p + k) == tget(a.c[i], k));
            assert(tget(b, a.p + k) == tget(b.c[i], k));
        } else {
            lemma_pre_hd(a.c[i].p, k); lemma_pre_hd(b.c[i].p, k);
        }
    }
}
proof fn lemma_pre_hd<K>(p: Seq<K>, k: Seq<K>)
    requires p.len() > 0
    ensures pre(p, k) ==> k.len() > 0 && k[0] == p[0]
{ if pre(p, k) { assert(p[0] == k.take(p.len() as int)[0]); } }
//@ # ---- node surgery ------------------------------------------------------------------------------------------
spec fn short<K, V>(t: TV<K, V>, n: int) -> TV<K, V> { TV { p: t.p.skip(n), v: t.v, c: t.c } }
/// t as a node with the prefix cut at n
spec fn nd<K, V>(t: TV<K, V>, n: int) -> TV<K, V> { if n == t.p.len() { t } else { TV { p: t.p.take(n), v: None, c: seq![short(t, n)] } } }
/// tget of a prepended tree
proof fn lemma_prepend<K, V>(t: TV<K, V>, q: Seq<K>, k: Seq<K>)
    ensures tget(TV { p: q + t.p, v: t.v, c: t.c }, k) == if pre(q, k) { tget(t, k.skip(q.len() as int)) } else { None }
{
    let u = TV { p: q + t.p, v: t.v, c: t.c };
    if pre(q, k) {
        let r = k.skip(q.len() as int);
        lemma_uncat(q, k);
        if pre(t.p, r) {
            lemma_uncat(t.p, r);
            assert(k =~= (q + t.p) + r.skip(t.p.len() as int));
            lemma_cat(q + t.p, r.skip(t.p.len() as int));
            assert(k.skip(u.p.len() as int) =~= r.skip(t.p.len() as int));
        } else if pre(u.p, k) {
            lemma_uncat(u.p, k);
            assert(r =~= t.p + k.skip(u.p.len() as int));
            lemma_cat(t.p, k.skip(u.p.len() as int));
        }
    } else if pre(u.p, k) {
        lemma_uncat(u.p, k);
        assert(k =~= q + (t.p + k.skip(u.p.len() as int)));
        lemma_cat(q, t.p + k.skip(u.p.len() as int));
    }
}
proof fn lemma_cg1<K, V>(t: TV<K, V>, k: Seq<K>)
    requires t.p.len() > 0
    ensures k.len() > 0 ==> cg(seq![t], k) == tget(t, k), chas(seq![t], t.p[0]), forall|x: K| #[trigger] chas(seq![t], x) ==> x == t.p[0]
{
    let c = seq![t];
    assert(isc(c, t.p[0], 0));
    assert forall|x: K| #[trigger] chas(c, x) implies x == t.p[0] by { lemma_chas(c, x); }
    lemma_pre_hd(t.p, k);
    if k.len() > 0 { lemma_chas(c, k[0]); }
}
proof fn lemma_nd<K: Ord + Clone, V>(t: TV<K, V>, n: int)
    requires key_laws::<K>(), 0 <= n <= t.p.len(), wf(t)
    ensures forall|k: Seq<K>| #[trigger] tget(nd(t, n), k) == tget(t, k), cok(nd(t, n).c), nd(t, n).p == t.p.take(n),
       n < t.p.len() ==> wfc(short(t, n)) && short(t, n).p.len() > 0
{
    lemma_wf_nil(t);
    if n < t.p.len() {
        let s = short(t, n);
        assert(wfc(s));
        let q = t.p.take(n);
        assert(q + s.p =~= t.p);
        assert forall|k: Seq<K>| #[trigger] tget(nd(t, n), k) == tget(t, k) by {
            lemma_prepend(s, q, k);
            assert(TV { p: q + s.p, v: s.v, c: s.c } == t);
            lemma_get_pre(nd(t, n), k);
            if pre(q, k) {
                let r = k.skip(n);
                if k.len() == n { assert(!pre(s.p, r)); assert(tget(s, r).is_none()); }
                else { lemma_cg1(s, r); }
            }
        }
    } else { assert(t.p.take(n) =~= t.p); }
}
/// remove a degenerate node
spec fn unsp<K, V>(t: TV<K, V>) -> TV<K, V> {
    if t.v.is_some() || t.c.len() >= 2 { t } else if t.c.len() == 1 { TV { p: t.p + t.c[0].p, v: t.c[0].v, c: t.c[0].c } } else { tnil() }
}
proof fn lemma_unsp<K: Ord + Clone, V>(t: TV<K, V>)
    requires key_laws::<K>(), cok(t.c)
    ensures wf(unsp(t)), forall|k: Seq<K>| #[trigger] tget(unsp(t), k) == tget(t, k)
{
    if t.v.is_some() || t.c.len() >= 2 {
    } else if t.c.len() == 1 {
        let s = t.c[0];
        assert(wfc(s)); assert(s.p.len() > 0);
        assert(t.c =~= seq![s]);
        assert forall|k: Seq<K>| #[trigger] tget(unsp(t), k) == tget(t, k) by {
            lemma_prepend(s, t.p, k);
            lemma_get_pre(t, k);
            if pre(t.p, k) {
                let r = k.skip(t.p.len() as int);
                if r.len() == 0 { assert(!pre(s.p, r)); } else { lemma_cg1(s, r); }
            }
        }
    } else {
        assert forall|k: Seq<K>| #[trigger] tget(unsp(t), k) == tget(t, k) by { lemma_nil_get(t, k); lemma_nil_get(tnil::<K, V>(), k); }
    }
}
//@ # ---- joining child lists --------------------------------------------------------------------------------------
spec fn os<T>(o: Option<T>) -> Seq<T> { match o { Some(t) => seq![t], None => Seq::empty() } }
/// the children with head x, first match
spec fn cent<K, V>(c: Seq<TV<K, V>>, x: K) -> Option<TV<K, V>>
    decreases c.len()
{ if c.len() == 0 { None } else if c[0].p[0] == x { Some(c[0]) } else { cent(c.skip(1), x) } }
spec fn hpos<K, V>(c: Seq<TV<K, V>>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).p.len() > 0 }
proof fn lemma_cent<K, V>(c: Seq<TV<K, V>>, x: K)
    requires hpos(c)
    ensures cent(c, x).is_some() == chas(c, x), cent(c, x).is_some() ==> exists|i: int| isc(c, x, i) && c[i] == cent(c, x).unwrap()
    decreases c.len()
{
    if c.len() > 0 {
        if c[0].p[0] == x { assert(isc(c, x, 0)); }
        else {
            let d = c.skip(1);
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).p.len() > 0 by { assert(d[i] == c[i + 1]); }
            lemma_cent(d, x);
            if chas(d, x) {
                let i = choose|i: int| isc(d, x, i) && d[i] == cent(d, x).unwrap();
                assert(isc(c, x, i + 1));
            }
            if chas(c, x) {
                lemma_chas(c, x);
                let i = cix(c, x);
                assert(isc(d, x, i - 1));
            }
        }
    } else { if chas(c, x) { lemma_chas(c, x); } }
}
proof fn lemma_cent_cix<K: Ord + Clone, V>(c: Seq<TV<K, V>>, x: K)
    requires key_laws::<K>(), csorted(c), hpos(c)
    ensures cent(c, x) == if chas(c, x) { Some(c[cix(c, x)]) } else { None }
{
    lemma_cent(c, x);
    if chas(c, x) {
        let i = choose|i: int| isc(c, x, i) && c[i] == cent(c, x).unwrap();
        lemma_cix(c, i);
    }
}
spec fn tjoin<K: Ord, V, W, R>(l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> Seq<TV<K, R>>
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Seq::empty() }
    else if b.len() == 0 || (a.len() > 0 && oc(hd(a[0]), hd(b[0])) == Ordering::Less) { os(l(a[0])) + tjoin(l, r, c, a.skip(1), b) }
    else if a.len() == 0 || oc(hd(a[0]), hd(b[0])) == Ordering::Greater { os(r(b[0])) + tjoin(l, r, c, a, b.skip(1)) }
    else { os(c(a[0], b[0])) + tjoin(l, r, c, a.skip(1), b.skip(1)) }
}
spec fn hdis<K, R>(o: Option<TV<K, R>>, x: K) -> bool { o.is_some() ==> o.unwrap().p.len() > 0 && o.unwrap().p[0] == x }
spec fn keeps_heads<K: Ord, V, W, R>(l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> hdis(l(#[trigger] a[i]), hd(a[i]))
    &&& forall|j: int| 0 <= j < b.len() ==> hdis(r(#[trigger] b[j]), hd(b[j]))
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) ==> hdis(#[trigger] c(a[i], b[j]), hd(a[i]))
}
spec fn tjent<K, V, W, R>(l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, x: Option<TV<K, V>>, y: Option<TV<K, W>>) -> Option<TV<K, R>> {
    match (x, y) { (None, None) => None, (Some(x), None) => l(x), (None, Some(y)) => r(y), (Some(x), Some(y)) => c(x, y) }
}
spec fn hgt<K: Ord, V>(c: Seq<TV<K, V>>, x: K) -> bool { forall|i: int| 0 <= i < c.len() ==> oc(x, hd(#[trigger] c[i])) == Ordering::Less }
proof fn lemma_hgt_none<K: Ord + Clone, V>(c: Seq<TV<K, V>>, x: K)
    requires key_laws::<K>(), hgt(c, x)
    ensures cent(c, x).is_none()
    decreases c.len()
{
    if c.len() > 0 {
        lemma_kord(x, hd(c[0]), x);
        let d = c.skip(1);
        assert forall|i: int| 0 <= i < d.len() implies oc(x, hd(#[trigger] d[i])) == Ordering::Less by { assert(d[i] == c[i + 1]); }
        lemma_hgt_none(d, x);
    }
}
proof fn lemma_tail<K: Ord, V>(c: Seq<TV<K, V>>)
    requires csorted(c), hpos(c), c.len() > 0
    ensures csorted(c.skip(1)), hpos(c.skip(1)), hgt(c.skip(1), hd(c[0]))
{
    let d = c.skip(1);
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] oc(d[i].p[0], d[j].p[0]) == Ordering::Less by { assert(oc(c[i + 1].p[0], c[j + 1].p[0]) == Ordering::Less); }
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).p.len() > 0 by { assert(d[i] == c[i + 1]); }
    assert forall|i: int| 0 <= i < d.len() implies oc(hd(c[0]), hd(#[trigger] d[i])) == Ordering::Less by { assert(oc(c[0].p[0], c[i + 1].p[0]) == Ordering::Less); }
}
proof fn lemma_hgt_list<K: Ord + Clone, V>(c: Seq<TV<K, V>>, x: K)
    requires key_laws::<K>(), csorted(c), c.len() > 0 ==> oc(x, hd(c[0])) == Ordering::Less
    ensures hgt(c, x)
{
    assert forall|i: int| 0 <= i < c.len() implies oc(x, hd(#[trigger] c[i])) == Ordering::Less by { if i > 0 { assert(oc(c[0].p[0], c[i].p[0]) == Ordering::Less); lemma_kord(x, hd(c[0]), hd(c[i])); } }
}
proof fn lemma_hcons<K: Ord + Clone, R>(x: K, o: Option<TV<K, R>>, rest: Seq<TV<K, R>>)
    requires key_laws::<K>(), csorted(rest), hpos(rest), hgt(rest, x), hdis(o, x)
    ensures csorted(os(o) + rest), hpos(os(o) + rest),
      forall|y: K| #[trigger] cent(os(o) + rest, y) == if y == x { o } else { cent(rest, y) },
      forall|y: K| oc(y, x) == Ordering::Less ==> #[trigger] hgt(os(o) + rest, y)
{
    let res = os(o) + rest;
    lemma_hgt_none(rest, x);
    if o.is_none() { assert(res =~= rest);
        assert forall|y: K| oc(y, x) == Ordering::Less implies #[trigger] hgt(res, y) by {
            assert forall|i: int| 0 <= i < res.len() implies oc(y, hd(#[trigger] res[i])) == Ordering::Less by { lemma_kord(y, x, hd(res[i])); assert(oc(x, hd(rest[i])) == Ordering::Less); }
        }
    } else {
        assert(res[0] == o.unwrap()); assert(res.skip(1) =~= rest);
        assert forall|i: int, j: int| 0 <= i < j < res.len() implies #[trigger] oc(res[i].p[0], res[j].p[0]) == Ordering::Less by {
            assert(res[j] == rest[j - 1]); assert(oc(x, hd(rest[j - 1])) == Ordering::Less);
            if i > 0 { assert(res[i] == rest[i - 1]); assert(oc(rest[i - 1].p[0], rest[j - 1].p[0]) == Ordering::Less); }
        }
        assert forall|i: int| 0 <= i < res.len() implies (#[trigger] res[i]).p.len() > 0 by { if i > 0 { assert(res[i] == rest[i - 1]); } }
        assert forall|y: K| oc(y, x) == Ordering::Less implies #[trigger] hgt(res, y) by {
            assert forall|i: int| 0 <= i < res.len() implies oc(y, hd(#[trigger] res[i])) == Ordering::Less by {
                if i > 0 { assert(res[i] == rest[i - 1]); assert(oc(x, hd(rest[i - 1])) == Ordering::Less); lemma_kord(y, x, hd(res[i])); }
            }
        }
    }
}
proof fn lemma_keeps_tail<K: Ord, V, W, R>(l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>, da: int, db: int)
    requires keeps_heads(l, r, c, a, b), 0 <= da <= a.len(), 0 <= db <= b.len()
    ensures keeps_heads(l, r, c, a.skip(da), b.skip(db))
{
    let a1 = a.skip(da); let b1 = b.skip(db);
    assert forall|i: int| 0 <= i < a1.len() implies hdis(l(#[trigger] a1[i]), hd(a1[i])) by { assert(a1[i] == a[i + da]); }
    assert forall|j: int| 0 <= j < b1.len() implies hdis(r(#[trigger] b1[j]), hd(b1[j])) by { assert(b1[j] == b[j + db]); }
    assert forall|i: int, j: int| 0 <= i < a1.len() && 0 <= j < b1.len() && hd(a1[i]) == hd(b1[j]) implies hdis(#[trigger] c(a1[i], b1[j]), hd(a1[i])) by { assert(a1[i] == a[i + da]); assert(b1[j] == b[j + db]); assert(hdis(c(a[i + da], b[j + db]), hd(a[i + da]))); }
}
proof fn lemma_tjoin<K: Ord + Clone, V, W, R>(l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), csorted(a), csorted(b), hpos(a), hpos(b), keeps_heads(l, r, c, a, b)
    ensures csorted(tjoin(l, r, c, a, b)), hpos(tjoin(l, r, c, a, b)),
      forall|x: K| #[trigger] cent(tjoin(l, r, c, a, b), x) == tjent(l, r, c, cent(a, x), cent(b, x)),
      forall|x: K| hgt(a, x) && hgt(b, x) ==> #[trigger] hgt(tjoin(l, r, c, a, b), x)
    decreases a.len() + b.len()
{
    let res = tjoin(l, r, c, a, b);
    if a.len() == 0 && b.len() == 0 {
    } else {
        let ta = b.len() == 0 || (a.len() > 0 && oc(hd(a[0]), hd(b[0])) == Ordering::Less);
        let tb = !ta && (a.len() == 0 || oc(hd(a[0]), hd(b[0])) == Ordering::Greater);
        let a1 = if tb { a } else { a.skip(1) };
        let b1 = if ta { b } else { b.skip(1) };
        let x0 = if tb { hd(b[0]) } else { hd(a[0]) };
        let o = if ta { l(a[0]) } else if tb { r(b[0]) } else { c(a[0], b[0]) };
        let rest = tjoin(l, r, c, a1, b1);
        if a.len() > 0 && b.len() > 0 { lemma_kord(hd(a[0]), hd(b[0]), hd(a[0])); }
        if !tb { lemma_tail(a); }
        if !ta { lemma_tail(b); }
        assert(a.skip(0) =~= a); assert(b.skip(0) =~= b);
        lemma_keeps_tail(l, r, c, a, b, if tb { 0 } else { 1 }, if ta { 0 } else { 1 });
        lemma_tjoin(l, r, c, a1, b1);
        if ta { lemma_hgt_list(b, x0); }
        if tb { lemma_hgt_list(a, x0); }
        assert(hgt(a1, x0) && hgt(b1, x0));
        assert(hgt(rest, x0));
        assert(hdis(o, x0)) by { if ta { assert(hdis(l(a[0]), hd(a[0]))); } else if tb { assert(hdis(r(b[0]), hd(b[0]))); } else { assert(hdis(c(a[0], b[0]), hd(a[0]))); } }
        lemma_hcons(x0, o, rest);
        assert(res == os(o) + rest);
        lemma_hgt_none(a1, x0); lemma_hgt_none(b1, x0);
        assert forall|x: K| #[trigger] cent(res, x) == tjent(l, r, c, cent(a, x), cent(b, x)) by {
            assert(cent(rest, x) == tjent(l, r, c, cent(a1, x), cent(b1, x)));
        }
        assert forall|x: K| hgt(a, x) && hgt(b, x) implies #[trigger] hgt(res, x) by { if !tb { assert(oc(x, hd(a[0])) == Ordering::Less); } else { assert(oc(x, hd(b[0])) == Ordering::Less); } }
    }
}
//@ # ---- lookups determine the joined list ----------------------------------------------------------------------------
/// o is the canonical tree (or nothing, if there are no keys) with the lookups f
spec fn lkn<K: Ord, V>(o: Option<TV<K, V>>, f: spec_fn(Seq<K>) -> Option<V>) -> bool {
    match o { None => forall|k: Seq<K>| (#[trigger] f(k)).is_none(), Some(t) => wfc(t) && forall|k: Seq<K>| #[trigger] tget(t, k) == f(k) }
}
/// the part of g at keys starting with x
spec fn at<K, V>(g: spec_fn(Seq<K>) -> Option<V>, x: K) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if k.len() > 0 && k[0] == x { g(k) } else { None } }
proof fn lemma_lkn_head<K: Ord + Clone, V>(o: Option<TV<K, V>>, g: spec_fn(Seq<K>) -> Option<V>, x: K)
    requires key_laws::<K>(), lkn(o, at(g, x))
    ensures hdis(o, x)
{ if o.is_some() { let t = o.unwrap(); assert forall|k: Seq<K>| (#[trigger] tget(t, k)).is_some() implies k.len() > 0 && k[0] == x by { assert(tget(t, k) == at(g, x)(k)); } lemma_head(t, x); } }
/// the requirement on the three functions of a join to realise the lookups g
spec fn realises<K: Ord, V, W, R>(g: spec_fn(Seq<K>) -> Option<R>, l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> hdis(l(#[trigger] a[i]), hd(a[i])) && (!chas(b, hd(a[i])) ==> lkn(l(a[i]), at(g, hd(a[i]))))
    &&& forall|j: int| 0 <= j < b.len() ==> hdis(r(#[trigger] b[j]), hd(b[j])) && (!chas(a, hd(b[j])) ==> lkn(r(b[j]), at(g, hd(b[j]))))
    &&& forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) ==> lkn(#[trigger] c(a[i], b[j]), at(g, hd(a[i])))
    &&& forall|k: Seq<K>| k.len() > 0 && !chas(a, k[0]) && !chas(b, k[0]) ==> (#[trigger] g(k)).is_none()
}
proof fn lemma_tjoin_get<K: Ord + Clone, V, W, R>(g: spec_fn(Seq<K>) -> Option<R>, l: spec_fn(TV<K, V>) -> Option<TV<K, R>>, r: spec_fn(TV<K, W>) -> Option<TV<K, R>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, R>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), cok(a), cok(b), realises(g, l, r, c, a, b)
    ensures cok(tjoin(l, r, c, a, b)), forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(tjoin(l, r, c, a, b), k) == g(k)
{
    let res = tjoin(l, r, c, a, b);
    assert(keeps_heads(l, r, c, a, b)) by {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) implies hdis(#[trigger] c(a[i], b[j]), hd(a[i])) by { lemma_lkn_head(c(a[i], b[j]), g, hd(a[i])); }
    }
    lemma_tjoin(l, r, c, a, b);
    assert forall|x: K| lkn(#[trigger] cent(res, x), at(g, x)) by {
        lemma_cent_cix(a, x); lemma_cent_cix(b, x); lemma_chas(a, x); lemma_chas(b, x);
        if chas(a, x) {
            let ta = a[cix(a, x)];
            assert(hd(ta) == x);
            if chas(b, x) { let tb = b[cix(b, x)]; assert(hd(tb) == x); assert(lkn(c(ta, tb), at(g, hd(ta)))); }
            else { assert(lkn(l(ta), at(g, hd(ta)))); }
        } else if chas(b, x) { let tb = b[cix(b, x)]; assert(hd(tb) == x); assert(lkn(r(tb), at(g, hd(tb)))); }
        else { assert forall|k: Seq<K>| (#[trigger] at(g, x)(k)).is_none() by {} }
    }
    assert forall|i: int| 0 <= i < res.len() implies (#[trigger] res[i]).p.len() > 0 && wfc(res[i]) by {
        let x = hd(res[i]);
        lemma_cix(res, i); lemma_cent_cix(res, x);
        assert(lkn(cent(res, x), at(g, x)));
    }
    assert forall|k: Seq<K>| k.len() > 0 implies #[trigger] cg(res, k) == g(k) by {
        let x = k[0];
        lemma_cent_cix(res, x);
        assert(lkn(cent(res, x), at(g, x)));
        assert(at(g, x)(k) == g(k));
        if chas(res, x) { assert(tget(res[cix(res, x)], k) == at(g, x)(k)); }
    }
}
/// the canonical tree with the lookups f
spec fn the<K: Ord, V>(f: spec_fn(Seq<K>) -> Option<V>) -> TV<K, V> { choose|t: TV<K, V>| lk(t, f) }
spec fn lk<K: Ord, V>(t: TV<K, V>, f: spec_fn(Seq<K>) -> Option<V>) -> bool { wf(t) && forall|k: Seq<K>| #[trigger] tget(t, k) == f(k) }
spec fn ne<K, V>(t: TV<K, V>) -> Option<TV<K, V>> { if isnil(t) { None } else { Some(t) } }
proof fn lemma_the<K: Ord + Clone, V>(t: TV<K, V>, f: spec_fn(Seq<K>) -> Option<V>)
    requires key_laws::<K>(), lk(t, f)
    ensures the(f) == t
{
    let u = the(f);
    assert(lk(u, f));
    assert forall|k: Seq<K>| #[trigger] tget(u, k) == tget(t, k) by { assert(tget(t, k) == f(k)); }
    lemma_unique(u, t);
}
proof fn lemma_ne<K: Ord + Clone, V>(f: spec_fn(Seq<K>) -> Option<V>)
    requires key_laws::<K>(), exists|t: TV<K, V>| lk(t, f)
    ensures lkn(ne(the(f)), f), lk(the(f), f)
{
    let t = the(f);
    assert(lk(t, f));
    lemma_wf_nil(t);
    if isnil(t) { assert forall|k: Seq<K>| (#[trigger] f(k)).is_none() by { lemma_nil_get(t, k); assert(tget(t, k) == f(k)); } }
}
