//@ include tvpred.vrs
//@ tag rxi
//@ # ---- the entries of a tree, in order ----------------------------------------------------------------------------------
/// lexicographic order
spec fn lexat<K: Ord>(a: Seq<K>, b: Seq<K>, n: int) -> bool { 0 <= n <= a.len() && n < b.len() && a.take(n) == b.take(n) && (n == a.len() || oc(a[n], b[n]) == Ordering::Less) }
spec fn lexlt<K: Ord>(a: Seq<K>, b: Seq<K>) -> bool { exists|n: int| lexat(a, b, n) }
/// s lists exactly the mapping f, by strictly ascending keys
spec fn haskey<K, V>(s: Seq<(Seq<K>, V)>, k: Seq<K>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
spec fn values_ok<K, V>(s: Seq<(Seq<K>, V)>, f: spec_fn(Seq<K>) -> Option<V>) -> bool { forall|i: int| 0 <= i < s.len() ==> f((#[trigger] s[i]).0) == Some(s[i].1) }
spec fn ascending<K: Ord, V>(s: Seq<(Seq<K>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lexlt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
spec fn complete<K, V>(s: Seq<(Seq<K>, V)>, f: spec_fn(Seq<K>) -> Option<V>) -> bool { forall|k: Seq<K>| (#[trigger] f(k)).is_some() ==> haskey(s, k) }
spec fn listing<K: Ord, V>(s: Seq<(Seq<K>, V)>, f: spec_fn(Seq<K>) -> Option<V>) -> bool { values_ok(s, f) && complete(s, f) && ascending(s) }
/// the entries of the node t, whose key is path, and of everything below it
spec fn ents<K, V>(t: TV<K, V>, path: Seq<K>) -> Seq<(Seq<K>, V)>
    decreases t, t.c.len() + 1
{ (match t.v { Some(v) => seq![(path, v)], None => Seq::empty() }) + cents(t, path, 0) }
/// those below the children from index i on
spec fn cents<K, V>(t: TV<K, V>, path: Seq<K>, i: int) -> Seq<(Seq<K>, V)>
    decreases t, t.c.len() - i
{ if 0 <= i < t.c.len() { ents(t.c[i], path + t.c[i].p) + cents(t, path, i + 1) } else { Seq::empty() } }
spec fn vals<K, V>(t: TV<K, V>) -> Seq<V>
    decreases t, t.c.len() + 1
{ os(t.v) + cvals(t, 0) }
spec fn cvals<K, V>(t: TV<K, V>, i: int) -> Seq<V>
    decreases t, t.c.len() - i
{ if 0 <= i < t.c.len() { vals(t.c[i]) + cvals(t, i + 1) } else { Seq::empty() } }
spec fn snds<K, V>(s: Seq<(Seq<K>, V)>) -> Seq<V> { s.map_values(|e: (Seq<K>, V)| e.1) }
proof fn lemma_snds<K, V>(s: Seq<(Seq<K>, V)>, t: Seq<(Seq<K>, V)>)
    ensures snds(s + t) == snds(s) + snds(t), snds(s).len() == s.len(), forall|k: Seq<K>, v: V| #[trigger] snds(seq![(k, v)]) == seq![v], snds(Seq::<(Seq<K>, V)>::empty()) == Seq::<V>::empty()
{
    assert(snds(s + t) =~= snds(s) + snds(t));
    assert forall|k: Seq<K>, v: V| #[trigger] snds(seq![(k, v)]) == seq![v] by { assert(snds(seq![(k, v)]) =~= seq![v]); }
    assert(snds(Seq::<(Seq<K>, V)>::empty()) =~= Seq::<V>::empty());
}
proof fn lemma_vals<K, V>(t: TV<K, V>, path: Seq<K>)
    ensures vals(t) == snds(ents(t, path))
    decreases t, t.c.len() + 1
{
    lemma_cvals(t, path, 0);
    let h: Seq<(Seq<K>, V)> = match t.v { Some(v) => seq![(path, v)], None => Seq::empty() };
    lemma_snds(h, cents(t, path, 0));
    assert(snds(h) =~= os(t.v));
}
proof fn lemma_cvals<K, V>(t: TV<K, V>, path: Seq<K>, i: int)
    ensures cvals(t, i) == snds(cents(t, path, i))
    decreases t, t.c.len() - i
{
    if 0 <= i < t.c.len() { lemma_vals(t.c[i], path + t.c[i].p); lemma_cvals(t, path, i + 1); lemma_snds(ents(t.c[i], path + t.c[i].p), cents(t, path, i + 1)); }
    else { assert(snds(cents(t, path, i)) =~= Seq::empty()); }
}
proof fn lemma_listing_cat<K: Ord, V>(s: Seq<(Seq<K>, V)>, t: Seq<(Seq<K>, V)>, f: spec_fn(Seq<K>) -> Option<V>, g: spec_fn(Seq<K>) -> Option<V>, h: spec_fn(Seq<K>) -> Option<V>)
    requires listing(s, f), listing(t, g), forall|k: Seq<K>| f(k).is_some() ==> #[trigger] h(k) == f(k), forall|k: Seq<K>| g(k).is_some() ==> #[trigger] h(k) == g(k),
      forall|k: Seq<K>| (#[trigger] h(k)).is_some() ==> f(k).is_some() || g(k).is_some(),
      forall|k: Seq<K>, l: Seq<K>| (#[trigger] f(k)).is_some() && (#[trigger] g(l)).is_some() ==> lexlt(k, l)
    ensures listing(s + t, h)
{
    let u = s + t;
    assert forall|i: int| 0 <= i < u.len() implies h((#[trigger] u[i]).0) == Some(u[i].1) by { if i < s.len() { assert(f(s[i].0).is_some()); } else { assert(g(t[i - s.len()].0).is_some()); } }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies lexlt((#[trigger] u[i]).0, (#[trigger] u[j]).0) by {
        if i < s.len() { assert(u[i] == s[i]); assert(f(s[i].0).is_some()); } else { assert(u[i] == t[i - s.len()]); }
        if j >= s.len() { assert(u[j] == t[j - s.len()]); assert(g(t[j - s.len()].0).is_some()); } else { assert(u[j] == s[j]); }
    }
    assert forall|k: Seq<K>| (#[trigger] h(k)).is_some() implies haskey(u, k) by {
        if f(k).is_some() { assert(haskey(s, k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(u[i].0 == k); }
        else { assert(haskey(t, k)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(u[i + s.len()].0 == k); }
    }
}
proof fn lemma_listing_ext<K: Ord, V>(s: Seq<(Seq<K>, V)>, f: spec_fn(Seq<K>) -> Option<V>, g: spec_fn(Seq<K>) -> Option<V>)
    requires listing(s, f), forall|k: Seq<K>| #[trigger] f(k) == g(k)
    ensures listing(s, g)
{ assert(f =~= g); }
/// what is stored at the node and below, by key
spec fn nget<K, V>(t: TV<K, V>, path: Seq<K>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if !pre(path, k) { None } else if k.len() == path.len() { t.v } else { cg(t.c, k.skip(path.len() as int)) } }
spec fn cget<K, V>(t: TV<K, V>, path: Seq<K>, i: int) -> spec_fn(Seq<K>) -> Option<V> {
    |k: Seq<K>| if !pre(path, k) || k.len() == path.len() { None } else { let r = k.skip(path.len() as int); if chas(t.c, r[0]) && cix(t.c, r[0]) >= i { tget(t.c[cix(t.c, r[0])], r) } else { None } }
}
proof fn lemma_ents<K: Ord + Clone, V>(t: TV<K, V>, path: Seq<K>)
    requires key_laws::<K>(), wfc(t) || isnil(t)
    ensures listing(ents(t, path), nget(t, path))
    decreases t, t.c.len() + 1
{
    let f = |k: Seq<K>| if k == path { t.v } else { None::<V> };
    let h: Seq<(Seq<K>, V)> = match t.v { Some(v) => seq![(path, v)], None => Seq::empty() };
    assert(listing(h, f)) by { assert(complete(h, f)) by { assert forall|k: Seq<K>| (#[trigger] f(k)).is_some() implies haskey(h, k) by { assert(h[0].0 == k); } } }
    lemma_cents(t, path, 0);
    let g = cget(t, path, 0); let n = nget(t, path);
    assert(path.take(path.len() as int) =~= path);
    assert forall|k: Seq<K>| k.len() == path.len() && pre(path, k) implies k == path by { assert(k.take(k.len() as int) =~= k); }
    assert forall|k: Seq<K>| f(k).is_some() implies #[trigger] n(k) == f(k) by {}
    assert forall|k: Seq<K>| g(k).is_some() implies #[trigger] n(k) == g(k) by {}
    assert forall|k: Seq<K>| (#[trigger] n(k)).is_some() implies f(k).is_some() || g(k).is_some() by { if k.len() != path.len() { let r = k.skip(path.len() as int); lemma_chas(t.c, r[0]); } }
    assert forall|k: Seq<K>, l: Seq<K>| (#[trigger] f(k)).is_some() && (#[trigger] g(l)).is_some() implies lexlt(k, l) by { assert(k.take(k.len() as int) =~= k); assert(lexat(k, l, path.len() as int)); }
    lemma_listing_cat(h, cents(t, path, 0), f, g, n);
}
proof fn lemma_cents<K: Ord + Clone, V>(t: TV<K, V>, path: Seq<K>, i: int)
    requires key_laws::<K>(), wfc(t) || isnil(t), 0 <= i
    ensures listing(cents(t, path, i), cget(t, path, i))
    decreases t, t.c.len() - i
{
    let g = cget(t, path, i);
    if i < t.c.len() {
        let c = t.c[i]; let q = path + c.p;
        assert(wfc(c));
        lemma_ents(c, q); lemma_cents(t, path, i + 1);
        let f = nget(c, q); let g1 = cget(t, path, i + 1);
        assert forall|k: Seq<K>| #[trigger] f(k) == (if pre(path, k) { tget(c, k.skip(path.len() as int)) } else { None }) by {
            let s = TV { p: Seq::<K>::empty(), v: c.v, c: c.c };
            assert(c.p + s.p =~= c.p); assert(q + s.p =~= q);
            lemma_prepend(c, path, k); lemma_get_pre(TV { p: q, v: c.v, c: c.c }, k);
        }
        lemma_cix(t.c, i);
        assert forall|k: Seq<K>| (#[trigger] f(k)).is_some() implies pre(path, k) && k.len() > path.len() && k[path.len() as int] == hd(c) by { let r = k.skip(path.len() as int); lemma_get_pre(c, r); lemma_pre_hd(c.p, r); assert(r[0] == k[path.len() as int]); }
        assert forall|k: Seq<K>| f(k).is_some() implies #[trigger] g(k) == f(k) by {}
        assert forall|k: Seq<K>| g1(k).is_some() implies #[trigger] g(k) == g1(k) by {}
        assert forall|k: Seq<K>| (#[trigger] g(k)).is_some() implies f(k).is_some() || g1(k).is_some() by {}
        assert forall|k: Seq<K>, l: Seq<K>| (#[trigger] f(k)).is_some() && (#[trigger] g1(l)).is_some() implies lexlt(k, l) by {
            let n = path.len() as int;
            let x = l.skip(n)[0];
            let j = cix(t.c, x);
            lemma_chas(t.c, x);
            assert(oc(t.c[i].p[0], t.c[j].p[0]) == Ordering::Less);
            assert(x == l[n]);
            assert(k.take(n) == path && l.take(n) == path);
            assert(lexat(k, l, n));
        }
        lemma_listing_cat(ents(c, q), cents(t, path, i + 1), f, g1, g);
    } else {
        assert forall|k: Seq<K>| (#[trigger] g(k)).is_none() by { if pre(path, k) && k.len() != path.len() { lemma_chas(t.c, k.skip(path.len() as int)[0]); } }
    }
}
/// a whole tree
proof fn lemma_tree_ents<K: Ord + Clone, V>(t: TV<K, V>, f: spec_fn(Seq<K>) -> Option<V>)
    requires key_laws::<K>(), wf(t), forall|k: Seq<K>| #[trigger] f(k) == tget(t, k)
    ensures listing(ents(t, t.p), f)
{
    lemma_wf_nil(t);
    lemma_ents(t, t.p);
    assert forall|k: Seq<K>| #[trigger] nget(t, t.p)(k) == f(k) by { lemma_get_pre(t, k); }
    lemma_listing_ext(ents(t, t.p), nget(t, t.p), f);
}
/// the part below key p
proof fn lemma_part_ents<K: Ord + Clone, V>(t: TV<K, V>, sub: TV<K, V>, p: Seq<K>, rt: int, f: spec_fn(Seq<K>) -> Option<V>)
    requires key_laws::<K>(), wfc(sub) || isnil(sub), 0 <= rt <= sub.p.len(), forall|k: Seq<K>| #[trigger] tget(t, p + k) == tget(short(sub, sub.p.len() - rt), k),
      forall|k: Seq<K>| #[trigger] f(k) == (if pre(p, k) { tget(t, k) } else { None })
    ensures listing(ents(sub, p + sub.p.skip(sub.p.len() - rt)), f)
{
    let s = short(sub, sub.p.len() - rt);
    let q = p + s.p;
    lemma_ents(sub, q);
    assert forall|k: Seq<K>| #[trigger] nget(sub, q)(k) == f(k) by {
        lemma_prepend(s, p, k); lemma_get_pre(TV { p: q, v: s.v, c: s.c }, k);
        if pre(p, k) { lemma_uncat(p, k); assert(tget(t, p + k.skip(p.len() as int)) == tget(s, k.skip(p.len() as int))); }
    }
    lemma_listing_ext(ents(sub, q), nget(sub, q), f);
}
