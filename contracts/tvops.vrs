//@ include tv.vrs
//@ tag rx
//@ # ---- lookups of combined trees ---------------------------------------------------------------------------
type G<V, W> = spec_fn(Option<V>, Option<W>) -> Option<V>;
/// key by key
spec fn cmb<K, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| g(tget(a, k), tget(b, k)) }
spec fn ccmb<K, V, W>(g: G<V, W>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| g(cg(a, k), cg(b, k)) }
spec fn go<V>(f: spec_fn(V, V) -> Option<V>) -> G<V, V> { |x: Option<V>, y: Option<V>| match (x, y) { (Some(v), Some(w)) => f(v, w), (Some(v), None) => Some(v), (None, Some(w)) => Some(w), (None, None) => None } }
spec fn gi<V, W>(f: spec_fn(V, W) -> Option<V>) -> G<V, W> { |x: Option<V>, y: Option<W>| match (x, y) { (Some(v), Some(w)) => f(v, w), _ => None } }
spec fn gl<V, W>(f: spec_fn(V, W) -> Option<V>) -> G<V, W> { |x: Option<V>, y: Option<W>| match (x, y) { (Some(v), Some(w)) => f(v, w), (x, None) => x, (None, _) => None } }
spec fn tsome<K, V>() -> spec_fn(TV<K, V>) -> Option<TV<K, V>> { |t: TV<K, V>| Some(t) }
spec fn tnone<K, W, V>() -> spec_fn(TV<K, W>) -> Option<TV<K, V>> { |t: TV<K, W>| None }
spec fn tcmb<K: Ord, V, W>(g: G<V, W>) -> spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>> { |a: TV<K, V>, b: TV<K, W>| ne(the(cmb(g, a, b))) }
/// what a join of child lists does with an element only one side has
spec fn lfits<K: Ord, V, W>(g: G<V, W>, l: spec_fn(TV<K, V>) -> Option<TV<K, V>>) -> bool { (l == tsome::<K, V>() && (forall|x: Option<V>| #[trigger] g(x, None) == x)) || (l == tnone::<K, V, V>() && (forall|x: Option<V>| (#[trigger] g(x, None)).is_none())) }
spec fn rfits0<K: Ord, V, W>(g: G<V, W>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>) -> bool { r == tnone::<K, W, V>() && (forall|y: Option<W>| (#[trigger] g(None, y)).is_none()) }
spec fn rfits1<K: Ord, V>(g: G<V, V>, r: spec_fn(TV<K, V>) -> Option<TV<K, V>>) -> bool { r == tsome::<K, V>() && (forall|y: Option<V>| #[trigger] g(None, y) == y) }
spec fn exlk<K: Ord, V>(f: spec_fn(Seq<K>) -> Option<V>) -> bool { exists|t: TV<K, V>| lk(t, f) }

proof fn lemma_lkn_ext<K: Ord, V>(o: Option<TV<K, V>>, f: spec_fn(Seq<K>) -> Option<V>, g: spec_fn(Seq<K>) -> Option<V>)
    requires lkn(o, f), forall|k: Seq<K>| #[trigger] f(k) == g(k)
    ensures lkn(o, g)
{
    if o.is_none() { assert forall|k: Seq<K>| (#[trigger] g(k)).is_none() by { assert(f(k) == g(k)); } }
    else { assert forall|k: Seq<K>| #[trigger] tget(o.unwrap(), k) == g(k) by { assert(f(k) == g(k)); } }
}
proof fn lemma_cg_at<K: Ord + Clone, V>(c: Seq<TV<K, V>>, i: int, k: Seq<K>)
    requires key_laws::<K>(), cok(c), 0 <= i < c.len()
    ensures k.len() > 0 && k[0] == hd(c[i]) ==> cg(c, k) == tget(c[i], k),
      !(k.len() > 0 && k[0] == hd(c[i])) ==> tget(c[i], k).is_none(),
      chas(c, hd(c[i])), cix(c, hd(c[i])) == i
{ lemma_cix(c, i); lemma_pre_hd(c[i].p, k); }
/// a list element that has no counterpart is kept or dropped
proof fn lemma_one_side<K: Ord + Clone, V, W>(g: G<V, W>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>, i: int, l: spec_fn(TV<K, V>) -> Option<TV<K, V>>)
    requires key_laws::<K>(), cok(a), cok(b), 0 <= i < a.len(), lfits(g, l), g(None, None) == None::<V>
    ensures hdis(l(a[i]), hd(a[i])), !chas(b, hd(a[i])) ==> lkn(l(a[i]), at(ccmb(g, a, b), hd(a[i])))
{
    let x = hd(a[i]);
    let f = at(ccmb(g, a, b), x);
    assert(a[i].p.len() > 0 && wfc(a[i]));
    if !chas(b, x) {
        assert forall|k: Seq<K>| #[trigger] f(k) == match l(a[i]) { None => None, Some(t) => tget(t, k) } by {
            lemma_cg_at(a, i, k);
            if k.len() > 0 && k[0] == x { assert(cg(b, k).is_none()); assert(f(k) == g(cg(a, k), None)); }
        }
        if l(a[i]).is_some() { assert forall|k: Seq<K>| #[trigger] tget(a[i], k) == f(k) by { assert(f(k) == match l(a[i]) { None => None, Some(t) => tget(t, k) }); } }
    }
}
proof fn lemma_one_side_b<K: Ord + Clone, V>(g: G<V, V>, a: Seq<TV<K, V>>, b: Seq<TV<K, V>>, j: int)
    requires key_laws::<K>(), cok(a), cok(b), 0 <= j < b.len(), forall|y: Option<V>| #[trigger] g(None, y) == y
    ensures hdis(Some(b[j]), hd(b[j])), !chas(a, hd(b[j])) ==> lkn(Some(b[j]), at(ccmb(g, a, b), hd(b[j])))
{
    let x = hd(b[j]);
    let f = at(ccmb(g, a, b), x);
    assert(b[j].p.len() > 0 && wfc(b[j]));
    if !chas(a, x) {
        assert forall|k: Seq<K>| #[trigger] tget(b[j], k) == f(k) by {
            lemma_cg_at(b, j, k);
            if k.len() > 0 && k[0] == x { assert(cg(a, k).is_none()); assert(f(k) == g(None, cg(b, k))); }
        }
    }
}
proof fn lemma_both_sides<K: Ord + Clone, V, W>(g: G<V, W>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>, i: int, j: int)
    requires key_laws::<K>(), cok(a), cok(b), 0 <= i < a.len(), 0 <= j < b.len(), hd(a[i]) == hd(b[j]), exlk(cmb(g, a[i], b[j])), g(None, None) == None::<V>
    ensures lkn(tcmb(g)(a[i], b[j]), at(ccmb(g, a, b), hd(a[i])))
{
    let x = hd(a[i]);
    let f = cmb(g, a[i], b[j]);
    lemma_ne(f);
    assert forall|k: Seq<K>| #[trigger] f(k) == at(ccmb(g, a, b), x)(k) by { lemma_cg_at(a, i, k); lemma_cg_at(b, j, k); }
    lemma_lkn_ext(ne(the(f)), f, at(ccmb(g, a, b), x));
}
/// all pairs of children with equal heads can be combined
spec fn expairs<K: Ord, V, W>(g: G<V, W>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && #[trigger] hd(a[i]) == #[trigger] hd(b[j]) ==> exlk(cmb(g, a[i], b[j])) }
/// joining two child lists key by key (drops elements only b has)
proof fn lemma_join0<K: Ord + Clone, V, W>(g: G<V, W>, l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), cok(a), cok(b), lfits(g, l), rfits0(g, tnone::<K, W, V>()), expairs(g, a, b)
    ensures cok(tjoin(l, tnone::<K, W, V>(), tcmb(g), a, b)), forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(tjoin(l, tnone::<K, W, V>(), tcmb(g), a, b), k) == g(cg(a, k), cg(b, k))
{
    let r = tnone::<K, W, V>();
    let f = ccmb(g, a, b);
    assert(g(None, None) == None::<V>) by { assert(g(None, None::<W>).is_none()); }
    assert forall|i: int| 0 <= i < a.len() implies hdis(l(#[trigger] a[i]), hd(a[i])) && (!chas(b, hd(a[i])) ==> lkn(l(a[i]), at(f, hd(a[i])))) by { lemma_one_side(g, a, b, i, l); }
    assert forall|j: int| 0 <= j < b.len() implies hdis(r(#[trigger] b[j]), hd(b[j])) && (!chas(a, hd(b[j])) ==> lkn(r(b[j]), at(f, hd(b[j])))) by {
        if !chas(a, hd(b[j])) { assert forall|k: Seq<K>| (#[trigger] at(f, hd(b[j]))(k)).is_none() by { if k.len() > 0 && k[0] == hd(b[j]) { assert(cg(a, k).is_none()); assert(f(k) == g(None, cg(b, k))); } } }
    }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) implies lkn(#[trigger] tcmb(g)(a[i], b[j]), at(f, hd(a[i]))) by { lemma_both_sides(g, a, b, i, j); }
    assert forall|k: Seq<K>| k.len() > 0 && !chas(a, k[0]) && !chas(b, k[0]) implies (#[trigger] f(k)).is_none() by { assert(f(k) == g(None, None)); }
    assert(realises(f, l, r, tcmb(g), a, b));
    lemma_tjoin_get(f, l, r, tcmb(g), a, b);
    assert forall|k: Seq<K>| k.len() > 0 implies #[trigger] cg(tjoin(l, r, tcmb(g), a, b), k) == g(cg(a, k), cg(b, k)) by { assert(f(k) == g(cg(a, k), cg(b, k))); }
}
/// joining two child lists key by key (keeps elements only one side has)
proof fn lemma_join1<K: Ord + Clone, V>(g: G<V, V>, a: Seq<TV<K, V>>, b: Seq<TV<K, V>>)
    requires key_laws::<K>(), cok(a), cok(b), lfits(g, tsome::<K, V>()), rfits1(g, tsome::<K, V>()), expairs(g, a, b)
    ensures cok(tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(g), a, b)), forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(g), a, b), k) == g(cg(a, k), cg(b, k))
{
    let l = tsome::<K, V>();
    let f = ccmb(g, a, b);
    assert(g(None, None) == None::<V>) by { assert(g(None, None::<V>) == None::<V>); }
    assert forall|i: int| 0 <= i < a.len() implies hdis(l(#[trigger] a[i]), hd(a[i])) && (!chas(b, hd(a[i])) ==> lkn(l(a[i]), at(f, hd(a[i])))) by { lemma_one_side(g, a, b, i, l); }
    assert forall|j: int| 0 <= j < b.len() implies hdis(l(#[trigger] b[j]), hd(b[j])) && (!chas(a, hd(b[j])) ==> lkn(l(b[j]), at(f, hd(b[j])))) by { lemma_one_side_b(g, a, b, j); }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) implies lkn(#[trigger] tcmb(g)(a[i], b[j]), at(f, hd(a[i]))) by { lemma_both_sides(g, a, b, i, j); }
    assert forall|k: Seq<K>| k.len() > 0 && !chas(a, k[0]) && !chas(b, k[0]) implies (#[trigger] f(k)).is_none() by { assert(f(k) == g(None, None)); }
    assert(realises(f, l, l, tcmb(g), a, b));
    lemma_tjoin_get(f, l, l, tcmb(g), a, b);
    assert forall|k: Seq<K>| k.len() > 0 implies #[trigger] cg(tjoin(l, l, tcmb(g), a, b), k) == g(cg(a, k), cg(b, k)) by { assert(f(k) == g(cg(a, k), cg(b, k))); }
}
/// t holds, at the node n deep, what g makes of the two nodes
spec fn node_is<K: Ord, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>, n: int, t: TV<K, V>) -> bool {
    &&& t.p == a.p.take(n)
    &&& t.v == g(nd(a, n).v, nd(b, n).v)
    &&& cok(t.c)
    &&& forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(t.c, k) == g(cg(nd(a, n).c, k), cg(nd(b, n).c, k))
}
proof fn lemma_node<K: Ord + Clone, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>, n: int, t: TV<K, V>)
    requires key_laws::<K>(), wf(a), wf(b), 0 <= n <= a.p.len(), n <= b.p.len(), a.p.take(n) == b.p.take(n), node_is(g, a, b, n, t), g(None, None) == None::<V>
    ensures lk(unsp(t), cmb(g, a, b)), forall|k: Seq<K>| #[trigger] tget(t, k) == g(tget(a, k), tget(b, k))
{
    lemma_nd(a, n); lemma_nd(b, n);
    let f = cmb(g, a, b);
    assert forall|k: Seq<K>| #[trigger] tget(t, k) == g(tget(a, k), tget(b, k)) by {
        lemma_get_pre(t, k); lemma_get_pre(nd(a, n), k); lemma_get_pre(nd(b, n), k);
        assert(tget(nd(a, n), k) == tget(a, k)); assert(tget(nd(b, n), k) == tget(b, k));
        if pre(t.p, k) && k.len() > n { assert(cg(t.c, k.skip(n)) == g(cg(nd(a, n).c, k.skip(n)), cg(nd(b, n).c, k.skip(n)))); }
    }
    lemma_unsp(t);
    assert forall|k: Seq<K>| #[trigger] tget(unsp(t), k) == f(k) by { assert(tget(t, k) == g(tget(a, k), tget(b, k))); }
}
/// length of the common prefix
spec fn cpl<K>(p: Seq<K>, q: Seq<K>) -> int
    decreases p.len()
{ if p.len() == 0 || q.len() == 0 || p[0] != q[0] { 0 } else { 1 + cpl(p.skip(1), q.skip(1)) } }
proof fn lemma_cpl<K>(p: Seq<K>, q: Seq<K>)
    ensures 0 <= cpl(p, q) <= p.len(), cpl(p, q) <= q.len(), p.take(cpl(p, q)) == q.take(cpl(p, q)),
      cpl(p, q) < p.len() && cpl(p, q) < q.len() ==> p[cpl(p, q)] != q[cpl(p, q)]
    decreases p.len()
{
    if p.len() == 0 || q.len() == 0 || p[0] != q[0] { assert(p.take(0) =~= q.take(0)); }
    else {
        lemma_cpl(p.skip(1), q.skip(1));
        let n = cpl(p.skip(1), q.skip(1));
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] p.take(n + 1)[i] == q.take(n + 1)[i] by { if i > 0 { assert(p.skip(1).take(n)[i - 1] == q.skip(1).take(n)[i - 1]); } }
        assert(p.take(n + 1) =~= q.take(n + 1));
    }
}
//@ # ---- every such combination exists -----------------------------------------------------------------------------
proof fn lemma_outer_ex<K: Ord + Clone, V>(g: G<V, V>, a: TV<K, V>, b: TV<K, V>)
    requires key_laws::<K>(), wf(a), wf(b), lfits(g, tsome::<K, V>()), rfits1(g, tsome::<K, V>())
    ensures exlk(cmb(g, a, b))
    decreases a.c, b.c
{
    let n = cpl(a.p, b.p);
    lemma_cpl(a.p, b.p); lemma_nd(a, n); lemma_nd(b, n);
    lemma_wf_nil(a); lemma_wf_nil(b);
    let ca = nd(a, n).c; let cb = nd(b, n).c;
    assert forall|i: int, j: int| 0 <= i < ca.len() && 0 <= j < cb.len() && #[trigger] hd(ca[i]) == #[trigger] hd(cb[j]) implies exlk(cmb(g, ca[i], cb[j])) by {
        assert(wf(ca[i]) && wf(cb[j]));
        if n == a.p.len() { assert(ca[i] == a.c[i]); assert(decreases_to!(a.c => a.c[i])); assert(decreases_to!(a.c => a.c[i].c)); lemma_outer_ex(g, ca[i], cb[j]); }
        else {
            assert(ca[i] == short(a, n));
            if n == b.p.len() { assert(cb[j] == b.c[j]); assert(decreases_to!(b.c => b.c[j].c)); lemma_outer_ex(g, ca[i], cb[j]); }
            else { assert(cb[j] == short(b, n)); assert(hd(ca[i]) == a.p[n]); assert(hd(cb[j]) == b.p[n]); }
        }
    }
    lemma_join1(g, ca, cb);
    assert(g(None, None) == None::<V>) by { assert(g(None, None::<V>) == None::<V>); }
    let t = TV { p: a.p.take(n), v: g(nd(a, n).v, nd(b, n).v), c: tjoin(tsome::<K, V>(), tsome::<K, V>(), tcmb(g), ca, cb) };
    lemma_node(g, a, b, n, t);
    assert(lk(unsp(t), cmb(g, a, b)));
}
/// keep or change the entries of a tree
spec fn fm<K, V>(h: spec_fn(Seq<K>, V) -> Option<V>, t: TV<K, V>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| match tget(t, k) { Some(v) => h(k, v), None => None } }
spec fn hsh<K, V>(h: spec_fn(Seq<K>, V) -> Option<V>, p: Seq<K>) -> spec_fn(Seq<K>, V) -> Option<V> { |k: Seq<K>, v: V| h(p + k, v) }
spec fn tfm<K: Ord, V>(h: spec_fn(Seq<K>, V) -> Option<V>) -> spec_fn(TV<K, V>) -> Option<TV<K, V>> { |t: TV<K, V>| ne(the(fm(h, t))) }
proof fn lemma_fm_ex<K: Ord + Clone, V>(h: spec_fn(Seq<K>, V) -> Option<V>, t: TV<K, V>)
    requires key_laws::<K>(), wf(t)
    ensures exlk(fm(h, t))
    decreases t
{
    lemma_wf_nil(t);
    let h1 = hsh(h, t.p);
    let a = t.c;
    let b = Seq::<TV<K, V>>::empty();
    let l = tfm(h1);
    let r = tnone::<K, V, V>();
    let c = |x: TV<K, V>, y: TV<K, V>| None::<TV<K, V>>;
    let g = |k: Seq<K>| match cg(a, k) { Some(v) => h1(k, v), None => None };
    assert forall|i: int| 0 <= i < a.len() implies hdis(l(#[trigger] a[i]), hd(a[i])) && lkn(l(a[i]), at(g, hd(a[i]))) by {
        assert(wf(a[i]));
        lemma_fm_ex(h1, a[i]);
        let f = fm(h1, a[i]);
        lemma_ne(f);
        assert forall|k: Seq<K>| #[trigger] f(k) == at(g, hd(a[i]))(k) by { lemma_cg_at(a, i, k); }
        lemma_lkn_ext(l(a[i]), f, at(g, hd(a[i])));
        lemma_lkn_head(l(a[i]), g, hd(a[i]));
    }
    assert(realises(g, l, r, c, a, b));
    lemma_tjoin_get(g, l, r, c, a, b);
    let res = tjoin(l, r, c, a, b);
    let u = TV { p: t.p, v: match t.v { Some(v) => h(t.p, v), None => None }, c: res };
    lemma_unsp(u);
    let f = fm(h, t);
    assert forall|k: Seq<K>| #[trigger] tget(unsp(u), k) == f(k) by {
        assert(tget(unsp(u), k) == tget(u, k));
        if pre(t.p, k) {
            lemma_uncat(t.p, k);
            let rr = k.skip(t.p.len() as int);
            if rr.len() == 0 { assert(k =~= t.p); } else { assert(cg(res, rr) == g(rr)); assert(cg(a, rr) == tget(t, k)); }
        }
    }
    assert(lk(unsp(u), f));
}
proof fn lemma_keyed_ex<K: Ord + Clone, V, W>(g: G<V, W>, a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), wf(a), forall|y: Option<W>| (#[trigger] g(None, y)).is_none()
    ensures exlk(cmb(g, a, b))
{
    let h = |k: Seq<K>, v: V| g(Some(v), tget(b, k));
    lemma_fm_ex(h, a);
    let t = the(fm(h, a));
    assert(lk(t, fm(h, a)));
    assert forall|k: Seq<K>| #[trigger] tget(t, k) == cmb(g, a, b)(k) by { assert(tget(t, k) == fm(h, a)(k)); if tget(a, k).is_none() { assert(g(None, tget(b, k)).is_none()); } }
    assert(lk(t, cmb(g, a, b)));
}
proof fn lemma_keyed_pairs<K: Ord + Clone, V, W>(g: G<V, W>, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), cok(a), forall|y: Option<W>| (#[trigger] g(None, y)).is_none()
    ensures expairs(g, a, b)
{ assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && #[trigger] hd(a[i]) == #[trigger] hd(b[j]) implies exlk(cmb(g, a[i], b[j])) by { assert(wf(a[i])); lemma_keyed_ex(g, a[i], b[j]); } }
proof fn lemma_outer_pairs<K: Ord + Clone, V>(g: G<V, V>, a: Seq<TV<K, V>>, b: Seq<TV<K, V>>)
    requires key_laws::<K>(), cok(a), cok(b), lfits(g, tsome::<K, V>()), rfits1(g, tsome::<K, V>())
    ensures expairs(g, a, b)
{ assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && #[trigger] hd(a[i]) == #[trigger] hd(b[j]) implies exlk(cmb(g, a[i], b[j])) by { assert(wf(a[i]) && wf(b[j])); lemma_outer_ex(g, a[i], b[j]); } }
//@ # ---- prefix selection ---------------------------------------------------------------------------------------------
/// some key of t selected by q is a prefix of k
spec fn thit<K, W>(t: TV<K, W>, q: spec_fn(W) -> bool, k: Seq<K>) -> bool
    decreases t
{
    pre(t.p, k) && ((t.v.is_some() && q(t.v.unwrap())) || (k.len() > t.p.len() && {
        let r = k.skip(t.p.len() as int);
        chas(t.c, r[0]) && thit(t.c[cix(t.c, r[0])], q, r)
    }))
}
spec fn chit<K, W>(c: Seq<TV<K, W>>, q: spec_fn(W) -> bool, k: Seq<K>) -> bool { k.len() > 0 && chas(c, k[0]) && thit(c[cix(c, k[0])], q, k) }
proof fn lemma_hit_is<K, W>(t: TV<K, W>, q: spec_fn(W) -> bool, k: Seq<K>)
    ensures thit(t, q, k) == (exists|j: int| 0 <= j <= k.len() && (#[trigger] tget(t, k.take(j))).is_some() && q(tget(t, k.take(j)).unwrap()))
    decreases t
{
    let n = t.p.len() as int;
    let rhs = exists|j: int| 0 <= j <= k.len() && (#[trigger] tget(t, k.take(j))).is_some() && q(tget(t, k.take(j)).unwrap());
    if pre(t.p, k) {
        assert(k.take(n).take(n) =~= k.take(n));
        assert(tget(t, k.take(n)) == t.v);
        let r = k.skip(n);
        if k.len() > n && chas(t.c, r[0]) {
            let i = cix(t.c, r[0]);
            lemma_chas(t.c, r[0]);
            lemma_hit_is(t.c[i], q, r);
            if exists|j: int| 0 <= j <= r.len() && (#[trigger] tget(t.c[i], r.take(j))).is_some() && q(tget(t.c[i], r.take(j)).unwrap()) {
                let j = choose|j: int| 0 <= j <= r.len() && (#[trigger] tget(t.c[i], r.take(j))).is_some() && q(tget(t.c[i], r.take(j)).unwrap());
                lemma_pre_hd(t.c[i].p, r.take(j));
                lemma_get_pre(t.c[i], r.take(j));
                assert(r.take(j).len() > 0);
                assert(k.take(n + j).take(n) =~= t.p);
                assert(k.take(n + j).skip(n) =~= r.take(j));
                assert(r.take(j)[0] == r[0]);
                assert(tget(t, k.take(n + j)) == tget(t.c[i], r.take(j)));
            }
        }
        if rhs {
            let j = choose|j: int| 0 <= j <= k.len() && (#[trigger] tget(t, k.take(j))).is_some() && q(tget(t, k.take(j)).unwrap());
            lemma_get_pre(t, k.take(j));
            if j > n {
                assert(k.take(j).skip(n) =~= r.take(j - n));
                assert(r.take(j - n)[0] == r[0]);
                let i = cix(t.c, r[0]);
                assert(tget(t.c[i], r.take(j - n)).is_some());
            } else { assert(k.take(n) =~= k.take(j)); }
        }
    } else if rhs {
        let j = choose|j: int| 0 <= j <= k.len() && (#[trigger] tget(t, k.take(j))).is_some() && q(tget(t, k.take(j)).unwrap());
        lemma_get_pre(t, k.take(j));
        assert(k.take(j).take(n) =~= k.take(n));
    }
}
proof fn lemma_hit_pre<K, W>(t: TV<K, W>, q: spec_fn(W) -> bool, k: Seq<K>)
    ensures thit(t, q, k) == (pre(t.p, k) && ((t.v.is_some() && q(t.v.unwrap())) || chit(t.c, q, k.skip(t.p.len() as int)))),
      isnil(t) ==> !thit(t, q, k)
{ if pre(t.p, k) { let r = k.skip(t.p.len() as int); if r.len() > 0 { lemma_chas(t.c, r[0]); } } }
proof fn lemma_nd_hit<K, W>(t: TV<K, W>, q: spec_fn(W) -> bool, n: int, k: Seq<K>)
    requires 0 <= n <= t.p.len()
    ensures thit(nd(t, n), q, k) == thit(t, q, k)
{
    if n < t.p.len() {
        let s = short(t, n);
        let u = nd(t, n);
        let c = seq![s];
        lemma_hit_pre(u, q, k); lemma_hit_pre(t, q, k);
        assert(t.p =~= t.p.take(n) + s.p);
        if pre(t.p.take(n), k) {
            let r = k.skip(n);
            lemma_hit_pre(s, q, r);
            lemma_uncat(t.p.take(n), k);
            assert(pre(s.p, r) == pre(t.p, k)) by {
                if pre(s.p, r) { lemma_uncat(s.p, r); assert(k =~= t.p + r.skip(s.p.len() as int)); lemma_cat(t.p, r.skip(s.p.len() as int)); }
                if pre(t.p, k) { lemma_uncat(t.p, k); assert(r =~= s.p + k.skip(t.p.len() as int)); lemma_cat(s.p, k.skip(t.p.len() as int)); }
            }
            if pre(t.p, k) { assert(r.skip(s.p.len() as int) =~= k.skip(t.p.len() as int)); }
            assert(isc(c, s.p[0], 0));
            lemma_pre_hd(s.p, r);
            if r.len() > 0 { lemma_chas(c, r[0]); }
        } else if pre(t.p, k) { assert(k.take(n) =~= k.take(t.p.len() as int).take(n)); }
    }
}
/// keys of a with (kp) or without (!kp) a selected prefix in b
spec fn pfx<K, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if thit(b, q, k) == kp { tget(a, k) } else { None } }
spec fn cpfx<K, V, W>(kp: bool, q: spec_fn(W) -> bool, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if chit(b, q, k) == kp { cg(a, k) } else { None } }
spec fn tpfx<K: Ord, V, W>(kp: bool, q: spec_fn(W) -> bool) -> spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>> { |a: TV<K, V>, b: TV<K, W>| ne(the(pfx(kp, q, a, b))) }
spec fn lpfx<K, V>(kp: bool) -> spec_fn(TV<K, V>) -> Option<TV<K, V>> { if kp { tnone::<K, V, V>() } else { tsome::<K, V>() } }
proof fn lemma_pfx_ex<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), wf(a)
    ensures exlk(pfx(kp, q, a, b))
{
    let h = |k: Seq<K>, v: V| if thit(b, q, k) == kp { Some(v) } else { None };
    lemma_fm_ex(h, a);
    let t = the(fm(h, a));
    assert(lk(t, fm(h, a)));
    assert forall|k: Seq<K>| #[trigger] tget(t, k) == pfx(kp, q, a, b)(k) by { assert(tget(t, k) == fm(h, a)(k)); }
    assert(lk(t, pfx(kp, q, a, b)));
}
proof fn lemma_pjoin<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: Seq<TV<K, V>>, b: Seq<TV<K, W>>)
    requires key_laws::<K>(), cok(a), cok(b)
    ensures cok(tjoin(lpfx(kp), tnone::<K, W, V>(), tpfx(kp, q), a, b)),
      forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(tjoin(lpfx(kp), tnone::<K, W, V>(), tpfx(kp, q), a, b), k) == cpfx(kp, q, a, b)(k)
{
    let l = lpfx::<K, V>(kp);
    let r = tnone::<K, W, V>();
    let c = tpfx::<K, V, W>(kp, q);
    let f = cpfx(kp, q, a, b);
    assert forall|i: int| 0 <= i < a.len() implies hdis(l(#[trigger] a[i]), hd(a[i])) && (!chas(b, hd(a[i])) ==> lkn(l(a[i]), at(f, hd(a[i])))) by {
        assert(a[i].p.len() > 0 && wfc(a[i]));
        if !chas(b, hd(a[i])) {
            assert forall|k: Seq<K>| #[trigger] at(f, hd(a[i]))(k) == if kp { None } else { tget(a[i], k) } by { lemma_cg_at(a, i, k); if k.len() > 0 && k[0] == hd(a[i]) { assert(!chit(b, q, k)); } }
            if !kp { assert forall|k: Seq<K>| #[trigger] tget(a[i], k) == at(f, hd(a[i]))(k) by { assert(at(f, hd(a[i]))(k) == if kp { None } else { tget(a[i], k) }); } }
        }
    }
    assert forall|j: int| 0 <= j < b.len() implies hdis(r(#[trigger] b[j]), hd(b[j])) && (!chas(a, hd(b[j])) ==> lkn(r(b[j]), at(f, hd(b[j])))) by {
        if !chas(a, hd(b[j])) { assert forall|k: Seq<K>| (#[trigger] at(f, hd(b[j]))(k)).is_none() by { if k.len() > 0 && k[0] == hd(b[j]) { assert(cg(a, k).is_none()); } } }
    }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && hd(a[i]) == hd(b[j]) implies lkn(#[trigger] c(a[i], b[j]), at(f, hd(a[i]))) by {
        assert(wf(a[i]));
        lemma_pfx_ex(kp, q, a[i], b[j]);
        let f1 = pfx(kp, q, a[i], b[j]);
        lemma_ne(f1);
        assert forall|k: Seq<K>| #[trigger] f1(k) == at(f, hd(a[i]))(k) by {
            lemma_cg_at(a, i, k); lemma_cg_at(b, j, k);
            if k.len() > 0 && k[0] == hd(a[i]) { assert(chit(b, q, k) == thit(b[j], q, k)); }
        }
        lemma_lkn_ext(c(a[i], b[j]), f1, at(f, hd(a[i])));
    }
    assert forall|k: Seq<K>| k.len() > 0 && !chas(a, k[0]) && !chas(b, k[0]) implies (#[trigger] f(k)).is_none() by { assert(cg(a, k).is_none()); }
    assert(realises(f, l, r, c, a, b));
    lemma_tjoin_get(f, l, r, c, a, b);
}
/// t holds, at the node n deep, the selected part
spec fn pnode_is<K: Ord, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>, n: int, t: TV<K, V>) -> bool {
    &&& t.p == a.p.take(n)
    &&& !(nd(b, n).v.is_some() && q(nd(b, n).v.unwrap()))
    &&& t.v == if kp { None } else { nd(a, n).v }
    &&& cok(t.c)
    &&& forall|k: Seq<K>| k.len() > 0 ==> #[trigger] cg(t.c, k) == cpfx(kp, q, nd(a, n).c, nd(b, n).c)(k)
}
proof fn lemma_pnode<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>, n: int, t: TV<K, V>)
    requires key_laws::<K>(), wf(a), wf(b), 0 <= n <= a.p.len(), n <= b.p.len(), a.p.take(n) == b.p.take(n), pnode_is(kp, q, a, b, n, t)
    ensures lk(unsp(t), pfx(kp, q, a, b)), forall|k: Seq<K>| #[trigger] tget(t, k) == pfx(kp, q, a, b)(k)
{
    lemma_nd(a, n); lemma_nd(b, n);
    let f = pfx(kp, q, a, b);
    assert forall|k: Seq<K>| #[trigger] tget(t, k) == f(k) by {
        lemma_get_pre(t, k); lemma_get_pre(nd(a, n), k); lemma_hit_pre(nd(b, n), q, k); lemma_nd_hit(b, q, n, k);
        assert(tget(nd(a, n), k) == tget(a, k));
        if pre(t.p, k) {
            if k.len() > n { assert(cg(t.c, k.skip(n)) == cpfx(kp, q, nd(a, n).c, nd(b, n).c)(k.skip(n))); }
            else { assert(!chit(nd(b, n).c, q, k.skip(n))); }
        }
    }
    lemma_unsp(t);
}
/// the selected key of b is a prefix of all of a
proof fn lemma_pall<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>)
    requires b.p.len() <= a.p.len(), a.p.take(b.p.len() as int) == b.p, b.v.is_some() && q(b.v.unwrap())
    ensures forall|k: Seq<K>| #[trigger] pfx(kp, q, a, b)(k) == if kp { tget(a, k) } else { None }
{
    assert forall|k: Seq<K>| #[trigger] pfx(kp, q, a, b)(k) == if kp { tget(a, k) } else { None } by {
        lemma_get_pre(a, k); lemma_hit_pre(b, q, k);
        if pre(a.p, k) { assert(k.take(b.p.len() as int) =~= k.take(a.p.len() as int).take(b.p.len() as int)); }
    }
}
