//@ include tvops.vrs
//@ tag rxp
//@ # ---- predicates on trees -------------------------------------------------------------------------------------------
/// every key of a is a key of b
#[verifier::opaque]
spec fn tsub<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> bool { forall|k: Seq<K>| (#[trigger] tget(a, k)).is_some() ==> tget(b, k).is_some() }
/// some key is in both
#[verifier::opaque]
spec fn tint<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> bool { exists|k: Seq<K>| (#[trigger] tget(a, k)).is_some() && tget(b, k).is_some() }
spec fn sub_in<K, V, W>(t: TV<K, V>, d: Seq<TV<K, W>>) -> bool { exists|j: int| 0 <= j < d.len() && tsub(t, #[trigger] d[j]) }
spec fn sub_all<K, V, W>(c: Seq<TV<K, V>>, d: Seq<TV<K, W>>) -> bool { forall|i: int| 0 <= i < c.len() ==> sub_in(#[trigger] c[i], d) }
spec fn int_in<K, V, W>(t: TV<K, V>, d: Seq<TV<K, W>>) -> bool { exists|j: int| 0 <= j < d.len() && tint(t, #[trigger] d[j]) }
spec fn int_any<K, V, W>(c: Seq<TV<K, V>>, d: Seq<TV<K, W>>) -> bool { exists|i: int| 0 <= i < c.len() && int_in(#[trigger] c[i], d) }
proof fn lemma_tsub_elim<K, V, W>(a: TV<K, V>, b: TV<K, W>, k: Seq<K>)
    requires tsub(a, b), tget(a, k).is_some()
    ensures tget(b, k).is_some()
{ reveal(tsub); }
proof fn lemma_tint_intro<K, V, W>(a: TV<K, V>, b: TV<K, W>, k: Seq<K>)
    requires tget(b, k).is_some(), tget(a, k).is_some()
    ensures tint(a, b)
{ reveal(tint); }
proof fn tint_key<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> (k: Seq<K>)
    requires tint(a, b)
    ensures tget(b, k).is_some(), tget(a, k).is_some()
{ reveal(tint); choose|k: Seq<K>| (#[trigger] tget(a, k)).is_some() && tget(b, k).is_some() }
/// trees with different heads share nothing
proof fn lemma_sub_heads<K: Ord + Clone, V, W>(a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), wfc(a), a.p.len() > 0, b.p.len() > 0
    ensures tsub(a, b) ==> hd(a) == hd(b), tint(a, b) ==> hd(a) == hd(b)
{
    if tsub(a, b) { let k = some_key(a); lemma_tsub_elim(a, b, k); lemma_get_pre(b, k); lemma_pre_hd(a.p, k); lemma_pre_hd(b.p, k); }
    if tint(a, b) { let k = tint_key(a, b); lemma_get_pre(b, k); lemma_get_pre(a, k); lemma_pre_hd(a.p, k); lemma_pre_hd(b.p, k); }
}
/// a key below a node is a key of one child
proof fn lemma_cg_child<K: Ord + Clone, V>(c: Seq<TV<K, V>>, k: Seq<K>)
    requires key_laws::<K>(), cok(c)
    ensures cg(c, k).is_some() ==> k.len() > 0 && exists|i: int| 0 <= i < c.len() && tget(#[trigger] c[i], k).is_some(),
      forall|i: int| 0 <= i < c.len() && tget(#[trigger] c[i], k).is_some() ==> k.len() > 0 && cg(c, k) == tget(c[i], k)
{
    if cg(c, k).is_some() { lemma_chas(c, k[0]); assert(tget(c[cix(c, k[0])], k).is_some()); }
    assert forall|i: int| 0 <= i < c.len() && tget(#[trigger] c[i], k).is_some() implies k.len() > 0 && cg(c, k) == tget(c[i], k) by { lemma_get_pre(c[i], k); lemma_pre_hd(c[i].p, k); lemma_cix(c, i); }
}
/// inclusion of two nodes with the same prefix
proof fn lemma_sub_node<K: Ord + Clone, V, W>(a: TV<K, V>, b: TV<K, W>)
    requires key_laws::<K>(), cok(a.c), cok(b.c), a.p == b.p
    ensures tsub(a, b) == ((a.v.is_none() || b.v.is_some()) && sub_all(a.c, b.c)), tint(a, b) == ((a.v.is_some() && b.v.is_some()) || int_any(a.c, b.c))
{
    let p = a.p;
    assert(p.take(p.len() as int) =~= p);
    lemma_get_pre(a, p); lemma_get_pre(b, p);
    if tsub(a, b) {
        if a.v.is_some() { lemma_tsub_elim(a, b, p); }
        assert forall|i: int| 0 <= i < a.c.len() implies sub_in(#[trigger] a.c[i], b.c) by {
            assert(wfc(a.c[i]));
            let k0 = some_key(a.c[i]);
            lemma_pre_hd(a.c[i].p, k0);
            assert forall|k: Seq<K>| (#[trigger] tget(a.c[i], k)).is_some() implies cg(b.c, k).is_some() by {
                lemma_cg_child(a.c, k); lemma_cat(p, k); lemma_get_pre(a, p + k); lemma_get_pre(b, p + k); lemma_tsub_elim(a, b, p + k);
            }
            assert(cg(b.c, k0).is_some());
            lemma_chas(b.c, k0[0]);
            let j = cix(b.c, k0[0]);
            assert(tsub(a.c[i], b.c[j])) by {
                reveal(tsub);
                assert forall|k: Seq<K>| (#[trigger] tget(a.c[i], k)).is_some() implies tget(b.c[j], k).is_some() by { lemma_get_pre(a.c[i], k); lemma_pre_hd(a.c[i].p, k); assert(cg(b.c, k).is_some()); }
            }
        }
    }
    if (a.v.is_none() || b.v.is_some()) && sub_all(a.c, b.c) {
        reveal(tsub);
        assert forall|k: Seq<K>| (#[trigger] tget(a, k)).is_some() implies tget(b, k).is_some() by {
            lemma_get_pre(a, k); lemma_get_pre(b, k);
            if k.len() != p.len() {
                let r = k.skip(p.len() as int);
                lemma_cg_child(a.c, r);
                let i = choose|i: int| 0 <= i < a.c.len() && tget(#[trigger] a.c[i], r).is_some();
                assert(sub_in(a.c[i], b.c));
                let j = choose|j: int| 0 <= j < b.c.len() && tsub(a.c[i], #[trigger] b.c[j]);
                lemma_tsub_elim(a.c[i], b.c[j], r);
                lemma_cg_child(b.c, r);
            }
        }
    }
    if tint(a, b) {
        let k = tint_key(a, b);
        lemma_get_pre(a, k); lemma_get_pre(b, k);
        if k.len() != p.len() {
            let r = k.skip(p.len() as int);
            lemma_cg_child(a.c, r); lemma_cg_child(b.c, r);
            let i = choose|i: int| 0 <= i < a.c.len() && tget(#[trigger] a.c[i], r).is_some();
            let j = choose|j: int| 0 <= j < b.c.len() && tget(#[trigger] b.c[j], r).is_some();
            lemma_tint_intro(a.c[i], b.c[j], r);
            assert(int_in(a.c[i], b.c));
        }
    }
    if a.v.is_some() && b.v.is_some() { lemma_tint_intro(a, b, p); }
    if int_any(a.c, b.c) {
        let i = choose|i: int| 0 <= i < a.c.len() && int_in(#[trigger] a.c[i], b.c);
        let j = choose|j: int| 0 <= j < b.c.len() && tint(a.c[i], #[trigger] b.c[j]);
        let k = tint_key(a.c[i], b.c[j]);
        lemma_cg_child(a.c, k); lemma_cg_child(b.c, k);
        lemma_cat(p, k); lemma_get_pre(a, p + k); lemma_get_pre(b, p + k);
        lemma_tint_intro(a, b, p + k);
    }
}
proof fn lemma_sub_ext<K, V, W>(a: TV<K, V>, b: TV<K, W>, a2: TV<K, V>, b2: TV<K, W>)
    requires forall|k: Seq<K>| #[trigger] tget(a2, k) == tget(a, k), forall|k: Seq<K>| #[trigger] tget(b2, k) == tget(b, k)
    ensures tsub(a, b) == tsub(a2, b2), tint(a, b) == tint(a2, b2)
{
    reveal(tsub); reveal(tint);
    if tsub(a2, b2) { assert forall|k: Seq<K>| (#[trigger] tget(a, k)).is_some() implies tget(b, k).is_some() by { assert(tget(a2, k).is_some()); assert(tget(b2, k).is_some()); } }
    if tint(a, b) { let k = tint_key(a, b); assert(tget(a2, k).is_some() && tget(b2, k).is_some()); }
    if tint(a2, b2) { let k = tint_key(a2, b2); assert(tget(a, k).is_some() && tget(b, k).is_some()); }
}
/// inclusion and overlap, by how the prefixes compare
proof fn lemma_sub_cases<K: Ord + Clone, V, W>(a: TV<K, V>, b: TV<K, W>, n: int)
    requires key_laws::<K>(), wf(a), wf(b), n == cpl(a.p, b.p)
    ensures n == a.p.len() && n == b.p.len() ==> tsub(a, b) == ((a.v.is_none() || b.v.is_some()) && sub_all(a.c, b.c)) && tint(a, b) == ((a.v.is_some() && b.v.is_some()) || int_any(a.c, b.c)),
      n == a.p.len() && n < b.p.len() ==> tsub(a, b) == (a.v.is_none() && forall|i: int| 0 <= i < a.c.len() ==> tsub(#[trigger] a.c[i], short(b, n)))
          && tint(a, b) == (exists|i: int| 0 <= i < a.c.len() && tint(#[trigger] a.c[i], short(b, n))),
      n == b.p.len() && n < a.p.len() ==> tsub(a, b) == (exists|j: int| 0 <= j < b.c.len() && tsub(short(a, n), #[trigger] b.c[j]))
          && tint(a, b) == (exists|j: int| 0 <= j < b.c.len() && tint(short(a, n), #[trigger] b.c[j])),
      n < a.p.len() && n < b.p.len() ==> !tsub(a, b) && !tint(a, b),
      cok(a.c), cok(b.c), wf(short(a, n)), wf(short(b, n))
{
    lemma_cpl(a.p, b.p); lemma_nd(a, n); lemma_nd(b, n); lemma_wf_nil(a); lemma_wf_nil(b);
    let (x, y) = (nd(a, n), nd(b, n));
    let (sa, sb) = (short(a, n), short(b, n));
    lemma_sub_ext(a, b, x, y);
    lemma_sub_node(x, y);
    if n == a.p.len() { assert(sa.p.len() == 0); } 
    if n == b.p.len() { assert(sb.p.len() == 0); }
    assert(wf(sa)); assert(wf(sb));
    if n == a.p.len() && n < b.p.len() {
        assert(y.c[0] == sb && y.c.len() == 1);
        assert forall|i: int| 0 <= i < a.c.len() implies sub_in(#[trigger] a.c[i], y.c) == tsub(a.c[i], sb) && int_in(a.c[i], y.c) == tint(a.c[i], sb) by { assert(tsub(a.c[i], y.c[0]) ==> sub_in(a.c[i], y.c)); assert(tint(a.c[i], y.c[0]) ==> int_in(a.c[i], y.c)); }
        assert(sub_all(a.c, y.c) == (forall|i: int| 0 <= i < a.c.len() ==> tsub(#[trigger] a.c[i], sb)));
        if int_any(a.c, y.c) { let i = choose|i: int| 0 <= i < a.c.len() && int_in(#[trigger] a.c[i], y.c); assert(tint(a.c[i], sb)); }
        if exists|i: int| 0 <= i < a.c.len() && tint(#[trigger] a.c[i], sb) { let i = choose|i: int| 0 <= i < a.c.len() && tint(#[trigger] a.c[i], sb); assert(int_in(a.c[i], y.c)); }
    }
    if n == b.p.len() && n < a.p.len() {
        assert(x.c[0] == sa && x.c.len() == 1);
        assert(sub_all(x.c, b.c) == sub_in(sa, b.c)) by { if sub_all(x.c, b.c) { assert(sub_in(x.c[0], b.c)); } }
        assert(int_any(x.c, b.c) == int_in(sa, b.c)) by { if int_in(sa, b.c) { assert(int_in(x.c[0], b.c)); } }
    }
    if n < a.p.len() && n < b.p.len() {
        lemma_sub_heads(sa, sb);
        assert(hd(sa) == a.p[n] && hd(sb) == b.p[n]);
        assert(x.c[0] == sa && x.c.len() == 1); assert(y.c[0] == sb && y.c.len() == 1);
        assert(!sub_in(x.c[0], y.c)); assert(!int_in(x.c[0], y.c));
    }
}
/// dropping the first element on one side, when it can match nothing on the other
proof fn lemma_sub_drop<K: Ord + Clone, V, W>(c: Seq<TV<K, V>>, d: Seq<TV<K, W>>)
    requires key_laws::<K>(), cok(c), cok(d), c.len() > 0, d.len() > 0
    ensures cok(c.skip(1)), cok(d.skip(1)),
      oc(hd(c[0]), hd(d[0])) == Ordering::Less ==> !sub_all(c, d) && int_any(c, d) == int_any(c.skip(1), d),
      oc(hd(c[0]), hd(d[0])) == Ordering::Greater ==> sub_all(c, d) == sub_all(c, d.skip(1)) && int_any(c, d) == int_any(c, d.skip(1)),
      oc(hd(c[0]), hd(d[0])) == Ordering::Equal ==> sub_all(c, d) == (tsub(c[0], d[0]) && sub_all(c.skip(1), d.skip(1))) && int_any(c, d) == (tint(c[0], d[0]) || int_any(c.skip(1), d.skip(1)))
{
    let (c1, d1) = (c.skip(1), d.skip(1));
    assert forall|i: int| 0 <= i < c1.len() implies #[trigger] c1[i] == c[i + 1] by {}
    assert forall|i: int| 0 <= i < d1.len() implies #[trigger] d1[i] == d[i + 1] by {}
    assert(cok(c1)) by { assert forall|i: int, j: int| 0 <= i < j < c1.len() implies #[trigger] oc(c1[i].p[0], c1[j].p[0]) == Ordering::Less by { assert(oc(c[i + 1].p[0], c[j + 1].p[0]) == Ordering::Less); } }
    assert(cok(d1)) by { assert forall|i: int, j: int| 0 <= i < j < d1.len() implies #[trigger] oc(d1[i].p[0], d1[j].p[0]) == Ordering::Less by { assert(oc(d[i + 1].p[0], d[j + 1].p[0]) == Ordering::Less); } }
    let o = oc(hd(c[0]), hd(d[0]));
    lemma_kord(hd(c[0]), hd(d[0]), hd(d[0]));
    // heads: a matching pair has equal heads
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < d.len() && (tsub(c[i], d[j]) || tint(c[i], d[j])) implies hd(#[trigger] c[i]) == hd(#[trigger] d[j]) by { assert(wfc(c[i])); lemma_sub_heads(c[i], d[j]); }
    assert forall|j: int| 0 < j < d.len() && o != Ordering::Greater implies hd(c[0]) != hd(#[trigger] d[j]) by { assert(oc(d[0].p[0], d[j].p[0]) == Ordering::Less); lemma_kord(hd(c[0]), hd(d[0]), hd(d[j])); lemma_kord(hd(c[0]), hd(c[0]), hd(c[0])); }
    assert forall|i: int| 0 < i < c.len() && o != Ordering::Less implies hd(#[trigger] c[i]) != hd(d[0]) by { assert(oc(c[0].p[0], c[i].p[0]) == Ordering::Less); lemma_kord(hd(d[0]), hd(c[0]), hd(c[i])); lemma_kord(hd(d[0]), hd(d[0]), hd(d[0])); }
    if o == Ordering::Less {
        assert(!sub_in(c[0], d)); assert(!int_in(c[0], d));
        if int_any(c, d) { let i = choose|i: int| 0 <= i < c.len() && int_in(#[trigger] c[i], d); assert(int_in(c1[i - 1], d)); }
        if int_any(c1, d) { let i = choose|i: int| 0 <= i < c1.len() && int_in(#[trigger] c1[i], d); assert(int_in(c[i + 1], d)); }
    } else {
        // c[i] does not meet d[0], except i == 0 when the heads agree
        assert forall|i: int| 0 <= i < c.len() && (i > 0 || o == Ordering::Greater) implies sub_in(#[trigger] c[i], d) == sub_in(c[i], d1) && int_in(c[i], d) == int_in(c[i], d1) by {
            if sub_in(c[i], d) { let j = choose|j: int| 0 <= j < d.len() && tsub(c[i], #[trigger] d[j]); assert(tsub(c[i], d1[j - 1])); }
            if sub_in(c[i], d1) { let j = choose|j: int| 0 <= j < d1.len() && tsub(c[i], #[trigger] d1[j]); assert(tsub(c[i], d[j + 1])); }
            if int_in(c[i], d) { let j = choose|j: int| 0 <= j < d.len() && tint(c[i], #[trigger] d[j]); assert(tint(c[i], d1[j - 1])); }
            if int_in(c[i], d1) { let j = choose|j: int| 0 <= j < d1.len() && tint(c[i], #[trigger] d1[j]); assert(tint(c[i], d[j + 1])); }
        }
        if o == Ordering::Greater {
            if int_any(c, d) { let i = choose|i: int| 0 <= i < c.len() && int_in(#[trigger] c[i], d); assert(int_in(c[i], d1)); }
            if int_any(c, d1) { let i = choose|i: int| 0 <= i < c.len() && int_in(#[trigger] c[i], d1); assert(int_in(c[i], d)); }
        } else {
            assert(sub_in(c[0], d) == tsub(c[0], d[0]));
            assert(int_in(c[0], d) == tint(c[0], d[0]));
            if int_any(c, d) { let i = choose|i: int| 0 <= i < c.len() && int_in(#[trigger] c[i], d); if i > 0 { assert(int_in(c1[i - 1], d1)); } }
            if int_any(c1, d1) { let i = choose|i: int| 0 <= i < c1.len() && int_in(#[trigger] c1[i], d1); assert(int_in(c[i + 1], d)); }
            if tsub(c[0], d[0]) && sub_all(c1, d1) { assert forall|i: int| 0 <= i < c.len() implies sub_in(#[trigger] c[i], d) by { if i > 0 { assert(sub_in(c1[i - 1], d1)); } } }
            if sub_all(c, d) { assert forall|i: int| 0 <= i < c1.len() implies sub_in(#[trigger] c1[i], d1) by { assert(sub_in(c[i + 1], d)); } }
        }
    }
}
