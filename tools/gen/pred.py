F="src/radix_tree/mod.rs"
o="""//@ include radix_api.vrs
//@ include tvpred.vrs
//@ tag rxp
//@ # ---- inclusion and overlap ----------------------------------------------------------------------------------------
type BMS<'a, K, V, W> = BoolOpMergeState<'a, RadixTree<K, V>, RadixTree<K, W>>;
/// the tree with its prefix replaced
spec fn wp<K, V>(t: TV<K, V>, p: Seq<K>) -> TV<K, V> { TV { p, ..t } }
/// a disjunction over the elements only a has, and the matched pairs
spec fn any_ops<K: Ord, V, W>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool) -> Ops<bool, RadixTree<K, V>, RadixTree<K, W>> {
    Ops { ea: |o: bool, a: RadixTree<K, V>| o || pa, eb: |o: bool, b: RadixTree<K, W>| o, ec: |o: bool, a: RadixTree<K, V>, b: RadixTree<K, W>| o || m(a@, b@), cmp: |a: RadixTree<K, V>, b: RadixTree<K, W>| oc(hd(a@), hd(b@)) }
}
spec fn m_sub<K, V, W>() -> spec_fn(TV<K, V>, TV<K, W>) -> bool { |a: TV<K, V>, b: TV<K, W>| !tsub(a, b) }
spec fn m_int<K, V, W>() -> spec_fn(TV<K, V>, TV<K, W>) -> bool { |a: TV<K, V>, b: TV<K, W>| tint(a, b) }
proof fn lemma_any_mono<K: Ord + Clone, V, W>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    requires key_laws::<K>(), csorted(vs(a)), csorted(vs(b))
    ensures any_ops(pa, m).mono(a, b)
{
    let (l, r, c) = (tnone::<K, V, V>(), tnone::<K, W, V>(), |x: TV<K, V>, y: TV<K, W>| None::<TV<K, V>>);
    lemma_tj_mono(l, r, c, a, b);
    assert(any_ops(pa, m).cmp =~= tj_ops(l, r, c).cmp);
}
proof fn lemma_any_fa<K: Ord + Clone, V, W>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, o: bool, a: Seq<RadixTree<K, V>>)
    ensures any_ops(pa, m).fold_a(o, a) == (o || (pa && a.len() > 0))
    decreases a.len()
{ if a.len() > 0 { lemma_any_fa(pa, m, o || pa, a.skip(1)); } }
proof fn lemma_any_fb<K: Ord + Clone, V, W>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, o: bool, b: Seq<RadixTree<K, W>>)
    ensures any_ops(pa, m).fold_b(o, b) == o
    decreases b.len()
{ if b.len() > 0 { lemma_any_fb(pa, m, o, b.skip(1)); } }
proof fn lemma_any_true<K: Ord + Clone, V, W>(pa: bool, m: spec_fn(TV<K, V>, TV<K, W>) -> bool, a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    ensures any_ops(pa, m).fold(true, a, b)
    decreases a.len() + b.len()
{
    if a.len() == 0 { lemma_any_fb(pa, m, true, b); } else if b.len() == 0 { lemma_any_fa(pa, m, true, a); }
    else { match oc(hd(a[0]@), hd(b[0]@)) { Ordering::Less => lemma_any_true(pa, m, a.skip(1), b), Ordering::Greater => lemma_any_true(pa, m, a, b.skip(1)), Ordering::Equal => lemma_any_true(pa, m, a.skip(1), b.skip(1)) } }
}
proof fn lemma_any_fold<K: Ord + Clone, V, W>(a: Seq<RadixTree<K, V>>, b: Seq<RadixTree<K, W>>)
    requires key_laws::<K>(), cok(vs(a)), cok(vs(b))
    ensures any_ops(true, m_sub::<K, V, W>()).fold(false, a, b) == !sub_all(vs(a), vs(b)), any_ops(false, m_int::<K, V, W>()).fold(false, a, b) == int_any(vs(a), vs(b))
    decreases a.len() + b.len()
{
    let (ms, mi) = (m_sub::<K, V, W>(), m_int::<K, V, W>());
    let (x, y) = (vs(a), vs(b));
    lemma_vs(a); lemma_vs(b);
    if a.len() == 0 { lemma_any_fb(true, ms, false, b); lemma_any_fb(false, mi, false, b); assert(sub_all(x, y)); assert(!int_any(x, y)); }
    else if b.len() == 0 { lemma_any_fa(true, ms, false, a); lemma_any_fa(false, mi, false, a); assert(!sub_in(x[0], y)); assert(!int_any(x, y)); }
    else {
        lemma_sub_drop(x, y);
        let (a1, b1) = (a.skip(1), b.skip(1));
        match oc(hd(a[0]@), hd(b[0]@)) {
            Ordering::Less => { lemma_any_fold(a1, b); lemma_any_true(true, ms, a1, b); }
            Ordering::Greater => { lemma_any_fold(a, b1); }
            Ordering::Equal => { lemma_any_fold(a1, b1); lemma_any_true(true, ms, a1, b1); lemma_any_true(false, mi, a1, b1); }
        }
    }
}
"""
for op,pa,m,rec,call,res in [("NonSubsetOp","true","m_sub::<K, V, W>()","is_subset","a . is_subset ( b )","tsub"),("IntersectOp","false","m_int::<K, V, W>()","intersects","intersects ( a , b )","tint")]:
    ms="BMS<'a, K, V, W>"
    sel=f"MergeOperation<I> for {op}"
    o+=f"//@ tag rxp.{rec}\n//@ struct {F} {op}\n"
    o+=f"""/// stand-in for the recursive call
#[verifier::external_body]
fn {rec}_rec<K: TKey, V: TValue, W: TValue>(l: &RadixTree<K, V>, r: &RadixTree<K, W>) -> (res: bool)
    requires key_laws::<K>(), wf(l@), wf(r@)
    ensures res == {res}(l@, r@)
{{ unimplemented!() }}
impl<'a, K: TKey, V: TValue, W: TValue> MergeOperation<{ms}> for {op}<(K, V, W)> {{
    spec fn ops(&self) -> Ops<bool, RadixTree<K, V>, RadixTree<K, W>> {{ any_ops({pa}, {m}) }}
    spec fn okk(&self) -> bool {{ key_laws::<K>() }}
    spec fn oka(&self, a: RadixTree<K, V>) -> bool {{ tree_ok(a) }}
    spec fn okb(&self, b: RadixTree<K, W>) -> bool {{ tree_ok(b) }}
//@ fn {F} | {sel} | cmp
//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &RadixTree<K, W>`
//@ start
    proof {{ lemma_kobeys::<K>(); }}
//@ endfn
//@ fn {F} | {sel} | from_a
//@ sigrw `m : & mut I` => `m: &mut {ms}`
//@ start
    proof {{ lemma_any_fa({pa}, {m}, m.out(), m.a().take(n as int)); lemma_fold_true(|o: bool, x: RadixTree<K, V>| <{ms} as MergeStateMut>::ta(o, x), m.out(), m.a().take(n as int)); }}
//@ endfn
//@ fn {F} | {sel} | from_b
//@ sigrw `m : & mut I` => `m: &mut {ms}`
//@ start
    let ghost x0 = m.b()[0];
    proof {{ lemma_any_fb({pa}, {m}, m.out(), m.b().take(n as int)); }}
//@ end
    proof {{ let o1 = m.out(); assert(<{ms} as MergeStateMut>::tb(o1, x0)); }}
//@ endfn
//@ fn {F} | {sel} | collision
//@ sigrw `m : & mut I` => `m: &mut {ms}`
//@ rw `a . is_subset ( b )` => `is_subset_rec(a, b)`
//@ rw `is_subset ( a , b )` => `is_subset_rec(a, b)`
//@ rw `a . intersects ( b )` => `intersects_rec(a, b)`
//@ rw `intersects ( a , b )` => `intersects_rec(a, b)`
//@ start
    proof {{ lemma_fold_true(|o: bool, x: RadixTree<K, V>| <{ms} as MergeStateMut>::ta(o, x), m.out(), m.a().take(1)); assert(tree_ok(m.a()[0]) && tree_ok(m.b()[0])); }}
//@ endfn
}}
"""
for nm,sp,comb in [("is_subset","tsub","all"),("intersects","tint","any")]:
    n0=nm+"0"
    sub="NonSubsetOp" if nm=="is_subset" else "IntersectOp"
    o+=f"//@ tag rxp.{nm}\n//@ fn {F} | - | {n0}\n//@ ret res\n//@ attr #[verifier::exec_allows_no_decreases_clause]\n"
    o+=f"""//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &RadixTree<K, V>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &RadixTree<K, W>`
    requires key_laws::<K>(), wf(wp(l@, l_prefix@)), wf(wp(r@, r_prefix@))
    ensures res == {sp}(wp(l@, l_prefix@), wp(r@, r_prefix@))
//@ rw `& $x [ n .. ]` => `vstd::slice::slice_subrange($x, n, $x.len())`
"""
    for side,T in (("l","V"),("r","W")):
        for c in ("all","any"):
            # $q is the closure parameter; the bodies compare it with the other tree under its shortened prefix
            if side=="l": req="wf(wp(r@, r_prefix@))"; ens=f"b == {sp}($q@, wp(r@, r_prefix@))"
            else: req="wf(wp(l@, l_prefix@))"; ens=f"b == {sp}(wp(l@, l_prefix@), $q@)"
            o+=f"//@ rw `{side} . children ( ) . iter ( ) . {c} ( | $q | $$e )` => `vx_{c}({side}.children(), |$q: &RadixTree<K, {T}>| -> (b: bool) requires key_laws::<K>(), tree_ok(*$q), {req} ensures {ens} {{ proof {{ lemma_wp($q@); }} $e }})`\n"
    o+=f"""//@ start
    let ghost (lv, rv) = (wp(l@, l_prefix@), wp(r@, r_prefix@));
    proof {{
        let n = cpl(lv.p, rv.p);
        lemma_view(*l); lemma_view(*r); lemma_cpl(lv.p, rv.p); lemma_sub_cases(lv, rv, n);
        let (s, t) = (l.children@, r.children@);
        lemma_vs(s); lemma_vs(t); lemma_any_fold(s, t); lemma_any_mono(true, m_sub::<K, V, W>(), s, t); lemma_any_mono(false, m_int::<K, V, W>(), s, t);
        assert forall|i: int| 0 <= i < s.len() implies tree_ok(#[trigger] s[i]) && vs(s)[i] == s[i]@ by {{ assert(wfc(vs(s)[i])); }}
        assert forall|i: int| 0 <= i < t.len() implies tree_ok(#[trigger] t[i]) && vs(t)[i] == t[i]@ by {{ assert(wfc(vs(t)[i])); }}
        assert(wp(l@, lv.p.skip(n)) == short(lv, n)); assert(wp(r@, rv.p.skip(n)) == short(rv, n));
        assert(lv.p.subrange(n, lv.p.len() as int) =~= lv.p.skip(n)); assert(rv.p.subrange(n, rv.p.len() as int) =~= rv.p.skip(n));
        if n == lv.p.len() && n < rv.p.len() {{
            let sb = short(rv, n);
            assert({sp}(lv, rv) == ({'lv.v.is_none() && forall' if nm=='is_subset' else 'exists'}|i: int| 0 <= i < s.len() {'==>' if nm=='is_subset' else '&&'} {sp}((#[trigger] s[i])@, sb))) by {{
                {'if forall|i: int| 0 <= i < s.len() ==> tsub((#[trigger] s[i])@, sb) { assert forall|i: int| 0 <= i < lv.c.len() implies tsub(#[trigger] lv.c[i], sb) by { assert(s[i]@ == lv.c[i]); } }' if nm=='is_subset' else 'if exists|i: int| 0 <= i < lv.c.len() && tint(#[trigger] lv.c[i], sb) { let i = choose|i: int| 0 <= i < lv.c.len() && tint(#[trigger] lv.c[i], sb); assert(tint(s[i]@, sb)); }'}
            }}
        }}
        if n == rv.p.len() && n < lv.p.len() {{
            let sa = short(lv, n);
            assert({sp}(lv, rv) == exists|j: int| 0 <= j < t.len() && {sp}(sa, (#[trigger] t[j])@)) by {{
                if exists|j: int| 0 <= j < rv.c.len() && {sp}(sa, #[trigger] rv.c[j]) {{ let j = choose|j: int| 0 <= j < rv.c.len() && {sp}(sa, #[trigger] rv.c[j]); assert({sp}(sa, t[j]@)); }}
            }}
        }}
    }}
//@ endfn
//@ fn {F} | - | {nm}
//@ ret res
//@ sigrw `l : & impl AbstractRadixTree < K , V >` => `l: &RadixTree<K, V>`
//@ sigrw `r : & impl AbstractRadixTree < K , W >` => `r: &RadixTree<K, W>`
    requires key_laws::<K>(), wf(l@), wf(r@)
    ensures res == {sp}(l@, r@)
//@ endfn
"""
o+="""//@ tag rxp
proof fn lemma_wp<K, V>(t: TV<K, V>) ensures wp(t, t.p) == t {}
impl<K: TKey, V: TValue> RadixTree<K, V> {
"""
for nm,ens in [("is_subset","res == tsub(self@, that@)"),("is_superset","res == tsub(that@, self@)"),("intersects","res == tint(self@, that@)"),("is_disjoint","res == !tint(self@, that@)")]:
    o+=f"""//@ fn {F} | trait AbstractRadixTree | {nm}
//@ ret res
//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &RadixTree<K, W>`
    requires key_laws::<K>(), wf(self@), wf(that@)
    ensures {ens}
//@ endfn
"""
o+="}\n"
open('/verif/contracts/radix_pred.vrs','w').write(o)
