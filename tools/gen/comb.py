src=open('/verif/contracts/radix_comb.vrs').read() if False else None
F="src/radix_tree/mod.rs"
def impl(name, sel, W, BC, keepa, keepb, g, fv, fp, rec, state):
    W_ = W
    l = "tsome::<K, V>()" if keepa else "tnone::<K, V, V>()"
    r = "tsome::<K, V>()" if keepb else f"tnone::<K, {W}, V>()"
    c = f"tcmb({g}({fv}::<V, {W}, F>(self.0)))"
    ms = f"VMS<'a, K, V, {W}, {BC}>"
    out=[]
    A=out.append
    sig=["//@ sigrw `a : & A , b : & B` => `a: &RadixTree<K, V>, b: &RadixTree<K, %s>`"%W, "//@ sigrw `m : & mut VecMergeState < 'a , A , B , R , RadixTreeConverter < K , V > , %s >` => `m: &mut %s`"%(BC.replace('<',' < ').replace('>',' >').replace(',',' ,'),ms)]
    A(f"    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, RadixTree<K, {W}>> {{ tj_ops({l}, {r}, {c}) }}")
    A(f"    spec fn okk(&self) -> bool {{ kv_ok::<K, V>() && {fp}::<V, {W}, F>(self.0) }}")
    A(f"    spec fn oka(&self, a: RadixTree<K, V>) -> bool {{ tree_ok(a) }}")
    A(f"    spec fn okb(&self, b: RadixTree<K, {W}>) -> bool {{ tree_ok(b) }}")
    def fn(n):
        A(f"//@ fn {F} | {sel} | {n}")
    fn("cmp"); A(sig[0])
    A("//@ start\n    proof { lemma_kc::<K>(); lemma_kobeys::<K>(); }\n//@ endfn")
    for side,keep in (('a',keepa),('b',keepb)):
        fn("from_"+side); A(sig[1]); A("//@ start"); A(f"    let ghost x0 = m.{side}()[0];")
        T = "RadixTree<K, V>" if side=='a' else f"RadixTree<K, {W}>"
        if keep:
            args = f"{r}, {c}" if side=='a' else f"{l}, {c}"
            A(f"    proof {{ lemma_f{side}_some({args}, m.out(), m.{side}().take(n as int));")
            A(f"      lemma_fold_push(|o: Seq<TV<K, V>>, x: {T}| <{ms} as MergeStateMut>::t{side}(o, x), |x: {T}| x@, m.out(), m.{side}().take(n as int));")
            A(f"      assert forall|i: int| 0 <= i < n implies <{ms} as MergeStateMut>::el{side}(#[trigger] m.{side}()[i]) by {{ assert(tree_ok(m.{side}()[i])); }} }}")
        else:
            args = f"{r}, {c}" if side=='a' else f"{l}, {c}"
            A(f"    proof {{ lemma_f{side}_none({args}, m.out(), m.{side}().take(n as int)); }}")
        A("//@ end")
        A(f"    proof {{ let o1 = m.out(); assert(<{ms} as MergeStateMut>::t{side}(o1, x0).len() == o1.len() + 1); }}")
        A("//@ endfn")
    fn("collision"); A(sig[1])
    A(f"//@ rw `{rec} ( a , b , self . 0 )` => `{rec}_rec(a, b, self.0)`")
    if rec=="outer_combine": A("//@ rw `let res : R =` => `let res: RadixTree<K, V> =`")
    A("//@ start")
    A("    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);")
    A("    let ghost r0 = m.r@;")
    A(f"    proof {{ let h = cmb({g}({fv}::<V, {W}, F>(self.0)), x@, y@);")
    A(f"      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by {{ lemma_the(t, h); }}")
    A(f"      assert forall|t: RadixTree<K, V>| (#[trigger] r0.push(t)).map_values(|x: RadixTree<K, V>| x@) == o0.push(t@) by {{ lemma_push_map(r0, |x: RadixTree<K, V>| x@, t); }}")
    A(f"      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {{}} }}")
    A("//@ endfn")
    return "\n".join(out)
OUT=impl("OuterCombineOp","MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, RadixTreeConverter<K, V>>> for OuterCombineOp","V","RadixTreeConverter<K, V>",True,True,"go","fvo","fpo","outer_combine",None)
INN=impl("InnerCombineOp","MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for InnerCombineOp","W","NoConverter",False,False,"gi","fvo","fpo","inner_combine",None)
LEF=impl("LeftCombineOp","MergeOperation<VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>> for LeftCombineOp","W","NoConverter",True,False,"gl","fvl","fpl","left_combine",None)
head=open('/tmp/w/gen/comb_head.vrs').read()
o=head
def op(name,sel_params,W,body,where_f,P):
    pass
o+="""type VMS<'a, K, V, W, BC> = VecMergeState<'a, RadixTree<K, V>, RadixTree<K, W>, RadixTree<K, V>, RadixTreeConverter<K, V>, BC>;
"""
for (nm,W,bc,P,fty,body,g,fv,fp,rec,kwl) in [
  ("OuterCombineOp","V","RadixTreeConverter<K, V>","()","Fn(&V, &V) -> Option<V>",OUT,"go","fvo","fpo","outer_combine",(True,True)),
  ("InnerCombineOp","W","NoConverter","W","Fn(&V, &W) -> Option<V>",INN,"gi","fvo","fpo","inner_combine",(False,False)),
  ("LeftCombineOp","W","NoConverter","W","Fn(&V, Option<&W>) -> Option<V>",LEF,"gl","fvl","fpl","left_combine",(True,False))]:
    ka,kb=kwl
    l = "tsome::<K, V>()" if ka else "tnone::<K, V, V>()"
    r = "tsome::<K, V>()" if kb else f"tnone::<K, {W}, V>()"
    wg = "" if W=="V" else ", W: TValue"
    kvw = "kv_ok::<K, V>()" if W=="V" else "kv_ok::<K, V>(), kv_ok::<K, W>()"
    ms = f"VMS<'a, K, V, {W}, {bc}>"
    body=body
    o+=f"//@ tag rxc.{rec.split('_')[0]}\n//@ struct {F} {nm}\n"
    o+=f"impl<'a, K: TKey, V: TValue{wg}, F: {fty} + Copy> MergeOperation<{ms}> for {nm}<F, {P}> {{\n{body.replace('kv_ok::<K, V>() &&', kvw.replace(', ',' && ',0) .replace('), ',') && ')+' &&')}\n}}\n"
    con=f"""    requires {kvw}, wf(a@), wf(b@), {fp}::<V, {W}, F>(f)
    ensures lk(r@, cmb({g}({fv}::<V, {W}, F>(f)), a@, b@))
"""
    o+=f"""/// stand-in for the recursive call
#[verifier::external_body]
fn {rec}_rec<K: TKey, V: TValue{wg}, F: {fty} + Copy>(a: &RadixTree<K, V>, b: &RadixTree<K, {W}>, f: F) -> (r: RadixTree<K, V>)
{con}{{ unimplemented!() }}
"""
    gg=f"{g}({fv}::<V, {W}, F>(f))"
    tj=f"tjoin({l}, {r}, tcmb({gg}), "
    jl = f"lemma_join1({gg}, nd(av, n).c, nd(bv, n).c)" if kb else f"lemma_join0({gg}, {l}, nd(av, n).c, nd(bv, n).c)"
    pl = f"lemma_outer_pairs({gg}, nd(av, n).c, nd(bv, n).c)" if kb else f"lemma_keyed_pairs({gg}, nd(av, n).c, nd(bv, n).c)"
    fits = f"assert(lfits({gg}, {l}));" + (f" assert(rfits1({gg}, {r}));" if kb else f" assert(rfits0({gg}, {r}));")
    gen = {"outer_combine":"< K : TKey , V : TValue , R : $$x , A : $$y , B : AbstractRadixTree < K , V , Materialized = R > , >",
           }.get(rec)
    if rec=="outer_combine":
        sigs=["//@ sigrw `< K : TKey , V : TValue , R : AbstractRadixTreeMut < K , V , Materialized = R > , A : AbstractRadixTree < K , V , Materialized = R > , B : AbstractRadixTree < K , V , Materialized = R > , >` => `<K: TKey, V: TValue, F: Fn(&V, &V) -> Option<V> + Copy>`",
              "//@ sigrw `a : & A , b : & B` => `a: &RadixTree<K, V>, b: &RadixTree<K, V>`"]
    else:
        sigs=[f"//@ sigrw `< K : TKey , V : TValue , W : TValue , R : AbstractRadixTreeMut < K , V , Materialized = R > >` => `<K: TKey, V: TValue, W: TValue, F: {fty} + Copy>`",
              "//@ sigrw `a : & impl AbstractRadixTree < K , V , Materialized = R > , b : & impl AbstractRadixTree < K , W >` => `a: &RadixTree<K, V>, b: &RadixTree<K, W>`"]
    sigs+=[f"//@ sigrw `f : impl {fty.replace('(', ' ( ').replace(')',' ) ')} + Copy` => `f: F`", "//@ sigrw `R` => `RadixTree<K, V>`"]
    o+=f"//@ fn {F} | - | {rec}\n//@ ret r\n"+"\n".join(sigs)+"\n"+con
    o+="""//@ rw `R :: new` => `RadixTree::<K, V>::new`
//@ rw `Vec :: < R > :: new` => `Vec::<RadixTree<K, V>>::new`
//@ rw `let mut children = Vec :: new ( )` => `let mut children: Vec<RadixTree<K, V>> = Vec::new()`
//@ rw `let mut value = None` => `let mut value: Option<V> = None`
//@ rw `a . prefix ( ) [ .. n ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(a.prefix(), 0, n))`
//@ rw `prefix = a . prefix ( ) . into ( )` => `prefix = vx_frag(a.prefix())`
//@ rw `a . value ( ) . cloned ( )` => `vx_cloned(a.value())`
//@ rw `b . value ( ) . cloned ( )` => `vx_cloned(b.value())`
//@ rw `a . children ( ) . iter ( ) . map ( | $x | $$b ) . collect ( )` => `vx_map_vec(a.children(), |$x: &RadixTree<K, V>| -> (r: RadixTree<K, V>) requires kv_ok::<K, V>(), wfc($x@), $x@.p.len() > 0 ensures r@ == $x@ { $b })`
//@ rw `children . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(&mut children, |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) { $b })`
//@ start
"""
    o+=f"""    let ghost (av, bv) = (a@, b@);
    let ghost n = cpl(av.p, bv.p);
    proof {{
        lemma_kc::<K>(); reveal(fpure2); lemma_view(*a); lemma_view(*b); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        {fits}
        {pl};
        {jl};
        assert forall|s: Seq<RadixTree<K, V>>, t: Seq<RadixTree<K, {W}>>| #[trigger] tj_ops({l}, {r}, tcmb({gg})).fold(Seq::empty(), s, t) == {tj}vs(s), vs(t)) by {{
            lemma_tj_fold({l}, {r}, tcmb({gg}), Seq::empty(), s, t); assert(Seq::<TV<K, V>>::empty() + {tj}vs(s), vs(t)) =~= {tj}vs(s), vs(t))); }}
        assert forall|s: Seq<RadixTree<K, V>>, t: Seq<RadixTree<K, {W}>>| csorted(vs(s)) && csorted(vs(t)) implies #[trigger] tj_ops({l}, {r}, tcmb({gg})).mono(s, t) by {{ lemma_tj_mono({l}, {r}, tcmb({gg}), s, t); }}
        assert forall|s: Seq<RadixTree<K, V>>| #[trigger] s.len() == 1 implies vs(s) == seq![s[0]@] by {{ assert(vs(s) =~= seq![s[0]@]); }}
        assert forall|t: Seq<RadixTree<K, {W}>>| #[trigger] t.len() == 1 implies vs(t) == seq![t[0]@] by {{ assert(vs(t) =~= seq![t[0]@]); }}
        assert forall|s: Seq<RadixTree<K, V>>, i: int| cok(vs(s)) && 0 <= i < s.len() implies tree_ok(#[trigger] s[i]) by {{ lemma_vs(s); assert(wfc(vs(s)[i])); }}
        assert forall|s: Seq<RadixTree<K, {W}>>, i: int| cok(vs(s)) && 0 <= i < s.len() implies tree_ok(#[trigger] s[i]) by {{ lemma_vs(s); assert(wfc(vs(s)[i])); }}
        assert forall|t: TV<K, V>| t.p == av.p.take(n) && t.v == {gg}(nd(av, n).v, nd(bv, n).v) && t.c == {tj}nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), cmb({gg}, av, bv)) by {{ assert(node_is({gg}, av, bv, n, t)); lemma_node({gg}, av, bv, n, t); }}
"""
    if rec=="left_combine":
        o+="""        assert forall|t: TV<K, V>| #[trigger] short(t, 0) == t by { assert(t.p.skip(0) =~= t.p); }
        assert forall|i: int| 0 <= i < a.children@.len() implies tree_ok(#[trigger] a.children@[i]) by { assert(wfc(av.c[i])); }
        assert forall|s: Seq<RadixTree<K, V>>| s.len() == av.c.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == a.children@[i]@) implies #[trigger] vs(s) == av.c by { assert(vs(s) =~= av.c); }
"""
    if rec=="outer_combine":
        o+="""        { let (x, y) = (short(av, n), short(bv, n)); assert(os(Some(x)) + os(Some(y)) =~= seq![x, y]); assert(os(Some(y)) + os(Some(x)) =~= seq![y, x]); }
"""
    o+=f"""        if n < av.p.len() && n < bv.p.len() {{ lemma_apart({l}, {r}, tcmb({gg}), short(av, n), short(bv, n)); {'' if rec!='left_combine' else f'lemma_left_apart({gg}, av, bv, n);'} }}
    }}
"""
    if rec=="outer_combine":
        o+="""//@ before `children . sort_by_key ( $$x )`
            let ghost (sa, sb) = (children@[0], children@[1]);
//@ after `children . sort_by_key ( $$x )`
            proof { lemma_sort2(children@, sa, sb); }
"""
    o+="//@ endfn\n"
open('/verif/contracts/radix_comb.vrs','w').write(o)
