F="src/radix_tree/mod.rs"
o="""//@ include radix_comb.vrs
//@ tag rxm
//@ # ---- in-place combination ----------------------------------------------------------------------------------------
/// what a callback that may change its first argument does: the new value, and the result
uninterp spec fn fmv<V, W, F: Fn(&mut V, &W) -> bool>(f: F, v: V, w: W) -> (V, bool);
/// the callback is total and deterministic
#[verifier::opaque]
#[verifier::prophetic]
spec fn fmpure<V, W, F: Fn(&mut V, &W) -> bool>(f: F) -> bool {
    &&& forall|m: &mut V, w: W| #[trigger] f.requires((m, &w))
    &&& forall|m: &mut V, w: W, r: bool| #[trigger] f.ensures((m, &w), r) ==> (*final(m), r) == fmv(f, *m, w)
}
/// trusted: fmv is the function a closure's contract determines
#[verifier::external_body]
proof fn axiom_fmv<V, W, F: Fn(&mut V, &W) -> bool>(f: F, g: spec_fn(V, W) -> (V, bool))
    requires forall|m: &mut V, w: W| #[trigger] f.requires((m, &w)),
      forall|m: &mut V, w: W, r: bool| #[trigger] f.ensures((m, &w), r) ==> (*final(m), r) == g(*m, w)
    ensures fmpure::<V, W, F>(f), forall|v: V, w: W| #[trigger] fmv(f, v, w) == g(v, w)
{}
spec fn fmo<V, W, F: Fn(&mut V, &W) -> bool>(f: F) -> spec_fn(V, W) -> Option<V> { |v: V, w: W| if fmv(f, v, w).1 { Some(fmv(f, v, w).0) } else { None } }
/// what merging two lists of children needs, for every list that stands for the children
proof fn lemma_tj_all<K: TKey, V: TValue, W>(l: spec_fn(TV<K, V>) -> Option<TV<K, V>>, r: spec_fn(TV<K, W>) -> Option<TV<K, V>>, c: spec_fn(TV<K, V>, TV<K, W>) -> Option<TV<K, V>>, cv: Seq<TV<K, V>>, t: Seq<RadixTree<K, W>>)
    requires key_laws::<K>(), cok(cv), cok(vs(t))
    ensures forall|s: Seq<RadixTree<K, V>>| #[trigger] vs(s) == cv ==> tj_ops(l, r, c).mono(s, t) && tj_ops(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, cv, vs(t)),
      forall|s: Seq<RadixTree<K, V>>, i: int| #![trigger vs(s), s[i]] vs(s) == cv && 0 <= i < s.len() ==> tree_ok(s[i]),
      forall|i: int| 0 <= i < t.len() ==> tree_ok(#[trigger] t[i])
{
    lemma_vs(t);
    assert forall|s: Seq<RadixTree<K, V>>| #[trigger] vs(s) == cv implies tj_ops(l, r, c).mono(s, t) && tj_ops(l, r, c).fold(Seq::empty(), s, t) == tjoin(l, r, c, cv, vs(t)) by {
        lemma_tj_mono(l, r, c, s, t); lemma_tj_fold(l, r, c, Seq::empty(), s, t);
        assert(Seq::<TV<K, V>>::empty() + tjoin(l, r, c, vs(s), vs(t)) =~= tjoin(l, r, c, vs(s), vs(t)));
    }
    assert forall|s: Seq<RadixTree<K, V>>, i: int| #![trigger vs(s), s[i]] vs(s) == cv && 0 <= i < s.len() implies tree_ok(s[i]) by { lemma_vs(s); assert(wfc(vs(s)[i])); }
    assert forall|i: int| 0 <= i < t.len() implies tree_ok(#[trigger] t[i]) by { assert(wfc(vs(t)[i])); }
}
type MIR<'a, K, V, W, C> = InPlaceVecMergeStateRef<'a, RadixTree<K, V>, RadixTree<K, W>, C>;
"""
def common(gg,l,r,cc,W,jl,pl,fits,ent,exo,post,extra=""):
    c=cc
    tj=f"tjoin({l}, {r}, {c}, "
    return f"""    let ghost (av, bv) = (self@, that@);
    let ghost n = cpl(av.p, bv.p);
    proof {{
        lemma_kc::<K>(); {exo} lemma_view(*self); lemma_view(*that); lemma_cpl(av.p, bv.p);
        lemma_nd(av, n); lemma_nd(bv, n); lemma_wf_nil(av); lemma_wf_nil(bv);
        {fits}
        {pl}
        {jl}
        assert forall|t: Seq<RadixTree<K, {W}>>| #[trigger] t.len() == 1 implies vs(t) == seq![t[0]@] by {{ assert(vs(t) =~= seq![t[0]@]); }}
        assert(vs(Seq::<RadixTree<K, V>>::empty()) =~= Seq::empty());
        {post}
{extra}    }}
"""
ops=[("OuterCombineOp","V","RadixTreeConverter<K, V>","(K, V)",True,True,"go","outer"),
     ("InnerCombineOp","W","NoConverter","(K, V, W)",False,False,"gi","inner"),
     ("LeftCombineOp","W","NoConverter","(K, V, W)",True,False,"gl","left"),
     ("RemovePrefixOp","W","NoConverter","(K, V, W)",True,False,None,"remove_prefix"),
     ("RetainPrefixOp","W","NoConverter","(K, V, W)",False,False,None,"retain_prefix")]
for nm,W,C,P,ka,kb,g,rec in ops:
    pf = g is None
    kp = "true" if rec=="retain_prefix" else "false"
    wg = "" if W=="V" else ", W: TValue"
    Fty = "Fn(&W) -> bool" if pf else f"Fn(&mut V, &{W}) -> bool"
    l = f"lpfx::<K, V>({kp})" if pf else ("tsome::<K, V>()" if ka else "tnone::<K, V, V>()")
    lx = "tsome::<K, V>()" if ka else "tnone::<K, V, V>()"
    r = "tsome::<K, V>()" if kb else f"tnone::<K, {W}, V>()"
    def cfun(f): return f"tpfx::<K, V, W>({kp}, fq::<W, F>({f}))" if pf else f"tcmb({g}(fmo::<V, {W}, F>({f})))"
    def target(f,a,b): return f"pfx({kp}, fq::<W, F>({f}), {a}, {b})" if pf else f"cmb({g}(fmo::<V, {W}, F>({f})), {a}, {b})"
    def pure(f): return f"fpure1::<&W, bool, F>({f})" if pf else f"fmpure::<V, {W}, F>({f})"
    kv = "kv_ok::<K, V>()" if W=="V" else "kv_ok::<K, V>(), kv_ok::<K, W>()"
    kva = kv.replace(", kv"," && kv")
    ms=f"MIR<'a, K, V, {W}, {C}>"
    o+=f"//@ tag rxm.{rec}\n"
    if pf and rec=="remove_prefix":
        o+="spec fn fq<W, F: Fn(&W) -> bool>(f: F) -> spec_fn(W) -> bool { |w: W| fv1::<&W, bool, F>(f, &w) }\n"
    if pf: o+=f"//@ struct {F} {nm}\n"
    if nm=="OuterCombineOp":
        sel="MergeOperation<InPlaceVecMergeStateRef<'a, A, B, C>> for OuterCombineOp"
        sigc="//@ sigrw `a : & A , b : & B` => `a: &RadixTree<K, V>, b: &RadixTree<K, V>`"
        sigm=f"//@ sigrw `m : & mut InPlaceVecMergeStateRef < 'a , A , B , C >` => `m: &mut {ms}`"
    else:
        sel=f"MergeOperation<I> for {nm}"
        sigc=f"//@ sigrw `a : & I :: A , b : & I :: B` => `a: &RadixTree<K, V>, b: &RadixTree<K, W>`"
        sigm=f"//@ sigrw `m : & mut I` => `m: &mut {ms}`"
    pr="    #[verifier::prophetic]\n"
    o+=f"impl<'a, K: TKey, V: TValue{wg}, F: {Fty} + Copy> MergeOperation<{ms}> for {nm}<F, {P}> {{\n"
    o+=f"""    spec fn ops(&self) -> Ops<Seq<TV<K, V>>, RadixTree<K, V>, RadixTree<K, {W}>> {{ tj_ops({l}, {r}, {cfun('self.0')}) }}
    #[verifier::prophetic]
    spec fn okk(&self) -> bool {{ {kva} && {pure('self.0')} }}
    spec fn oka(&self, a: RadixTree<K, V>) -> bool {{ tree_ok(a) }}
    spec fn okb(&self, b: RadixTree<K, {W}>) -> bool {{ tree_ok(b) }}
//@ fn {F} | {sel} | cmp
{sigc}
//@ start
    proof {{ lemma_kc::<K>(); lemma_kobeys::<K>(); }}
//@ endfn
"""
    for side,keep in (('a',ka),('b',kb)):
        T = "RadixTree<K, V>" if side=='a' else f"RadixTree<K, {W}>"
        args = f"{r}, {cfun('self.0')}" if side=='a' else f"{l}, {cfun('self.0')}"
        o+=f"//@ fn {F} | {sel} | from_{side}\n{sigm}\n//@ start\n    let ghost x0 = m.{side}()[0];\n"
        o+=f"    proof {{ assert({l} == {lx}); lemma_f{side}_{'some' if keep else 'none'}({args}, m.out(), m.{side}().take(n as int));\n"
        if keep:
            o+=f"      lemma_fold_push(|o: Seq<TV<K, V>>, x: {T}| <{ms} as MergeStateMut>::t{side}(o, x), |x: {T}| x@, m.out(), m.{side}().take(n as int));\n"
            o+=f"      assert forall|i: int| 0 <= i < n implies <{ms} as MergeStateMut>::el{side}(#[trigger] m.{side}()[i]) by {{ assert(tree_ok(m.{side}()[i])); }}\n"
        o+=f"    }}\n//@ end\n    proof {{ let o1 = m.out(); assert(<{ms} as MergeStateMut>::t{side}(o1, x0).len() == o1.len() + 1); }}\n//@ endfn\n"
    o+=f"""//@ fn {F} | {sel} | collision
{sigm}
//@ rw `av . {rec}_{'combine_' if not pf else ''}with ( bv , self . 0 )` => `{rec}_with_rec(av, bv, self.0)`
//@ start
    let ghost (o0, x, y) = (m.out(), m.a()[0], m.b()[0]);
    let ghost a0 = m.a();
    proof {{ let h = {target('self.0','x@','y@')};
      assert forall|t: TV<K, V>| #[trigger] lk(t, h) implies the(h) == t by {{ lemma_the(t, h); }}
      reveal_with_fuel(fold_seq, 3);
      assert forall|s: Seq<RadixTree<K, V>>| s.len() == a0.len() && s.skip(1) == a0.skip(1) implies s.take(1).skip(1) =~= Seq::empty() && #[trigger] s.take(1)[0] == s[0] by {{}}
      assert forall|s: Seq<RadixTree<K, V>>, z: RadixTree<K, V>| s.len() > 0 implies #[trigger] s.update(0, z).skip(1) =~= s.skip(1) by {{}}
      assert forall|s: Seq<RadixTree<K, V>>| s.len() > 0 implies (#[trigger] s.take(1)).skip(1).len() == 0 by {{}}
      assert(o0 + Seq::<TV<K, V>>::empty() =~= o0); assert forall|t: TV<K, V>| o0 + #[trigger] seq![t] =~= o0.push(t) by {{}} }}
//@ end
    proof {{ let o1 = m.out(); assert(<{ms} as MergeStateMut>::ta(o1, x).len() == o1.len() + 1); }}
//@ endfn
}}
/// stand-in for the recursive call
#[verifier::external_body]
fn {rec}_with_rec<K: TKey, V: TValue{wg}, F: {Fty} + Copy>(a: &mut RadixTree<K, V>, b: &RadixTree<K, {W}>, f: F)
    requires {kv}, wf(old(a)@), wf(b@), {pure('f')}
    ensures lk(final(a)@, {target('f','old(a)@','b@')})
{{ unimplemented!() }}
"""
    # children fn
    gens = {"outer":"< R , F >","inner":"< W , R , F >","left":"< W , R , F >","remove_prefix":"< W , R , F >","retain_prefix":"< W , R >"}[rec]
    cname = f"{rec}_{'combine_' if not pf else ''}children_with"
    o+=f"impl<K: TKey, V: TValue> RadixTree<K, V> {{\n//@ fn {F} | trait AbstractRadixTreeMut | {cname}\n"
    newg = "<F>" if W=="V" else "<W, F>"
    if rec=="retain_prefix":
        o+="//@ sigrw `< W , R >` => `<W, F>`\n//@ sigrw `f : impl Fn ( & W ) -> bool + Copy` => `f: F`\n//@ sigrw `R : AbstractRadixTree < K , W > ,` => `F: Fn(&W) -> bool + Copy,`\n"
    else:
        o+=f"//@ sigrw `{gens}` => `{newg}`\n"
        if rec=="outer":
            o+="//@ sigrw `R : AbstractRadixTree < K , V , Materialized = Self :: Materialized > ,` => ``\n"
        else:
            o+="//@ sigrw `R : AbstractRadixTree < K , W > ,` => ``\n"
    o+=f"""//@ sigrw `rhs : & [ R ]` => `rhs: &[RadixTree<K, {W}>]`
    requires {kv}, cok(old(self)@.c), cok(vs(rhs@)), {pure('f')}
    ensures final(self)@ == (TV {{ c: tjoin({l}, {r}, {cfun('f')}, old(self)@.c, vs(rhs@)), ..old(self)@ }})
//@ start
    proof {{
        lemma_kc::<K>(); lemma_view(*self); lemma_tj_all({l}, {r}, {cfun('f')}, self@.c, rhs@);
    }}
//@ endfn
"""
    # main
    gg = None if pf else f"{g}(fmo::<V, {W}, F>(f))"
    if pf:
        jl=f"lemma_pjoin({kp}, fq::<W, F>(f), nd(av, n).c, nd(bv, n).c);"; pl=""; fits=""
        nodep=f"pnode_is({kp}, fq::<W, F>(f), av, bv, n, t)"; lem=f"lemma_pnode({kp}, fq::<W, F>(f), av, bv, n, t)"
        vcond=f"!(nd(bv, n).v.is_some() && fq::<W, F>(f)(nd(bv, n).v.unwrap())) && t.v == " + ("None::<V>" if kp=="true" else "nd(av, n).v")
        exo="reveal(fpure1);"
    else:
        jl = f"lemma_join1({gg}, nd(av, n).c, nd(bv, n).c);" if kb else f"lemma_join0({gg}, {l}, nd(av, n).c, nd(bv, n).c);"
        pl = f"lemma_outer_pairs({gg}, nd(av, n).c, nd(bv, n).c);" if kb else f"lemma_keyed_pairs({gg}, nd(av, n).c, nd(bv, n).c);"
        fits = f"assert(lfits({gg}, {l}));" + (f" assert(rfits1({gg}, {r}));" if kb else f" assert(rfits0({gg}, {r}));")
        nodep=f"node_is({gg}, av, bv, n, t)"; lem=f"lemma_node({gg}, av, bv, n, t)"
        vcond=f"t.v == {gg}(nd(av, n).v, nd(bv, n).v)"
        exo="reveal(fmpure);"
    post=f"assert forall|t: TV<K, V>| t.p == av.p.take(n) && {vcond} && t.c == tjoin({l}, {r}, {cfun('f')}, nd(av, n).c, nd(bv, n).c) implies lk(#[trigger] unsp(t), {target('f','av','bv')}) by {{ assert({nodep}); {lem}; }}\n"
    extra=""
    if rec=="outer":
        extra=f"        if n < av.p.len() && n < bv.p.len() {{ lemma_apart({l}, {r}, {cfun('f')}, short(av, n), short(bv, n)); let (x, y) = (short(av, n), short(bv, n)); assert(os(Some(x)) + os(Some(y)) =~= seq![x, y]); assert(os(Some(y)) + os(Some(x)) =~= seq![y, x]); }}\n"
    elif rec=="inner":
        extra=f"        if n < av.p.len() && n < bv.p.len() {{ assert(unsp(TV {{ p: av.p, v: None, c: Seq::empty() }}) == tnil::<K, V>()); assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k) == {target('f','av','bv')}(k) by {{ lemma_nil_get(tnil::<K, V>(), k); lemma_disjoint_keys(av, bv, n, k); }} }}\n"
    elif rec=="left":
        extra=f"        if n < av.p.len() && n < bv.p.len() {{ lemma_left_apart({gg}, av, bv, n); }}\n"
    else:
        extra=f"""        if n < av.p.len() && n < bv.p.len() {{ lemma_pfx_apart({kp}, fq::<W, F>(f), av, bv, n); }}
        if n == bv.p.len() && bv.v.is_some() && fq::<W, F>(f)(bv.v.unwrap()) {{ lemma_pfx_all({kp}, fq::<W, F>(f), av, bv); }}
"""
    mname=f"{rec}_{'combine_' if not pf else ''}with"
    if W=="V":
        sigs=[f"//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &RadixTree<K, V>`", "//@ sigrw `f : impl Fn ( & mut V , & V ) -> bool + Copy` => `f: F`"]
        gsig=f"//@ generics"
    else:
        sigs=["//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &RadixTree<K, W>`", f"//@ sigrw `f : impl {'Fn ( & W )' if pf else 'Fn ( & mut V , & W )'} -> bool + Copy` => `f: F`", f"//@ sigrw `< W : TValue >` => `<W: TValue, F: {Fty} + Copy>`"]
    if W=="V":
        sigs.append("//@ sigrw `outer_combine_with` => `outer_combine_with<F: Fn(&mut V, &V) -> bool + Copy>`")
    o+=f"//@ fn {F} | trait AbstractRadixTreeMut | {mname}\n"+"\n".join(sigs)+f"""
    requires {kv}, wf(old(self)@), wf(that@), {pure('f')}
    ensures lk(final(self)@, {target('f','old(self)@','that@')})
//@ rw `& mut self . value_mut ( )` => `self.value_mut()`
//@ rw `self . children_mut ( ) . sort_by_key ( | $x | $$b )` => `vx_sort_by_key(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: K) requires $x@.p.len() > 0 ensures r == hd($x@) {{ $b }})`
//@ start
"""+common(gg,l,r,cfun('f'),W,jl,pl,fits,None,exo,post,extra)
    if rec=="outer":
        o+="""//@ before `self . children_mut ( ) . sort_by_key ( $$x )`
            proof {
                lemma_view(*self); let (sa, sb) = (self@.c[0], self@.c[1]);
                assert forall|q: Seq<RadixTree<K, V>>, s: Seq<RadixTree<K, V>>| #![trigger vs(q), vs(s)] vs(q) == self@.c && s.len() == 2 && s.contains(q[0]) && s.contains(q[1]) && oc(hd(s[0]@), hd(s[1]@)) != Ordering::Greater implies vs(s) == (if oc(hd(sa), hd(sb)) == Ordering::Less { seq![sa, sb] } else { seq![sb, sa] }) by { assert(vs(q)[0] == q[0]@ && vs(q)[1] == q[1]@); lemma_sort2(s, q[0], q[1]); }
                assert forall|q: Seq<RadixTree<K, V>>| #[trigger] vs(q) == self@.c implies q.len() == 2 && q[0]@ == sa && q[1]@ == sb by { assert(vs(q).len() == q.len()); assert(vs(q)[0] == q[0]@ && vs(q)[1] == q[1]@); }
            }
"""
    o+="//@ endfn\n}\n"
    if rec=="left":
        o+="""//@ tag rxm
proof fn lemma_pfx_apart<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>, n: int)
    requires wf(a), 0 <= n < a.p.len(), n < b.p.len(), a.p[n] != b.p[n]
    ensures unsp(a) == a, !kp ==> lk(a, pfx(kp, q, a, b)), kp ==> lk(tnil::<K, V>(), pfx(kp, q, a, b)), unsp(TV { p: a.p, v: None, c: Seq::empty() }) == tnil::<K, V>()
{
    lemma_unsp_id(a);
    assert forall|k: Seq<K>| tget(a, k).is_some() implies !thit(b, q, k) by {
        lemma_get_pre(a, k); lemma_hit_pre(b, q, k);
        if pre(b.p, k) { assert(k.take(a.p.len() as int)[n] == k[n]); assert(k.take(b.p.len() as int)[n] == k[n]); }
    }
    assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k).is_none() by { lemma_nil_get(tnil::<K, V>(), k); }
}
proof fn lemma_pfx_all<K: Ord + Clone, V, W>(kp: bool, q: spec_fn(W) -> bool, a: TV<K, V>, b: TV<K, W>)
    requires wf(a), b.p.len() <= a.p.len(), a.p.take(b.p.len() as int) == b.p, b.v.is_some() && q(b.v.unwrap())
    ensures unsp(a) == a, kp ==> lk(a, pfx(kp, q, a, b)), !kp ==> lk(tnil::<K, V>(), pfx(kp, q, a, b)), unsp(TV { p: a.p, v: None, c: Seq::empty() }) == tnil::<K, V>()
{
    lemma_unsp_id(a); lemma_pall(kp, q, a, b);
    assert forall|k: Seq<K>| #[trigger] tget(tnil::<K, V>(), k).is_none() by { lemma_nil_get(tnil::<K, V>(), k); }
}
"""
open('/verif/contracts/radix_ip.vrs','w').write(o)
