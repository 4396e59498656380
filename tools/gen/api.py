F="src/radix_tree/mod.rs"
o="""//@ include radix_ip.vrs
//@ tag rxa
//@ # ---- the public combination methods ------------------------------------------------------------------------------
proof fn lemma_lk_ext<K: Ord, V>(h: spec_fn(Seq<K>) -> Option<V>, g: spec_fn(Seq<K>) -> Option<V>)
    requires forall|k: Seq<K>| #[trigger] h(k) == g(k)
    ensures forall|t: TV<K, V>| lk(t, h) == #[trigger] lk(t, g)
{
    assert(h =~= g);
}
/// the values of self, and of that where self has none
spec fn s_union<K, V>(a: TV<K, V>, b: TV<K, V>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(a, k).is_some() { tget(a, k) } else { tget(b, k) } }
spec fn s_inter<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(b, k).is_some() { tget(a, k) } else { None } }
spec fn s_diff<K, V, W>(a: TV<K, V>, b: TV<K, W>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if tget(b, k).is_none() { tget(a, k) } else { None } }
spec fn s_insert<K, V>(a: TV<K, V>, key: Seq<K>, v: V) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| if k == key { Some(v) } else { tget(a, k) } }
impl<K: TKey, V: TValue> RadixTree<K, V> {
"""
# delegators
for nm,wg,W,ft,pure,tgt in [("outer_combine","","V","Fn ( & V , & V ) -> Option < V > + Copy","fpo::<V, V, F>(f)","cmb(go(fvo::<V, V, F>(f)), self@, that@)"),
  ("inner_combine","W","W","Fn ( & V , & W ) -> Option < V > + Copy","fpo::<V, W, F>(f)","cmb(gi(fvo::<V, W, F>(f)), self@, that@)"),
  ("left_combine","W","W","Fn ( & V , Option < & W > ) -> Option < V > + Copy","fpl::<V, W, F>(f)","cmb(gl(fvl::<V, W, F>(f)), self@, that@)")]:
    F1=ft.replace(" ","").replace("->"," -> ").replace("+Copy"," + Copy")
    o+=f"//@ fn {F} | trait AbstractRadixTree | {nm}\n//@ ret r\n"
    if wg: o+=f"//@ sigrw `< W : TValue >` => `<W: TValue, F: {F1}>`\n//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &RadixTree<K, W>`\n"
    else: o+=f"//@ sigrw `{nm}` => `{nm}<F: {F1}>`\n//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &RadixTree<K, V>`\n"
    o+=f"""//@ sigrw `f : impl {ft}` => `f: F`
//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), {'kv_ok::<K, W>(), ' if wg else ''}wf(self@), wf(that@), {pure}
    ensures lk(r@, {tgt})
//@ endfn
"""
# by-ref set ops
for nm,wg,sp,op,cl,clens,h,lem in [
  ("union","","s_union","outer_combine","vx_p: &V, vx_q: &V","r == Some(*vx_p)","|v: V, w: V| Some(v)","go"),
  ("intersection","W","s_inter","inner_combine","vx_p: &V, vx_q: &W","r == Some(*vx_p)","|v: V, w: W| Some(v)","gi"),
  ("difference","W","s_diff","left_combine","vx_p: &V, vx_q: Option<&W>","r == (if vx_q.is_none() { Some(*vx_p) } else { None })","|v: V, w: W| None::<V>","gl")]:
    W = "W" if wg else "V"
    o+=f"//@ fn {F} | trait AbstractRadixTreeMut | {nm}\n//@ ret r\n"
    if wg: o+="//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &RadixTree<K, W>`\n"
    else: o+="//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &RadixTree<K, V>`\n"
    fv,qt = ("fvl",f"Option<&{W}>") if op=="left_combine" else ("fvo",f"&{W}")
    q1 = "Some(&w)" if op=="left_combine" else "&w"
    g2 = f"|v: &V, w: {qt}| " + ("if w.is_none() { Some(*v) } else { None::<V> }" if op=="left_combine" else "Some(*v)")
    o+=f"""//@ sigrw `Self :: Materialized` => `RadixTree<K, V>`
    requires kv_ok::<K, V>(), {'kv_ok::<K, W>(), ' if wg else ''}wf(self@), wf(that@)
    ensures lk(r@, {sp}(self@, that@))
//@ rw `self . {op} ( that , | $p , $q | $$e )` => `{{ let vx_f = |{cl}| -> (r: Option<V>) requires clone_ok::<V>() ensures {clens} {{ let $p = vx_p; let $q = vx_q; $e }}; proof {{ {nm}_fn(vx_f, self@, that@); }} self.{op}(that, vx_f) }}`
//@ endfn
"""
    W2 = "V" if W=="V" else "W"
    gg = "<K: TKey, V: TValue, W: TValue" if wg else "<K: TKey, V: TValue"
    pure = f"fpl::<V, {W2}, F>(f)" if fv=="fvl" else f"fpo::<V, {W2}, F>(f)"
    ft = f"Fn(&V, Option<&{W2}>) -> Option<V>" if fv=="fvl" else f"Fn(&V, &{W2}) -> Option<V>"
    lemmas = globals().setdefault("LEM",[])
    lemmas.append(f"""proof fn {nm}_fn{gg}, F: {ft}>(f: F, a: TV<K, V>, b: TV<K, {W2}>)
    requires forall|x: &V, y: {qt}| #[trigger] f.requires((x, y)), forall|x: &V, y: {qt}, r: Option<V>| #[trigger] f.ensures((x, y), r) ==> r == ({g2})(x, y)
    ensures {pure}, cmb({lem}({fv}::<V, {W2}, F>(f)), a, b) == {sp}(a, b)
{{
    lemma_pure2::<&V, {qt}, Option<V>, F>(f, {g2});
    assert forall|v: V, w: {W2}| #[trigger] {fv}::<V, {W2}, F>(f)(v, w) == ({h})(v, w) by {{ assert(fv2::<&V, {qt}, Option<V>, F>(f, &v, {q1}) == ({g2})(&v, {q1})); }}
    let (x, y) = (cmb({lem}({fv}::<V, {W2}, F>(f)), a, b), {sp}(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {{}}
    assert(x =~= y);
}}
""")
# in place
for nm,wg,sp,op,res,g in [("union_with","","s_union","outer_combine_with","true","go"),("intersection_with","W","s_inter","inner_combine_with","true","gi"),("difference_with","W","s_diff","left_combine_with","false","gl")]:
    W = "W" if wg else "V"
    o+=f"//@ fn {F} | trait AbstractRadixTreeMut | {nm}\n"
    if wg: o+="//@ sigrw `that : & impl AbstractRadixTree < K , W >` => `that: &RadixTree<K, W>`\n"
    else: o+="//@ sigrw `that : & impl AbstractRadixTree < K , V , Materialized = Self :: Materialized >` => `that: &RadixTree<K, V>`\n"
    ens = f"*final(vx_p) == *old(vx_p) && r == {res}"
    o+=f"""    requires kv_ok::<K, V>(), {'kv_ok::<K, W>(), ' if wg else ''}wf(old(self)@), wf(that@)
    ensures lk(final(self)@, {sp}(old(self)@, that@))
//@ rw `self . {op} ( that , | $p , $q | $$e )` => `{{ let vx_f = |vx_p: &mut V, vx_q: &{W}| -> (r: bool) requires clone_ok::<V>() ensures {ens} {{ let $p = vx_p; let $q = vx_q; $e }}; proof {{ {nm}_fn(vx_f, self@, that@); }} self.{op}(that, vx_f) }}`
//@ endfn
"""
    gg = "<K: TKey, V: TValue, W: TValue" if wg else "<K: TKey, V: TValue"
    W2=W
    g2 = f"|v: V, w: {W2}| (v, {res})"
    req=f"forall|x: &mut V, y: {W2}, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == ({g2})(*x, y)"
    LEM.append(f"""proof fn {nm}_fn{gg}, F: Fn(&mut V, &{W2}) -> bool>(f: F, a: TV<K, V>, b: TV<K, {W2}>)
    requires forall|x: &mut V, y: {W2}| #[trigger] f.requires((x, &y)), {req}
    ensures fmpure::<V, {W2}, F>(f), cmb({g}(fmo::<V, {W2}, F>(f)), a, b) == {sp}(a, b)
{{
    XXX
    let (x, y) = (cmb({g}(fmo::<V, {W2}, F>(f)), a, b), {sp}(a, b));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by {{}}
    assert(x =~= y);
}}
""".replace("XXX", f"axiom_fmv::<V, {W2}, F>(f, {g2});"))
o+=f"""//@ fn {F} | trait AbstractRadixTreeMut | insert
    requires kv_ok::<K, V>(), wf(old(self)@)
    ensures lk(final(self)@, s_insert(old(self)@, key@, value))
//@ rw `self . outer_combine_with ( $$s , | $p , $q | $$e )` => `{{ let vx_s: &RadixTree<K, V> = $s; let vx_f = |vx_p: &mut V, vx_q: &V| -> (r: bool) requires clone_ok::<V>() ensures *final(vx_p) == *vx_q && r {{ let $p = vx_p; let $q = vx_q; $e }}; proof {{ insert_fn(vx_f, self@, vx_s@, key@, value); }} self.outer_combine_with(vx_s, vx_f) }}`
//@ endfn
"""
LEM.append("""proof fn insert_fn<K: TKey, V: TValue, F: Fn(&mut V, &V) -> bool>(f: F, a: TV<K, V>, b: TV<K, V>, key: Seq<K>, value: V)
    requires lk(b, |k: Seq<K>| if k == key { Some(value) } else { None }), forall|x: &mut V, y: V| #[trigger] f.requires((x, &y)), forall|x: &mut V, y: V, r: bool| #[trigger] f.ensures((x, &y), r) ==> (*final(x), r) == (|v: V, w: V| (w, true))(*x, y)
    ensures fmpure::<V, V, F>(f), cmb(go(fmo::<V, V, F>(f)), a, b) == s_insert(a, key, value)
{
    axiom_fmv::<V, V, F>(f, |v: V, w: V| (w, true));
    let (x, y) = (cmb(go(fmo::<V, V, F>(f)), a, b), s_insert(a, key, value));
    assert forall|k: Seq<K>| #[trigger] x(k) == y(k) by { let h = |k: Seq<K>| if k == key { Some(value) } else { None::<V> }; assert(tget(b, k) == h(k)); }
    assert(x =~= y);
}
""")
o+="}\n"
i=o.index("impl<K: TKey, V: TValue> RadixTree")
o=o[:i]+"".join(LEM)+o[i:]
open('/verif/contracts/radix_api.vrs','w').write(o)
