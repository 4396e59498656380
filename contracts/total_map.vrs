//@ include vec_map.vrs
//@ include conv.vrs
//@ tag tmap
//@ # ---- src/total_vec_map.rs ------------------------------------------------------------------------------
/// `==` of the value type, as it documents itself (`ne` is its negation)
spec fn ve<V: PartialEq>(a: V, b: V) -> bool { a.eq_spec(&b) }
#[verifier::reject_recursive_types(A)]
//@ struct src/total_vec_map.rs TotalVecMap
impl<K, V, A: Array<Item = (K, V)>> View for TotalVecMap<V, A> { type V = (Seq<(K, V)>, V); closed spec fn view(&self) -> (Seq<(K, V)>, V) { (self.0@, self.1) } }
/// the value of a total map at a key
spec fn tval<K: Ord, V>(s: (Seq<(K, V)>, V), k: K) -> V { match kent(s.0, k) { Some(e) => e.1, None => s.1 } }
/// ascending keys, no entry equal to the default
spec fn canon<K: Ord, V: PartialEq>(s: (Seq<(K, V)>, V)) -> bool { ksorted(s.0) && nodef(s) }
spec fn nodef<K, V: PartialEq>(s: (Seq<(K, V)>, V)) -> bool { forall|i: int| 0 <= i < s.0.len() ==> !ve((#[trigger] s.0[i]).1, s.1) }
/// x, or the default where x equals it
spec fn ordef<V: PartialEq>(x: V, d: V) -> V { if ve(x, d) { d } else { x } }
spec fn tkeep<K, V: PartialEq>(d: &V, x: (K, V)) -> bool { !ve(x.1, *d) }
spec fn tkeepf<K, V: PartialEq>(d: V) -> spec_fn((K, V)) -> bool { |x: (K, V)| tkeep(&d, x) }
/// the callback combine_ref hands to the outer join
spec fn tcomb<K, V: PartialEq, F: Fn(&V, &V) -> V>(f: &F, da: &V, db: &V, rd: &V, arg: OuterJoinArg<&K, &V, &V>) -> Option<V> {
    let x = match arg { OuterJoinArg::Left(_, v) => fv2(*f, v, db), OuterJoinArg::Right(_, w) => fv2(*f, da, w), OuterJoinArg::Both(_, v, w) => fv2(*f, v, w) };
    if ve(x, *rd) { None } else { Some(x) }
}
/// r is the pointwise combination of a and b with g
spec fn tcombined<K: Ord, V: PartialEq>(g: spec_fn(V, V) -> V, a: (Seq<(K, V)>, V), b: (Seq<(K, V)>, V), r: (Seq<(K, V)>, V)) -> bool {
    canon(r) && r.1 == g(a.1, b.1) && forall|k: K| #[trigger] tval(r, k) == (if kent(a.0, k).is_none() && kent(b.0, k).is_none() { r.1 } else { ordef(g(tval(a, k), tval(b, k)), r.1) })
}
spec fn gf<V, F: Fn(&V, &V) -> V>(f: F) -> spec_fn(V, V) -> V { |x: V, y: V| fv2(f, &x, &y) }
proof fn lemma_kent_self<K: Ord, V>(s: Seq<(K, V)>, i: int)
    requires ord_laws::<K>(), ksorted(s), 0 <= i < s.len()
    ensures kent(s, s[i].0) == Some(s[i])
{ lemma_laws(s[i].0, s[i].0, s[i].0); lemma_kent_at(s, i, s[i].0); }
proof fn lemma_tcombined<K: Ord, V: PartialEq, F: Fn(&V, &V) -> V>(f: &F, l: spec_fn((K, V)) -> Option<V>, r: spec_fn((K, V)) -> Option<V>, c: spec_fn((K, V), (K, V)) -> Option<V>, a: (Seq<(K, V)>, V), b: (Seq<(K, V)>, V), res: (Seq<(K, V)>, V))
    requires ord_laws::<K>(), ksorted(a.0), ksorted(b.0), join_ok(l, r, c, a.0, b.0, res.0), res.1 == fv2(*f, &a.1, &b.1),
      forall|x: (K, V)| #[trigger] l(x) == tcomb(f, &a.1, &b.1, &res.1, OuterJoinArg::Left(&x.0, &x.1)),
      forall|x: (K, V)| #[trigger] r(x) == tcomb(f, &a.1, &b.1, &res.1, OuterJoinArg::Right(&x.0, &x.1)),
      forall|x: (K, V), y: (K, V)| #[trigger] c(x, y) == tcomb(f, &a.1, &b.1, &res.1, OuterJoinArg::Both(&x.0, &x.1, &y.1)),
    ensures tcombined(gf::<V, F>(*f), a, b, res)
{
    let g = gf::<V, F>(*f);
    assert forall|i: int| 0 <= i < res.0.len() implies !ve((#[trigger] res.0[i]).1, res.1) by {
        let k = res.0[i].0;
        lemma_kent_self(res.0, i);
        assert(kent(res.0, k) == jent(l, r, c, kent(a.0, k), kent(b.0, k)));
    }
    assert forall|k: K| #[trigger] tval(res, k) == (if kent(a.0, k).is_none() && kent(b.0, k).is_none() { res.1 } else { ordef(g(tval(a, k), tval(b, k)), res.1) }) by {
        assert(kent(res.0, k) == jent(l, r, c, kent(a.0, k), kent(b.0, k)));
    }
}
/// dropping the entries a predicate rejects
proof fn lemma_filter_map<K: Ord, V>(s: Seq<(K, V)>, p: spec_fn((K, V)) -> bool)
    requires ord_laws::<K>(), ksorted(s)
    ensures ksorted(s.filter(p)), forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]),
      forall|k: K| #[trigger] kent(s.filter(p), k) == match kent(s, k) { Some(e) => if p(e) { Some(e) } else { None }, None => None }
{
    lemma_filter_idx(s, p);
    let r = s.filter(p);
    assert forall|k: K| #[trigger] kent(r, k) == match kent(s, k) { Some(e) => if p(e) { Some(e) } else { None }, None => None } by {
        lemma_kent(s, k); lemma_kent(r, k);
        if kent(s, k).is_some() {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == kent(s, k).unwrap() && oc(kent(s, k).unwrap().0, k) == Ordering::Equal;
            if p(s[j]) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == s[j]; lemma_kent_at(r, i, k); }
            else if kent(r, k).is_some() {
                let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == kent(r, k).unwrap() && oc(kent(r, k).unwrap().0, k) == Ordering::Equal;
                let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == r[i];
                lemma_kent_at(s, m, k);
            }
        } else if kent(r, k).is_some() {
            let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == kent(r, k).unwrap() && oc(kent(r, k).unwrap().0, k) == Ordering::Equal;
            let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == r[i];
            lemma_kent_at(s, m, k);
        }
    }
}
proof fn lemma_filter_in<K, V>(s: Seq<(K, V)>, p: spec_fn((K, V)) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]),
      forall|e: (K, V)| #[trigger] s.filter(p).contains(e) <==> s.contains(e) && p(e)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_in(t, p);
        let x = s.last();
        assert(s =~= t.push(x));
        assert forall|e: (K, V)| s.contains(e) <==> (t.contains(e) || e == x) by { lemma_push_contains(t, x, e); }
        if p(x) { assert forall|e: (K, V)| #[trigger] s.filter(p).contains(e) <==> (t.filter(p).contains(e) || e == x) by { lemma_push_contains(t.filter(p), x, e); } }
    }
}
proof fn lemma_push_contains<E>(t: Seq<E>, x: E, e: E)
    ensures t.push(x).contains(e) <==> (t.contains(e) || e == x)
{
    let s = t.push(x);
    if t.contains(e) { let i = t.index_of(e); assert(s[i] == e); }
    if e == x { assert(s[t.len() as int] == e); }
    if s.contains(e) { let i = s.index_of(e); if i < t.len() { assert(t[i] == e); } }
}
proof fn lemma_filter_sorted<K: Ord, V>(s: Seq<(K, V)>, p: spec_fn((K, V)) -> bool)
    requires ksorted(s)
    ensures ksorted(s.filter(p))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        let tf = t.filter(p);
        let r = s.filter(p);
        assert(ksorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] oc(t[i].0, t[j].0) == Ordering::Less by { assert(oc(s[i].0, s[j].0) == Ordering::Less); } }
        lemma_filter_sorted(t, p);
        lemma_filter_in(t, p);
        if p(s.last()) {
            assert(r == tf.push(s.last()));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] oc(r[i].0, r[j].0) == Ordering::Less by {
                if j < tf.len() { assert(oc(tf[i].0, tf[j].0) == Ordering::Less); }
                else { assert(tf.contains(tf[i])); assert(t.contains(tf[i])); let m = t.index_of(tf[i]); assert(oc(s[m].0, s[s.len() - 1].0) == Ordering::Less); }
            }
        }
    }
}
proof fn lemma_filter_idx<K: Ord, V>(s: Seq<(K, V)>, p: spec_fn((K, V)) -> bool)
    requires ksorted(s)
    ensures ksorted(s.filter(p)), forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && exists|m: int| 0 <= m < s.len() && #[trigger] s[m] == s.filter(p)[i],
      forall|m: int| 0 <= m < s.len() && p(#[trigger] s[m]) ==> exists|i: int| 0 <= i < s.filter(p).len() && #[trigger] s.filter(p)[i] == s[m]
{
    lemma_filter_sorted(s, p);
    lemma_filter_in(s, p);
    let r = s.filter(p);
    assert forall|i: int| 0 <= i < r.len() implies p(#[trigger] r[i]) && exists|m: int| 0 <= m < s.len() && #[trigger] s[m] == r[i] by {
        assert(r.contains(r[i])); let m = s.index_of(r[i]); assert(s[m] == r[i]);
    }
    assert forall|m: int| 0 <= m < s.len() && p(#[trigger] s[m]) implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == s[m] by {
        assert(s.contains(s[m])); assert(s.filter(p).contains(s[m])); let i = r.index_of(s[m]); assert(r[i] == s[m]);
    }
}

//@ head src/total_vec_map.rs TotalVecMap # new
//@ fn src/total_vec_map.rs | TotalVecMap | new
//@ ret r
    requires V::obeys_eq_spec()
    ensures r@ == (map@.filter(tkeepf::<K, V>(default)), default)
//@ start
    let ghost d = default;
//@ rw `entries . retain ( | $p | $$e ) ;` => `let vx_c = |vx_p: &(K, V)| -> (vx_b: bool) ensures vx_b == tkeep(&default, *vx_p) { let $p = vx_p; $e }; proof { lemma_pure1(vx_c, |x: &(K, V)| tkeep(&d, *x)); assert forall|x: (K, V)| keepf(&vx_c, x) == tkeep(&d, x) by { }  assert((|x: (K, V)| keepf(&vx_c, x)) =~= tkeepf::<K, V>(d)); } entries.retain(vx_c);`
//@ endfn
}
/// what `new` promises about a map with ascending keys
proof fn lemma_new<K: Ord, V: PartialEq>(s: Seq<(K, V)>, d: V)
    requires ord_laws::<K>(), ksorted(s)
    ensures canon((s.filter(tkeepf::<K, V>(d)), d)), forall|k: K| #[trigger] tval((s.filter(tkeepf::<K, V>(d)), d), k) == match kent(s, k) { Some(e) => ordef(e.1, d), None => d }
{
    let p = tkeepf::<K, V>(d);
    lemma_filter_map(s, p);
    assert forall|k: K| #[trigger] tval((s.filter(p), d), k) == match kent(s, k) { Some(e) => ordef(e.1, d), None => d } by { assert(kent(s.filter(p), k) == match kent(s, k) { Some(e) => if p(e) { Some(e) } else { None }, None => None }); }
    assert forall|i: int| 0 <= i < s.filter(p).len() implies !ve((#[trigger] s.filter(p)[i]).1, d) by { assert(p(s.filter(p)[i])); }
}
//@ head src/total_vec_map.rs TotalVecMap # constant
//@ fn src/total_vec_map.rs | TotalVecMap | constant
//@ ret r
    ensures r@ == (Seq::<(K, V)>::empty(), value)
//@ endfn
//@ fn src/total_vec_map.rs | TotalVecMap | non_default_mappings
//@ ret r
    ensures r@ == self@.0
//@ endfn
}
//@ head src/total_vec_map.rs From<V> for TotalVecMap<V, A>
    spec fn from_req(v: V) -> bool { true }
    spec fn from_ens(v: V, r: Self) -> bool { r@ == (Seq::<(K, V)>::empty(), v) }
//@ fn src/total_vec_map.rs | From<V> for TotalVecMap<V, A> | from
//@ endfn
}
//@ head src/total_vec_map.rs TotalVecMap # combine_ref
//@ fn src/total_vec_map.rs | TotalVecMap | combine_ref
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), V::obeys_eq_spec(), ksorted(self@.0), ksorted(that@.0), fpure2::<&V, &V, V, F>(f)
    ensures tcombined(gf::<V, F>(f), self@, that@, r@)
//@ start
    let ghost fg = f;
    proof { reveal(fpure2); }
//@ rw `use crate :: vec_map :: OuterJoinArg ;` => ``
//@ rw `self . 0 . outer_join ( & that . 0 , | arg | $$e )` => `{ let vx_c = |arg: OuterJoinArg<&K, &V, &V>| -> (vx_o: Option<V>) ensures vx_o == tcomb(&f, &self.1, &that.1, &r_default, arg) { $e }; proof { lemma_pure1(vx_c, |arg: OuterJoinArg<&K, &V, &V>| tcomb(&fg, &self.1, &that.1, &r_default, arg)); } let vx_r0: VecMap<A> = self.0.outer_join(&that.0, vx_c); proof { lemma_tcombined(&fg, oj_l::<K, V, V, V, _>(vx_c), oj_r::<K, V, V, V, _>(vx_c), oj_c::<K, V, V, V, _>(vx_c), self@, that@, (vx_r0@, r_default)); } vx_r0 }`
//@ endfn
}
/// pointwise combination does not depend on how the function is written down
proof fn lemma_tcombined_ext<K: Ord, V: PartialEq>(g: spec_fn(V, V) -> V, h: spec_fn(V, V) -> V, a: (Seq<(K, V)>, V), b: (Seq<(K, V)>, V), r: (Seq<(K, V)>, V))
    requires tcombined(g, a, b, r), forall|x: V, y: V| #[trigger] g(x, y) == h(x, y)
    ensures tcombined(h, a, b, r)
{
    assert forall|k: K| #[trigger] tval(r, k) == (if kent(a.0, k).is_none() && kent(b.0, k).is_none() { r.1 } else { ordef(h(tval(a, k), tval(b, k)), r.1) }) by { assert(g(tval(a, k), tval(b, k)) == h(tval(a, k), tval(b, k))); }
    assert(g(a.1, b.1) == h(a.1, b.1));
}
/// trusted: core::cmp::max / min on references
#[verifier::external_body]
fn vx_max<'a, V: Ord>(a: &'a V, b: &'a V) -> (r: &'a V) requires V::obeys_cmp_spec() ensures *r == vmax(*a, *b) { unimplemented!() }
#[verifier::external_body]
fn vx_min<'a, V: Ord>(a: &'a V, b: &'a V) -> (r: &'a V) requires V::obeys_cmp_spec() ensures *r == vmin(*a, *b) { unimplemented!() }
spec fn vmax<V: Ord>(a: V, b: V) -> V { if oc(a, b) == Ordering::Greater { a } else { b } }
spec fn vmin<V: Ord>(a: V, b: V) -> V { if oc(a, b) == Ordering::Greater { b } else { a } }

//@ head src/total_vec_map.rs TotalVecMap # supremum
//@ fn src/total_vec_map.rs | TotalVecMap | supremum
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), clone_ok::<V>(), ord_laws::<V>(), V::obeys_eq_spec(), ksorted(self@.0), ksorted(that@.0)
    ensures tcombined(|x: V, y: V| vmax(x, y), self@, that@, r@)
//@ start
    proof { reveal(ord_laws); }
//@ rw `$s . combine_ref ( $t , | $a , $b | cmp :: max ( $x , $y ) . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == vmax(*$a, *$b) { vx_max($x, $y).clone() }; proof { lemma_pure2(vx_c, |a: &V, b: &V| vmax(*a, *b)); } let vx_r0 = $s.combine_ref($t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| vmax(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
//@ fn src/total_vec_map.rs | TotalVecMap | infimum
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), clone_ok::<V>(), ord_laws::<V>(), V::obeys_eq_spec(), ksorted(self@.0), ksorted(that@.0)
    ensures tcombined(|x: V, y: V| vmin(x, y), self@, that@, r@)
//@ start
    proof { reveal(ord_laws); }
//@ rw `$s . combine_ref ( $t , | $a , $b | cmp :: min ( $x , $y ) . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == vmin(*$a, *$b) { vx_min($x, $y).clone() }; proof { lemma_pure2(vx_c, |a: &V, b: &V| vmin(*a, *b)); } let vx_r0 = $s.combine_ref($t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| vmin(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
}
trait Add<R = Self>: Sized {
    type Output;
    spec fn add_req(self, that: R) -> bool;
    spec fn add_ens(self, that: R, r: Self::Output) -> bool;
    fn add(self, that: R) -> (r: Self::Output) requires self.add_req(that) ensures self.add_ens(that, r);
}
/// the value type's operator is total and deterministic (a precondition); the value it gives
spec fn add_det<V: Add<Output = V>>() -> bool { (forall|a: V, b: V| #[trigger] a.add_req(b)) && forall|a: V, b: V, r: V, s: V| #[trigger] a.add_ens(b, r) && #[trigger] a.add_ens(b, s) ==> r == s }
spec fn addv<V: Add<Output = V>>(a: V, b: V) -> V { choose|r: V| a.add_ens(b, r) }
//@ head src/total_vec_map.rs Add for TotalVecMap<V, A>
//@ types src/total_vec_map.rs Add for TotalVecMap<V, A>
    spec fn add_req(self, that: Self) -> bool { ord_laws::<K>() && clone_ok::<K>() && clone_ok::<V>() && V::obeys_eq_spec() && add_det::<V>() && ksorted(self@.0) && ksorted(that@.0) }
    spec fn add_ens(self, that: Self, r: TotalVecMap<V, A>) -> bool { tcombined(|x: V, y: V| addv(x, y), self@, that@, r@) }
//@ fn src/total_vec_map.rs | Add for TotalVecMap<V, A> | add
//@ sigrw `Self :: Output` => `TotalVecMap<V, A>`
//@ rw `$s . combine_ref ( & $t , | $a , $b | $x . clone ( ) + $y . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == addv(*$a, *$b) { $x.clone().add($y.clone()) }; proof { lemma_pure2(vx_c, |a: &V, b: &V| addv(*a, *b)); } let vx_r0 = $s.combine_ref(&$t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| addv(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
}
trait Sub<R = Self>: Sized {
    type Output;
    spec fn sub_req(self, that: R) -> bool;
    spec fn sub_ens(self, that: R, r: Self::Output) -> bool;
    fn sub(self, that: R) -> (r: Self::Output) requires self.sub_req(that) ensures self.sub_ens(that, r);
}
/// the value type's operator is total and deterministic (a precondition); the value it gives
spec fn sub_det<V: Sub<Output = V>>() -> bool { (forall|a: V, b: V| #[trigger] a.sub_req(b)) && forall|a: V, b: V, r: V, s: V| #[trigger] a.sub_ens(b, r) && #[trigger] a.sub_ens(b, s) ==> r == s }
spec fn subv<V: Sub<Output = V>>(a: V, b: V) -> V { choose|r: V| a.sub_ens(b, r) }
//@ head src/total_vec_map.rs Sub for TotalVecMap<V, A>
//@ types src/total_vec_map.rs Sub for TotalVecMap<V, A>
    spec fn sub_req(self, that: Self) -> bool { ord_laws::<K>() && clone_ok::<K>() && clone_ok::<V>() && V::obeys_eq_spec() && sub_det::<V>() && ksorted(self@.0) && ksorted(that@.0) }
    spec fn sub_ens(self, that: Self, r: TotalVecMap<V, A>) -> bool { tcombined(|x: V, y: V| subv(x, y), self@, that@, r@) }
//@ fn src/total_vec_map.rs | Sub for TotalVecMap<V, A> | sub
//@ sigrw `Self :: Output` => `TotalVecMap<V, A>`
//@ rw `$s . combine_ref ( & $t , | $a , $b | $x . clone ( ) - $y . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == subv(*$a, *$b) { $x.clone().sub($y.clone()) }; proof { lemma_pure2(vx_c, |a: &V, b: &V| subv(*a, *b)); } let vx_r0 = $s.combine_ref(&$t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| subv(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
}
trait Mul<R = Self>: Sized {
    type Output;
    spec fn mul_req(self, that: R) -> bool;
    spec fn mul_ens(self, that: R, r: Self::Output) -> bool;
    fn mul(self, that: R) -> (r: Self::Output) requires self.mul_req(that) ensures self.mul_ens(that, r);
}
/// the value type's operator is total and deterministic (a precondition); the value it gives
spec fn mul_det<V: Mul<Output = V>>() -> bool { (forall|a: V, b: V| #[trigger] a.mul_req(b)) && forall|a: V, b: V, r: V, s: V| #[trigger] a.mul_ens(b, r) && #[trigger] a.mul_ens(b, s) ==> r == s }
spec fn mulv<V: Mul<Output = V>>(a: V, b: V) -> V { choose|r: V| a.mul_ens(b, r) }
//@ head src/total_vec_map.rs Mul for TotalVecMap<V, A>
//@ types src/total_vec_map.rs Mul for TotalVecMap<V, A>
    spec fn mul_req(self, that: Self) -> bool { ord_laws::<K>() && clone_ok::<K>() && clone_ok::<V>() && V::obeys_eq_spec() && mul_det::<V>() && ksorted(self@.0) && ksorted(that@.0) }
    spec fn mul_ens(self, that: Self, r: TotalVecMap<V, A>) -> bool { tcombined(|x: V, y: V| mulv(x, y), self@, that@, r@) }
//@ fn src/total_vec_map.rs | Mul for TotalVecMap<V, A> | mul
//@ sigrw `Self :: Output` => `TotalVecMap<V, A>`
//@ rw `$s . combine_ref ( & $t , | $a , $b | $x . clone ( ) * $y . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == mulv(*$a, *$b) { $x.clone().mul($y.clone()) }; proof { lemma_pure2(vx_c, |a: &V, b: &V| mulv(*a, *b)); } let vx_r0 = $s.combine_ref(&$t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| mulv(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
}
trait Div<R = Self>: Sized {
    type Output;
    spec fn div_req(self, that: R) -> bool;
    spec fn div_ens(self, that: R, r: Self::Output) -> bool;
    fn div(self, that: R) -> (r: Self::Output) requires self.div_req(that) ensures self.div_ens(that, r);
}
/// the value type's operator is total and deterministic (a precondition); the value it gives
spec fn div_det<V: Div<Output = V>>() -> bool { (forall|a: V, b: V| #[trigger] a.div_req(b)) && forall|a: V, b: V, r: V, s: V| #[trigger] a.div_ens(b, r) && #[trigger] a.div_ens(b, s) ==> r == s }
spec fn divv<V: Div<Output = V>>(a: V, b: V) -> V { choose|r: V| a.div_ens(b, r) }
//@ head src/total_vec_map.rs Div for TotalVecMap<V, A>
//@ types src/total_vec_map.rs Div for TotalVecMap<V, A>
    spec fn div_req(self, that: Self) -> bool { ord_laws::<K>() && clone_ok::<K>() && clone_ok::<V>() && V::obeys_eq_spec() && div_det::<V>() && ksorted(self@.0) && ksorted(that@.0) }
    spec fn div_ens(self, that: Self, r: TotalVecMap<V, A>) -> bool { tcombined(|x: V, y: V| divv(x, y), self@, that@, r@) }
//@ fn src/total_vec_map.rs | Div for TotalVecMap<V, A> | div
//@ sigrw `Self :: Output` => `TotalVecMap<V, A>`
//@ rw `$s . combine_ref ( & $t , | $a , $b | $x . clone ( ) / $y . clone ( ) )` => `{ let vx_c = |$a: &V, $b: &V| -> (vx_v: V) ensures vx_v == divv(*$a, *$b) { $x.clone().div($y.clone()) }; proof { lemma_pure2(vx_c, |a: &V, b: &V| divv(*a, *b)); } let vx_r0 = $s.combine_ref(&$t, vx_c); proof { lemma_tcombined_ext(gf::<V, _>(vx_c), |x: V, y: V| divv(x, y), $s@, $t@, vx_r0@); } vx_r0 }`
//@ endfn
}
/// keep the mapped values that differ from the default
spec fn tmapent<K, V, W: PartialEq, F: Fn(&V) -> W>(f: &F, d: &W, x: (K, V)) -> Option<(K, W)> { let w = fv1::<&V, W, F>(*f, &x.1); if ve(w, *d) { None } else { Some((x.0, w)) } }
spec fn fmap<T, R>(g: spec_fn(T) -> Option<R>, s: Seq<T>) -> Seq<R>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match g(s[0]) { Some(x) => seq![x] + fmap(g, s.skip(1)), None => fmap(g, s.skip(1)) } } }
/// trusted: `it.filter_map(f).collect()` into a SmallVec
#[verifier::external_body]
fn vx_filter_map_collect<T, R, A: Array<Item = R>, F: Fn(&T) -> Option<R>>(it: SliceIterator<T>, f: F) -> (r: SmallVec<A>)
    requires fpure1::<&T, Option<R>, F>(f)
    ensures r@ == fmap(|x: T| fv1::<&T, Option<R>, F>(f, &x), it@)
{ unimplemented!() }
proof fn lemma_fmap_ext<T, R>(g: spec_fn(T) -> Option<R>, h: spec_fn(T) -> Option<R>, s: Seq<T>)
    requires forall|x: T| #[trigger] g(x) == h(x)
    ensures fmap(g, s) == fmap(h, s)
    decreases s.len()
{ if s.len() > 0 { lemma_fmap_ext(g, h, s.skip(1)); assert(g(s[0]) == h(s[0])); } }
proof fn lemma_tmap<K: Ord, V, W: PartialEq, F: Fn(&V) -> W>(f: &F, d: W, s: Seq<(K, V)>)
    requires ord_laws::<K>(), ksorted(s)
    ensures ({ let r = fmap(|x: (K, V)| tmapent(f, &d, x), s);
      canon((r, d)) && (forall|k: K| #[trigger] kent(r, k) == match kent(s, k) { Some(e) => tmapent(f, &d, e), None => None }) && forall|k: K| kgt(s, k) ==> #[trigger] kgt(r, k) })
    decreases s.len()
{
    let g = |x: (K, V)| tmapent(f, &d, x);
    let r = fmap(g, s);
    if s.len() > 0 {
        let t = s.skip(1);
        let q = fmap(g, t);
        assert(ksorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] oc(t[i].0, t[j].0) == Ordering::Less by { assert(oc(s[i + 1].0, s[j + 1].0) == Ordering::Less); } }
        lemma_tmap(f, d, t);
        assert(kgt(t, s[0].0)) by { assert forall|i: int| 0 <= i < t.len() implies oc(s[0].0, (#[trigger] t[i]).0) == Ordering::Less by { assert(oc(s[0].0, s[i + 1].0) == Ordering::Less); } }
        assert(kgt(q, s[0].0));
        let o: Option<W> = match g(s[0]) { Some(e) => Some(e.1), None => None };
        lemma_opt_cons(s[0].0, o, q);
        assert(r =~= opt1(s[0].0, o) + q);
        assert forall|k: K| #[trigger] kent(r, k) == match kent(s, k) { Some(e) => tmapent(f, &d, e), None => None } by { if oc(s[0].0, k) == Ordering::Equal { assert(kent(s, k) == Some(s[0])); } else { assert(kent(s, k) == kent(t, k)); } }
        assert(nodef((r, d))) by { assert forall|i: int| 0 <= i < r.len() implies !ve((#[trigger] r[i]).1, d) by { if o.is_none() { assert(r[i] == q[i]); } else if i > 0 { assert(r[i] == q[i - 1]); } } }
        assert forall|k: K| kgt(s, k) implies #[trigger] kgt(r, k) by { assert(oc(k, s[0].0) == Ordering::Less); assert(kgt(opt1(s[0].0, o) + q, k)); }
    }
}
//@ head src/vec_map.rs VecMap # slice_iter
//@ fn src/vec_map.rs | VecMap | slice_iter
//@ ret r
    ensures r@ == self@
//@ sigrw `SliceIterator < A :: Item >` => `SliceIterator<'_, A::Item>`
//@ endfn
}
//@ head src/total_vec_map.rs TotalVecMap # map_values
//@ rw `K : Clone` => `K: Ord + Clone`
//@ fn src/total_vec_map.rs | TotalVecMap | map_values
//@ ret r
    requires ord_laws::<K>(), clone_ok::<K>(), W::obeys_eq_spec(), ksorted(self@.0), fpure1::<&V, W, F>(f)
    ensures canon(r@), r@.1 == fv1::<&V, W, F>(f, &self@.1), forall|k: K| #[trigger] tval(r@, k) == match kent(self@.0, k) { Some(e) => ordef(fv1::<&V, W, F>(f, &e.1), r@.1), None => r@.1 }
//@ start
    let ghost fg = f;
    proof { reveal(fpure1); }
//@ rw `self . 0 . slice_iter ( ) . filter_map ( | entry | $$e ) . collect ( )` => `{ let vx_c = |entry: &(K, V)| -> (vx_o: Option<(K, W)>) ensures vx_o == tmapent(&f, &default, *entry) { $e }; proof { lemma_pure1(vx_c, |x: &(K, V)| tmapent(&fg, &default, *x)); lemma_tmap(&fg, default, self@.0); lemma_fmap_ext(|x: (K, V)| fv1::<&(K, V), Option<(K, W)>, _>(vx_c, &x), |x: (K, V)| tmapent(&fg, &default, x), self@.0); } vx_filter_map_collect(self.0.slice_iter(), vx_c) }`
//@ before `TotalVecMap ( $$x )`
    proof { assert forall|k: K| #[trigger] tval((elements@, default), k) == match kent(self@.0, k) { Some(e) => ordef(fv1::<&V, W, F>(fg, &e.1), default), None => default } by { assert(kent(elements@, k) == match kent(self@.0, k) { Some(e) => tmapent(&fg, &default, e), None => None }); } }
//@ endfn
}
trait Neg: Sized {
    type Output;
    spec fn neg_req(self) -> bool;
    spec fn neg_ens(self, r: Self::Output) -> bool;
    fn neg(self) -> (r: Self::Output) requires self.neg_req() ensures self.neg_ens(r);
}
spec fn neg_det<V: Neg<Output = V>>() -> bool { (forall|a: V| #[trigger] a.neg_req()) && forall|a: V, r: V, s: V| #[trigger] a.neg_ens(r) && #[trigger] a.neg_ens(s) ==> r == s }
spec fn negv<V: Neg<Output = V>>(a: V) -> V { choose|r: V| a.neg_ens(r) }
//@ head src/total_vec_map.rs Neg for TotalVecMap<V, A>
//@ types src/total_vec_map.rs Neg for TotalVecMap<V, A>
    spec fn neg_req(self) -> bool { ord_laws::<K>() && clone_ok::<K>() && clone_ok::<V>() && V::obeys_eq_spec() && neg_det::<V>() && ksorted(self@.0) }
    spec fn neg_ens(self, r: Self) -> bool { canon(r@) && r@.1 == negv(self@.1) && forall|k: K| #[trigger] tval(r@, k) == match kent(self@.0, k) { Some(e) => ordef(negv(e.1), r@.1), None => r@.1 } }
//@ fn src/total_vec_map.rs | Neg for TotalVecMap<V, A> | neg
//@ sigrw `Self :: Output` => `TotalVecMap<V, A>`
//@ rw `self . map_values ( | a | - a . clone ( ) )` => `{ let vx_c = |a: &V| -> (vx_v: V) ensures vx_v == negv(*a) { a.clone().neg() }; proof { lemma_pure1(vx_c, |a: &V| negv(*a)); } let vx_r0: TotalVecMap<V, A> = self.map_values(vx_c); proof { assert forall|k: K| #[trigger] tval(vx_r0@, k) == match kent(self@.0, k) { Some(e) => ordef(negv(e.1), vx_r0@.1), None => vx_r0@.1 } by { assert(fv1::<&V, V, _>(vx_c, &tval(self@, k)) == negv(tval(self@, k))); } } vx_r0 }`
//@ endfn
}
trait Index<Q> {
    type Output;
    spec fn index_req(&self, key: Q) -> bool;
    spec fn index_ens(&self, key: Q, r: Self::Output) -> bool;
    fn index(&self, key: Q) -> (r: &Self::Output) requires self.index_req(key) ensures self.index_ens(key, *r);
}
//@ head src/total_vec_map.rs Index<&Q> for TotalVecMap<V, A>
//@ rw `Q : ? Sized` => `Q`
//@ rw `Borrow < Q >` => `Borrow<Q>`
//@ types src/total_vec_map.rs Index<&Q> for TotalVecMap<V, A>
    spec fn index_req(&self, key: &Q) -> bool { borrow_ok::<K, Q>() && ksorted(self@.0) }
    spec fn index_ens(&self, key: &Q, r: V) -> bool { r == match bent(self@.0, *key) { Some(e) => e.1, None => self@.1 } }
//@ fn src/total_vec_map.rs | Index<&Q> for TotalVecMap<V, A> | index
//@ endfn
}
//@ head src/total_vec_map.rs Clone for TotalVecMap
//@ rw `impl < K : Clone , V : Clone , A : Array < Item = ( K , V ) > > Clone for TotalVecMap < V , A >` => `impl<K, V: Clone, A: Array<Item = (K, V)>> TotalVecMap<V, A> where A::Item: Clone`
//@ fn src/total_vec_map.rs | Clone for TotalVecMap | clone
//@ ret r
    ensures clone_ok::<A::Item>() && clone_ok::<V>() ==> r@ == self@
//@ endfn
}
//@ head src/total_vec_map.rs Default for TotalVecMap
    spec fn is_default(&self) -> bool { self@.0 == Seq::<(K, V)>::empty() && self@.1.is_default() }
//@ fn src/total_vec_map.rs | Default for TotalVecMap | default
//@ rw `Self ( Default :: default ( ) , Default :: default ( ) )` => `Self(<VecMap<A> as Default>::default(), <V as Default>::default())`
//@ endfn
}
//@ # ---- Zero, One, Bounded: constant maps ------------------------------------------------------------------
trait Zero: Sized { spec fn zerop(&self) -> bool; fn zero() -> (r: Self) ensures r.zerop(); fn is_zero(&self) -> (r: bool) ensures r == self.zerop(); }
trait One: Sized { spec fn onep(&self) -> bool; fn one() -> (r: Self) ensures r.onep(); fn is_one(&self) -> (r: bool) ensures r == self.onep(); }
trait Bounded: Sized { spec fn minp(&self) -> bool; spec fn maxp(&self) -> bool; fn min_value() -> (r: Self) ensures r.minp(); fn max_value() -> (r: Self) ensures r.maxp(); }
//@ head src/total_vec_map.rs Zero for TotalVecMap<V, A>
    spec fn zerop(&self) -> bool { self@.0.len() == 0 && self@.1.zerop() }
//@ fn src/total_vec_map.rs | Zero for TotalVecMap<V, A> | zero
//@ rw `V :: zero ( ) . into ( )` => `<TotalVecMap<V, A> as From<V>>::from(V::zero())`
//@ endfn
//@ fn src/total_vec_map.rs | Zero for TotalVecMap<V, A> | is_zero
//@ endfn
}
//@ head src/total_vec_map.rs One for TotalVecMap<V, A>
    spec fn onep(&self) -> bool { self@.0.len() == 0 && self@.1.onep() }
//@ fn src/total_vec_map.rs | One for TotalVecMap<V, A> | one
//@ rw `V :: one ( ) . into ( )` => `<TotalVecMap<V, A> as From<V>>::from(V::one())`
//@ endfn
//@ fn src/total_vec_map.rs | One for TotalVecMap<V, A> | is_one
//@ endfn
}
//@ head src/total_vec_map.rs Bounded for TotalVecMap<V, A>
    spec fn minp(&self) -> bool { self@.0.len() == 0 && self@.1.minp() }
    spec fn maxp(&self) -> bool { self@.0.len() == 0 && self@.1.maxp() }
//@ fn src/total_vec_map.rs | Bounded for TotalVecMap<V, A> | min_value
//@ rw `V :: min_value ( ) . into ( )` => `<TotalVecMap<V, A> as From<V>>::from(V::min_value())`
//@ endfn
//@ fn src/total_vec_map.rs | Bounded for TotalVecMap<V, A> | max_value
//@ rw `V :: max_value ( ) . into ( )` => `<TotalVecMap<V, A> as From<V>>::from(V::max_value())`
//@ endfn
}

//@ tag tmap
/// keys that compare equal are identical, and so are values that are ==
spec fn key_ident<K: Ord>() -> bool { forall|a: K, b: K| #[trigger] oc(a, b) == Ordering::Equal ==> a == b }
spec fn val_ident<V: PartialEq>() -> bool { forall|a: V, b: V| #[trigger] ve(a, b) == (a == b) }
/// no finite list exhausts the keys
spec fn kunbounded<K: Ord, V>() -> bool { forall|s: Seq<(K, V)>, t: Seq<(K, V)>| #[trigger] s.len() >= 0 && #[trigger] t.len() >= 0 ==> exists|k: K| kent(s, k).is_none() && (#[trigger] kent(t, k)).is_none() }
proof fn lemma_kent_ext<K: Ord, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires ord_laws::<K>(), key_ident::<K>(), ksorted(a), ksorted(b), forall|k: K| #[trigger] kent(a, k) == kent(b, k)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { lemma_kent_self(b, 0); assert(kent(a, b[0].0) == kent(b, b[0].0)); }
        assert(a =~= b);
    } else {
        lemma_kent_self(a, 0);
        let ka = a[0].0;
        assert(kent(b, ka) == Some(a[0]));
        lemma_kent(b, ka);
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[0] && oc(a[0].0, ka) == Ordering::Equal;
        if j > 0 {
            assert(oc(b[0].0, b[j].0) == Ordering::Less);
            lemma_kent_self(b, 0);
            assert(kent(a, b[0].0) == Some(b[0]));
            lemma_kent(a, b[0].0);
            let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == b[0] && oc(b[0].0, b[0].0) == Ordering::Equal;
            if i > 0 { assert(oc(a[0].0, a[i].0) == Ordering::Less); lemma_laws(a[0].0, b[0].0, a[0].0); }
            else { lemma_laws(a[0].0, a[0].0, a[0].0); }
        }
        assert(b[0] == a[0]);
        let at = a.skip(1); let bt = b.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < at.len() implies #[trigger] oc(at[i].0, at[j].0) == Ordering::Less by { assert(oc(a[i + 1].0, a[j + 1].0) == Ordering::Less); }
        assert forall|i: int, j: int| 0 <= i < j < bt.len() implies #[trigger] oc(bt[i].0, bt[j].0) == Ordering::Less by { assert(oc(b[i + 1].0, b[j + 1].0) == Ordering::Less); }
        assert forall|k: K| #[trigger] kent(at, k) == kent(bt, k) by {
            assert(kent(a, k) == kent(b, k));
            if oc(ka, k) == Ordering::Equal {
                assert forall|i: int| 0 <= i < at.len() implies oc((#[trigger] at[i]).0, k) != Ordering::Equal by { assert(oc(a[0].0, a[i + 1].0) == Ordering::Less); lemma_laws(ka, k, ka); lemma_laws(at[i].0, k, ka); }
                assert forall|i: int| 0 <= i < bt.len() implies oc((#[trigger] bt[i]).0, k) != Ordering::Equal by { assert(oc(b[0].0, b[i + 1].0) == Ordering::Less); lemma_laws(ka, k, ka); lemma_laws(bt[i].0, k, ka); }
                lemma_kent_none(at, k); lemma_kent_none(bt, k);
            }
        }
        lemma_kent_ext(at, bt);
        assert(a =~= seq![a[0]] + at);
        assert(b =~= seq![b[0]] + bt);
    }
}
/// canonical total maps that agree on every key are the same
proof fn lemma_canon_unique<K: Ord, V: PartialEq>(a: (Seq<(K, V)>, V), b: (Seq<(K, V)>, V))
    requires ord_laws::<K>(), key_ident::<K>(), val_ident::<V>(), kunbounded::<K, V>(), canon(a), canon(b), forall|k: K| #[trigger] tval(a, k) == tval(b, k)
    ensures a == b
{
    assert(a.0.len() >= 0 && b.0.len() >= 0);
    let f = choose|k: K| kent(a.0, k).is_none() && (#[trigger] kent(b.0, k)).is_none();
    assert(tval(a, f) == tval(b, f));
    assert forall|k: K| #[trigger] kent(a.0, k) == kent(b.0, k) by {
        assert(tval(a, k) == tval(b, k));
        lemma_kent(a.0, k); lemma_kent(b.0, k);
        if kent(a.0, k).is_some() { let i = choose|i: int| 0 <= i < a.0.len() && #[trigger] a.0[i] == kent(a.0, k).unwrap() && oc(kent(a.0, k).unwrap().0, k) == Ordering::Equal; assert(!ve(a.0[i].1, a.1)); assert(a.0[i].0 == k); }
        if kent(b.0, k).is_some() { let i = choose|i: int| 0 <= i < b.0.len() && #[trigger] b.0[i] == kent(b.0, k).unwrap() && oc(kent(b.0, k).unwrap().0, k) == Ordering::Equal; assert(!ve(b.0[i].1, b.1)); assert(b.0[i].0 == k); }
    }
    lemma_kent_ext(a.0, b.0);
}
