//@ tag eqo
use vstd::std_specs::cmp::*;
//@ # ---- contents of collections: equality, order and hash of sequences ------------------------------------------------
spec fn seq_eq<T: PartialEq>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].eq_spec(&b[i]) }
/// lexicographic order
spec fn lexc<T: Ord>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal } else if a.len() == 0 { Ordering::Less } else if b.len() == 0 { Ordering::Greater }
    else { match oc(a[0], b[0]) { Ordering::Equal => lexc(a.skip(1), b.skip(1)), o => o } }
}
/// the same for partially ordered elements
spec fn lexp<T: PartialOrd>(a: Seq<T>, b: Seq<T>) -> Option<Ordering>
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Some(Ordering::Equal) } else if a.len() == 0 { Some(Ordering::Less) } else if b.len() == 0 { Some(Ordering::Greater) }
    else { match a[0].partial_cmp_spec(&b[0]) { Some(Ordering::Equal) => lexp(a.skip(1), b.skip(1)), o => o } }
}
/// `core::hash`, as the sequence of writes a value makes to the hasher
trait Hasher { spec fn log(&self) -> Seq<u8>; }
trait Hash {
    spec fn hs(&self) -> Seq<u8>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log() + self.hs();
}
uninterp spec fn hs_bool(b: bool) -> Seq<u8>;
impl Hash for bool {
    spec fn hs(&self) -> Seq<u8> { hs_bool(*self) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl<K: Hash, V: Hash> Hash for (K, V) {
    spec fn hs(&self) -> Seq<u8> { self.0.hs() + self.1.hs() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
uninterp spec fn hs_len(n: nat) -> Seq<u8>;
spec fn hs_els<T: Hash>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { s[0].hs() + hs_els(s.skip(1)) } }
spec fn hs_seq<T: Hash>(s: Seq<T>) -> Seq<u8> { hs_len(s.len()) + hs_els(s) }
//@ # ---- smallvec: equality, order and hash are those of its slice (trusted) ---------------------------------------------
impl<A: Array> PartialEqSpecImpl for SmallVec<A> where A::Item: PartialEq {
    open spec fn obeys_eq_spec() -> bool { <A::Item>::obeys_eq_spec() }
    closed spec fn eq_spec(&self, other: &Self) -> bool { seq_eq(self@, other@) }
}
impl<A: Array> PartialEq for SmallVec<A> where A::Item: PartialEq {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}
impl<A: Array> PartialOrdSpecImpl for SmallVec<A> where A::Item: PartialOrd {
    open spec fn obeys_partial_cmp_spec() -> bool { <A::Item>::obeys_partial_cmp_spec() }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { lexp(self@, other@) }
}
impl<A: Array> PartialOrd for SmallVec<A> where A::Item: PartialOrd {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
impl<A: Array> OrdSpecImpl for SmallVec<A> where A::Item: Ord {
    open spec fn obeys_cmp_spec() -> bool { <A::Item>::obeys_cmp_spec() }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { lexc(self@, other@) }
}
impl<A: Array> Ord for SmallVec<A> where A::Item: Ord {
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> Ordering { unimplemented!() }
}
impl<A: Array> Hash for SmallVec<A> where A::Item: Hash {
    spec fn hs(&self) -> Seq<u8> { hs_seq(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
//@ struct src/vec_set.rs VecSet
impl<A: Array> View for VecSet<A> { type V = Seq<A::Item>; closed spec fn view(&self) -> Seq<A::Item> { self.0@ } }
impl<T: PartialEq, A: Array<Item = T>> PartialEqSpecImpl for VecSet<A> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    closed spec fn eq_spec(&self, other: &Self) -> bool { seq_eq(self@, other@) }
}
//@ forbid src/vec_set.rs PartialEq/VecSet ne
//@ forbid src/vec_set.rs PartialOrd/VecSet lt le gt ge
//@ forbid src/vec_set.rs Ord/VecSet max min clamp
//@ head src/vec_set.rs PartialEq for VecSet
//@ fn src/vec_set.rs | PartialEq for VecSet | eq
//@ endfn
}
//@ head src/vec_set.rs Eq for VecSet
}
impl<T: PartialOrd, A: Array<Item = T>> PartialOrdSpecImpl for VecSet<A> {
    open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { lexp(self@, other@) }
}
//@ head src/vec_set.rs PartialOrd for VecSet
//@ fn src/vec_set.rs | PartialOrd for VecSet | partial_cmp
//@ endfn
}
impl<T: Ord, A: Array<Item = T>> OrdSpecImpl for VecSet<A> {
    open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { lexc(self@, other@) }
}
//@ head src/vec_set.rs Ord for VecSet
//@ fn src/vec_set.rs | Ord for VecSet | cmp
//@ endfn
}
//@ tag eqo.hash.soft
//@ head src/vec_set.rs Hash for VecSet
    spec fn hs(&self) -> Seq<u8> { hs_seq(self@) }
//@ fn src/vec_set.rs | Hash for VecSet | hash
//@ sigrw `hash :: Hasher` => `Hasher`
//@ endfn
}
//@ tag eqo
#[verifier::reject_recursive_types(A)]
//@ struct src/vec_map.rs VecMap
impl<A: Array> View for VecMap<A> { type V = Seq<A::Item>; closed spec fn view(&self) -> Seq<A::Item> { self.0@ } }
impl<T: PartialEq, A: Array<Item = T>> PartialEqSpecImpl for VecMap<A> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    closed spec fn eq_spec(&self, other: &Self) -> bool { seq_eq(self@, other@) }
}
//@ forbid src/vec_map.rs PartialEq/VecMap ne
//@ forbid src/vec_map.rs PartialOrd/VecMap lt le gt ge
//@ forbid src/vec_map.rs Ord/VecMap max min clamp
//@ head src/vec_map.rs PartialEq for VecMap
//@ fn src/vec_map.rs | PartialEq for VecMap | eq
//@ endfn
}
//@ head src/vec_map.rs Eq for VecMap
}
impl<T: PartialOrd, A: Array<Item = T>> PartialOrdSpecImpl for VecMap<A> {
    open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { lexp(self@, other@) }
}
//@ head src/vec_map.rs PartialOrd for VecMap
//@ fn src/vec_map.rs | PartialOrd for VecMap | partial_cmp
//@ endfn
}
impl<T: Ord, A: Array<Item = T>> OrdSpecImpl for VecMap<A> {
    open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { lexc(self@, other@) }
}
//@ head src/vec_map.rs Ord for VecMap
//@ fn src/vec_map.rs | Ord for VecMap | cmp
//@ endfn
}
//@ tag eqo.hash.soft
//@ head src/vec_map.rs Hash for VecMap
    spec fn hs(&self) -> Seq<u8> { hs_seq(self@) }
//@ fn src/vec_map.rs | Hash for VecMap | hash
//@ sigrw `hash :: Hasher` => `Hasher`
//@ endfn
}
//@ tag eqo
#[verifier::reject_recursive_types(A)]
//@ struct src/total_vec_set.rs TotalVecSet
impl<T: PartialEq, A: Array<Item = T>> PartialEqSpecImpl for TotalVecSet<A> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    closed spec fn eq_spec(&self, other: &Self) -> bool { seq_eq(self.elements@, other.elements@) && self.negated == other.negated }
}
//@ forbid src/total_vec_set.rs PartialEq/TotalVecSet ne
//@ head src/total_vec_set.rs PartialEq for TotalVecSet
//@ fn src/total_vec_set.rs | PartialEq for TotalVecSet | eq
//@ endfn
}
//@ head src/total_vec_set.rs Eq for TotalVecSet
}
//@ tag eqo.hash.soft
//@ head src/total_vec_set.rs Hash for TotalVecSet
    spec fn hs(&self) -> Seq<u8> { self.elements.hs() + self.negated.hs() }
//@ fn src/total_vec_set.rs | Hash for TotalVecSet | hash
//@ sigrw `core :: hash :: Hasher` => `Hasher`
//@ end
    proof { assert(old(state).log() + self.elements.hs() + self.negated.hs() =~= old(state).log() + self.hs()); }
//@ endfn
}
//@ tag eqo
#[verifier::reject_recursive_types(A)]
//@ struct src/total_vec_map.rs TotalVecMap
impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEqSpecImpl for TotalVecMap<V, A> {
    open spec fn obeys_eq_spec() -> bool { <(K, V) as PartialEqSpec>::obeys_eq_spec() && V::obeys_eq_spec() }
    closed spec fn eq_spec(&self, other: &Self) -> bool { seq_eq(self.0@, other.0@) && self.1.eq_spec(&other.1) }
}
//@ forbid src/total_vec_map.rs PartialEq/TotalVecMap ne
//@ forbid src/total_vec_map.rs PartialOrd/TotalVecMap lt le gt ge
//@ forbid src/total_vec_map.rs Ord/TotalVecMap max min clamp
//@ head src/total_vec_map.rs PartialEq for TotalVecMap
//@ fn src/total_vec_map.rs | PartialEq for TotalVecMap | eq
//@ endfn
}
//@ head src/total_vec_map.rs Eq for TotalVecMap
}
impl<K: PartialOrd, V: PartialOrd, A: Array<Item = (K, V)>> PartialOrdSpecImpl for TotalVecMap<V, A> {
    open spec fn obeys_partial_cmp_spec() -> bool { <(K, V) as PartialOrdSpec>::obeys_partial_cmp_spec() && V::obeys_partial_cmp_spec() }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { match lexp(self.0@, other.0@) { Some(Ordering::Equal) => self.1.partial_cmp_spec(&other.1), o => o } }
}
/// comparison of pairs, as core defines it
fn vx_pair_pcmp<X: PartialOrd, Y: PartialOrd>(a: &X, b: &Y, c: &X, d: &Y) -> (r: Option<Ordering>)
    ensures X::obeys_partial_cmp_spec() && Y::obeys_partial_cmp_spec() ==> r == (match a.partial_cmp_spec(c) { Some(Ordering::Equal) => b.partial_cmp_spec(d), o => o })
{ match a.partial_cmp(c) { Some(Ordering::Equal) => b.partial_cmp(d), o => o } }
fn vx_pair_cmp<X: Ord, Y: Ord>(a: &X, b: &Y, c: &X, d: &Y) -> (r: Ordering)
    ensures X::obeys_cmp_spec() && Y::obeys_cmp_spec() ==> r == (match a.cmp_spec(c) { Ordering::Equal => b.cmp_spec(d), o => o })
{ match a.cmp(c) { Ordering::Equal => b.cmp(d), o => o } }
//@ head src/total_vec_map.rs PartialOrd for TotalVecMap
//@ fn src/total_vec_map.rs | PartialOrd for TotalVecMap | partial_cmp
//@ rw `( & $$a , & $$b ) . partial_cmp ( & ( & $$c , & $$d ) )` => `vx_pair_pcmp(&$a, &$b, &$c, &$d)`
//@ endfn
}
impl<K: Ord, V: Ord, A: Array<Item = (K, V)>> OrdSpecImpl for TotalVecMap<V, A> {
    open spec fn obeys_cmp_spec() -> bool { <(K, V) as OrdSpec>::obeys_cmp_spec() && V::obeys_cmp_spec() }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { match lexc(self.0@, other.0@) { Ordering::Equal => self.1.cmp_spec(&other.1), o => o } }
}
//@ head src/total_vec_map.rs Ord for TotalVecMap
//@ fn src/total_vec_map.rs | Ord for TotalVecMap | cmp
//@ rw `( & $$a , & $$b ) . cmp ( & ( & $$c , & $$d ) )` => `vx_pair_cmp(&$a, &$b, &$c, &$d)`
//@ endfn
}
//@ tag eqo.hash.soft
//@ head src/total_vec_map.rs Hash for TotalVecMap
    spec fn hs(&self) -> Seq<u8> { hs_seq(self.0@) }
//@ fn src/total_vec_map.rs | Hash for TotalVecMap | hash
//@ sigrw `hash :: Hasher` => `Hasher`
//@ endfn
}
//@ tag eqo

//@ # ---- the laws, as theorems over these contracts ---------------------------------------------------------------------
/// the element type's own equality agrees with its order
#[verifier::opaque]
spec fn eq_laws<T: Ord>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> oc(a, b) == Ordering::Equal }
#[verifier::opaque]
spec fn pcmp_laws<T: Ord>() -> bool { T::obeys_partial_cmp_spec() && forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(oc(a, b)) }
#[verifier::opaque]
spec fn hash_laws<T: PartialEq + Hash>() -> bool { forall|a: T, b: T| #[trigger] a.eq_spec(&b) ==> a.hs() == b.hs() }
proof fn lemma_eq_laws<T: Ord>(a: T, b: T) requires eq_laws::<T>() ensures a.eq_spec(&b) <==> oc(a, b) == Ordering::Equal { reveal(eq_laws); }
proof fn lemma_pcmp_laws<T: Ord>(a: T, b: T) requires pcmp_laws::<T>() ensures a.partial_cmp_spec(&b) == Some(oc(a, b)) { reveal(pcmp_laws); }
proof fn lemma_hash_laws<T: PartialEq + Hash>(a: T, b: T) requires hash_laws::<T>(), a.eq_spec(&b) ensures a.hs() == b.hs() { reveal(hash_laws); }
proof fn lemma_seq_eq_tail<T: PartialEq>(a: Seq<T>, b: Seq<T>)
    requires a.len() > 0, b.len() > 0
    ensures seq_eq(a, b) <==> (a[0].eq_spec(&b[0]) && seq_eq(a.skip(1), b.skip(1)))
{
    if seq_eq(a, b) { assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i].eq_spec(&b.skip(1)[i]) by { assert(a[i + 1].eq_spec(&b[i + 1])); } }
    if a[0].eq_spec(&b[0]) && seq_eq(a.skip(1), b.skip(1)) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i].eq_spec(&b[i]) by { if i > 0 { assert(a.skip(1)[i - 1].eq_spec(&b.skip(1)[i - 1])); } }
    }
}
/// two sets are equal exactly when they have the same members
proof fn thm_eq_contents<T: Ord>(a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), eq_laws::<T>(), sorted(a), sorted(b)
    ensures seq_eq(a, b) <==> (forall|v: T| mem(a, v) == mem(b, v))
    decreases a.len()
{
    if seq_eq(a, b) {
        assert forall|v: T| mem(a, v) == mem(b, v) by {
            if mem(a, v) {
                let i = choose|i: int| 0 <= i < a.len() && #[trigger] oc(a[i], v) == Ordering::Equal;
                assert(a[i].eq_spec(&b[i])); lemma_eq_laws(a[i], b[i]); lemma_laws(a[i], b[i], v); lemma_laws(b[i], a[i], v);
                assert(oc(b[i], v) == Ordering::Equal);
            }
            if mem(b, v) {
                let i = choose|i: int| 0 <= i < b.len() && #[trigger] oc(b[i], v) == Ordering::Equal;
                assert(a[i].eq_spec(&b[i])); lemma_eq_laws(a[i], b[i]); lemma_laws(a[i], b[i], v);
                assert(oc(a[i], v) == Ordering::Equal);
            }
        }
    }
    if forall|v: T| mem(a, v) == mem(b, v) {
        if a.len() == 0 {
            if b.len() > 0 { lemma_laws(b[0], b[0], b[0]); assert(mem(b, b[0])); assert(mem(a, b[0])); }
        } else if b.len() == 0 {
            lemma_laws(a[0], a[0], a[0]); assert(mem(a, a[0])); assert(mem(b, a[0]));
        } else {
            lemma_laws(a[0], a[0], b[0]); lemma_laws(b[0], b[0], b[0]);
            assert(mem(a, a[0])); assert(mem(b, b[0]));
            lemma_sorted_tail(a); lemma_sorted_tail(b);
            if oc(a[0], b[0]) == Ordering::Less { lemma_above_cons(a[0], b); lemma_above_notmem(a[0], b, a[0]); }
            if oc(a[0], b[0]) == Ordering::Greater { lemma_above_cons(b[0], a); lemma_above_notmem(b[0], a, b[0]); }
            assert(oc(a[0], b[0]) == Ordering::Equal);
            lemma_eq_laws(a[0], b[0]);
            let (a1, b1) = (a.skip(1), b.skip(1));
            assert forall|v: T| mem(a1, v) == mem(b1, v) by {
                lemma_mem_cons(a, v); lemma_mem_cons(b, v); lemma_laws(a[0], b[0], v); lemma_laws(b[0], a[0], v);
                lemma_laws(a[0], v, v); lemma_laws(b[0], v, v);
                if oc(a[0], v) == Ordering::Equal { lemma_laws(v, a[0], a[0]); lemma_laws(v, b[0], b[0]); lemma_above_notmem(a[0], a1, v); lemma_above_notmem(b[0], b1, v); }
                assert(mem(a, v) == mem(b, v));
            }
            thm_eq_contents(a1, b1);
            lemma_seq_eq_tail(a, b);
        }
    }
}
/// cmp is reflexive, antisymmetric, transitive, and Equal exactly on equal contents
proof fn thm_lexc_eq<T: Ord>(a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), eq_laws::<T>()
    ensures lexc(a, b) == Ordering::Equal <==> seq_eq(a, b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_seq_eq_tail(a, b); lemma_eq_laws(a[0], b[0]); thm_lexc_eq(a.skip(1), b.skip(1)); }
}
proof fn thm_lexc_refl<T: Ord>(a: Seq<T>)
    requires ord_laws::<T>()
    ensures lexc(a, a) == Ordering::Equal
    decreases a.len()
{ if a.len() > 0 { lemma_laws(a[0], a[0], a[0]); thm_lexc_refl(a.skip(1)); } }
proof fn thm_lexc_rev<T: Ord>(a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>()
    ensures lexc(a, b) == rev(lexc(b, a))
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_laws(a[0], b[0], b[0]); thm_lexc_rev(a.skip(1), b.skip(1)); } }
proof fn thm_lexc_trans<T: Ord>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires ord_laws::<T>(), ordn(lexc(a, b)) <= 0, ordn(lexc(b, c)) <= 0
    ensures ordn(lexc(a, c)) <= 0, lexc(a, c) == Ordering::Equal ==> lexc(a, b) == Ordering::Equal && lexc(b, c) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 {
        assert(b.len() > 0); assert(c.len() > 0);
        lemma_laws(a[0], b[0], c[0]);
        if oc(a[0], b[0]) == Ordering::Equal && oc(b[0], c[0]) == Ordering::Equal { thm_lexc_trans(a.skip(1), b.skip(1), c.skip(1)); }
    }
}
proof fn thm_lexp<T: Ord>(a: Seq<T>, b: Seq<T>)
    requires pcmp_laws::<T>()
    ensures lexp(a, b) == Some(lexc(a, b))
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_pcmp_laws(a[0], b[0]); thm_lexp(a.skip(1), b.skip(1)); } }
proof fn thm_hash<T: PartialEq + Hash>(a: Seq<T>, b: Seq<T>)
    requires hash_laws::<T>(), seq_eq(a, b)
    ensures hs_els(a) == hs_els(b), hs_seq(a) == hs_seq(b)
    decreases a.len()
{ if a.len() > 0 { lemma_seq_eq_tail(a, b); assert(a[0].eq_spec(&b[0])); lemma_hash_laws(a[0], b[0]); thm_hash(a.skip(1), b.skip(1)); } }
//@ # the collections themselves: the laws their element type obeys, they obey
proof fn thm_set_laws<T: Ord + Hash, A: Array<Item = T>>()
    requires ord_laws::<T>(), eq_laws::<T>(), pcmp_laws::<T>(), hash_laws::<T>()
    ensures ord_laws::<VecSet<A>>(), eq_laws::<VecSet<A>>(), pcmp_laws::<VecSet<A>>(), hash_laws::<VecSet<A>>()
{
    reveal(ord_laws); reveal(eq_laws); reveal(pcmp_laws); reveal(hash_laws);
    assert forall|a: VecSet<A>| #[trigger] oc(a, a) == Ordering::Equal by { thm_lexc_refl(a@); }
    assert forall|a: VecSet<A>, b: VecSet<A>| #[trigger] oc(a, b) == rev(oc(b, a)) by { thm_lexc_rev(a@, b@); }
    assert forall|a: VecSet<A>, b: VecSet<A>, c: VecSet<A>| ordn(#[trigger] oc(a, b)) <= 0 && ordn(#[trigger] oc(b, c)) <= 0 implies
        ordn(oc(a, c)) <= 0 && (oc(a, c) == Ordering::Equal ==> oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Equal) by { thm_lexc_trans(a@, b@, c@); }
    assert forall|a: VecSet<A>, b: VecSet<A>| #[trigger] <VecSet<A> as PartialEqSpec<VecSet<A>>>::eq_spec(&a, &b) <==> oc(a, b) == Ordering::Equal by { thm_lexc_eq(a@, b@); }
    assert forall|a: VecSet<A>, b: VecSet<A>| #[trigger] <VecSet<A> as PartialOrdSpec<VecSet<A>>>::partial_cmp_spec(&a, &b) == Some(oc(a, b)) by { thm_lexp(a@, b@); }
    assert forall|a: VecSet<A>, b: VecSet<A>| #[trigger] <VecSet<A> as PartialEqSpec<VecSet<A>>>::eq_spec(&a, &b) implies a.hs() == b.hs() by { thm_hash(a@, b@); }
}
proof fn thm_map_laws<T: Ord + Hash, A: Array<Item = T>>()
    requires ord_laws::<T>(), eq_laws::<T>(), pcmp_laws::<T>(), hash_laws::<T>()
    ensures ord_laws::<VecMap<A>>(), eq_laws::<VecMap<A>>(), pcmp_laws::<VecMap<A>>(), hash_laws::<VecMap<A>>()
{
    reveal(ord_laws); reveal(eq_laws); reveal(pcmp_laws); reveal(hash_laws);
    assert forall|a: VecMap<A>| #[trigger] oc(a, a) == Ordering::Equal by { thm_lexc_refl(a@); }
    assert forall|a: VecMap<A>, b: VecMap<A>| #[trigger] oc(a, b) == rev(oc(b, a)) by { thm_lexc_rev(a@, b@); }
    assert forall|a: VecMap<A>, b: VecMap<A>, c: VecMap<A>| ordn(#[trigger] oc(a, b)) <= 0 && ordn(#[trigger] oc(b, c)) <= 0 implies
        ordn(oc(a, c)) <= 0 && (oc(a, c) == Ordering::Equal ==> oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Equal) by { thm_lexc_trans(a@, b@, c@); }
    assert forall|a: VecMap<A>, b: VecMap<A>| #[trigger] <VecMap<A> as PartialEqSpec<VecMap<A>>>::eq_spec(&a, &b) <==> oc(a, b) == Ordering::Equal by { thm_lexc_eq(a@, b@); }
    assert forall|a: VecMap<A>, b: VecMap<A>| #[trigger] <VecMap<A> as PartialOrdSpec<VecMap<A>>>::partial_cmp_spec(&a, &b) == Some(oc(a, b)) by { thm_lexp(a@, b@); }
    assert forall|a: VecMap<A>, b: VecMap<A>| #[trigger] <VecMap<A> as PartialEqSpec<VecMap<A>>>::eq_spec(&a, &b) implies a.hs() == b.hs() by { thm_hash(a@, b@); }
}
proof fn thm_total_set_laws<T: Ord + Hash, A: Array<Item = T>>(a: TotalVecSet<A>, b: TotalVecSet<A>, c: TotalVecSet<A>)
    requires ord_laws::<T>(), eq_laws::<T>(), hash_laws::<T>()
    ensures
        <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &a),
        <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &b) == <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&b, &a),
        <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &b) && <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&b, &c) ==> <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &c),
        <TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &b) ==> a.hs() == b.hs(),
        sorted(a.elements@) && sorted(b.elements@) ==> (<TotalVecSet<A> as PartialEqSpec<TotalVecSet<A>>>::eq_spec(&a, &b) <==> a.negated == b.negated && forall|v: T| mem(a.elements@, v) == mem(b.elements@, v)),
{
    let (x, y, z) = (a.elements@, b.elements@, c.elements@);
    thm_lexc_eq(x, x); thm_lexc_eq(x, y); thm_lexc_eq(y, x); thm_lexc_eq(y, z); thm_lexc_eq(x, z);
    thm_lexc_refl(x); thm_lexc_rev(x, y);
    if seq_eq(x, y) && seq_eq(y, z) { thm_lexc_trans(x, y, z); thm_lexc_rev(x, z); thm_lexc_rev(y, z); thm_lexc_trans(z, y, x); }
    if seq_eq(x, y) { thm_hash(x, y); }
    if sorted(x) && sorted(y) { thm_eq_contents(x, y); }
}
proof fn thm_total_map_laws<K: Ord + Hash, V: Ord + Hash, A: Array<Item = (K, V)>>()
    requires ord_laws::<(K, V)>(), eq_laws::<(K, V)>(), pcmp_laws::<(K, V)>(), hash_laws::<(K, V)>(), ord_laws::<V>(), eq_laws::<V>(), pcmp_laws::<V>(), hash_laws::<V>()
    ensures ord_laws::<TotalVecMap<V, A>>(), eq_laws::<TotalVecMap<V, A>>(), pcmp_laws::<TotalVecMap<V, A>>(), hash_laws::<TotalVecMap<V, A>>()
{
    thm_map_laws::<(K, V), A>();
    assert forall|a: TotalVecMap<V, A>| #[trigger] oc(a, a) == Ordering::Equal by { thm_lexc_refl(a.0@); lemma_laws(a.1, a.1, a.1); }
    assert forall|a: TotalVecMap<V, A>, b: TotalVecMap<V, A>| #[trigger] oc(a, b) == rev(oc(b, a)) by { thm_lexc_rev(a.0@, b.0@); lemma_laws(a.1, b.1, b.1); }
    assert forall|a: TotalVecMap<V, A>, b: TotalVecMap<V, A>, c: TotalVecMap<V, A>| ordn(#[trigger] oc(a, b)) <= 0 && ordn(#[trigger] oc(b, c)) <= 0 implies
        ordn(oc(a, c)) <= 0 && (oc(a, c) == Ordering::Equal ==> oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Equal) by { thm_lexc_trans(a.0@, b.0@, c.0@); lemma_laws(a.1, b.1, c.1); }
    assert forall|a: TotalVecMap<V, A>, b: TotalVecMap<V, A>| #[trigger] <TotalVecMap<V, A> as PartialEqSpec<TotalVecMap<V, A>>>::eq_spec(&a, &b) <==> oc(a, b) == Ordering::Equal by { thm_lexc_eq(a.0@, b.0@); lemma_eq_laws(a.1, b.1); }
    assert forall|a: TotalVecMap<V, A>, b: TotalVecMap<V, A>| #[trigger] <TotalVecMap<V, A> as PartialOrdSpec<TotalVecMap<V, A>>>::partial_cmp_spec(&a, &b) == Some(oc(a, b)) by { thm_lexp(a.0@, b.0@); lemma_pcmp_laws(a.1, b.1); }
    assert forall|a: TotalVecMap<V, A>, b: TotalVecMap<V, A>| #[trigger] <TotalVecMap<V, A> as PartialEqSpec<TotalVecMap<V, A>>>::eq_spec(&a, &b) implies a.hs() == b.hs() by { thm_hash(a.0@, b.0@); }
    assert(<TotalVecMap<V, A> as OrdSpec>::obeys_cmp_spec()) by { reveal(ord_laws); }
    assert(<TotalVecMap<V, A> as PartialEqSpec<TotalVecMap<V, A>>>::obeys_eq_spec()) by { reveal(eq_laws); }
    assert(<TotalVecMap<V, A> as PartialOrdSpec<TotalVecMap<V, A>>>::obeys_partial_cmp_spec()) by { reveal(pcmp_laws); }
    reveal(ord_laws); reveal(eq_laws); reveal(pcmp_laws); reveal(hash_laws);
}
