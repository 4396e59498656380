//@ # ---- an archived tree: what it stands for, what validation accepts (text written for `Arch` and renamed by `subst`)
spec fn aview<K, V>(t: Arch<K, V>) -> TV<K, V>
    decreases t
{ TV { p: t.prefix@, v: t.value, c: Seq::new(t.children@.len(), |i: int| if 0 <= i < t.children@.len() { aview(t.children@[i]) } else { arbitrary() }) } }
impl<K, V> View for Arch<K, V> { type V = TV<K, V>; closed spec fn view(&self) -> TV<K, V> { aview(*self) } }
spec fn avs<K, V>(s: Seq<Arch<K, V>>) -> Seq<TV<K, V>> { s.map_values(|t: Arch<K, V>| t@) }
proof fn lemma_aview<K, V>(t: Arch<K, V>)
    ensures t@ == (TV { p: t.prefix@, v: t.value, c: avs(t.children@) }), t@.c.len() == t.children@.len(), forall|i: int| 0 <= i < t.children@.len() ==> t@.c[i] == (#[trigger] t.children@[i])@
{
    assert forall|i: int| 0 <= i < t.children@.len() implies t@.c[i] == (#[trigger] t.children@[i])@ by { reveal_with_fuel(aview, 2); }
    assert(t@.c =~= avs(t.children@));
}
/// every part of the node and of the nodes below is valid, and every child has a non-empty label whose first component is greater than its predecessor's
spec fn achecked<C, K: Ord + CheckBytes<C>, V: CheckBytes<C>>(t: Arch<K, V>) -> bool
    decreases t
{
    &&& <ArchivedVec<K> as CheckBytes<C>>::checked(&t.prefix)
    &&& <Option<V> as CheckBytes<C>>::checked(&t.value)
    &&& backed(&t.children)
    &&& forall|i: int| 0 <= i < t.children@.len() ==> achecked::<C, K, V>(#[trigger] t.children@[i])
    &&& alabels(t)
}
spec fn alabels<K: Ord, V>(t: Arch<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < t.children@.len() ==> (#[trigger] t.children@[i]).prefix@.len() > 0
    &&& forall|i: int, j: int| 0 <= i < j < t.children@.len() ==> #[trigger] oc(t.children@[i].prefix@[0], t.children@[j].prefix@[0]) == Ordering::Less
}
/// a validated tree has sorted, non-empty labels at every level; what is archived from a canonical tree is accepted as far as its shape goes
proof fn lemma_achecked<C, K: Ord + CheckBytes<C>, V: CheckBytes<C>>(t: Arch<K, V>)
    requires achecked::<C, K, V>(t)
    ensures shaped(t@)
    decreases t
{
    lemma_aview(t);
    assert forall|i: int| 0 <= i < t.children@.len() implies shaped(#[trigger] t@.c[i]) && t@.c[i].p.len() > 0 && t@.c[i].p == t.children@[i].prefix@ by { assert(t.children@[i].prefix@.len() > 0); lemma_achecked::<C, K, V>(t.children@[i]); lemma_aview(t.children@[i]); }
    assert forall|i: int, j: int| 0 <= i < j < t@.c.len() implies #[trigger] oc(t@.c[i].p[0], t@.c[j].p[0]) == Ordering::Less by { lemma_aview(t.children@[i]); lemma_aview(t.children@[j]); assert(oc(t.children@[i].prefix@[0], t.children@[j].prefix@[0]) == Ordering::Less); }
}
/// neighbours suffice
spec fn anb<K: Ord, V>(c: Seq<Arch<K, V>>, i: int) -> bool { oc(c[i].prefix@[0], c[i + 1].prefix@[0]) == Ordering::Less }
spec fn aneighbours<K: Ord, V>(c: Seq<Arch<K, V>>) -> bool { forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] anb(c, i) }
proof fn lemma_aneighbours<K: Ord, V>(c: Seq<Arch<K, V>>, i: int, j: int)
    requires ord_laws::<K>(), aneighbours(c), 0 <= i < j < c.len()
    ensures oc(c[i].prefix@[0], c[j].prefix@[0]) == Ordering::Less
    decreases j - i
{
    assert(anb(c, i));
    if i + 1 < j { lemma_aneighbours(c, i + 1, j); lemma_laws(c[i].prefix@[0], c[i + 1].prefix@[0], c[j].prefix@[0]); }
}
proof fn lemma_alabels<C, K: Ord + CheckBytes<C>, V: CheckBytes<C>>(t: Arch<K, V>)
    requires ord_laws::<K>()
    ensures (forall|i: int| 0 <= i < t.children@.len() ==> (#[trigger] t.children@[i]).prefix@.len() > 0) && aneighbours(t.children@) ==> alabels(t),
      forall|i: int| 0 <= i < t.children@.len() && achecked::<C, K, V>(t.children@[i]) ==> backed(&(#[trigger] t.children@[i]).prefix)
{
    let c = t.children@;
    if (forall|i: int| 0 <= i < t.children@.len() ==> (#[trigger] t.children@[i]).prefix@.len() > 0) && aneighbours(c) { assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] oc(c[i].prefix@[0], c[j].prefix@[0]) == Ordering::Less by { lemma_aneighbours(c, i, j); } }
    assert forall|i: int| 0 <= i < c.len() && achecked::<C, K, V>(c[i]) implies backed(&(#[trigger] c[i]).prefix) by { assert(<ArchivedVec<K> as CheckBytes<C>>::checked(&c[i].prefix)); }
}
/// trusted: rkyv checks the children of a node by the node type's own `check_bytes` (its contract, one level down)
#[verifier::external_body]
fn check_children_rec<C, K: TKey + CheckBytes<C>, V: TValue + CheckBytes<C>>(value: &ArchivedVec<Arch<K, V>>, context: &mut C) -> (r: Result<usize, ChildrenError>)
    requires K::creq(), V::creq(), ord_laws::<K>(), po_ok::<K>()
    ensures r is Ok == (backed(value) && forall|i: int| 0 <= i < value@.len() ==> achecked::<C, K, V>(#[trigger] value@[i]))
{ unimplemented!() }
