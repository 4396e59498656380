/// the value a node stands for
spec fn rview<K, V>(t: RadixTree<K, V>) -> TV<K, V>
    decreases t
{ TV { p: t.prefix@, v: t.value, c: Seq::new(t.children@.len(), |i: int| if 0 <= i < t.children@.len() { rview(t.children@[i]) } else { arbitrary() }) } }
impl<K, V> View for RadixTree<K, V> { type V = TV<K, V>; closed spec fn view(&self) -> TV<K, V> { rview(*self) } }
proof fn lemma_view<K, V>(t: RadixTree<K, V>)
    ensures t@ == (TV { p: t.prefix@, v: t.value, c: vs(t.children@) }), t@.c.len() == t.children@.len(), forall|i: int| 0 <= i < t.children@.len() ==> t@.c[i] == (#[trigger] t.children@[i])@
{
    assert forall|i: int| 0 <= i < t.children@.len() implies t@.c[i] == (#[trigger] t.children@[i])@ by { reveal_with_fuel(rview, 2); }
    assert(t@.c =~= vs(t.children@));
}
