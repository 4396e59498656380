//@ tag rx
//@ # ---- the archived tree and its accessors (only looked at: nothing builds one here) -----------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/arc_radix_tree.rs ArchivedArcRadixTree
//@ rw `Archived < Vec < K > >` => `ArchivedVec<K>`
//@ rw `Archived < Option < V > >` => `Option<V>`
//@ rw `Archived < Arc < Vec < $x < K , V > > > >` => `ArchivedVec<ArchivedArcRadixTree<K, V>>`
//@ rw `where K : TKey , V : TValue ,` => ``
//@ subst RadixTree ArchivedArcRadixTree
//@ include radix_view.vrs
//@ unsubst
/// trusted: methods are only called on a reference into an archive that has been checked, so its vectors can be looked at
#[verifier::external_body]
proof fn axiom_only_checked_tree<K, V>(t: &ArchivedArcRadixTree<K, V>)
    ensures backed(&t.prefix), backed(&t.children)
{}
//@ tag rxn
//@ forbid src/radix_tree/arc_radix_tree.rs AbstractRadixTree is_empty intersects is_disjoint iter into_iter values contains_key get is_subset is_superset materialize_shortened outer_combine inner_combine left_combine scan_prefix
impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for ArchivedArcRadixTree<K, V> {
    spec fn kids(&self) -> Seq<Self> { self.children@ }
    proof fn lemma_tree(&self) { lemma_view(*self); }
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | prefix
//@ rw `& self . prefix` => `self.prefix.as_slice()`
//@ start
    proof { lemma_view(*self); axiom_only_checked_tree(self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | value
//@ start
    proof { lemma_view(*self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArchivedArcRadixTree | children
//@ rw `& self . children` => `self.children.as_slice()`
//@ start
    proof { lemma_view(*self); axiom_only_checked_tree(self); }
//@ endfn
}
