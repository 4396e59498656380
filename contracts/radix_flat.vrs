//@ tag rx
//@ # ---- the tree and its accessors ------------------------------------------------------------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/flat_radix_tree.rs RadixTree
//@ include radix_view.vrs
//@ tag rxn
//@ forbid src/radix_tree/flat_radix_tree.rs AbstractRadixTree is_empty intersects is_disjoint iter into_iter values contains_key get is_subset is_superset materialize_shortened outer_combine inner_combine left_combine scan_prefix
//@ forbid src/radix_tree/flat_radix_tree.rs AbstractRadixTreeMut split unsplit prepend0 outer_combine_children_with inner_combine_children_with left_combine_children_with retain_prefix_children_with remove_prefix_children_with empty leaf single insert filter_prefix prepend union union_with intersection intersection_with difference difference_with outer_combine_with inner_combine_with left_combine_with remove_prefix_with retain_prefix_with
//@ forbid src/radix_tree/flat_radix_tree.rs PartialEq eq ne
//@ forbid src/radix_tree/flat_radix_tree.rs Clone clone clone_from
//@ forbid src/radix_tree/mod.rs PartialEq eq ne
//@ forbid src/radix_tree/mod.rs Clone clone clone_from
//@ # ---- the accessors of RadixTree ------------------------------------------------------------------------------
impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for RadixTree<K, V> {
    spec fn kids(&self) -> Seq<Self> { self.children@ }
    proof fn lemma_tree(&self) { lemma_view(*self); }
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for RadixTree | prefix
//@ rw `& self . prefix` => `self.prefix.as_ref()`
//@ start
    proof { lemma_view(*self); }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for RadixTree | value
//@ start
    proof { lemma_view(*self); }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTree for RadixTree | children
//@ rw `& self . children` => `self.children.as_slice()`
//@ start
    proof { lemma_view(*self); }
//@ endfn
}
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTreeMut for RadixTree | new
//@ ret r
    ensures r@ == (TV { p: prefix@, v: value, c: vs(children@) })
//@ end
    proof { lemma_view(vx_r); }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTreeMut for RadixTree | value_mut
//@ ret r
    ensures *r == old(self)@.v, final(self)@ == (TV { v: *final(r), ..old(self)@ })
//@ start
    proof { lemma_view(*self); assert forall|o: Option<V>| #[trigger] (RadixTree { value: o, ..*self })@ == (TV { v: o, ..self@ }) by { lemma_view(RadixTree { value: o, ..*self }); } }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTreeMut for RadixTree | children_mut
//@ ret r
    ensures vs(r@) == old(self)@.c, *r == old(self).children, final(self)@ == (TV { c: vs(final(r)@), ..old(self)@ })
//@ start
    proof { lemma_view(*self); assert forall|c: Vec<RadixTree<K, V>>| #[trigger] (RadixTree { children: c, ..*self })@ == (TV { c: vs(c@), ..self@ }) by { lemma_view(RadixTree { children: c, ..*self }); } }
//@ endfn
//@ fn src/radix_tree/flat_radix_tree.rs | AbstractRadixTreeMut for RadixTree | prefix_mut
//@ ret r
    ensures r@ == old(self)@.p, final(self)@ == (TV { p: final(r)@, ..old(self)@ })
//@ start
    proof { lemma_view(*self); assert forall|p: Fragment<K>| #[trigger] (RadixTree { prefix: p, ..*self })@ == (TV { p: p@, ..self@ }) by { lemma_view(RadixTree { prefix: p, ..*self }); } }
//@ endfn
}
//@ head src/radix_tree/flat_radix_tree.rs Default for RadixTree
    spec fn is_default(&self) -> bool { self@ == tnil::<K, V>() }
//@ fn src/radix_tree/flat_radix_tree.rs | Default for RadixTree | default
//@ end
    proof { lemma_view(vx_r); assert(vs(vx_r.children@) =~= Seq::empty()); }
//@ endfn
}
