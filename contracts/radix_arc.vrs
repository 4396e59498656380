//@ tag rx
//@ # ---- the flavour ArcRadixTree (contract text is written for `RadixTree` and renamed by `subst`) ----------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@ struct src/radix_tree/arc_radix_tree.rs ArcRadixTree
//@ rw `where K : TKey , V : TValue ,` => ``
//@ include radix_view.vrs
/// trusted: `Arc::make_mut` on the children (copy on write: other handles to the allocation keep their value; a copy has the same content)
#[verifier::external_body]
fn vx_make_mut_children<K: TKey, V: TValue>(a: &mut Arc<Vec<RadixTree<K, V>>>) -> (r: &mut Vec<RadixTree<K, V>>)
    requires clone_ok::<K>(), clone_ok::<V>()
    ensures vs(r@) == vs(old(a)@), **final(a) == *final(r)
{ unimplemented!() }
/// trusted: the shared empty vector
#[verifier::external_body]
fn empty_arc<T>() -> (r: Arc<Vec<T>>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
//@ fn src/radix_tree/arc_radix_tree.rs | - | wrap_in_arc
//@ ret r
    ensures r@ == data@
//@ end
    proof { assert(vx_r@ =~= data@); }
//@ endfn
//@ tag rxn
//@ forbid src/radix_tree/arc_radix_tree.rs AbstractRadixTree is_empty intersects is_disjoint iter into_iter values contains_key get is_subset is_superset materialize_shortened outer_combine inner_combine left_combine scan_prefix
//@ forbid src/radix_tree/arc_radix_tree.rs AbstractRadixTreeMut split unsplit prepend0 outer_combine_children_with inner_combine_children_with left_combine_children_with retain_prefix_children_with remove_prefix_children_with empty leaf single insert filter_prefix prepend union union_with intersection intersection_with difference difference_with outer_combine_with inner_combine_with left_combine_with remove_prefix_with retain_prefix_with
//@ forbid src/radix_tree/arc_radix_tree.rs Clone clone clone_from
//@ forbid src/radix_tree/arc_radix_tree.rs Drop drop
//@ forbid src/radix_tree/mod.rs Clone clone clone_from
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/arc_radix_tree.rs | ArcRadixTree | children_arc
//@ ret r
    ensures *r == self.children
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | ArcRadixTree | children_arc_mut
//@ ret r
    ensures *r == old(self).children, *final(self) == (RadixTree { children: *final(r), ..*old(self) })
//@ endfn
}
impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for RadixTree<K, V> {
    spec fn kids(&self) -> Seq<Self> { self.children@ }
    proof fn lemma_tree(&self) { lemma_view(*self); }
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArcRadixTree | prefix
//@ rw `& self . prefix` => `self.prefix.as_ref()`
//@ start
    proof { lemma_view(*self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArcRadixTree | value
//@ start
    proof { lemma_view(*self); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTree for ArcRadixTree | children
//@ rw `self . children_arc ( ) . as_ref ( )` => `self.children_arc().as_slice()`
//@ start
    proof { lemma_view(*self); }
//@ endfn
}
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTreeMut for ArcRadixTree | new
//@ ret r
    ensures r@ == (TV { p: prefix@, v: value, c: vs(children@) })
//@ end
    proof { lemma_view(vx_r); }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTreeMut for ArcRadixTree | value_mut
//@ ret r
    ensures *r == old(self)@.v, final(self)@ == (TV { v: *final(r), ..old(self)@ })
//@ start
    proof { lemma_view(*self); assert forall|o: Option<V>| #[trigger] (RadixTree { value: o, ..*self })@ == (TV { v: o, ..self@ }) by { lemma_view(RadixTree { value: o, ..*self }); } }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTreeMut for ArcRadixTree | children_mut
//@ ret r
    requires clone_ok::<K>(), clone_ok::<V>()
    ensures vs(r@) == old(self)@.c, final(self)@ == (TV { c: vs(final(r)@), ..old(self)@ })
//@ rw `Arc :: make_mut ( $$x )` => `vx_make_mut_children($x)`
//@ start
    proof { lemma_view(*self); assert forall|c: Arc<Vec<RadixTree<K, V>>>| #[trigger] (RadixTree { children: c, ..*self })@ == (TV { c: vs(c@), ..self@ }) by { lemma_view(RadixTree { children: c, ..*self }); } }
//@ endfn
//@ fn src/radix_tree/arc_radix_tree.rs | AbstractRadixTreeMut for ArcRadixTree | prefix_mut
//@ ret r
    ensures r@ == old(self)@.p, final(self)@ == (TV { p: final(r)@, ..old(self)@ })
//@ start
    proof { lemma_view(*self); assert forall|p: Fragment<K>| #[trigger] (RadixTree { prefix: p, ..*self })@ == (TV { p: p@, ..self@ }) by { lemma_view(RadixTree { prefix: p, ..*self }); } }
//@ endfn
}
//@ head src/radix_tree/arc_radix_tree.rs Default for ArcRadixTree
    spec fn is_default(&self) -> bool { self@ == tnil::<K, V>() }
//@ fn src/radix_tree/arc_radix_tree.rs | Default for ArcRadixTree | default
//@ end
    proof { lemma_view(vx_r); assert(vs(vx_r.children@) =~= Seq::empty()); }
//@ endfn
}
