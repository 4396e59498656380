//@ # archived trees as instances of the interface the generic contracts are stated over
//@ include prelude.vrs
//@ include setlemmas.vrs
//@ include radix_base.vrs
//@ include arch_base.vrs
//@ include arch_flat.vrs
//@ subst rview rview_arc
//@ subst lemma_view lemma_view_arc
//@ subst axiom_only_checked_tree axiom_only_checked_tree_arc
//@ include arch_arc.vrs
//@ unsubst
//@ subst rview rview_lazy
//@ subst lemma_view lemma_view_lazy
//@ subst axiom_only_checked_tree axiom_only_checked_tree_lazy
//@ include arch_lazy.vrs
//@ unsubst
} // verus!
fn main() {}
