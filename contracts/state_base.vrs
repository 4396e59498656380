//@ include merge.vrs
//@ forbid src/vec_set.rs MergeOperation merge tape_merge binary_merge
//@ forbid src/vec_map.rs MergeOperation merge tape_merge binary_merge
//@ forbid src/radix_tree/mod.rs MergeOperation merge tape_merge binary_merge
//@ tag base
//@ # ---- src/iterators.rs: SliceIterator -----------------------------------------------------------
//@ struct src/iterators.rs SliceIterator
impl<'a, T> View for SliceIterator<'a, T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.0@ } }
impl<'a, T> SliceIterator<'a, T> {
//@ fn src/iterators.rs | Iterator for SliceIterator | next
//@ ret r
//@ sigrw `Self :: Item` => `&'a T`
       ensures
       old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
       old(self)@.len() > 0 ==> r == Some(&old(self)@[0]) && final(self)@ == old(self)@.skip(1)
//@ rw `let res : Self :: Item =` => `let res: &'a T =`
//@ rw `& self . 0 [ 1 .. ]` => `vstd::slice::slice_subrange(self.0, 1, self.0.len())`
//@ endfn
//@ fn src/iterators.rs | SliceIterator | as_slice
//@ ret r
    ensures r@ == self@
//@ endfn
//@ fn src/iterators.rs | SliceIterator | drop_front
    requires n <= old(self)@.len()
    ensures final(self)@ == old(self)@.skip(n as int)
//@ rw `& self . 0 [ n .. ]` => `vstd::slice::slice_subrange(self.0, n, self.0.len())`
//@ endfn
//@ fn src/iterators.rs | SliceIterator | take_front
//@ ret r
    requires n <= old(self)@.len()
    ensures final(self)@ == old(self)@.skip(n as int), r@ == old(self)@.take(n as int)
//@ rw `& self . 0 [ n .. ]` => `vstd::slice::slice_subrange(self.0, n, self.0.len())`
//@ rw `& self . 0 [ .. n ]` => `vstd::slice::slice_subrange(self.0, 0, n)`
//@ endfn
}
//@ # ---- src/merge_state.rs -------------------------------------------------------------------------
spec fn fold_seq<O, T>(f: spec_fn(O, T) -> O, o: O, s: Seq<T>) -> O
    decreases s.len()
{
    if s.len() == 0 { o } else { fold_seq(f, f(o, s[0]), s.skip(1)) }
}
proof fn lemma_fold_push<T, U>(f: spec_fn(Seq<U>, T) -> Seq<U>, g: spec_fn(T) -> U, o: Seq<U>, s: Seq<T>)
    requires forall|o: Seq<U>, x: T| #[trigger] f(o, x) == o.push(g(x))
    ensures fold_seq(f, o, s) == o + s.map_values(g)
    decreases s.len()
{
    if s.len() == 0 { assert(o + s.map_values(g) =~= o); }
    else {
        lemma_fold_push(f, g, o.push(g(s[0])), s.skip(1));
        assert(o.push(g(s[0])) + s.skip(1).map_values(g) =~= o + s.map_values(g));
    }
}
