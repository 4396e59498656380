//@ tag bool
//@ # BoolOpMergeState
//@ struct src/merge_state.rs BoolOpMergeState
//@ head src/merge_state.rs MergeState for BoolOpMergeState
//@ types src/merge_state.rs MergeState for BoolOpMergeState
    type Fr = ();
    spec fn fr(&self) -> () { () }
    type Out = bool;
    spec fn a(&self) -> Seq<A> { self.a@ }
    spec fn b(&self) -> Seq<B> { self.b@ }
    spec fn out(&self) -> bool { self.r }
//@ fn src/merge_state.rs | MergeState for BoolOpMergeState | a_slice
//@ endfn
//@ fn src/merge_state.rs | MergeState for BoolOpMergeState | b_slice
//@ endfn
}
//@ head src/merge_state.rs MergeStateMut for BoolOpMergeState
    spec fn ta(o: bool, a: A) -> bool { true }
    spec fn tb(o: bool, b: B) -> bool { true }
    spec fn can_a() -> bool { true }
    spec fn can_b() -> bool { true }
//@ fn src/merge_state.rs | MergeStateMut for BoolOpMergeState | advance_a
//@ start
    proof {
        assert forall|o: bool, x: A| #[trigger] Self::ta(o, x) == true by {}
        assert forall|o: bool, x: B| #[trigger] Self::tb(o, x) == true by {}
        lemma_fold_true(|o: bool, x: A| Self::ta(o, x), self.r, self.a@.take(n as int));
    }
//@ endfn
//@ fn src/merge_state.rs | MergeStateMut for BoolOpMergeState | advance_b
//@ start
    proof {
        assert forall|o: bool, x: A| #[trigger] Self::ta(o, x) == true by {}
        assert forall|o: bool, x: B| #[trigger] Self::tb(o, x) == true by {}
        lemma_fold_true(|o: bool, x: B| Self::tb(o, x), self.r, self.b@.take(n as int));
    }
//@ endfn
}
proof fn lemma_fold_true<T>(f: spec_fn(bool, T) -> bool, o: bool, s: Seq<T>)
    requires forall|o: bool, x: T| #[trigger] f(o, x)
    ensures s.len() > 0 ==> fold_seq(f, o, s)
    decreases s.len()
{
    if s.len() > 1 { lemma_fold_true(f, f(o, s[0]), s.skip(1)); } else if s.len() == 1 { assert(s.skip(1) =~= seq![]); assert(fold_seq(f, f(o, s[0]), s.skip(1)) == f(o, s[0])); }
}
//@ head src/merge_state.rs BoolOpMergeState # new
//@ fn src/merge_state.rs | BoolOpMergeState | new
//@ ret r
    ensures r.a@ == a@, r.b@ == b@, r.r == false
//@ endfn
}
//@ head src/merge_state.rs BoolOpMergeState # merge
//@ fn src/merge_state.rs | BoolOpMergeState | merge
//@ ret r
    requires o.okk(), oks::<Self, O>(&o, a@, b@), o.ops().mono(a@, b@)
    ensures r == o.ops().fold(false, a@, b@)
//@ endfn
}
