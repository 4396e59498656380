//@ include state_base.vrs
//@ tag base
trait MergeStateMut: MergeState {
    /// effect of taking one element of a / of b
    spec fn ta(o: Self::Out, a: Self::A) -> Self::Out;
    spec fn tb(o: Self::Out, b: Self::B) -> Self::Out;
    /// may elements of a / of b be taken at all
    spec fn can_a() -> bool;
    spec fn can_b() -> bool;
//@ fn src/merge_state.rs | trait MergeStateMut | advance_a
//@ ret r
      requires 0 < n <= old(self).a().len(), take ==> Self::can_a()
      ensures final(self).fr() == old(self).fr(), final(self).out() == if take { fold_seq(|o, x| Self::ta(o, x), old(self).out(), old(self).a().take(n as int)) } else { old(self).out() },
        r ==> final(self).a() == old(self).a().skip(n as int) && final(self).b() == old(self).b(),
        !r ==> (forall|x| #[trigger] Self::ta(final(self).out(), x) == final(self).out()) && (forall|x| #[trigger] Self::tb(final(self).out(), x) == final(self).out())
//@ endfn
//@ fn src/merge_state.rs | trait MergeStateMut | advance_b
//@ ret r
      requires 0 < n <= old(self).b().len(), take ==> Self::can_b()
      ensures final(self).fr() == old(self).fr(), final(self).out() == if take { fold_seq(|o, x| Self::tb(o, x), old(self).out(), old(self).b().take(n as int)) } else { old(self).out() },
        r ==> final(self).b() == old(self).b().skip(n as int) && final(self).a() == old(self).a(),
        !r ==> (forall|x| #[trigger] Self::ta(final(self).out(), x) == final(self).out()) && (forall|x| #[trigger] Self::tb(final(self).out(), x) == final(self).out())
//@ endfn
}
