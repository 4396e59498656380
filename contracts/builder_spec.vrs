//@ # what the operations of the two in-place builders of inplace-vec-builder do to (target, source); stated once, proved of the
//@ # dependency's code in t_builder.vrs, and what the merge states rely on in every other unit
spec fn bs_consume<T>(t0: Seq<T>, s0: Seq<T>, n: int, take: bool, t1: Seq<T>, s1: Seq<T>) -> bool {
    let k = if n <= s0.len() { n } else { s0.len() as int };
    &&& s1 == s0.skip(k)
    &&& t1 == if take { t0 + s0.take(k) } else { t0 }
}
spec fn bs_push<T>(t0: Seq<T>, s0: Seq<T>, v: T, t1: Seq<T>, s1: Seq<T>) -> bool { s1 == s0 && t1 == t0.push(v) }
spec fn bs_pop<T>(t0: Seq<T>, s0: Seq<T>, r: Option<T>, t1: Seq<T>, s1: Seq<T>) -> bool {
    &&& t1 == t0
    &&& s0.len() == 0 ==> r.is_none() && s1 == s0
    &&& s0.len() > 0 ==> r == Some(s0[0]) && s1 == s0.skip(1)
}
spec fn bs_reserve<T>(t0: Seq<T>, s0: Seq<T>, t1: Seq<T>, s1: Seq<T>) -> bool { t1 == t0 && s1 == s0 }
/// an iterator as `extend_from_iter` sees it: what is left to come, and what its owner is left with afterwards
trait VxIter: Sized {
    type Item;
    type Src;
    spec fn src(&self) -> Seq<Self::Src>;
    spec fn okk(s: Self::Src) -> bool;
    spec fn rel(s: Self::Src, i: Self::Item) -> bool;
    #[verifier::prophetic]
    spec fn after(&self) -> Seq<Self::Src>;
    fn next(&mut self) -> (r: Option<Self::Item>)
      requires old(self).src().len() > 0 ==> Self::okk(old(self).src()[0])
      ensures final(self).after() == old(self).after(),
        old(self).src().len() == 0 ==> r is None && final(self).src() == old(self).src(),
        old(self).src().len() > 0 ==> r is Some && Self::rel(old(self).src()[0], r->Some_0) && final(self).src() == old(self).src().skip(1);
    /// the drop of the iterator at the end of its scope
    fn vx_drop(self) ensures self.after() == self.src();
}
spec fn bs_extend<I: VxIter>(i: I, n: int, t0: Seq<I::Item>, s0: Seq<I::Item>, t1: Seq<I::Item>, s1: Seq<I::Item>) -> bool {
    let k = if n <= i.src().len() { n } else { i.src().len() as int };
    &&& s1 == s0
    &&& t1.len() == t0.len() + k
    &&& t1.take(t0.len() as int) == t0
    &&& forall|j: int| 0 <= j < k ==> I::rel(i.src()[j], #[trigger] t1[t0.len() + j])
}
