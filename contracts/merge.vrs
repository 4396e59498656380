//@ tag merge
//@ include fold.vrs
//@ # ---- the binary-merge dependency: trait contracts, and the real default method bodies ---------
trait MergeState {
    type A;
    type B;
    type Out;
    /// whatever no operation may change (the prophesied final value of a borrowed collection)
    type Fr;
    spec fn fr(&self) -> Self::Fr;
    spec fn a(&self) -> Seq<Self::A>;
    spec fn b(&self) -> Seq<Self::B>;
    spec fn out(&self) -> Self::Out;
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeState | a_slice
//@ ret r
        ensures r@ == self.a()
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeState | b_slice
//@ ret r
        ensures r@ == self.b()
//@ endfn
}

trait MergeOperation<M: MergeState>: Sized {
    spec fn ops(&self) -> Ops<M::Out, M::A, M::B>;
    #[verifier::prophetic]
    spec fn okk(&self) -> bool;
    /// which elements the operation accepts
    spec fn oka(&self, a: M::A) -> bool { true }
    spec fn okb(&self, b: M::B) -> bool { true }
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | cmp
//@ ret r
      requires self.okk(), self.oka(*a), self.okb(*b)
      ensures r == (self.ops().cmp)(*a, *b)
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | from_a
//@ ret r
       requires self.okk(), 0 < n <= old(m).a().len(), forall|i: int| 0 <= i < n ==> self.oka(#[trigger] old(m).a()[i])
       ensures final(m).fr() == old(m).fr(), final(m).out() == self.ops().fold_a(old(m).out(), old(m).a().take(n as int)),
         r ==> final(m).a() == old(m).a().skip(n as int) && final(m).b() == old(m).b(),
         !r ==> self.ops().absorbing(final(m).out())
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | from_b
//@ ret r
       requires self.okk(), 0 < n <= old(m).b().len(), forall|j: int| 0 <= j < n ==> self.okb(#[trigger] old(m).b()[j])
       ensures final(m).fr() == old(m).fr(), final(m).out() == self.ops().fold_b(old(m).out(), old(m).b().take(n as int)),
         r ==> final(m).a() == old(m).a() && final(m).b() == old(m).b().skip(n as int),
         !r ==> self.ops().absorbing(final(m).out())
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | collision
//@ ret r
       requires self.okk(), old(m).a().len() > 0, old(m).b().len() > 0, self.oka(old(m).a()[0]), self.okb(old(m).b()[0])
       ensures final(m).fr() == old(m).fr(), final(m).out() == (self.ops().ec)(old(m).out(), old(m).a()[0], old(m).b()[0]),
         r ==> final(m).a() == old(m).a().skip(1) && final(m).b() == old(m).b().skip(1),
         !r ==> self.ops().absorbing(final(m).out())
//@ endfn
}
/// all elements are accepted by the operation
spec fn oks<M: MergeState, O: MergeOperation<M>>(o: &O, a: Seq<M::A>, b: Seq<M::B>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> o.oka(#[trigger] a[i])) && (forall|j: int| 0 <= j < b.len() ==> o.okb(#[trigger] b[j]))
}
/// the default methods of MergeOperation, lifted to a blanket-implemented trait because Verus has
/// no recursion in default methods (no impl overrides them: checked by `forbid` directives)
trait MergeOps<M: MergeState>: MergeOperation<M> {
    fn tape_merge(&self, m: &mut M) -> (r: bool)
       requires self.okk(), oks::<M, Self>(self, old(m).a(), old(m).b())
       ensures final(m).fr() == old(m).fr(), final(m).out() == self.ops().fold(old(m).out(), old(m).a(), old(m).b());
    fn binary_merge(&self, m: &mut M, an: usize, bn: usize) -> (r: bool)
       requires self.okk(), oks::<M, Self>(self, old(m).a(), old(m).b()), an <= old(m).a().len(), bn <= old(m).b().len(),
          self.ops().mono(old(m).a().take(an as int), old(m).b().take(bn as int))
       ensures final(m).fr() == old(m).fr(), final(m).out() == self.ops().fold(old(m).out(), old(m).a().take(an as int), old(m).b().take(bn as int)),
         r ==> final(m).a() == old(m).a().skip(an as int) && final(m).b() == old(m).b().skip(bn as int),
         !r ==> self.ops().absorbing(final(m).out());
    fn merge(&self, m: &mut M) -> (r: bool)
       requires self.okk(), oks::<M, Self>(self, old(m).a(), old(m).b()), self.ops().mono(old(m).a(), old(m).b())
       ensures final(m).fr() == old(m).fr(), final(m).out() == self.ops().fold(old(m).out(), old(m).a(), old(m).b());
}
#[verifier::external_body]
fn mcm_threshold() -> usize { 8 }

impl<M: MergeState, O: MergeOperation<M>> MergeOps<M> for O {
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | tape_merge
//@ ret r
//@ loop 0
            invariant self.okk(), oks::<M, Self>(self, m.a(), m.b()), m.fr() == old(m).fr(),
              self.ops().fold(m.out(), m.a(), m.b()) == self.ops().fold(old(m).out(), old(m).a(), old(m).b())
            decreases m.a().len() + m.b().len()
//@ loopstart 0
            let ghost (o1, a1, b1) = (m.out(), m.a(), m.b());
            proof {
              if m.a().len() > 0 { reveal_with_fuel(Ops::fold_a, 2); assert(m.a().take(1).skip(1) =~= seq![]);  assert(m.a().take(m.a().len() as int) =~= m.a());}
              if m.b().len() > 0 { reveal_with_fuel(Ops::fold_b, 2); assert(m.b().take(1).skip(1) =~= seq![]);  assert(m.b().take(m.b().len() as int) =~= m.b());}
            }
//@ before `return false`
                    proof {
                        lemma_fold_absorb(self.ops(), m.out(), a1.skip(1), b1);
                        lemma_fold_absorb(self.ops(), m.out(), a1.skip(1), b1.skip(1));
                        lemma_fold_absorb(self.ops(), m.out(), a1, b1.skip(1));
                    }
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | binary_merge
//@ ret r
       decreases an
//@ start
        let ghost a0 = m.a().take(an as int);
        let ghost b0 = m.b().take(bn as int);
        let ghost ops = self.ops();
        broadcast use lemma_fold_absorb_b;
        proof {
          assert(m.a().skip(0) =~= m.a());
          assert(m.b().skip(0) =~= m.b());
        }
//@ after `let a = & m . a_slice ( ) [ am ] ;`
            proof { assert(*a == a0[am as int]); }
//@ closure 0 |b| -> (r: Ordering) requires self.okb(*b) ensures r == rev((self.ops().cmp)(*a, *b))
//@ before `self . binary_merge ( m , am , bm )`
                    proof { lemma_binary_ok(ops, m.out(), a0, b0, am as int, bm as int, m.a(), m.b()); }
//@ before `self . binary_merge ( m , am , bi )`
                    proof { lemma_binary_err(ops, m.out(), a0, b0, am as int, bi as int, m.a(), m.b()); }
//@ endfn
//@ fn dep:binary-merge-0.1.2/src/lib.rs | trait MergeOperation | merge
//@ ret r
//@ rw `Self :: MCM_THRESHOLD` => `mcm_threshold()`
//@ start
        proof { assert(m.a().take(m.a().len() as int) =~= m.a()); assert(m.b().take(m.b().len() as int) =~= m.b()); }
//@ endfn
}
