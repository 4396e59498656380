//@ # fold algebra of the merge algorithm: pure lemmas, no code of the repository
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
struct Ops<O, A, B> {
    ea: spec_fn(O, A) -> O,
    eb: spec_fn(O, B) -> O,
    ec: spec_fn(O, A, B) -> O,
    cmp: spec_fn(A, B) -> Ordering,
}
impl<O, A, B> Ops<O, A, B> {
spec fn fold_a(self, o: O, a: Seq<A>) -> O
    decreases a.len()
{
    if a.len() == 0 { o } else { self.fold_a((self.ea)(o, a[0]), a.skip(1)) }
}
spec fn fold_b(self, o: O, b: Seq<B>) -> O
    decreases b.len()
{
    if b.len() == 0 { o } else { self.fold_b((self.eb)(o, b[0]), b.skip(1)) }
}
spec fn fold(self, o: O, a: Seq<A>, b: Seq<B>) -> O
    decreases a.len() + b.len()
{
    if a.len() == 0 { self.fold_b(o, b) }
    else if b.len() == 0 { self.fold_a(o, a) }
    else { match (self.cmp)(a[0], b[0]) {
        Ordering::Less => self.fold((self.ea)(o, a[0]), a.skip(1), b),
        Ordering::Equal => self.fold((self.ec)(o, a[0], b[0]), a.skip(1), b.skip(1)),
        Ordering::Greater => self.fold((self.eb)(o, b[0]), a, b.skip(1)),
    } }
}
spec fn absorbing(self, o: O) -> bool {
    (forall|a| (#[trigger] (self.ea)(o, a)) == o) && (forall|b| #[trigger] (self.eb)(o, b) == o) && (forall|a, b| #[trigger] (self.ec)(o, a, b) == o)
}
/// the comparison is consistent with both inputs being strictly ascending
spec fn mono(self, a: Seq<A>, b: Seq<B>) -> bool {
    &&& forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() ==> 
         ((#[trigger] (self.cmp)(a[i], b[j]) == Ordering::Less || (self.cmp)(a[i], b[j]) == Ordering::Equal) ==> #[trigger] (self.cmp)(a[i], b[k]) == Ordering::Less)
    &&& forall|i: int, j: int, k: int| 0 <= i < k < a.len() && 0 <= j < b.len() ==> 
         ((#[trigger] (self.cmp)(a[i], b[j]) == Ordering::Greater || (self.cmp)(a[i], b[j]) == Ordering::Equal) ==> #[trigger] (self.cmp)(a[k], b[j]) == Ordering::Greater)
}
}
proof fn lemma_mono_sub<O, A, B>(op: Ops<O, A, B>, a: Seq<A>, b: Seq<B>, i: int, k: int, j: int, l: int)
    requires op.mono(a, b), 0 <= i <= k <= a.len(), 0 <= j <= l <= b.len()
    ensures op.mono(a.subrange(i, k), b.subrange(j, l))
{
    let a2 = a.subrange(i, k); let b2 = b.subrange(j, l);
    assert forall|x: int, y: int, z: int| 0 <= x < a2.len() && 0 <= y < z < b2.len() && 
         (#[trigger] (op.cmp)(a2[x], b2[y]) == Ordering::Less || (op.cmp)(a2[x], b2[y]) == Ordering::Equal) implies #[trigger] (op.cmp)(a2[x], b2[z]) == Ordering::Less by {
         assert(a2[x] == a[x+i]); assert(b2[y] == b[y+j]); assert(b2[z] == b[z+j]);
         assert((op.cmp)(a[x+i], b[y+j]) == (op.cmp)(a2[x],b2[y]));
         assert((op.cmp)(a[x+i], b[z+j]) == (op.cmp)(a2[x],b2[z]));
    }
    assert forall|x: int, y: int, z: int| 0 <= x < z < a2.len() && 0 <= y < b2.len() && 
         (#[trigger] (op.cmp)(a2[x], b2[y]) == Ordering::Greater || (op.cmp)(a2[x], b2[y]) == Ordering::Equal) implies #[trigger] (op.cmp)(a2[z], b2[y]) == Ordering::Greater by {
         assert(a2[x] == a[x+i]); assert(b2[y] == b[y+j]); assert(a2[z] == a[z+i]);
         assert((op.cmp)(a[x+i], b[y+j]) == (op.cmp)(a2[x],b2[y]));
         assert((op.cmp)(a[z+i], b[y+j]) == (op.cmp)(a2[z],b2[y]));
    }
}
proof fn lemma_fold_a_split<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, n: int)
    requires 0 <= n <= a.len()
    ensures op.fold_a(o, a) == op.fold_a(op.fold_a(o, a.take(n)), a.skip(n))
    decreases n
{
    if n == 0 { assert(a.skip(0) =~= a); }
    else {
        lemma_fold_a_split(op, (op.ea)(o, a[0]), a.skip(1), n - 1);
        assert(a.take(n).skip(1) =~= a.skip(1).take(n - 1));
        assert(a.skip(n) =~= a.skip(1).skip(n - 1));
    }
}
proof fn lemma_fold_b_split<O, A, B>(op: Ops<O, A, B>, o: O, b: Seq<B>, n: int)
    requires 0 <= n <= b.len()
    ensures op.fold_b(o, b) == op.fold_b(op.fold_b(o, b.take(n)), b.skip(n))
    decreases n
{
    if n == 0 { assert(b.skip(0) =~= b); }
    else {
        lemma_fold_b_split(op, (op.eb)(o, b[0]), b.skip(1), n - 1);
        assert(b.take(n).skip(1) =~= b.skip(1).take(n - 1));
        assert(b.skip(n) =~= b.skip(1).skip(n - 1));
    }
}
/// if all of a is below all of b, a goes first
proof fn lemma_fold_all_less<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>)
    requires forall|i: int, j:int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] (op.cmp)(a[i], b[j]) == Ordering::Less
    ensures op.fold(o, a, b) == op.fold_b(op.fold_a(o, a), b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        assert((op.cmp)(a[0], b[0]) == Ordering::Less);
        assert forall|i: int, j:int| 0 <= i < a.skip(1).len() && 0 <= j < b.len() implies #[trigger] (op.cmp)(a.skip(1)[i], b[j]) == Ordering::Less by {
          assert((op.cmp)(a[i+1], b[j]) == Ordering::Less);
        }
        lemma_fold_all_less(op, (op.ea)(o, a[0]), a.skip(1), b);
    }
}
proof fn lemma_fold_nil<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>)
    ensures b.len() == 0 ==> op.fold(o, a, b) == op.fold_a(o, a), a.len() == 0 ==> op.fold(o, a, b) == op.fold_b(o, b)
{
    if a.len() == 0 && b.len() == 0 { assert(op.fold_b(o, b) == o); assert(op.fold_a(o, a) == o); }
}
/// split at a point (i, j): everything in a[..i] is less than b[j..], everything in a[i..] is greater than b[..j]
spec fn splits<O, A, B>(op: Ops<O, A, B>, a: Seq<A>, b: Seq<B>, i: int, j: int) -> bool {
    &&& 0 <= i <= a.len() && 0 <= j <= b.len()
    &&& forall|x: int, y: int| 0 <= x < i && j <= y < b.len() ==> #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Less
    &&& forall|x: int, y: int| i <= x < a.len() && 0 <= y < j ==> #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Greater
}
proof fn lemma_fold_split<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>, i: int, j: int)
    requires splits(op, a, b, i, j)
    ensures op.fold(o, a, b) == op.fold(op.fold(o, a.take(i), b.take(j)), a.skip(i), b.skip(j))
    decreases a.len() + b.len()
{
    if i == 0 && j == 0 {
        assert(a.skip(0) =~= a); assert(b.skip(0) =~= b);
        assert(a.take(0) =~= seq![]); assert(b.take(0) =~= seq![]);
    } else if i == 0 {
        // a >= i all greater than b[..j]
        assert(a.take(0) =~= seq![]); assert(a.skip(0) =~= a);
        assert(b.take(j).skip(1) =~= b.skip(1).take(j - 1));
        assert(b.skip(1).skip(j - 1) =~= b.skip(j));
        lemma_fold_nil(op, o, a.take(0), b.take(j));
        lemma_fold_nil(op, (op.eb)(o, b[0]), a.take(0), b.take(j).skip(1));
        assert(op.fold_b(o, b.take(j)) == op.fold_b((op.eb)(o, b.take(j)[0]), b.take(j).skip(1)));
        if a.len() == 0 { lemma_fold_b_split(op, o, b, j); lemma_fold_nil(op, o, a, b); lemma_fold_nil(op, op.fold(o, a.take(0), b.take(j)), a, b.skip(j)); }
        else {
            assert((op.cmp)(a[0], b[0]) == Ordering::Greater);
            lemma_splits_tail_b(op, a, b, i, j);
            lemma_fold_split(op, (op.eb)(o, b[0]), a, b.skip(1), i, j - 1);
        }
    } else if j == 0 {
        assert(b.take(0) =~= seq![]); assert(b.skip(0) =~= b);
        assert(a.take(i).skip(1) =~= a.skip(1).take(i - 1));
        assert(a.skip(1).skip(i - 1) =~= a.skip(i));
        lemma_fold_nil(op, o, a.take(i), b.take(0));
        lemma_fold_nil(op, (op.ea)(o, a[0]), a.take(i).skip(1), b.take(0));
        assert(op.fold_a(o, a.take(i)) == op.fold_a((op.ea)(o, a.take(i)[0]), a.take(i).skip(1)));
        if b.len() == 0 { lemma_fold_a_split(op, o, a, i); lemma_fold_nil(op, o, a, b); lemma_fold_nil(op, op.fold(o, a.take(i), b.take(0)), a.skip(i), b); }
        else {
            assert((op.cmp)(a[0], b[0]) == Ordering::Less);
            lemma_splits_tail_a(op, a, b, i, j);
            lemma_fold_split(op, (op.ea)(o, a[0]), a.skip(1), b, i - 1, j);
        }
    } else {
        assert(a.take(i)[0] == a[0]); assert(b.take(j)[0] == b[0]);
        assert(a.take(i).skip(1) =~= a.skip(1).take(i - 1));
        assert(a.skip(1).skip(i - 1) =~= a.skip(i));
        assert(b.take(j).skip(1) =~= b.skip(1).take(j - 1));
        assert(b.skip(1).skip(j - 1) =~= b.skip(j));
        match (op.cmp)(a[0], b[0]) {
            Ordering::Less => { lemma_splits_tail_a(op, a, b, i, j); lemma_fold_split(op, (op.ea)(o, a[0]), a.skip(1), b, i - 1, j); }
            Ordering::Equal => { lemma_splits_tail_a(op, a, b, i, j); lemma_splits_tail_b(op, a.skip(1), b, i - 1, j); 
               lemma_fold_split(op, (op.ec)(o, a[0], b[0]), a.skip(1), b.skip(1), i - 1, j - 1); }
            Ordering::Greater => { lemma_splits_tail_b(op, a, b, i, j); lemma_fold_split(op, (op.eb)(o, b[0]), a, b.skip(1), i, j - 1); }
        }
    }
}
proof fn lemma_splits_tail_a<O, A, B>(op: Ops<O, A, B>, a: Seq<A>, b: Seq<B>, i: int, j: int)
    requires splits(op, a, b, i, j), i > 0
    ensures splits(op, a.skip(1), b, i - 1, j)
{
    let a2 = a.skip(1);
    assert forall|x: int, y: int| 0 <= x < i-1 && j <= y < b.len() implies #[trigger] (op.cmp)(a2[x], b[y]) == Ordering::Less by { assert((op.cmp)(a[x+1], b[y]) == Ordering::Less); }
    assert forall|x: int, y: int| i-1 <= x < a2.len() && 0 <= y < j implies #[trigger] (op.cmp)(a2[x], b[y]) == Ordering::Greater by { assert((op.cmp)(a[x+1], b[y]) == Ordering::Greater); }
}
proof fn lemma_splits_tail_b<O, A, B>(op: Ops<O, A, B>, a: Seq<A>, b: Seq<B>, i: int, j: int)
    requires splits(op, a, b, i, j), j > 0
    ensures splits(op, a, b.skip(1), i, j - 1)
{
    let b2 = b.skip(1);
    assert forall|x: int, y: int| 0 <= x < i && j - 1 <= y < b2.len() implies #[trigger] (op.cmp)(a[x], b2[y]) == Ordering::Less by { assert((op.cmp)(a[x], b[y+1]) == Ordering::Less); }
    assert forall|x: int, y: int| i <= x < a.len() && 0 <= y < j-1 implies #[trigger] (op.cmp)(a[x], b2[y]) == Ordering::Greater by { assert((op.cmp)(a[x], b[y+1]) == Ordering::Greater); }
}
proof fn lemma_fold_absorb<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>)
    requires op.absorbing(o)
    ensures op.fold(o, a, b) == o, op.fold_a(o, a) == o, op.fold_b(o, b) == o
    decreases a.len() + b.len()
{
    if a.len() > 0 {
        lemma_fold_absorb(op, o, a.skip(1), b);
        if b.len() > 0 { lemma_fold_absorb(op, o, a.skip(1), b.skip(1)); }
    }
    if b.len() > 0 {
        lemma_fold_absorb(op, o, a, b.skip(1));
    }
}
broadcast proof fn lemma_fold_absorb_b<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>)
    requires op.absorbing(o)
    ensures #[trigger] op.fold(o, a, b) == o
{ lemma_fold_absorb(op, o, a, b); }

proof fn lemma_binary_ok<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>, am: int, bm: int, fa: Seq<A>, fb: Seq<B>)
   requires op.mono(a, b), 0 <= am < a.len(), 0 <= bm < b.len(), (op.cmp)(a[am], b[bm]) == Ordering::Equal,
      a.len() <= fa.len(), b.len() <= fb.len(), a == fa.take(a.len() as int), b == fb.take(b.len() as int),
   ensures 
      fa.take(am) == a.take(am), fb.take(bm) == b.take(bm),
      fa.skip(am).skip(1).skip(a.len() - am - 1) == fa.skip(a.len() as int),
      fb.skip(bm).skip(1).skip(b.len() - bm - 1) == fb.skip(b.len() as int),
      fa.skip(am).skip(1).take(a.len() - am - 1) == a.skip(am + 1),
      fb.skip(bm).skip(1).take(b.len() - bm - 1) == b.skip(bm + 1),
      op.mono(a.take(am), b.take(bm)), op.mono(a.skip(am + 1), b.skip(bm + 1)),
      op.fold(o, a, b) == op.fold((op.ec)(op.fold(o, a.take(am), b.take(bm)), a[am], b[bm]), a.skip(am + 1), b.skip(bm + 1))
{
  assert(fa.take(am) =~= a.take(am)); assert(fb.take(bm) =~= b.take(bm));
      assert(fa.skip(am).skip(1).skip(a.len() - am - 1) =~= fa.skip(a.len() as int));
      assert(fb.skip(bm).skip(1).skip(b.len() - bm - 1) =~= fb.skip(b.len() as int));
      assert(fa.skip(am).skip(1).take(a.len() - am - 1) =~= a.skip(am + 1));
      assert(fb.skip(bm).skip(1).take(b.len() - bm - 1) =~= b.skip(bm + 1));
  lemma_mono_sub(op, a, b, 0, am, 0, bm);
  lemma_mono_sub(op, a, b, am + 1, a.len() as int, bm + 1, b.len() as int);
  assert(a.skip(am + 1) =~= a.subrange(am + 1, a.len() as int));
  assert(b.skip(bm + 1) =~= b.subrange(bm + 1, b.len() as int));
  assert(splits(op, a, b, am, bm)) by {
    assert forall|x: int, y: int| 0 <= x < am && bm <= y < b.len() implies #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Less by {
        // a[x] vs b[bm]: if >= then a[am] > b[bm]
        let c = (op.cmp)(a[x], b[bm]);
        let d = (op.cmp)(a[am], b[bm]);
        assert(c == Ordering::Less);
        if y > bm { assert((op.cmp)(a[x], b[y]) == Ordering::Less); }
    }
    assert forall|x: int, y: int| am <= x < a.len() && 0 <= y < bm implies #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Greater by {
        let c = (op.cmp)(a[am], b[y]);
        let d = (op.cmp)(a[am], b[bm]);
        assert(c == Ordering::Greater);
        if x > am { assert((op.cmp)(a[x], b[y]) == Ordering::Greater); }
    }
  }
  lemma_fold_split(op, o, a, b, am, bm);
  assert(a.skip(am)[0] == a[am]); assert(b.skip(bm)[0] == b[bm]);
  assert(a.skip(am).skip(1) =~= a.skip(am + 1));
  assert(b.skip(bm).skip(1) =~= b.skip(bm + 1));
}
proof fn lemma_binary_err<O, A, B>(op: Ops<O, A, B>, o: O, a: Seq<A>, b: Seq<B>, am: int, bm: int, fa: Seq<A>, fb: Seq<B>)
   requires op.mono(a, b), 0 <= am < a.len(), 0 <= bm <= b.len(), 
      forall|j: int| 0 <= j < bm ==> #[trigger] (op.cmp)(a[am], b[j]) == Ordering::Greater,
      forall|j: int| bm <= j < b.len() ==> #[trigger] (op.cmp)(a[am], b[j]) == Ordering::Less,
      a.len() <= fa.len(), b.len() <= fb.len(), a == fa.take(a.len() as int), b == fb.take(b.len() as int),
   ensures 
      fa.take(am) == a.take(am), fb.take(bm) == b.take(bm),
      fa.skip(am).skip(1).skip(a.len() - am - 1) == fa.skip(a.len() as int),
      fb.skip(bm).skip(b.len() - bm) == fb.skip(b.len() as int),
      fa.skip(am).skip(1).take(a.len() - am - 1) == a.skip(am + 1),
      fb.skip(bm).take(b.len() - bm) == b.skip(bm),
      fa.skip(am).take(1) == seq![a[am]],
      op.mono(a.take(am), b.take(bm)), op.mono(a.skip(am + 1), b.skip(bm)),
      op.fold_a(op.fold(o, a.take(am), b.take(bm)), seq![a[am]]) == (op.ea)(op.fold(o, a.take(am), b.take(bm)), a[am]),
      op.fold(o, a, b) == op.fold((op.ea)(op.fold(o, a.take(am), b.take(bm)), a[am]), a.skip(am + 1), b.skip(bm))
{
  assert(fa.take(am) =~= a.take(am)); assert(fb.take(bm) =~= b.take(bm));
      assert(fa.skip(am).skip(1).skip(a.len() - am - 1) =~= fa.skip(a.len() as int));
      assert(fb.skip(bm).skip(b.len() - bm) =~= fb.skip(b.len() as int));
      assert(fa.skip(am).skip(1).take(a.len() - am - 1) =~= a.skip(am + 1));
      assert(fb.skip(bm).take(b.len() - bm) =~= b.skip(bm));
      assert(fa.skip(am).take(1) =~= seq![a[am]]);
  lemma_mono_sub(op, a, b, 0, am, 0, bm);
  lemma_mono_sub(op, a, b, am + 1, a.len() as int, bm, b.len() as int);
  assert(a.skip(am + 1) =~= a.subrange(am + 1, a.len() as int));
  assert(b.skip(bm) =~= b.subrange(bm, b.len() as int));
  assert(splits(op, a, b, am, bm)) by {
    assert forall|x: int, y: int| 0 <= x < am && bm <= y < b.len() implies #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Less by {
        let d = (op.cmp)(a[am], b[y]);
        let c = (op.cmp)(a[x], b[y]);
    }
    assert forall|x: int, y: int| am <= x < a.len() && 0 <= y < bm implies #[trigger] (op.cmp)(a[x], b[y]) == Ordering::Greater by {
        let c = (op.cmp)(a[am], b[y]);
        if x > am { assert((op.cmp)(a[x], b[y]) == Ordering::Greater); }
    }
  }
  lemma_fold_split(op, o, a, b, am, bm);
  assert(seq![a[am]].skip(1) =~= seq![]);
  reveal_with_fuel(Ops::fold_a, 2);
  assert(a.skip(am)[0] == a[am]);
  assert(a.skip(am).skip(1) =~= a.skip(am + 1));
  if bm < b.len() { assert(b.skip(bm)[0] == b[bm]); assert((op.cmp)(a.skip(am)[0], b.skip(bm)[0]) == Ordering::Less); }
  else { assert(b.skip(bm) =~= seq![]); }
}
