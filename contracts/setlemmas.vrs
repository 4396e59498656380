//@ # pure lemmas about sorted sequences and set merges
proof fn lemma_laws<T: Ord>(a: T, b: T, c: T)
    requires ord_laws::<T>()
    ensures oc(a, b) == rev(oc(b, a)), oc(a, a) == Ordering::Equal, oc(b, c) == rev(oc(c, b)), oc(a, c) == rev(oc(c, a)),
      oc(a, b) == Ordering::Less && oc(b, c) == Ordering::Less ==> oc(a, c) == Ordering::Less,
      oc(a, b) == Ordering::Less && oc(b, c) == Ordering::Equal ==> oc(a, c) == Ordering::Less,
      oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Less ==> oc(a, c) == Ordering::Less,
      oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Equal ==> oc(a, c) == Ordering::Equal,
      oc(a, b) == Ordering::Greater && oc(b, c) == Ordering::Greater ==> oc(a, c) == Ordering::Greater,
      oc(a, b) == Ordering::Greater && oc(b, c) == Ordering::Equal ==> oc(a, c) == Ordering::Greater,
      oc(a, b) == Ordering::Equal && oc(b, c) == Ordering::Greater ==> oc(a, c) == Ordering::Greater,
{
    reveal(ord_laws);
    assert(oc(a, b) == rev(oc(b, a)));
    assert(oc(b, c) == rev(oc(c, b)));
    assert(oc(a, c) == rev(oc(c, a)));
}
spec fn above<T: Ord>(x: T, s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] oc(x, s[i]) == Ordering::Less }

proof fn lemma_mem_cons<T: Ord>(s: Seq<T>, v: T)
    requires s.len() > 0
    ensures mem(s, v) <==> (oc(s[0], v) == Ordering::Equal || mem(s.skip(1), v))
{
    if mem(s, v) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], v) == Ordering::Equal;
        if i > 0 { assert(s.skip(1)[i - 1] == s[i]); assert(oc(s.skip(1)[i - 1], v) == Ordering::Equal); }
    }
    if mem(s.skip(1), v) {
        let i = choose|i: int| 0 <= i < s.skip(1).len() && #[trigger] oc(s.skip(1)[i], v) == Ordering::Equal;
        assert(oc(s[i + 1], v) == Ordering::Equal);
    }
    if oc(s[0], v) == Ordering::Equal { assert(mem(s, v)); }
}
proof fn lemma_sorted_tail<T: Ord>(s: Seq<T>)
    requires sorted(s), s.len() > 0
    ensures sorted(s.skip(1)), above(s[0], s.skip(1))
{
    let t = s.skip(1);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] oc(t[i], t[j]) == Ordering::Less by { assert(oc(s[i + 1], s[j + 1]) == Ordering::Less); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] oc(s[0], t[i]) == Ordering::Less by { assert(oc(s[0], s[i + 1]) == Ordering::Less); }
}
proof fn lemma_above_notmem<T: Ord>(x: T, s: Seq<T>, v: T)
    requires ord_laws::<T>(), above(x, s), ordn(oc(v, x)) <= 0
    ensures !mem(s, v)
{
    if mem(s, v) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], v) == Ordering::Equal;
        assert(oc(x, s[i]) == Ordering::Less);
        lemma_laws(x, s[i], v);
        lemma_laws(v, x, v);
        lemma_laws(x, v, x);
    }
}
/// the merge of two sorted sequences that keeps elements only in a (fa), only in b (fb), in both (fc, a's copy)
spec fn setop<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>) -> Seq<T>
    decreases a.len() + b.len()
{
    if a.len() == 0 { if fb { b } else { Seq::empty() } }
    else if b.len() == 0 { if fa { a } else { Seq::empty() } }
    else {
        match oc(a[0], b[0]) {
            Ordering::Less => { let r = setop(fa, fb, fc, a.skip(1), b); if fa { seq![a[0]] + r } else { r } }
            Ordering::Equal => { let r = setop(fa, fb, fc, a.skip(1), b.skip(1)); if fc { seq![a[0]] + r } else { r } }
            Ordering::Greater => { let r = setop(fa, fb, fc, a, b.skip(1)); if fb { seq![b[0]] + r } else { r } }
        }
    }
}
spec fn setop_mem<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>, v: T) -> bool {
    if mem(a, v) { if mem(b, v) { fc } else { fa } } else { mem(b, v) && fb }
}
spec fn contains<T>(s: Seq<T>, v: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == v }

proof fn lemma_push_front_sorted<T: Ord>(x: T, r: Seq<T>)
    requires sorted(r), above(x, r)
    ensures sorted(seq![x] + r)
{
    let t = seq![x] + r;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] oc(t[i], t[j]) == Ordering::Less by {
        assert(t[j] == r[j - 1]);
        if i == 0 { assert(t[0] == x); } else { assert(t[i] == r[i - 1]); }
    }
}
spec fn from_ab<T: Ord>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> #[trigger] contains(a, r[i]) || contains(b, r[i]) && !mem(a, r[i])
}
proof fn lemma_contains_has<T: Ord>(s: Seq<T>, v: T)
    requires ord_laws::<T>(), contains(s, v)
    ensures mem(s, v)
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == v;
    lemma_laws(v, v, v);
    assert(oc(s[i], v) == Ordering::Equal);
}
proof fn lemma_contains_tail<T>(s: Seq<T>, v: T)
    requires s.len() > 0
    ensures contains(s, v) <==> (s[0] == v || contains(s.skip(1), v))
{
    if contains(s, v) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == v;
        if i > 0 { assert(s.skip(1)[i - 1] == v); }
    }
    if contains(s.skip(1), v) {
        let i = choose|i: int| 0 <= i < s.skip(1).len() && #[trigger] s.skip(1)[i] == v;
        assert(s[i + 1] == v);
    }
}
proof fn lemma_above_trans<T: Ord>(x: T, y: T, s: Seq<T>)
    requires ord_laws::<T>(), above(y, s), ordn(oc(x, y)) <= 0
    ensures above(x, s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] oc(x, s[i]) == Ordering::Less by { assert(oc(y, s[i]) == Ordering::Less); lemma_laws(x, y, s[i]); }
}
/// sorted, exactly the expected members, and every element comes from an input (a's copy on collisions)
spec fn setop_ok<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>, r: Seq<T>) -> bool {
    &&& sorted(r)
    &&& forall|v: T| #[trigger] mem(r, v) == setop_mem(fa, fb, fc, a, b, v)
    &&& from_ab(r, a, b)
}
proof fn lemma_from_above<T: Ord>(x: T, r: Seq<T>, a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), from_ab(r, a, b), above(x, a), above(x, b)
    ensures above(x, r)
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] oc(x, r[i]) == Ordering::Less by {
        assert(contains(a, r[i]) || contains(b, r[i]));
        if contains(a, r[i]) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == r[i]; assert(oc(x, a[k]) == Ordering::Less); }
        else { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == r[i]; assert(oc(x, b[k]) == Ordering::Less); }
    }
}
proof fn lemma_mem_push_front<T: Ord>(x: T, r: Seq<T>, v: T)
    ensures mem(seq![x] + r, v) <==> (oc(x, v) == Ordering::Equal || mem(r, v))
{
    let t = seq![x] + r;
    lemma_mem_cons(t, v);
    assert(t.skip(1) =~= r);
}
proof fn lemma_mem_eqv<T: Ord>(s: Seq<T>, v: T, w: T)
    requires ord_laws::<T>(), oc(v, w) == Ordering::Equal
    ensures mem(s, v) == mem(s, w)
{
    if mem(s, v) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], v) == Ordering::Equal;
        lemma_laws(s[i], v, w);
        assert(oc(s[i], w) == Ordering::Equal);
    }
    if mem(s, w) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] oc(s[i], w) == Ordering::Equal;
        lemma_laws(v, w, v);
        lemma_laws(s[i], w, v);
        assert(oc(s[i], v) == Ordering::Equal);
    }
}


proof fn lemma_setop_mem_step<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>, a2: Seq<T>, b2: Seq<T>, x: T, f: bool, r2: Seq<T>, r: Seq<T>, c: Ordering, v: T)
    requires ord_laws::<T>(), setop_ok(fa, fb, fc, a2, b2, r2), above(x, a2), above(x, b2), above(x, r2), r == if f { seq![x] + r2 } else { r2 },
        a.len() > 0, b.len() > 0, c == oc(a[0], b[0]),
        a2 == if c == Ordering::Greater { a } else { a.skip(1) },
        b2 == if c == Ordering::Less { b } else { b.skip(1) },
        x == if c == Ordering::Greater { b[0] } else { a[0] },
        f == match c { Ordering::Less => fa, Ordering::Equal => fc, Ordering::Greater => fb },
    ensures mem(r, v) == setop_mem(fa, fb, fc, a, b, v)
{
    lemma_mem_cons(a, v); lemma_mem_cons(b, v);
    lemma_mem_push_front(x, r2, v);
    assert(mem(r2, v) == setop_mem(fa, fb, fc, a2, b2, v));
    lemma_laws(x, v, x); lemma_laws(a[0], b[0], v); lemma_laws(b[0], a[0], v);
    if oc(x, v) == Ordering::Equal {
        lemma_laws(v, x, v);
        lemma_above_notmem(x, a2, v); lemma_above_notmem(x, b2, v);
    }
}
proof fn lemma_setop<T: Ord>(fa: bool, fb: bool, fc: bool, a: Seq<T>, b: Seq<T>)
    requires ord_laws::<T>(), sorted(a), sorted(b)
    ensures setop_ok(fa, fb, fc, a, b, setop(fa, fb, fc, a, b))
    decreases a.len() + b.len()
{
    let r = setop(fa, fb, fc, a, b);
    if a.len() == 0 {
        assert forall|v: T| #[trigger] mem(r, v) == setop_mem(fa, fb, fc, a, b, v) by {}
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] contains(a, r[i]) || contains(b, r[i]) && !mem(a, r[i]) by { assert(b[i] == r[i]); }
    } else if b.len() == 0 {
        assert forall|v: T| #[trigger] mem(r, v) == setop_mem(fa, fb, fc, a, b, v) by {}
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] contains(a, r[i]) || contains(b, r[i]) && !mem(a, r[i]) by { assert(a[i] == r[i]); }
    } else {
        lemma_sorted_tail(a); lemma_sorted_tail(b);
        lemma_laws(a[0], b[0], a[0]); lemma_laws(b[0], a[0], b[0]);
        let c = oc(a[0], b[0]);
        let a2 = if c == Ordering::Greater { a } else { a.skip(1) };
        let b2 = if c == Ordering::Less { b } else { b.skip(1) };
        let x = if c == Ordering::Greater { b[0] } else { a[0] };
        let f = match c { Ordering::Less => fa, Ordering::Equal => fc, Ordering::Greater => fb };
        let r2 = setop(fa, fb, fc, a2, b2);
        lemma_setop(fa, fb, fc, a2, b2);
        assert(r == if f { seq![x] + r2 } else { r2 });
        assert(above(x, a2)) by { if c == Ordering::Greater { lemma_above_cons(x, a); } }
        assert(above(x, b2)) by {
            if c == Ordering::Less { lemma_above_cons(x, b); }
            else if c == Ordering::Equal { lemma_above_trans(x, b[0], b2); }
        }
        lemma_from_above(x, r2, a2, b2);
        lemma_push_front_sorted(x, r2);
        assert forall|v: T| #[trigger] mem(r, v) == setop_mem(fa, fb, fc, a, b, v) by {
            lemma_setop_mem_step(fa, fb, fc, a, b, a2, b2, x, f, r2, r, c, v);
        }
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] contains(a, r[i]) || contains(b, r[i]) && !mem(a, r[i]) by {
            lemma_contains_tail(a, r[i]); lemma_contains_tail(b, r[i]); lemma_mem_cons(a, r[i]);
            if f && i == 0 {
                assert(r[0] == x);
                if c == Ordering::Greater { lemma_laws(x, x, x); lemma_above_notmem(x, a2, x); }
            } else {
                let k = if f { i - 1 } else { i };
                assert(r[i] == r2[k]);
                assert(contains(a2, r2[k]) || contains(b2, r2[k]) && !mem(a2, r2[k]));
                assert(oc(x, r2[k]) == Ordering::Less);
                if c != Ordering::Greater { assert(oc(a[0], r[i]) != Ordering::Equal); }
            }
        }
    }
}
proof fn lemma_above_cons<T: Ord>(x: T, s: Seq<T>)
    requires ord_laws::<T>(), sorted(s), s.len() > 0, oc(x, s[0]) == Ordering::Less
    ensures above(x, s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] oc(x, s[i]) == Ordering::Less by { if i > 0 { assert(oc(s[0], s[i]) == Ordering::Less); lemma_laws(x, s[0], s[i]); } }
}
