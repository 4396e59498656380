//@ tag base
//@ # ---- user callbacks: total and deterministic (a precondition); fv is the value they return ----------------
spec fn fv1<X, R, F: Fn(X) -> R>(f: F, x: X) -> R { choose|r: R| f.ensures((x,), r) }
#[verifier::opaque]
spec fn fpure1<X, R, F: Fn(X) -> R>(f: F) -> bool { (forall|x: X| #[trigger] f.requires((x,))) && (forall|x: X, r: R| #[trigger] f.ensures((x,), r) ==> r == fv1(f, x)) }
spec fn fv3<X, Y, Z, R, F: Fn(X, Y, Z) -> R>(f: F, x: X, y: Y, z: Z) -> R { choose|r: R| f.ensures((x, y, z), r) }
#[verifier::opaque]
spec fn fpure3<X, Y, Z, R, F: Fn(X, Y, Z) -> R>(f: F) -> bool { (forall|x: X, y: Y, z: Z| #[trigger] f.requires((x, y, z))) && (forall|x: X, y: Y, z: Z, r: R| #[trigger] f.ensures((x, y, z), r) ==> r == fv3(f, x, y, z)) }
spec fn fv2<X, Y, R, F: Fn(X, Y) -> R>(f: F, x: X, y: Y) -> R { choose|r: R| f.ensures((x, y), r) }
#[verifier::opaque]
spec fn fpure2<X, Y, R, F: Fn(X, Y) -> R>(f: F) -> bool { (forall|x: X, y: Y| #[trigger] f.requires((x, y))) && (forall|x: X, y: Y, r: R| #[trigger] f.ensures((x, y), r) ==> r == fv2(f, x, y)) }
/// trusted: a terminating closure returns some value allowed by its contract
#[verifier::external_body]
proof fn axiom_fv1_total<X, R, F: Fn(X) -> R>(f: F, x: X)
    requires f.requires((x,))
    ensures f.ensures((x,), fv1(f, x))
{}
#[verifier::external_body]
proof fn axiom_fv2_total<X, Y, R, F: Fn(X, Y) -> R>(f: F, x: X, y: Y)
    requires f.requires((x, y))
    ensures f.ensures((x, y), fv2(f, x, y))
{}
proof fn lemma_pure1<X, R, F: Fn(X) -> R>(f: F, g: spec_fn(X) -> R)
    requires forall|x: X| #[trigger] f.requires((x,)), forall|x: X, r: R| #[trigger] f.ensures((x,), r) ==> r == g(x)
    ensures fpure1(f), forall|x: X| #[trigger] fv1(f, x) == g(x)
{
    reveal(fpure1);
    assert forall|x: X| #[trigger] fv1(f, x) == g(x) by { axiom_fv1_total(f, x); }
}
proof fn lemma_pure2<X, Y, R, F: Fn(X, Y) -> R>(f: F, g: spec_fn(X, Y) -> R)
    requires forall|x: X, y: Y| #[trigger] f.requires((x, y)), forall|x: X, y: Y, r: R| #[trigger] f.ensures((x, y), r) ==> r == g(x, y)
    ensures fpure2(f), forall|x: X, y: Y| #[trigger] fv2(f, x, y) == g(x, y)
{
    reveal(fpure2);
    assert forall|x: X, y: Y| #[trigger] fv2(f, x, y) == g(x, y) by { axiom_fv2_total(f, x, y); }
}
spec fn keepf<T, F: Fn(&T) -> bool>(f: &F, x: T) -> bool { fv1::<&T, bool, F>(*f, &x) }
