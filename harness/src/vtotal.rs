use crate::ctx::*;
use std::collections::BTreeMap;
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, VecMap, VecSet};

type TS<const N: usize> = TotalVecSet<[E; N]>;
fn ts<const N: usize>(s: &[P], neg: bool) -> TS<N> where [E; N]: smallvec::Array<Item = E> {
    let v: VecSet<[E; N]> = es(s).into();
    let t: TS<N> = v.into();
    if neg { !t } else { t }
}
fn fin(s: &[P], neg: bool, k: u16) -> bool { s.iter().any(|p| p.0 == k) != neg }
/// all values at which a result could go wrong: the stored ones, their neighbours, and far away
fn probes(a: &[P], b: &[P]) -> Vec<u16> {
    let mut v: Vec<u16> = a.iter().chain(b.iter()).flat_map(|p| vec![p.0, p.0.wrapping_add(1), p.0.wrapping_sub(1)]).chain(vec![0, 1, 65535, 40000]).collect();
    v.sort(); v.dedup(); v
}
/// the canonical form of the set is visible through Debug only
fn shown<const N: usize>(t: &TS<N>) -> (bool, Vec<(u16, u16)>) where [E; N]: smallvec::Array<Item = E> {
    let s = format!("{:?}", t);
    let neg = s.contains('!') || s.contains("negated: true");
    let mut v = vec![]; let mut cur = String::new();
    for ch in s.chars() { if ch.is_ascii_digit() || ch == '.' { cur.push(ch) } else { if let Some((x, y)) = cur.split_once('.') { if let (Ok(x), Ok(y)) = (x.parse(), y.parse()) { v.push((x, y)); } } cur.clear(); } }
    (neg, v)
}
fn same<const N: usize>(what: &str, t: &TS<N>, a: &[P], b: &[P], neg: bool, m: impl Fn(u16) -> bool) -> R where [E; N]: smallvec::Array<Item = E> {
    for k in probes(a, b) { eq(&format!("{}: contains({})", what, k), t.contains(&E::new(k, 77)), m(k))?; }
    // canonical: equal to the set built directly from the membership table
    let keys: Vec<P> = probes(a, b).into_iter().filter(|k| m(*k) != neg).map(|k| (k, 0)).collect();
    ok(&format!("{}: canonical representation ({:?})", what, t), *t == ts::<N>(&keys, neg))?;
    let (sn, sv) = shown(t);
    if !sv.is_empty() || keys.is_empty() { eq(&format!("{}: stored elements ascending", what), sv.iter().map(|p| p.0).collect::<Vec<_>>(), keys.iter().map(|p| p.0).collect())?; }
    let _ = sn;
    Ok(())
}
fn algebra<const N: usize>(op: u8, na: bool, nb: bool, a: &[P], b: &[P]) -> R where [E; N]: smallvec::Array<Item = E> {
    let (x, y) = (ts::<N>(a, na), ts::<N>(b, nb));
    let (fa, fb) = (|k| fin(a, na, k), |k| fin(b, nb, k));
    match op {
        0 => { same("&", &(&x & &y), a, b, na && nb, |k| fa(k) && fb(k))?; let mut z = ts::<N>(a, na); z &= ts::<N>(b, nb); same("&=", &z, a, b, na && nb, |k| fa(k) && fb(k))?; }
        1 => { same("|", &(&x | &y), a, b, na || nb, |k| fa(k) || fb(k))?; let mut z = ts::<N>(a, na); z |= ts::<N>(b, nb); same("|=", &z, a, b, na || nb, |k| fa(k) || fb(k))?; }
        2 => { same("^", &(&x ^ &y), a, b, na != nb, |k| fa(k) != fb(k))?; let mut z = ts::<N>(a, na); z ^= ts::<N>(b, nb); same("^=", &z, a, b, na != nb, |k| fa(k) != fb(k))?; }
        3 => { same("-", &(&x - &y), a, b, na && !nb, |k| fa(k) && !fb(k))?; let mut z = ts::<N>(a, na); z -= ts::<N>(b, nb); same("-=", &z, a, b, na && !nb, |k| fa(k) && !fb(k))?; }
        _ => { same("!&", &!&x, a, b, !na, |k| !fa(k))?; same("!", &!ts::<N>(b, nb), a, b, !nb, |k| !fb(k))?; ok("double complement", !!&x == x)?; }
    }
    same("left operand unchanged", &x, a, b, na, fa)?;
    same("right operand unchanged", &y, a, b, nb, fb)
}
pub fn c09(c: &mut Ctx) {
    let u = if c.thorough { 6 } else { 4 };
    let mut i = 0u32;
    pairs(c, u, 6000, |c, n, a, b| for neg in 0..4u8 {
        i = i.wrapping_add(1);
        let small = a.len() + b.len() < 12;
        for op in 0..5u8 {
            if !small && (i + op as u32) % 5 != 0 { continue; }
            let (na, nb) = (neg & 1 == 1, neg & 2 == 2);
            c.case(!a.is_empty() && !b.is_empty(), || format!("set algebra {} negated {}/{} shape {} a={:?} b={:?}", ["&", "|", "^", "-", "!"][op as usize], na, nb, n, a, b),
                || if n == 0 { algebra::<1>(op, na, nb, a, b) } else { algebra::<8>(op, na, nb, a, b) });
        }
    })
}
fn preds<const N: usize>(na: bool, nb: bool, a: &[P], b: &[P]) -> R where [E; N]: smallvec::Array<Item = E> {
    let (x, y) = (ts::<N>(a, na), ts::<N>(b, nb));
    // over an unbounded universe the values away from both lists behave like 60000
    let ks: Vec<u16> = a.iter().chain(b.iter()).map(|p| p.0).chain(vec![60000]).collect();
    eq("is_subset", x.is_subset(&y), ks.iter().all(|k| !fin(a, na, *k) || fin(b, nb, *k)))?;
    eq("is_superset", x.is_superset(&y), ks.iter().all(|k| !fin(b, nb, *k) || fin(a, na, *k)))?;
    eq("is_disjoint", x.is_disjoint(&y), ks.iter().all(|k| !(fin(a, na, *k) && fin(b, nb, *k))))?;
    eq("is_empty", x.is_empty(), a.is_empty() && !na)?;
    eq("is_all", x.is_all(), a.is_empty() && na)?;
    for k in probes(a, b) { eq(&format!("contains({})", k), x.contains(&E::new(k, 3)), fin(a, na, k))?; }
    // single element updates
    for k in b.iter().map(|p| p.0).take(6).chain(vec![60001]) {
        let mut z = ts::<N>(a, na);
        z.insert(E::new(k, 5));
        for q in probes(a, b) { eq(&format!("insert({}): contains({})", k, q), z.contains(&E::new(q, 3)), q == k || fin(a, na, q))?; }
        let mut z = ts::<N>(a, na);
        z.remove(&E::new(k, 5));
        for q in probes(a, b) { eq(&format!("remove({}): contains({})", k, q), z.contains(&E::new(q, 3)), q != k && fin(a, na, q))?; }
        z.shrink_to_fit();
    }
    for v in [false, true] {
        let t: TS<N> = TotalVecSet::constant(v);
        eq("constant", (t.is_all(), t.is_empty(), t.contains(&E::new(5, 0))), (v, !v, v))?;
        let t: TS<N> = v.into();
        eq("from bool", (t.is_all(), t.is_empty(), t.contains(&E::new(5, 0))), (v, !v, v))?;
    }
    eq("all", (TS::<N>::all().is_all(), TS::<N>::all().is_empty()), (true, false))?;
    eq("empty", (TS::<N>::empty().is_all(), TS::<N>::empty().is_empty()), (false, true))
}
pub fn c10(c: &mut Ctx) {
    let u = if c.thorough { 6 } else { 5 };
    pairs(c, u, 6000, |c, n, a, b| for neg in 0..4u8 {
        let (na, nb) = (neg & 1 == 1, neg & 2 == 2);
        c.case(!a.is_empty() && !b.is_empty(), || format!("set predicates negated {}/{} shape {} a={:?} b={:?}", na, nb, n, a, b),
            || if n == 0 { preds::<1>(na, nb, a, b) } else { preds::<8>(na, nb, a, b) });
    })
}
// ---- total maps ----------------------------------------------------------------------------------
type TM<const N: usize> = TotalVecMap<i64, [(E, i64); N]>;
pub type Q = (BTreeMap<u16, i64>, i64);
fn tm<const N: usize>(q: &Q) -> TM<N> where [(E, i64); N]: smallvec::Array<Item = (E, i64)> {
    let m: VecMap<[(E, i64); N]> = q.0.iter().map(|(k, v)| (E::new(*k, 1), *v)).collect();
    TotalVecMap::new(m, q.1)
}
fn canon(q: &Q) -> Q { (q.0.iter().filter(|(_, v)| **v != q.1).map(|(k, v)| (*k, *v)).collect(), q.1) }
fn rd<const N: usize>(t: &TM<N>) -> Vec<(u16, i64)> where [(E, i64); N]: smallvec::Array<Item = (E, i64)> { t.non_default_mappings().iter().map(|(k, v)| (k.k, *v)).collect() }
fn chk<const N: usize>(what: &str, t: &TM<N>, q: &Q) -> R where [(E, i64); N]: smallvec::Array<Item = (E, i64)> {
    let q = canon(q);
    eq(&format!("{}: stored mappings", what), rd(t), q.0.iter().map(|(k, v)| (*k, *v)).collect())?;
    for k in q.0.keys().flat_map(|k| vec![*k, k.wrapping_add(1), k.wrapping_sub(1)]).chain(vec![0, 65535, 40000]) {
        eq(&format!("{}: value at {}", what, k), t[&E::new(k, 7)], *q.0.get(&k).unwrap_or(&q.1))?;
    }
    Ok(())
}
fn point(a: &Q, b: &Q, f: impl Fn(i64, i64) -> i64) -> Q {
    let d = f(a.1, b.1);
    let mut r = BTreeMap::new();
    for k in a.0.keys().chain(b.0.keys()) { r.insert(*k, f(*a.0.get(k).unwrap_or(&a.1), *b.0.get(k).unwrap_or(&b.1))); }
    (r, d)
}
fn total<const N: usize>(a: &Q, b: &Q, m: i64) -> R where [(E, i64); N]: smallvec::Array<Item = (E, i64)> {
    let (x, y) = (tm::<N>(a), tm::<N>(b));
    let (a, b) = (&canon(a), &canon(b));
    chk("new", &x, a)?;
    let f = |u: i64, v: i64| (u * 3 - v * 5 + m).rem_euclid(m + 1);
    chk("combine_ref", &x.combine_ref(&y, |u, v| f(*u, *v)), &point(a, b, f))?;
    chk("supremum", &x.supremum(&y), &point(a, b, |u, v| u.max(v)))?;
    chk("infimum", &x.infimum(&y), &point(a, b, |u, v| u.min(v)))?;
    chk("+", &(x.clone() + y.clone()), &point(a, b, |u, v| u + v))?;
    chk("-", &(x.clone() - y.clone()), &point(a, b, |u, v| u - v))?;
    chk("*", &(x.clone() * y.clone()), &point(a, b, |u, v| u * v))?;
    if b.1 != 0 && b.0.values().all(|v| *v != 0) { chk("/", &(x.clone() / y.clone()), &point(a, b, |u, v| u / v))?; }
    chk("neg", &-x.clone(), &point(a, a, |u, _| -u))?;
    let mv: TM<N> = x.map_values(|u| (u * 7 + m).rem_euclid(m + 1));
    chk("map_values", &mv, &point(a, a, |u, _| (u * 7 + m).rem_euclid(m + 1)))?;
    chk("constant", &TM::<N>::constant(m), &(BTreeMap::new(), m))?;
    let t: TM<N> = m.into();
    chk("from value", &t, &(BTreeMap::new(), m))?;
    chk("default", &TM::<N>::default(), &(BTreeMap::new(), 0))?;
    eq("equal exactly when they agree on every key", x == y, a == b)?;
    ok("equal to itself", x == tm::<N>(a) && x == x.clone())?;
    // zero / one / bounds need a lawful neutral element
    use num_traits::{Bounded, One, Zero};
    chk("zero", &TM::<N>::zero(), &(BTreeMap::new(), 0))?;
    chk("one", &TM::<N>::one(), &(BTreeMap::new(), 1))?;
    eq("is_zero", x.is_zero(), a.0.is_empty() && a.1 == 0)?;
    eq("is_one", One::is_one(&x), a.0.is_empty() && a.1 == 1)?;
    chk("min_value", &TM::<N>::min_value(), &(BTreeMap::new(), i64::MIN))?;
    chk("max_value", &TM::<N>::max_value(), &(BTreeMap::new(), i64::MAX))?;
    chk("left operand unchanged", &x, a)?;
    chk("right operand unchanged", &y, b)
}
pub fn c11(c: &mut Ctx) {
    let u = if c.thorough { 6 } else { 4 };
    let mut i = 0u64;
    pairs(c, u, 8000, |c, n, a, b| {
        i += 1;
        let m = (i % 3) as i64 + 1;
        let v = |p: &P| ((p.0 as i64).wrapping_mul(2654435761 + i as i64) >> 5).rem_euclid(m + 2) - 1;
        let qa: Q = (a.iter().map(|p| (p.0, v(p))).collect(), (i / 3 % 3) as i64 - 1);
        let qb: Q = (b.iter().map(|p| (p.0, v(p) + (p.0 as i64 & 1))).collect(), (i / 9 % 3) as i64 - 1);
        // also pairs that agree on every key
        for (qa, qb) in [(qa.clone(), qb), (qa.clone(), qa)] {
            c.case(!a.is_empty() || !b.is_empty(), || format!("total maps m={} shape {} a={:?} b={:?}", m, n, qa, qb), || if n == 0 { total::<1>(&qa, &qb, m) } else { total::<4>(&qa, &qb, m) });
        }
    })
}
