use crate::ctx::*;
use smallvec::SmallVec;
use std::collections::BTreeSet;
use vec_collections::{AbstractVecSet, VecSet};

pub fn mk<const N: usize>(s: &[P]) -> VecSet<[E; N]> where [E; N]: smallvec::Array<Item = E> {
    es(s).into()
}
/// reference: merge of sorted lists
pub fn setop(fa: bool, fb: bool, fc: bool, a: &[P], b: &[P]) -> Vec<P> {
    let ma: std::collections::BTreeMap<u16, u16> = a.iter().cloned().collect();
    let mb: std::collections::BTreeMap<u16, u16> = b.iter().cloned().collect();
    let mut r: Vec<P> = vec![];
    for x in a { if mb.contains_key(&x.0) { if fc { r.push(*x) } } else if fa { r.push(*x) } }
    for y in b { if !ma.contains_key(&y.0) && fb { r.push(*y) } }
    r.sort();
    r
}
pub const OPS: [(&str, bool, bool, bool); 4] = [("union", true, true, true), ("intersection", false, false, true), ("xor", true, true, false), ("difference", true, false, false)];
fn byref<const N: usize, const M: usize>(op: &str, a: &[P], b: &[P]) -> R
where [E; N]: smallvec::Array<Item = E>, [E; M]: smallvec::Array<Item = E> {
    let o = OPS.iter().find(|o| o.0 == op).unwrap();
    let want = setop(o.1, o.2, o.3, a, b);
    let x = mk::<N>(a);
    let y = mk::<M>(b);
    let r1 = match op { "union" => &x | &y, "intersection" => &x & &y, "xor" => &x ^ &y, _ => &x - &y };
    eq(&format!("operator {}", op), ps(r1.as_ref()), want.clone())?;
    let r2 = match op { "union" => x.union(&y), "intersection" => x.intersection(&y), "xor" => x.symmetric_difference(&y), _ => x.difference(&y) };
    eq(&format!("inherent {}", op), ps(r2.as_ref()), want.clone())?;
    let r3: VecSet<[E; 3]> = match op {
        "union" => AbstractVecSet::union(&x, &y), "intersection" => AbstractVecSet::intersection(&x, &y),
        "xor" => AbstractVecSet::symmetric_difference(&x, &y), _ => AbstractVecSet::difference(&x, &y) };
    eq(&format!("AbstractVecSet::{}", op), ps(r3.as_ref()), want.clone())?;
    eq("left operand unchanged", ps(x.as_ref()), a.to_vec())?;
    eq("right operand unchanged", ps(y.as_ref()), b.to_vec())
}
fn inplace<const N: usize, const M: usize>(op: &str, a: &[P], b: &[P]) -> R
where [E; N]: smallvec::Array<Item = E>, [E; M]: smallvec::Array<Item = E> {
    let o = OPS.iter().find(|o| o.0 == op).unwrap();
    let want = setop(o.1, o.2, o.3, a, b);
    let y = mk::<M>(b);
    let mut x = mk::<N>(a);
    match op { "union" => x |= mk::<M>(b), "intersection" => x &= mk::<M>(b), "xor" => x ^= mk::<M>(b), _ => x -= mk::<M>(b) };
    eq(&format!("{} assign (owned)", op), ps(x.as_ref()), want.clone())?;
    let mut x = mk::<N>(a);
    match op { "union" => x |= &y, "intersection" => x &= &y, "xor" => x ^= &y, _ => x -= &y };
    eq(&format!("{} assign (by ref)", op), ps(x.as_ref()), want.clone())?;
    let mut x = mk::<N>(a);
    match op { "union" => x.union_with(&y), "intersection" => x.intersection_with(&y), "xor" => x.xor_with(&y), _ => x.difference_with(&y) };
    eq(&format!("{}_with", op), ps(x.as_ref()), want.clone())?;
    eq("right operand unchanged", ps(y.as_ref()), b.to_vec())?;
    // the vector must remain usable
    x.insert(E::new(60000, 9));
    let mut w = want; w.push((60000, 9));
    eq("insert after in-place op", ps(x.as_ref()), w)
}
fn preds<const N: usize, const M: usize>(a: &[P], b: &[P]) -> R
where [E; N]: smallvec::Array<Item = E>, [E; M]: smallvec::Array<Item = E> {
    let x = mk::<N>(a);
    let y = mk::<M>(b);
    let (sa, sb): (BTreeSet<u16>, BTreeSet<u16>) = (a.iter().map(|p| p.0).collect(), b.iter().map(|p| p.0).collect());
    let inb = |k: u16| sb.contains(&k);
    let ina = |k: u16| sa.contains(&k);
    eq("is_subset", x.is_subset(&y), a.iter().all(|p| inb(p.0)))?;
    eq("is_superset", x.is_superset(&y), b.iter().all(|p| ina(p.0)))?;
    eq("is_disjoint", x.is_disjoint(&y), !a.iter().any(|p| inb(p.0)))?;
    eq("is_empty", x.is_empty(), a.is_empty())?;
    eq("AbstractVecSet::is_empty", AbstractVecSet::is_empty(&x), a.is_empty())?;
    eq("len", x.len(), a.len())?;
    for k in b.iter().map(|p| p.0).chain(a.iter().flat_map(|p| vec![p.0, p.0.wrapping_add(1), p.0.wrapping_sub(1)])).chain(vec![0, 255, 65535]) {
        eq(&format!("contains({})", k), x.contains(&E::new(k, 77)), ina(k))?;
    }
    Ok(())
}
fn dispatch(f: u8, n: u8, op: &str, a: &[P], b: &[P]) -> R {
    match (f, n) {
        (0, 0) => byref::<1, 4>(op, a, b), (0, 1) => byref::<4, 1>(op, a, b), (0, _) => byref::<16, 2>(op, a, b),
        (1, 0) => inplace::<1, 4>(op, a, b), (1, 1) => inplace::<4, 1>(op, a, b), (1, _) => inplace::<16, 2>(op, a, b),
        (_, 0) => preds::<1, 4>(a, b), (_, 1) => preds::<4, 1>(a, b), (_, _) => preds::<16, 2>(a, b),
    }
}
pub fn c01(c: &mut Ctx) { let u = if c.thorough { 7 } else { 5 }; pairs(c, u, 20000, |c, n, a, b| for o in OPS { c.case(!a.is_empty() && !b.is_empty(), || format!("by-ref {} shape {} a={:?} b={:?}", o.0, n, a, b), || dispatch(0, n, o.0, a, b)) }) }
pub fn c02(c: &mut Ctx) { let u = if c.thorough { 7 } else { 5 }; pairs(c, u, 20000, |c, n, a, b| for o in OPS { c.case(!a.is_empty() && !b.is_empty(), || format!("in-place {} shape {} a={:?} b={:?}", o.0, n, a, b), || dispatch(1, n, o.0, a, b)) }) }
pub fn c03(c: &mut Ctx) { let u = if c.thorough { 7 } else { 5 }; pairs(c, u, 20000, |c, n, a, b| c.case(!a.is_empty() && !b.is_empty(), || format!("predicates shape {} a={:?} b={:?}", n, a, b), || dispatch(2, n, "", a, b))) }

fn history<const N: usize>(init: &[P], ops: &[(u8, u16, u16)]) -> R where [E; N]: smallvec::Array<Item = E> {
    let mut x: VecSet<[E; N]> = es(init).into();
    let mut m: Vec<P> = vec![];
    for p in init { if !m.iter().any(|q| q.0 == p.0) { m.push(*p) } }
    m.sort();
    eq("from Vec (sorted, first of equal elements kept)", ps(x.as_ref()), m.clone())?;
    let y: VecSet<[E; N]> = es(init).into_iter().collect();
    eq("from_iter (sorted, first of equal elements kept)", ps(y.as_ref()), m.clone())?;
    for (i, (op, k, t)) in ops.iter().enumerate() {
        let at = m.iter().position(|q| q.0 == *k);
        match op {
            0 => {
                let r = x.insert(E::new(*k, *t));
                eq(&format!("step {}: insert returns true iff new", i), r, at.is_none())?;
                match at { Some(j) => m[j] = (*k, *t), None => { m.push((*k, *t)); m.sort() } }
            }
            1 => {
                let r = x.remove(&E::new(*k, 99));
                eq(&format!("step {}: remove returns true iff present", i), r, at.is_some())?;
                if let Some(j) = at { m.remove(j); }
            }
            2 => { let (d, v) = (*t % 3 + 2, *k); x.retain(|e| e.k % d != v % d); m.retain(|p| p.0 % d != v % d); }
            3 => {
                let add: Vec<P> = (0..*t % 40).map(|j| (k.wrapping_mul(7).wrapping_add(j.wrapping_mul(11)) % 50, 50 + j)).collect();
                x.extend(es(&add));
                for p in &add { if !m.iter().any(|q| q.0 == p.0) { m.push(*p) } }
                m.sort();
            }
            4 => x.shrink_to_fit(),
            _ => { let z = x.clone(); ok("clone equal", z == x)?; x = z; }
        }
        eq(&format!("step {}: contents", i), ps(x.as_ref()), m.clone())?;
        eq("iter", x.iter().map(|e| (e.k, e.t)).collect::<Vec<_>>(), m.clone())?;
        eq("len", x.len(), m.len())?;
    }
    let it: Vec<P> = (&x).into_iter().map(|e| (e.k, e.t)).collect();
    eq("&into_iter", it, m.clone())?;
    let c = x.clone();
    eq("into_iter", c.into_iter().map(|e| (e.k, e.t)).collect::<Vec<_>>(), m.clone())?;
    let v: Vec<E> = x.clone().into();
    eq("into Vec", ps(&v), m.clone())?;
    let s: SmallVec<[E; N]> = x.clone().into();
    eq("into SmallVec", ps(&s), m.clone())?;
    let b: BTreeSet<E> = v.into_iter().collect();
    let z: VecSet<[E; N]> = b.into();
    eq("from BTreeSet", ps(z.as_ref()), m.clone())?;
    let (mut parts, mut i) = (x.into_iter(), 0);
    while i < m.len() / 2 { parts.next(); i += 1; }
    drop(parts); // partially consumed iterator: nothing leaks
    let one: VecSet<[E; N]> = VecSet::single(E::new(4, 5));
    eq("single", ps(one.as_ref()), vec![(4, 5)])?;
    let none: VecSet<[E; N]> = VecSet::empty();
    eq("empty", ps(none.as_ref()), vec![])?;
    let none: VecSet<[u16; 4]> = Default::default();
    eq("default", none.as_ref().len(), 0)
}
pub fn c04(c: &mut Ctx) {
    // all short histories over a tiny universe
    let alpha: Vec<(u8, u16, u16)> = vec![(0, 0, 3), (0, 1, 4), (0, 2, 5), (1, 0, 0), (1, 1, 0), (1, 2, 0), (2, 1, 0), (3, 1, 3), (5, 0, 0)];
    let depth = if c.thorough { 4 } else { 3 };
    let init: [&[P]; 4] = [&[], &[(1, 1)], &[(2, 1), (0, 2), (2, 3)], &[(1, 1), (1, 2), (0, 1), (2, 1)]];
    for i in init { for d in 0..alpha.len().pow(depth) {
        if c.done() { return; }
        let mut x = d; let mut ops = vec![];
        for _ in 0..depth { ops.push(alpha[x % alpha.len()]); x /= alpha.len(); }
        c.case(true, || format!("history init={:?} ops={:?}", i, ops), || history::<2>(i, &ops));
    } }
    let mut r = Rng::new(c.seed);
    for n in 0..c.reps(20000) {
        if c.done() { return; }
        let (len, rg) = (r.below(60), [4, 12, 50, 200][r.below(4) as usize]);
        let init: Vec<P> = (0..len).map(|j| (r.below(rg) as u16, j as u16)).collect();
        let ops: Vec<(u8, u16, u16)> = (0..r.below(12)).map(|_| (r.below(6) as u8, r.below(rg) as u16, r.below(200) as u16)).collect();
        c.case(true, || format!("history init={:?} ops={:?}", init, ops), || if n % 2 == 0 { history::<1>(&init, &ops) } else { history::<8>(&init, &ops) });
    }
}
pub fn dedup_case(init: &[P]) -> R {
    let mut first: Vec<P> = vec![]; let mut last: Vec<P> = vec![];
    let (mut mf, mut ml) = (std::collections::BTreeMap::new(), std::collections::BTreeMap::new());
    for p in init { mf.entry(p.0).or_insert(p.1); ml.insert(p.0, p.1); }
    first.extend(mf); last.extend(ml);
    let s: VecSet<[E; 4]> = es(init).into_iter().collect();
    eq("collect into set: ascending, first of equal elements", ps(s.as_ref()), first.clone())?;
    let m: vec_collections::VecMap<[(u16, E); 4]> = init.iter().map(|p| (p.0, E::new(p.0, p.1))).collect();
    eq("collect into map: ascending keys, last of equal keys", m.as_ref().iter().map(|x| (x.0, x.1.t)).collect::<Vec<_>>(), last)?;
    let m: Vec<P> = m.into_iter().map(|x| (x.0, x.1.t)).collect();
    eq("strictly ascending", m.windows(2).all(|w| w[0].0 < w[1].0), true)
}
pub fn c05(c: &mut Ctx) {
    let l = if c.thorough { 8 } else { 6 };
    for n in 0..=l { for x in 0..4usize.pow(n) {
        if c.done() { return; }
        let (mut y, mut s) = (x, vec![]);
        for j in 0..n { s.push(((y % 4) as u16, j as u16)); y /= 4; }
        c.case(n > 1, || format!("collect {:?}", s), || dedup_case(&s));
    } }
    let mut r = Rng::new(c.seed);
    for _ in 0..c.reps(20000) {
        if c.done() { return; }
        let m = [20, 40, 100, 200, 200, 200, 400, 3000][r.below(8) as usize];
        let (n, rg) = (r.below(m), [2, 8, 20, 60, 200, 1000][r.below(6) as usize]);
        let mode = r.below(4);
        let mut s: Vec<P> = (0..n).map(|j| (r.below(rg) as u16, j as u16)).collect();
        if mode == 1 { s.sort() }
        if mode == 2 { s.sort(); s.reverse() }
        if mode == 3 { let h = s.len() / 2; s[..h].sort(); }
        c.case(s.len() > 1, || format!("collect {:?}", s), || dedup_case(&s));
    }
}
