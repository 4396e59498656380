use crate::ctx::*;
use smallvec::SmallVec;
use std::collections::BTreeMap;
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap};

/// (key, key tag, value)
pub type T3 = (u16, u16, u16);
pub type M<const N: usize> = VecMap<[(E, E); N]>;
pub const KINDS: [&str; 4] = ["outer", "left", "right", "inner"];
pub fn mm<const N: usize>(s: &[P]) -> M<N> where [(E, E); N]: smallvec::Array<Item = (E, E)> {
    s.iter().map(|p| (E::new(p.0, p.1), E::new(p.0.wrapping_mul(31).wrapping_add(p.1), 0))).collect()
}
pub fn val(p: &P) -> u16 { p.0.wrapping_mul(31).wrapping_add(p.1) }
pub fn rd(s: &[(E, E)]) -> Vec<T3> { s.iter().map(|x| (ps(std::slice::from_ref(&x.0))[0].0, x.0.t, ks(std::slice::from_ref(&x.1))[0])).collect() }
/// pure combining functions; the sides are told apart
pub fn fx(m: u8, k: u16, a: Option<u16>, b: Option<u16>) -> Option<u16> {
    let v = a.map_or(1000, |x| x.wrapping_mul(3)).wrapping_add(b.map_or(7000, |x| x.wrapping_mul(5))).wrapping_add(k.wrapping_mul(7));
    match m {
        0 => Some(v),
        1 => if k % 2 == 0 { Some(v) } else { None },
        2 => if (v ^ (v >> 3)) % 3 != 0 { Some(v) } else { None },
        3 => None,
        4 => if a.is_some() && b.is_some() { None } else { Some(v) },
        5 => if a.is_some() && b.is_some() { Some(v) } else { None },
        6 => a.or(b),
        _ => if k < 310 { Some(b.unwrap_or(v)) } else { None },
    }
}
pub fn rjoin(kind: u8, m: u8, a: &[P], b: &[P]) -> Vec<T3> {
    let ma: BTreeMap<u16, P> = a.iter().map(|p| (p.0, *p)).collect();
    let mb: BTreeMap<u16, P> = b.iter().map(|p| (p.0, *p)).collect();
    let mut keys: Vec<u16> = ma.keys().chain(mb.keys()).cloned().collect();
    keys.sort(); keys.dedup();
    keys.into_iter().filter_map(|k| {
        let (x, y) = (ma.get(&k), mb.get(&k));
        let cov = match kind { 0 => true, 1 => x.is_some(), 2 => y.is_some(), _ => x.is_some() && y.is_some() };
        if !cov { return None; }
        fx(m, k, x.map(val), y.map(val)).map(|v| (k, x.or(y).unwrap().1, v))
    }).collect()
}
fn e(v: Option<u16>) -> Option<E> { v.map(|v| E::new(v, 0)) }
fn byref<const N: usize, const L: usize>(kind: u8, m: u8, a: &[P], b: &[P]) -> R
where [(E, E); N]: smallvec::Array<Item = (E, E)>, [(E, E); L]: smallvec::Array<Item = (E, E)> {
    let (x, y) = (mm::<N>(a), mm::<L>(b));
    let r: VecMap<[(E, E); 3]> = match kind {
        0 => x.outer_join(&y, |arg| match arg { OuterJoinArg::Left(k, a) => e(fx(m, k.k, Some(a.k), None)), OuterJoinArg::Right(k, b) => e(fx(m, k.k, None, Some(b.k))), OuterJoinArg::Both(k, a, b) => e(fx(m, k.k, Some(a.k), Some(b.k))) }),
        1 => x.left_join(&y, |k, a, b| e(fx(m, k.k, Some(a.k), b.map(|b| b.k)))),
        2 => x.right_join(&y, |k, a, b| e(fx(m, k.k, a.map(|a| a.k), Some(b.k)))),
        _ => x.inner_join(&y, |k, a, b| e(fx(m, k.k, Some(a.k), Some(b.k)))),
    };
    eq("result", rd(r.as_ref()), rjoin(kind, m, a, b))?;
    eq("left operand unchanged", rd(x.as_ref()), a.iter().map(|p| (p.0, p.1, val(p))).collect())?;
    eq("right operand unchanged", rd(y.as_ref()), b.iter().map(|p| (p.0, p.1, val(p))).collect())
}
fn inplace<const N: usize, const L: usize>(kind: u8, m: u8, a: &[P], b: &[P]) -> R
where [(E, E); N]: smallvec::Array<Item = (E, E)>, [(E, E); L]: smallvec::Array<Item = (E, E)> {
    let (mut x, y) = (mm::<N>(a), mm::<L>(b));
    match kind {
        0 => x.outer_join_with(&y, |arg| match arg { OuterJoinArg::Left(k, a) => e(fx(m, k.k, Some(a.k), None)), OuterJoinArg::Right(k, b) => e(fx(m, k.k, None, Some(b.k))), OuterJoinArg::Both(k, a, b) => e(fx(m, k.k, Some(a.k), Some(b.k))) }),
        1 => x.left_join_with(&y, |k, a, b| e(fx(m, k.k, Some(a.k), b.map(|b| b.k)))),
        2 => x.right_join_with(&y, |k, a, b| e(fx(m, k.k, a.map(|a| a.k), Some(b.k)))),
        3 => x.inner_join_with(&y, |k, a, b| e(fx(m, k.k, Some(a.k), Some(b.k)))),
        _ => {
            x.combine_with(y, |a, b| E::new(fx(0, 0, Some(a.k), Some(b.k)).unwrap(), 0));
            let want: Vec<T3> = rjoin(0, 6, a, b).into_iter().map(|(k, t, v)| {
                match (a.iter().find(|p| p.0 == k), b.iter().find(|p| p.0 == k)) { (Some(p), Some(q)) => (k, t, fx(0, 0, Some(val(p)), Some(val(q))).unwrap()), _ => (k, t, v) } }).collect();
            eq("combine_with", rd(x.as_ref()), want)?;
            let mut x = mm::<N>(a);
            x.merge_with(mm::<L>(b));
            let want: Vec<T3> = rjoin(0, 6, a, b).into_iter().map(|(k, t, v)| (k, t, b.iter().find(|p| p.0 == k).map_or(v, val))).collect();
            eq("merge_with", rd(x.as_ref()), want)?;
            x.insert(E::new(5, 5), E::new(6, 6));
            return Ok(());
        }
    }
    eq("result", rd(x.as_ref()), rjoin(kind, m, a, b))?;
    eq("right operand unchanged", rd(y.as_ref()), b.iter().map(|p| (p.0, p.1, val(p))).collect())?;
    // still usable
    let n = x.len();
    ok("insert of a new key", x.insert(E::new(60000, 0), E::new(1, 1)).is_none())?;
    eq("len after insert", x.len(), n + 1)
}
fn dispatch(w: u8, shape: u8, kind: u8, m: u8, a: &[P], b: &[P]) -> R {
    match (w, shape) {
        (0, 0) => byref::<1, 1>(kind, m, a, b), (0, 1) => byref::<8, 2>(kind, m, a, b), (0, _) => byref::<2, 16>(kind, m, a, b),
        (_, 0) => inplace::<1, 1>(kind, m, a, b), (_, 1) => inplace::<8, 2>(kind, m, a, b), (_, _) => inplace::<2, 16>(kind, m, a, b),
    }
}
pub fn c07(c: &mut Ctx) {
    let mut i = 0u64;
    let u = if c.thorough { 7 } else { 5 };
    pairs(c, u, 15000, |c, n, a, b| for kind in 0..4u8 {
        i += 1;
        let m = (i * 2654435761 >> 7) as u8 % 8;
        c.case(!a.is_empty() && !b.is_empty(), || format!("by-ref {} join, function {} shape {} a={:?} b={:?}", KINDS[kind as usize], m, n, a, b), || dispatch(0, n, kind, m, a, b))
    })
}
pub fn c08(c: &mut Ctx) {
    let mut i = 0u64;
    let u = if c.thorough { 7 } else { 5 };
    pairs(c, u, 15000, |c, n, a, b| for kind in 0..5u8 {
        i += 1;
        let m = (i * 2654435761 >> 7) as u8 % 8;
        let nm = if kind == 4 { "combine_with/merge_with" } else { KINDS[kind as usize] };
        c.case(!a.is_empty() && !b.is_empty(), || format!("in-place {} join, function {} shape {} a={:?} b={:?}", nm, m, n, a, b), || dispatch(1, n, kind, m, a, b))
    })
}
type T3s = Vec<T3>;
fn put(m: &mut T3s, x: T3) { match m.iter().position(|q| q.0 == x.0) { Some(j) => m[j] = x, None => { m.push(x); m.sort() } } }
fn history<const N: usize>(init: &[P], ops: &[(u8, u16, u16)]) -> R where [(E, E); N]: smallvec::Array<Item = (E, E)> {
    let mut x: M<N> = mm::<N>(init);
    let mut m: T3s = vec![];
    for p in init { put(&mut m, (p.0, p.1, val(p))) }
    eq("from_iter (ascending, last of equal keys kept)", rd(x.as_ref()), m.clone())?;
    let bt: BTreeMap<E, E> = m.iter().map(|t| (E::new(t.0, t.1), E::new(t.2, 0))).collect();
    let y: M<N> = bt.into();
    eq("from BTreeMap", rd(y.as_ref()), m.clone())?;
    for (i, (op, k, t)) in ops.iter().enumerate() {
        let at = m.iter().position(|q| q.0 == *k);
        match op {
            0 => {
                let r = x.insert(E::new(*k, *t), E::new(*t, 1)).map(|v| v.k);
                eq(&format!("step {}: insert returns the previous value", i), r, at.map(|j| m[j].2))?;
                put(&mut m, (*k, *t, *t));
            }
            1 => {
                let r = x.get_mut(&E::new(*k, 99));
                eq(&format!("step {}: get_mut finds", i), r.as_ref().map(|v| v.k), at.map(|j| m[j].2))?;
                if let Some(v) = r { *v = E::new(*t, 7); }
                if let Some(j) = at { m[j].2 = *t; }
            }
            2 => { let (d, v) = (*t % 3 + 2, *k); x.retain(|e| e.0.k % d != v % d && e.1.k % 7 != 3); m.retain(|p| p.0 % d != v % d && p.2 % 7 != 3); }
            3 => {
                let add: Vec<P> = (0..*t % 40).map(|j| (k.wrapping_mul(7).wrapping_add(j.wrapping_mul(11)) % 50, 50 + j)).collect();
                x.extend(add.iter().map(|p| (E::new(p.0, p.1), E::new(val(p), 0))));
                // keys keep the first copy that was in the map, new ones the last copy of the batch
                let mut nb: T3s = vec![];
                for p in &add { put(&mut nb, (p.0, p.1, val(p))) }
                for n in nb { match m.iter().position(|q| q.0 == n.0) { Some(j) => m[j].2 = n.2, None => put(&mut m, n) } }
            }
            4 => { x = x.map_values(|v| E::new(v.k.wrapping_add(*t), 3)); for q in &mut m { q.2 = q.2.wrapping_add(*t) } }
            _ => { let z = x.clone(); ok("clone equal", z == x)?; x = z; }
        }
        eq(&format!("step {}: contents", i), rd(x.as_ref()), m.clone())?;
        eq("len", x.len(), m.len())?;
        eq("is_empty", x.is_empty(), m.is_empty())?;
        eq("trait is_empty", AbstractVecMap::is_empty(&x), m.is_empty())?;
        let at = m.iter().position(|q| q.0 == *k);
        eq("get", x.get(&E::new(*k, 98)).map(|v| v.k), at.map(|j| m[j].2))?;
        for q in &m { eq("get of a stored key", x.get(&E::new(q.0, 98)).map(|v| v.k), Some(q.2))?; eq("get of the next key", x.get(&E::new(q.0 + 1, 98)).map(|v| v.k), m.iter().find(|z| z.0 == q.0 + 1).map(|z| z.2))?; }
    }
    eq("iter", x.iter().map(|(k, v)| (k.k, k.t, v.k)).collect::<T3s>(), m.clone())?;
    eq("iter size_hint", x.iter().size_hint(), (m.len(), Some(m.len())))?;
    eq("&into_iter", (&x).into_iter().map(|(k, v)| (k.k, k.t, v.k)).collect::<T3s>(), m.clone())?;
    eq("into_iter", x.clone().into_iter().map(|(k, v)| (k.k, k.t, v.k)).collect::<T3s>(), m.clone())?;
    let s: SmallVec<[(E, E); N]> = x.clone().into();
    eq("into SmallVec", rd(&s), m.clone())?;
    let s: vec_collections::VecSet<[(E, E); N]> = x.clone().into();
    eq("into the set of its pairs", rd(s.as_ref()), m.clone())?;
    let s = x.clone().into_inner();
    eq("into_inner", rd(&s), m.clone())?;
    let (mut it, mut i) = (x.into_iter(), 0);
    while i < m.len() / 2 { it.next(); i += 1; }
    drop(it);
    // keys looked up in borrowed form
    let sm: VecMap<[(String, u16); N2]> = m.iter().map(|t| (format!("{:05}", t.0), t.2)).collect();
    let mut sm = sm;
    for t in &m { eq("get(&str)", sm.get(format!("{:05}", t.0).as_str()).cloned(), Some(t.2))?; }
    eq("get(&str) of an absent key", sm.get("x").cloned(), None)?;
    if let Some(t) = m.first() { *sm.get_mut(format!("{:05}", t.0).as_str()).unwrap() = 4; eq("get_mut(&str)", sm.get(format!("{:05}", t.0).as_str()).cloned(), Some(4))?; }
    let one: M<N> = VecMap::single((E::new(4, 4), E::new(5, 5)));
    eq("single", rd(one.as_ref()), vec![(4, 4, 5)])?;
    let none: M<N> = VecMap::empty();
    eq("empty", rd(none.as_ref()), vec![])?;
    let none: M<N> = Default::default();
    eq("default", rd(none.as_ref()), vec![])
}
const N2: usize = 2;
pub fn c06(c: &mut Ctx) {
    let alpha: Vec<(u8, u16, u16)> = vec![(0, 0, 3), (0, 1, 4), (0, 2, 5), (1, 0, 8), (1, 1, 9), (1, 2, 10), (2, 1, 0), (3, 1, 3), (4, 1, 9)];
    let depth = if c.thorough { 4 } else { 3 };
    let init: [&[P]; 4] = [&[], &[(1, 1)], &[(2, 1), (0, 2), (2, 3)], &[(1, 1), (1, 2), (0, 1), (2, 1)]];
    for i in init { for d in 0..alpha.len().pow(depth) {
        if c.done() { return; }
        let mut x = d; let mut ops = vec![];
        for _ in 0..depth { ops.push(alpha[x % alpha.len()]); x /= alpha.len(); }
        c.case(true, || format!("map history init={:?} ops={:?}", i, ops), || history::<2>(i, &ops));
    } }
    let mut r = Rng::new(c.seed);
    for n in 0..c.reps(12000) {
        if c.done() { return; }
        let (len, rg) = (r.below(60), [4, 12, 50, 200][r.below(4) as usize]);
        let init: Vec<P> = (0..len).map(|j| (r.below(rg) as u16, j as u16)).collect();
        let ops: Vec<(u8, u16, u16)> = (0..r.below(12)).map(|_| (r.below(6) as u8, r.below(rg) as u16, r.below(200) as u16)).collect();
        c.case(true, || format!("map history init={:?} ops={:?}", init, ops), || if n % 2 == 0 { history::<1>(&init, &ops) } else { history::<8>(&init, &ops) });
    }
}
