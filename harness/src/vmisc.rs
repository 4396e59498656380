//! Equality, ordering and hashing; joins on std maps.
use crate::ctx::*;
use rkyv::ser::Serializer;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{OuterJoinArg, VecMap, VecSet};

fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
/// equality, both orders and the hash against the contents
fn laws<T: Eq + Hash, C: PartialEq>(what: &str, x: &T, y: &T, cx: &C, cy: &C) -> R {
    eq(&format!("{}: equality", what), x == y, cx == cy)?;
    eq(&format!("{}: inequality", what), x != y, cx != cy)?;
    if cx == cy { eq(&format!("{}: equal collections hash equally", what), h(x), h(y))?; }
    Ok(())
}
fn ord<T: Ord, C: Ord>(what: &str, x: &T, y: &T, cx: &C, cy: &C) -> R {
    let w = cx.cmp(cy);
    eq(&format!("{}: cmp", what), x.cmp(y), w)?;
    eq(&format!("{}: cmp, swapped", what), y.cmp(x), w.reverse())?;
    eq(&format!("{}: partial_cmp", what), x.partial_cmp(y), Some(w))?;
    eq(&format!("{}: < <= > >=", what), (x < y, x <= y, x > y, x >= y), (w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less))
}
type KV = Vec<(u16, u16)>;
fn kv(a: &[P], d: u16) -> KV { a.iter().map(|x| (x.0, (x.0 / 3 + x.1 * d) % 4)).collect() }
fn eqord<const N: usize>(d: u16, a: &[P], b: &[P]) -> R
where [E; N]: smallvec::Array<Item = E>, [(u16, u16); N]: smallvec::Array<Item = (u16, u16)>, [u16; N]: smallvec::Array<Item = u16> {
    let (ka, kb): (Vec<u16>, Vec<u16>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
    let mk = |s: &[P], spill: bool| -> VecSet<[E; N]> { let mut t: VecSet<[E; N]> = es(s).into(); if spill { for i in 0..20 { t.insert(E::new(9000 + i, 1)); } t.retain(|e| e.k < 9000); } t };
    for sp in [false, true] {
        let (x, y) = (mk(a, false), mk(b, sp));
        laws("VecSet", &x, &y, &ka, &kb)?;
        ord("VecSet", &x, &y, &ka, &kb)?;
        let (y2, x2) = (mk(a, sp), mk(a, false));
        laws("VecSet, same contents", &x2, &y2, &ka, &ka)?;
        ord("VecSet, same contents", &x2, &y2, &ka, &ka)?;
    }
    let ts = |k: &[u16], n: bool| -> TotalVecSet<[u16; N]> { let s: VecSet<[u16; N]> = k.iter().cloned().collect(); let t: TotalVecSet<[u16; N]> = s.into(); if n { !t } else { t } };
    for (n, m) in [(false, false), (false, true), (true, true)] {
        laws("TotalVecSet", &ts(&ka, n), &ts(&kb, m), &(&ka, n), &(&kb, m))?;
        laws("TotalVecSet, same elements", &ts(&ka, n), &ts(&ka, m), &n, &m)?;
    }
    let mut va = kv(a, d);
    for (vb, w) in [(kv(b, d), 0), (va.clone(), 1), (va.clone(), 2)] {
        let mut vb = vb;
        if w == 2 { if let Some(x) = vb.last_mut() { x.1 += 1; } }
        let mm = |v: &KV| -> VecMap<[(u16, u16); N]> { v.iter().cloned().collect() };
        laws("VecMap", &mm(&va), &mm(&vb), &va, &vb)?;
        ord("VecMap", &mm(&va), &mm(&vb), &va, &vb)?;
        for (p, q) in [(0u16, 0u16), (0, 1), (2, 1), (9, 9)] {
            let tm = |v: &KV, d: u16| TotalVecMap::<u16, [(u16, u16); N]>::new(mm(v), d);
            let c = |v: &KV, d: u16| -> (KV, u16) { (v.iter().filter(|x| x.1 != d).cloned().collect(), d) };
            laws("TotalVecMap", &tm(&va, p), &tm(&vb, q), &c(&va, p), &c(&vb, q))?;
            ord("TotalVecMap", &tm(&va, p), &tm(&vb, q), &c(&va, p), &c(&vb, q))?;
        }
        va = kv(a, d);
    }
    Ok(())
}
pub fn c23(c: &mut Ctx) {
    let u = if c.thorough { 6 } else { 4 };
    pairs(c, u, 15000, |c, n, a, b| {
        let d = (a.len() as u16).wrapping_mul(7).wrapping_add(b.len() as u16 + n as u16);
        c.case(!a.is_empty() && !b.is_empty(), || format!("equality, order and hash, values {} a={:?} b={:?}", d % 4, a, b), || match n { 0 => eqord::<1>(d % 4, a, b), 1 => eqord::<3>(d % 4, a, b), _ => eqord::<16>(d % 4, a, b) })
    })
}
// ---- C24 -------------------------------------------------------------------------------------------------------------
type B = BTreeMap<u16, u16>;
fn f3(m: u8, k: u16, a: Option<u16>, b: Option<u16>) -> Option<u16> {
    let (x, y) = (a.unwrap_or(5000), b.unwrap_or(6000));
    let v = x.wrapping_mul(3).wrapping_sub(y.wrapping_mul(5)).wrapping_add(k);
    match m % 6 { 0 => Some(v), 1 => if (v >> 1) & 1 == 0 { Some(v) } else { None }, 2 => None, 3 => a.or(b), 4 => if a.is_some() && b.is_some() { None } else { Some(v) }, _ => if v % 3 == 0 { Some(x ^ y) } else { None } }
}
fn join(l: bool, r: bool, i: bool, m: u8, a: &B, b: &B) -> B {
    let mut o = B::new();
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k).cloned(), b.get(k).cloned());
        if match (x, y) { (Some(_), Some(_)) => i, (Some(_), None) => l, _ => r } { if let Some(v) = f3(m, *k, x, y) { o.insert(*k, v); } }
    }
    o
}
fn byref<X: AbstractBTreeMap<u16, u16>, Y: AbstractBTreeMap<u16, u16>>(w: &str, m: u8, x: &X, y: &Y, a: &B, b: &B) -> R {
    eq(&format!("{} outer_join", w), x.outer_join(y, |j| match j { OuterJoinArg::Left(k, v) => f3(m, *k, Some(*v), None), OuterJoinArg::Right(k, v) => f3(m, *k, None, Some(*v)), OuterJoinArg::Both(k, v, u) => f3(m, *k, Some(*v), Some(*u)) }), join(true, true, true, m, a, b))?;
    eq(&format!("{} left_join", w), x.left_join(y, |k, v, u| f3(m, *k, Some(*v), u.cloned())), join(true, false, true, m, a, b))?;
    eq(&format!("{} right_join", w), x.right_join(y, |k, v, u| f3(m, *k, v.cloned(), Some(*u))), join(false, true, true, m, a, b))?;
    eq(&format!("{} inner_join", w), x.inner_join::<u16, u16, _, ()>(y, |k, v, u| f3(m, *k, Some(*v), Some(*u))), join(false, false, true, m, a, b))
}
fn set(v: &mut u16, r: Option<u16>) -> bool { match r { Some(x) => { *v = x; true } None => { *v = 4711; false } } }
fn inplace<Y: AbstractBTreeMap<u16, u16>>(w: &str, m: u8, y: &Y, a: &B, b: &B) -> R {
    let mut x = a.clone();
    x.inner_join_with(y, |k, v, u| { let r = f3(m, *k, Some(*v), Some(*u)); set(v, r) });
    eq(&format!("{} inner_join_with", w), x, join(false, false, true, m, a, b))?;
    let mut x = a.clone();
    x.left_join_with(y, |k, v, u| { let r = f3(m, *k, Some(*v), u.cloned()); set(v, r) });
    eq(&format!("{} left_join_with", w), x, join(true, false, true, m, a, b))?;
    let mut x = a.clone();
    x.outer_join_with(y, |k, v, u| { let r = f3(m, *k, Some(*v), u.cloned()); set(v, r) }, |k, u| f3(m, *k, None, Some(*u)));
    eq(&format!("{} outer_join_with", w), x, join(true, true, true, m, a, b))
}
fn bytes(b: &B) -> Result<rkyv::AlignedVec, String> {
    let mut s = rkyv::ser::serializers::AllocSerializer::<1024>::default();
    s.serialize_value(b).map_err(|e| e.to_string())?;
    Ok(s.into_serializer().into_inner())
}
pub fn c24(c: &mut Ctx) {
    let u = if c.thorough { 6 } else { 5 };
    pairs(c, u, 15000, |c, n, a, b| {
        for m in 0..6u8 {
            if a.len() + b.len() > 20 && (m + n) % 3 != 0 { continue; }
            let (x, y): (B, B) = (a.iter().map(|p| (p.0, p.0 * 7 + p.1)).collect(), b.iter().map(|p| (p.0, p.0 * 5 + p.1)).collect());
            c.case(!a.is_empty() && !b.is_empty(), || format!("joins of std maps, function {} a={:?} b={:?}", m, x, y), || {
                byref("BTreeMap", m, &x, &y, &x, &y)?;
                inplace("BTreeMap", m, &y, &x, &y)?;
                if (a.len() + m as usize) % 4 == 0 {
                    let (p, q) = (bytes(&x)?, bytes(&y)?);
                    let (p, q) = unsafe { (rkyv::archived_root::<B>(&p), rkyv::archived_root::<B>(&q)) };
                    byref("archived BTreeMap", m, p, q, &x, &y)?;
                    byref("archived against plain BTreeMap", m, p, &y, &x, &y)?;
                    byref("plain against archived BTreeMap", m, &x, q, &x, &y)?;
                    inplace("archived operand:", m, q, &x, &y)?;
                }
                Ok(())
            })
        }
    })
}
