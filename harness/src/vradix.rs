//! Radix trees against a model: an ordered map from byte strings to values.
use crate::ctx::*;
use std::collections::BTreeMap;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

pub type K = Vec<u8>;
pub type M = BTreeMap<K, u16>;
pub trait Tree: AbstractRadixTreeMut<u8, u16> + 'static {}
impl<T: AbstractRadixTreeMut<u8, u16> + 'static> Tree for T {}

pub fn build<T: Tree>(m: &M) -> T {
    let mut t = T::empty();
    for (k, v) in m { t.insert(k, *v) }
    t
}
/// built in another order, with detours
pub fn build2<T: Tree>(m: &M) -> T {
    let mut t = T::empty();
    for (i, (k, v)) in m.iter().rev().enumerate() {
        if i % 3 == 0 { t.insert(k, v.wrapping_add(1)); }
        if i % 2 == 0 { t.insert(k, *v) } else { let s = T::single(k, *v); t.outer_combine_with(&s, |a, b| { *a = *b; true }) }
    }
    t
}
fn walk<T: AbstractRadixTree<u8, u16>>(t: &T, pre: &K, out: &mut M) -> R {
    let mut p = pre.clone();
    p.extend_from_slice(t.prefix());
    if let Some(v) = t.value() { if out.insert(p.clone(), *v).is_some() { return Err(format!("key {:?} stored twice", p)); } }
    for c in t.children() { walk(c, &p, out)? }
    Ok(())
}
/// the mapping, read from the nodes
pub fn dump<T: AbstractRadixTree<u8, u16>>(t: &T) -> Result<M, String> {
    let mut m = M::new();
    walk(t, &vec![], &mut m)?;
    Ok(m)
}
fn canon_rec<T: AbstractRadixTree<u8, u16>>(t: &T, root: bool) -> R {
    if !root {
        ok("children have a non-empty prefix", !t.prefix().is_empty())?;
        ok("children are not empty", t.value().is_some() || !t.children().is_empty())?;
    }
    if t.value().is_none() && t.children().is_empty() { ok("an empty tree has no prefix", t.prefix().is_empty())?; }
    ok("a node without a value does not have a single child", t.value().is_some() || t.children().len() != 1)?;
    for c in t.children() { canon_rec(c, false)?; }
    ok("children are strictly ascending", t.children().windows(2).all(|w| w[0].prefix()[0] < w[1].prefix()[0]))
}
pub fn canon<T: AbstractRadixTree<u8, u16>>(what: &str, t: &T) -> R { canon_rec(t, true).map_err(|e| format!("{}: {}", what, e)) }
pub fn same<T: AbstractRadixTree<u8, u16>>(what: &str, t: &T, m: &M) -> R { eq(what, dump(t)?, m.clone()) }

// ---- generation -----------------------------------------------------------------------------------------------------
/// how the symbols of a short word are spelled out; long spellings do not fit the inline buffer of a path fragment
fn spell(style: u8, w: &[u8]) -> K {
    match style % 5 {
        0 => w.to_vec(),
        1 => w.iter().flat_map(|c| std::iter::repeat(*c).take(3)).collect(),
        2 => w.iter().enumerate().flat_map(|(i, c)| { let mut v = vec![7u8; 15 + i]; v.push(*c); v }).collect(),
        3 => w.iter().map(|c| [0u8, 255, 128, 1, 254, 127, 3][*c as usize % 7]).collect(),
        _ => { let mut v: K = (0..16).collect(); v.extend(w.iter().map(|c| c ^ 1)); v }
    }
}
fn val(k: &[u8], tag: u16) -> u16 { k.iter().fold(tag.wrapping_mul(977), |a, c| a.wrapping_mul(31).wrapping_add(*c as u16 + 1)) }
/// all words over `a` letters up to length `l`
fn words(a: u8, l: usize) -> Vec<K> {
    let mut r = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..l {
        let mut n = vec![];
        for w in &last { for c in 0..a { let mut x: K = w.clone(); x.push(c); n.push(x); } }
        r.extend(n.iter().cloned());
        last = n;
    }
    r
}
fn pick(ws: &[K], mask: u64, style: u8, tag: u16) -> M { ws.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, w)| { let k = spell(style, w); let v = val(&k, tag); (k, v) }).collect() }
fn rkey(r: &mut Rng, sym: u64, len: u64) -> K { let n = r.below(len + 1); (0..n).map(|_| r.below(sym) as u8).collect() }
fn rmap(r: &mut Rng, n: u64, sym: u64, len: u64, style: u8, tag: u16, base: &M) -> M {
    let mut m = M::new();
    let keys: Vec<K> = base.keys().cloned().collect();
    for _ in 0..n {
        let k = if !keys.is_empty() && r.below(3) > 0 {
            let mut k = keys[r.below(keys.len() as u64) as usize].clone();
            match r.below(5) { 0 => { k.pop(); } 1 => k.push(r.below(sym) as u8), 2 => { let l = r.below(k.len() as u64 + 1) as usize; k.truncate(l); } 3 => if !k.is_empty() { let i = r.below(k.len() as u64) as usize; k[i] ^= 1; }, _ => {} }
            k
        } else { spell(style, &rkey(r, sym, len)) };
        let v = val(&k, tag);
        m.insert(k, v);
    }
    m
}
/// pairs of trees: all pairs of subsets of small word universes in several spellings, wide nodes in all relative
/// positions, random pairs that share paths
pub fn tpairs(c: &mut Ctx, rand: u64, mut f: impl FnMut(&mut Ctx, u8, &M, &M)) {
    let w2 = words(2, 2);
    for style in 0..5u8 {
        let n = w2.len() as u32;
        for x in 0..(1u64 << n) { for y in 0..(1u64 << n) {
            if !c.thorough && style > 0 && (x * 37 + y * 11 + style as u64) % 4 != 0 { continue; }
            if c.done() { return; }
            f(c, (x ^ y) as u8, &pick(&w2, x, style, 1), &pick(&w2, y, style, 2));
        } }
    }
    // deep and narrow: prefixes of one long word, and words leaving it at every position
    let long: K = (0..40).map(|i| (i % 3) as u8).collect();
    for i in 0..=40usize { for j in 0..=40usize {
        if c.done() { return; }
        let mut a = M::new(); let mut b = M::new();
        a.insert(long[..i].to_vec(), 1);
        b.insert(long[..j].to_vec(), 2);
        if (i + j) % 3 == 0 { let mut k = long[..j].to_vec(); k.push(9); b.insert(k, 3); }
        if (i * j) % 4 == 1 { let mut k = long[..i / 2].to_vec(); k.push(8); a.insert(k, 4); }
        if i % 5 == 2 { a.insert(long.clone(), 5); }
        f(c, (i * 7 + j) as u8, &a, &b);
    } }
    // wide: many children, runs in all relative positions
    let sizes: &[u16] = if c.thorough { &[1, 2, 3, 7, 8, 9, 15, 16, 17, 33, 65, 120] } else { &[1, 2, 8, 16, 17, 33, 65] };
    for n in sizes { for m in sizes { for (i, (a, b)) in shapes(*n, *m).into_iter().enumerate() {
        if c.done() { return; }
        let mk = |s: &[P], deep: bool, tag: u16| -> M { s.iter().map(|p| { let x = (p.0 as i32 - 200).rem_euclid(256) as u8; let mut k = vec![x]; if deep && p.0 % 2 == 0 { k.push(x ^ 5); } let v = val(&k, tag); (k, v) }).collect() };
        f(c, i as u8, &mk(&a, i % 2 == 0, 1), &mk(&b, i % 3 == 0, 2));
    } } }
    // full nodes: a child for each possible first component, or for all but one or two
    for n in 0..18u8 { for miss in 0..3usize { for k in 0..5usize {
        if c.done() { return; }
        let gone = [0u8, 127, 255];
        let full = |deep: bool, tag: u16| -> M { (0..=255u8).filter(|x| !gone[..miss].contains(x)).map(|x| { let mut q = vec![x]; if deep && x % 3 == 0 { q.push(x ^ 1); } let v = val(&q, tag); (q, v) }).collect() };
        let a = full(k % 2 == 0, 1);
        let b: M = if k == 4 { full(true, 2) } else { a.keys().filter(|q| (q[0] as usize).wrapping_mul(7) % 64 <= k).map(|q| (q.clone(), val(q, 2))).collect() };
        if n % 2 == 0 { f(c, n, &a, &b) } else { f(c, n, &b, &a) }
    } } }
    let mut r = Rng::new(c.seed);
    for i in 0..c.reps(rand) {
        if c.done() { return; }
        let (sym, len) = [(2, 4), (3, 3), (2, 8), (250, 2), (4, 30)][r.below(5) as usize];
        let style = r.below(5) as u8;
        let (na, nb) = ([2, 5, 12, 40, 120][r.below(5) as usize], [2, 5, 12, 40, 120][r.below(5) as usize]);
        let (na, nb) = (r.below(na) + 1, r.below(nb) + 1);
        let a = rmap(&mut r, na, sym, len, style, 1, &M::new());
        let b = rmap(&mut r, nb, sym, len, style, 2, &a);
        f(c, i as u8, &a, &b);
    }
}
/// probes for lookups: stored keys, their neighbours, and unrelated ones
pub fn probes(m: &M, extra: &M) -> Vec<K> {
    let mut p: Vec<K> = vec![vec![], vec![0], vec![255], vec![7; 40]];
    for k in m.keys().chain(extra.keys()).take(60) {
        p.push(k.clone());
        for i in 0..k.len() { if i < 3 || i + 3 > k.len() || i % 7 == 0 { p.push(k[..i].to_vec()); let mut x = k.clone(); x[i] = x[i].wrapping_add(1); p.push(x); let mut x = k.clone(); x[i] = x[i].wrapping_sub(1); p.push(x); } }
        let mut x = k.clone(); x.push(0); p.push(x.clone()); x.push(9); p.push(x);
    }
    p
}
// ---- combining functions --------------------------------------------------------------------------------------------
pub fn g(m: u8, a: u16, b: u16) -> Option<u16> {
    let v = a.wrapping_mul(3).wrapping_sub(b.wrapping_mul(5));
    match m % 6 { 0 => Some(v), 1 => if (v >> 2) & 1 == 0 { Some(v) } else { None }, 2 => None, 3 => Some(a), 4 => Some(b), _ => if v % 3 == 0 { Some(a ^ b) } else { None } }
}
pub fn gl(m: u8, a: u16, b: Option<u16>) -> Option<u16> { match b { Some(b) => g(m, a, b), None => Some(a) } }
pub fn jo(m: u8, a: &M, b: &M) -> M { let mut r = M::new(); for (k, x) in a { match b.get(k) { Some(y) => { if let Some(v) = g(m, *x, *y) { r.insert(k.clone(), v); } } None => { r.insert(k.clone(), *x); } } } for (k, y) in b { if !a.contains_key(k) { r.insert(k.clone(), *y); } } r }
pub fn ji(m: u8, a: &M, b: &M) -> M { a.iter().filter_map(|(k, x)| b.get(k).and_then(|y| g(m, *x, *y)).map(|v| (k.clone(), v))).collect() }
pub fn jl(m: u8, a: &M, b: &M) -> M { a.iter().filter_map(|(k, x)| gl(m, *x, b.get(k).cloned()).map(|v| (k.clone(), v))).collect() }
fn m3(m: u8) -> impl Fn(&mut u16, &u16) -> bool + Copy { move |a, b| match g(m, *a, *b) { Some(v) => { *a = v; true } None => { *a = 4711; false } } }
fn sel(m: u8, w: u16) -> bool { match m % 4 { 0 => true, 1 => w % 2 == 0, 2 => w % 3 == 1, _ => false } }
fn pfx(a: &M, b: &M, m: u8, keep: bool) -> M { a.iter().filter(|(k, _)| b.iter().any(|(q, w)| sel(m, *w) && k.starts_with(q)) == keep).map(|(k, v)| (k.clone(), *v)).collect() }

/// every by-reference operation; `chk` judges each result
pub fn byref<T: Tree>(m: u8, a: &M, b: &M, chk: impl Fn(&str, &T, M) -> R) -> R {
    let (x, y) = (build::<T>(a), build2::<T>(b));
    chk("outer_combine", &x.outer_combine(&y, move |a, b| g(m, *a, *b)), jo(m, a, b))?;
    chk("inner_combine", &x.inner_combine(&y, move |a, b| g(m, *a, *b)), ji(m, a, b))?;
    chk("left_combine", &x.left_combine(&y, move |a, b| gl(m, *a, b.cloned())), jl(m, a, b))?;
    chk("union", &x.union(&y), jo(3, a, b))?;
    chk("intersection", &x.intersection(&y), ji(3, a, b))?;
    chk("difference", &x.difference(&y), jl(2, a, b))?;
    chk("left operand unchanged", &x, a.clone())?;
    chk("right operand unchanged", &y, b.clone())
}
pub fn inplace<T: Tree>(m: u8, a: &M, b: &M, chk: impl Fn(&str, &T, M) -> R) -> R {
    let (x, y) = (build::<T>(a), build2::<T>(b));
    let go = |what: &str, f: &dyn Fn(&mut T), want: M| -> R {
        let mut t = x.clone();
        f(&mut t);
        chk(what, &t, want.clone())?;
        // and the result is still a working tree
        let mut want = want;
        t.insert(&[3, 1], 9);
        want.insert(vec![3, 1], 9);
        chk(&format!("insert after {}", what), &t, want)
    };
    go("outer_combine_with", &|t| t.outer_combine_with(&y, m3(m)), jo(m, a, b))?;
    go("inner_combine_with", &|t| t.inner_combine_with(&y, m3(m)), ji(m, a, b))?;
    go("left_combine_with", &|t| t.left_combine_with(&y, m3(m)), jl(m, a, b))?;
    go("union_with", &|t| t.union_with(&y), jo(3, a, b))?;
    go("intersection_with", &|t| t.intersection_with(&y), ji(3, a, b))?;
    go("difference_with", &|t| t.difference_with(&y), jl(2, a, b))?;
    chk("operand untouched", &x, a.clone())?;
    chk("right operand unchanged", &y, b.clone())
}
pub fn prefixes<T: Tree>(m: u8, a: &M, b: &M, chk: impl Fn(&str, &T, M) -> R) -> R {
    let (x, y) = (build::<T>(a), build2::<T>(b));
    let mut t = x.clone();
    t.remove_prefix_with(&y, move |w| sel(m, *w));
    chk("remove_prefix_with", &t, pfx(a, b, m, false))?;
    let mut t = x.clone();
    t.retain_prefix_with(&y, move |w| sel(m, *w));
    chk("retain_prefix_with", &t, pfx(a, b, m, true))?;
    let ps = probes(a, b);
    for (i, p) in ps.iter().enumerate() {
        if ps.len() > 60 && (i + m as usize) % 5 != 0 { continue; }
        let want: M = a.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), *v)).collect();
        chk(&format!("filter_prefix({:?})", p), &x.filter_prefix(p), want.clone())?;
        let got: Vec<(K, u16)> = x.scan_prefix(p).map(|(k, v)| (k.as_ref().to_vec(), *v)).collect();
        eq(&format!("scan_prefix({:?})", p), got, want.into_iter().collect())?;
        if i % 7 == 0 || i < 8 {
            let mut t = x.clone();
            t.prepend(p);
            chk(&format!("prepend({:?})", p), &t, a.iter().map(|(k, v)| { let mut q = p.clone(); q.extend_from_slice(k); (q, *v) }).collect())?;
        }
    }
    Ok(())
}
pub fn lookups<T: Tree>(a: &M, b: &M) -> R {
    for (n, t) in [("insert", build::<T>(a)), ("insert in another order", build2::<T>(a))] {
        for p in probes(a, b) {
            eq(&format!("{}: get({:?})", n, p), t.get(&p).cloned(), a.get(&p).cloned())?;
            eq(&format!("{}: contains_key({:?})", n, p), t.contains_key(&p), a.contains_key(&p))?;
        }
        eq("is_empty", t.is_empty(), a.is_empty())?;
    }
    for (k, v) in a.iter().take(3) {
        let t = T::single(k, *v);
        for p in probes(a, b) { eq(&format!("single({:?}): get({:?})", k, p), t.get(&p).cloned(), if p == *k { Some(*v) } else { None })?; }
    }
    let l = T::leaf(77);
    eq("leaf", (l.get(&[]).cloned(), l.get(&[1]).cloned(), l.contains_key(&[])), (Some(77), None, true))?;
    eq("empty", (T::empty().is_empty(), T::empty().get(&[]).cloned()), (true, None))
}
pub fn iteration<T: Tree>(a: &M) -> R {
    let t = build2::<T>(a);
    let want: Vec<(K, u16)> = a.iter().map(|(k, v)| (k.clone(), *v)).collect();
    eq("iter", t.iter().map(|(k, v)| (k.as_ref().to_vec(), *v)).collect::<Vec<_>>(), want.clone())?;
    eq("values", t.values().cloned().collect::<Vec<_>>(), want.iter().map(|x| x.1).collect::<Vec<_>>())?;
    // keys stay valid after the iterator has moved on
    let held: Vec<_> = t.iter().collect();
    eq("iter, entries held", held.iter().map(|(k, v)| (k.as_ref().to_vec(), **v)).collect::<Vec<_>>(), want.clone())?;
    let mut it = t.iter();
    for _ in 0..want.len() { it.next(); }
    ok("iter ends", it.next().is_none() && it.next().is_none())?;
    let mut it = t.values();
    for _ in 0..want.len() { it.next(); }
    ok("values ends", it.next().is_none() && it.next().is_none())?;
    let mut oi = t.clone().into_iter();
    let mut got: Vec<(K, u16)> = vec![];
    while let Some((k, v)) = oi.next() { got.push((k.as_ref().to_vec(), *v)); }
    eq("into_iter", got, want)
}
pub fn predicates<T: Tree>(a: &M, b: &M) -> R {
    let (x, y) = (build::<T>(a), build2::<T>(b));
    let sub = a.keys().all(|k| b.contains_key(k));
    let sup = b.keys().all(|k| a.contains_key(k));
    let int = a.keys().any(|k| b.contains_key(k));
    eq("is_subset", x.is_subset(&y), sub)?;
    eq("is_superset", x.is_superset(&y), sup)?;
    eq("is_subset, swapped", y.is_subset(&x), sup)?;
    eq("intersects", x.intersects(&y), int)?;
    eq("is_disjoint", x.is_disjoint(&y), !int)?;
    eq("intersects, swapped", y.intersects(&x), int)?;
    eq("is_subset of itself", x.is_subset(&x.clone()), true)
}
fn fromiter(a: &M, b: &M) -> R {
    // later entries win
    let mut v: Vec<(K, u16)> = b.iter().map(|(k, v)| (k.clone(), v.wrapping_add(9))).collect();
    v.extend(a.iter().map(|(k, v)| (k.clone(), v ^ 1)));
    v.reverse();
    v.extend(a.iter().map(|(k, v)| (k.clone(), *v)));
    let mut want = M::new();
    for (k, x) in &v { want.insert(k.clone(), *x); }
    let t: RadixTree<u8, u16> = v.into_iter().collect();
    same("from_iter (last entry per key wins)", &t, &want)?;
    for (k, x) in &want { eq("get", t.get(k), Some(x))?; }
    Ok(())
}
fn nt(a: &M, b: &M) -> bool { !a.is_empty() && !b.is_empty() }
pub fn c12(c: &mut Ctx) { tpairs(c, 4000, |c, n, a, b| {
    c.case(nt(a, b), || format!("lookups, tree={:?} probes near {:?}", a, b), || if n % 8 == 0 { fromiter(a, b) } else { lookups::<RadixTree<u8, u16>>(a, b) })
}) }
pub fn c13(c: &mut Ctx) { tpairs(c, 12000, |c, n, a, b| {
    c.case(nt(a, b), || format!("by-reference combination, function {} a={:?} b={:?}", n % 6, a, b), || byref::<RadixTree<u8, u16>>(n, a, b, |w, t, m| same(w, t, &m)))
}) }
pub fn c14(c: &mut Ctx) { tpairs(c, 12000, |c, n, a, b| {
    c.case(nt(a, b), || format!("in-place combination, function {} a={:?} b={:?}", n % 6, a, b), || inplace::<RadixTree<u8, u16>>(n, a, b, |w, t, m| same(w, t, &m)))
}) }
pub fn c16(c: &mut Ctx) { tpairs(c, 4000, |c, n, a, b| {
    c.case(nt(a, b), || format!("prefix operations, selection {} a={:?} b={:?}", n % 4, a, b), || prefixes::<RadixTree<u8, u16>>(n, a, b, |w, t, m| same(w, t, &m)))
}) }
pub fn c17(c: &mut Ctx) { tpairs(c, 8000, |c, _, a, b| {
    let mut m = a.clone();
    for (k, v) in b { m.insert(k.clone(), *v); }
    c.case(m.len() > 1, || format!("iteration, tree={:?}", m), || {
        iteration::<RadixTree<u8, u16>>(&m)?;
        let t = build::<RadixTree<u8, u16>>(a);
        for p in b.keys().take(20) {
            let want: Vec<(K, u16)> = a.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), *v)).collect();
            eq(&format!("scan_prefix({:?})", p), t.scan_prefix(p).map(|(k, v)| (k.as_ref().to_vec(), *v)).collect::<Vec<_>>(), want)?;
        }
        Ok(())
    })
}) }
pub fn c18(c: &mut Ctx) { tpairs(c, 15000, |c, _, a, b| {
    c.case(nt(a, b), || format!("predicates, a={:?} b={:?}", a, b), || predicates::<RadixTree<u8, u16>>(a, b))
}) }
/// canonical form after every operation, and equality exactly when the contents are equal
pub fn c15(c: &mut Ctx) {
    type T = RadixTree<u8, u16>;
    let judge = |w: &str, t: &T, _m: M| -> R {
        canon(w, t)?;
        // however it was built: rebuild from what it holds
        let d = dump(t)?;
        ok(&format!("{}: equal to a tree built from its contents", w), *t == build::<T>(&d) && build2::<T>(&d) == *t)?;
        if let Some((k, v)) = d.iter().nth(d.len() / 2) {
            let mut e = d.clone();
            e.insert(k.clone(), v.wrapping_add(1));
            ok(&format!("{}: not equal to a tree with another value", w), *t != build::<T>(&e))?;
            e.remove(k);
            ok(&format!("{}: not equal to a tree without one of its keys", w), *t != build::<T>(&e))?;
        }
        Ok(())
    };
    let mut seed = c.seed;
    tpairs(c, 3000, |c, n, a, b| {
        seed = seed.wrapping_add(1);
        let s = seed;
        c.case(nt(a, b), || format!("canonical form, variant {} a={:?} b={:?}", n, a, b), || match n % 4 {
            0 => byref::<T>(n / 4, a, b, judge),
            1 => inplace::<T>(n / 4, a, b, judge),
            2 => prefixes::<T>(n / 4, a, b, judge),
            _ => {
                let mut r = Rng::new(s);
                let mut t = build::<T>(a);
                for i in 0..8 {
                    let keys: Vec<&K> = b.keys().chain(a.keys()).collect();
                    let o: T = if i % 2 == 0 { build::<T>(b) } else { let k = keys[r.below(keys.len().max(1) as u64) as usize % keys.len().max(1)]; T::single(&k[..r.below(k.len() as u64 + 1) as usize], 1) };
                    let m = r.below(8) as u8;
                    let w = match r.below(9) {
                        0 => { t.insert(&rkey(&mut r, 3, 4), 5); "insert" }
                        1 => { t.outer_combine_with(&o, m3(m)); "outer_combine_with" }
                        2 => { t.left_combine_with(&o, m3(m)); "left_combine_with" }
                        3 => { t.remove_prefix_with(&o, move |w| sel(m, *w)); "remove_prefix_with" }
                        4 => { t = t.union(&o); "union" }
                        5 => { t = t.difference(&o); "difference" }
                        6 => { let k = rkey(&mut r, 2, 2); t = t.filter_prefix(&k); "filter_prefix" }
                        7 => { t.prepend(&[1]); "prepend" }
                        _ => { t = o.outer_combine(&t, move |a, b| g(m, *a, *b)); "outer_combine" }
                    };
                    judge(&format!("step {}, after {}", i, w), &t, M::new())?;
                }
                Ok(())
            }
        })
    });
}
// ---- shared flavours -------------------------------------------------------------------------------------------------
/// take snapshots along a history and look at all of them at the end
fn snapshots<T: Tree>(n: u8, s: u64, a: &M, b: &M) -> R {
    let mut r = Rng::new(s);
    let mut snaps: Vec<(T, M)> = vec![(build::<T>(a), a.clone()), (build2::<T>(b), b.clone())];
    for i in 0..10u64 {
        let j = r.below(snaps.len() as u64) as usize;
        let l = r.below(snaps.len() as u64) as usize;
        let (mut t, mut m) = (snaps[j].0.clone(), snaps[j].1.clone());
        let (o, om) = (snaps[l].0.clone(), snaps[l].1.clone());
        let f = (n as u64 + i) as u8;
        match r.below(9) {
            0 => { let k = rkey(&mut r, 3, 4); t.insert(&k, i as u16); m.insert(k, i as u16); }
            1 => { if let Some(k) = m.keys().nth(r.below(m.len().max(1) as u64) as usize).cloned() { t.insert(&k, 1000 + i as u16); m.insert(k, 1000 + i as u16); } }
            2 => { t.outer_combine_with(&o, m3(f)); m = jo(f, &m, &om); }
            3 => { t.inner_combine_with(&o, m3(0)); m = ji(0, &m, &om); }
            4 => { t.left_combine_with(&o, m3(f)); m = jl(f, &m, &om); }
            5 => { t.remove_prefix_with(&o, move |w| sel(f, *w)); m = pfx(&m, &om, f, false); }
            6 => { t.prepend(&[1, 2]); m = m.into_iter().map(|(k, v)| { let mut q = vec![1, 2]; q.extend_from_slice(&k); (q, v) }).collect(); }
            7 => { t.union_with(&o); m = jo(3, &m, &om); }
            _ => { let k = rkey(&mut r, 2, 2); t = t.filter_prefix(&k); m.retain(|q, _| q.starts_with(&k)); }
        }
        if r.below(4) == 0 { snaps[j] = (t, m) } else { snaps.push((t, m)) }
        drop(o);
        for (q, (t, m)) in snaps.iter().enumerate() { same(&format!("snapshot {} after step {}", q, i), t, m)?; }
    }
    Ok(())
}
type A = ArcRadixTree<u8, u16>;
type L = LazyRadixTree<'static, u8, u16>;
pub fn c19(c: &mut Ctx) {
    let mut s = c.seed;
    tpairs(c, 6000, |c, n, a, b| {
        s = s.wrapping_add(1);
        let q = s;
        c.case(nt(a, b), || format!("snapshots ({}) a={:?} b={:?} history seed {}", if n % 3 == 2 { "lazy" } else { "arc" }, a, b, q), || if n % 3 == 2 { snapshots::<L>(n, q, a, b) } else { snapshots::<A>(n, q, a, b) })
    })
}
fn all<T: Tree>(n: u8, a: &M, b: &M) -> R {
    match n % 6 {
        0 => lookups::<T>(a, b),
        1 => byref::<T>(n / 6, a, b, |w, t, m| { same(w, t, &m)?; canon(w, t) }),
        2 => inplace::<T>(n / 6, a, b, |w, t, m| { same(w, t, &m)?; canon(w, t) }),
        3 => prefixes::<T>(n / 6, a, b, |w, t, m| { same(w, t, &m)?; canon(w, t) }),
        4 => iteration::<T>(a),
        _ => predicates::<T>(a, b),
    }
}
fn conv(a: &M, b: &M) -> R {
    let p = build::<RadixTree<u8, u16>>(a);
    let x: A = p.clone().into();
    same("ArcRadixTree from RadixTree", &x, a)?;
    canon("ArcRadixTree from RadixTree", &x)?;
    let y: L = p.into();
    same("LazyRadixTree from RadixTree", &y, a)?;
    canon("LazyRadixTree from RadixTree", &y)?;
    for k in probes(a, b) {
        eq("get (arc, converted)", x.get(&k), a.get(&k))?;
        eq("get (lazy, converted)", y.get(&k), a.get(&k))?;
    }
    Ok(())
}
pub fn c20(c: &mut Ctx) { tpairs(c, 6000, |c, n, a, b| {
    let fl = (a.len() + 2 * b.len() + n as usize / 3 + n as usize) % 5;
    c.case(nt(a, b), || format!("flavour {} operation {} a={:?} b={:?}", ["arc", "lazy", "converted", "arc", "archived"][fl], n, a, b), || match fl { 0 | 3 => all::<A>(n, a, b), 1 => all::<L>(n, a, b), 2 => conv(a, b), _ => crate::varch::flavours(n, a, b) })
}) }
