//! Archived forms: round trips, queries on the archive, validation of foreign archives.
use crate::ctx::*;
use crate::vradix::*;
use rkyv::ser::serializers::AllocSerializer;
use rkyv::ser::Serializer;
use rkyv::{Archive, Archived, AlignedVec, Deserialize, Infallible, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

type T = RadixTree<u8, u16>;
type A = ArcRadixTree<u8, u16>;
type L = LazyRadixTree<'static, u8, u16>;

fn bytes<X: Serialize<AllocSerializer<1024>>>(x: &X) -> Result<AlignedVec, String> {
    let mut s = AllocSerializer::<1024>::default();
    s.serialize_value(x).map_err(|e| format!("serialization failed: {}", e))?;
    Ok(s.into_serializer().into_inner())
}
/// every read-only operation on an archived tree, alone and against a plain or archived one
fn reads<X, Y>(what: &str, x: &X, y: &Y, a: &M, b: &M) -> R
where X: AbstractRadixTree<u8, u16>, X::Materialized: AbstractRadixTree<u8, u16>, Y: AbstractRadixTree<u8, u16, Materialized = X::Materialized> {
    same(what, x, a)?;
    for k in probes(a, b) {
        eq(&format!("{}: get({:?})", what, k), x.get(&k).cloned(), a.get(&k).cloned())?;
        eq(&format!("{}: contains_key({:?})", what, k), x.contains_key(&k), a.contains_key(&k))?;
    }
    for k in b.keys().take(4) {
        let want: Vec<(Vec<u8>, u16)> = a.iter().filter(|(q, _)| q.starts_with(k)).map(|(k, v)| (k.clone(), *v)).collect();
        eq(&format!("{}: scan_prefix({:?})", what, k), x.scan_prefix(k).map(|(k, v)| (k.as_ref().to_vec(), *v)).collect::<Vec<_>>(), want)?;
    }
    eq(&format!("{}: iter", what), x.iter().map(|(k, v)| (k.as_ref().to_vec(), *v)).collect::<Vec<_>>(), a.iter().map(|(k, v)| (k.clone(), *v)).collect())?;
    eq(&format!("{}: values", what), x.values().cloned().collect::<Vec<_>>(), a.values().cloned().collect())?;
    eq(&format!("{}: is_empty", what), x.is_empty(), a.is_empty())?;
    eq(&format!("{}: is_subset", what), x.is_subset(y), a.keys().all(|k| b.contains_key(k)))?;
    eq(&format!("{}: is_superset", what), x.is_superset(y), b.keys().all(|k| a.contains_key(k)))?;
    eq(&format!("{}: intersects", what), x.intersects(y), a.keys().any(|k| b.contains_key(k)))?;
    same(&format!("{}: outer_combine", what), &x.outer_combine(y, |a, b| g(0, *a, *b)), &jo(0, a, b))?;
    same(&format!("{}: inner_combine", what), &x.inner_combine(y, |a, b| g(1, *a, *b)), &ji(1, a, b))?;
    same(&format!("{}: left_combine", what), &x.left_combine(y, |a, b| gl(1, *a, b.cloned())), &jl(1, a, b))
}
/// archived flavours agree with the plain tree, and so does what is restored from them
pub fn flavours(n: u8, a: &M, b: &M) -> R {
    match n % 3 {
        0 => {
            let (x, y) = (bytes(&build::<T>(a))?, bytes(&build2::<T>(b))?);
            let (x, y) = unsafe { (rkyv::archived_root::<T>(&x), rkyv::archived_root::<T>(&y)) };
            reads("archived RadixTree", x, y, a, b)?;
            reads("archived against plain RadixTree", x, &build::<T>(b), a, b)?;
            reads("plain against archived RadixTree", &build::<T>(a), y, a, b)?;
            let mut t: T = x.deserialize(&mut Infallible).unwrap();
            canon("restored RadixTree", &t)?;
            ok("restored RadixTree equals the original", t == build::<T>(a))?;
            t.outer_combine_with(y, |a, b| { *a = *b; true });
            same("restored RadixTree, outer_combine_with an archived one", &t, &jo(4, a, b))
        }
        1 => {
            let (x, y) = (bytes(&build::<A>(a))?, bytes(&build2::<A>(b))?);
            let (x, y) = unsafe { (rkyv::archived_root::<A>(&x), rkyv::archived_root::<A>(&y)) };
            reads("archived ArcRadixTree", x, y, a, b)?;
            let t: A = x.deserialize(&mut rkyv::de::deserializers::SharedDeserializeMap::new()).unwrap();
            same("restored ArcRadixTree", &t, a)?;
            canon("restored ArcRadixTree", &t)?;
            let mut t: A = x.into();
            same("ArcRadixTree from archived", &t, a)?;
            let s = t.clone();
            t.union_with(y);
            same("ArcRadixTree from archived, after union_with", &t, &jo(3, a, b))?;
            same("its snapshot", &s, a)
        }
        _ => {
            let (x, y) = (bytes(&build::<L>(a))?, bytes(&build2::<L>(b))?);
            let (x, y) = unsafe { (rkyv::archived_root::<L>(&x), rkyv::archived_root::<L>(&y)) };
            reads("archived LazyRadixTree", x, y, a, b)?;
            let mut t: LazyRadixTree<u8, u16> = x.into();
            let s = t.clone();
            same("LazyRadixTree from archived", &t, a)?;
            for k in probes(a, b) { eq("get", t.get(&k).cloned(), a.get(&k).cloned())?; }
            t.insert(&[1, 2, 3], 7);
            let mut m = a.clone();
            m.insert(vec![1, 2, 3], 7);
            same("LazyRadixTree from archived, after insert", &t, &m)?;
            same("its snapshot", &s, a)
        }
    }
}
// ---- C22 -------------------------------------------------------------------------------------------------------------
/// the same memory layout as a tree node, without its invariants
#[derive(Archive, Serialize, Clone)]
#[archive_attr(repr(C))]
#[archive(bound(serialize = "__S: rkyv::ser::ScratchSpace + rkyv::ser::Serializer"))]
struct Node { prefix: Vec<u8>, value: Option<u16>, #[omit_bounds] children: Vec<Node> }
#[derive(Archive, Serialize, Clone)]
#[archive_attr(repr(C))]
#[archive(bound(serialize = "__S: rkyv::ser::ScratchSpace + rkyv::ser::Serializer + rkyv::ser::SharedSerializeRegistry"))]
struct ANode { prefix: Vec<u8>, value: Option<u16>, #[omit_bounds] children: Arc<Vec<ANode>> }
fn arc(n: &Node) -> ANode { ANode { prefix: n.prefix.clone(), value: n.value, children: Arc::new(n.children.iter().map(arc).collect()) } }
fn node<X: AbstractRadixTree<u8, u16>>(t: &X) -> Node { Node { prefix: t.prefix().to_vec(), value: t.value().cloned(), children: t.children().iter().map(node).collect() } }
fn valid(n: &Node) -> bool {
    n.children.iter().all(|c| !c.prefix.is_empty() && valid(c)) && n.children.windows(2).all(|w| w[0].prefix[0] < w[1].prefix[0])
}
fn at<'a>(n: &'a mut Node, r: &mut Rng) -> &'a mut Node {
    if n.children.is_empty() || r.below(3) == 0 { return n; }
    let i = r.below(n.children.len() as u64) as usize;
    at(&mut n.children[i], r)
}
fn spoil(n: &mut Node, r: &mut Rng) {
    let n = at(n, r);
    let l = n.children.len() as u64;
    match r.below(6) {
        0 if l > 1 => { let (i, j) = (r.below(l) as usize, r.below(l) as usize); n.children.swap(i, j); }
        1 if l > 0 => { let i = r.below(l) as usize; n.children[i].prefix.clear(); }
        2 if l > 0 => { let i = r.below(l) as usize; let c = n.children[i].clone(); n.children.insert(i, c); }
        3 if l > 1 => { let i = r.below(l - 1) as usize; let q = n.children[i].prefix.get(0).cloned().unwrap_or(0); if let Some(x) = n.children[i + 1].prefix.get_mut(0) { *x = q } }
        4 if l > 0 => n.children.reverse(),
        _ => { n.value = None; n.prefix = vec![] }
    }
}
/// look at everything an accepted archive offers
fn use_tree<X: AbstractRadixTree<u8, u16>>(what: &str, t: &X) -> R {
    fn go<X: AbstractRadixTree<u8, u16>>(t: &X, d: usize, n: &mut usize) -> R {
        *n += 1;
        if d > 3000 || *n > 100_000 { return Ok(()); }
        for c in t.children() { ok("children of an accepted archive have a non-empty prefix", !c.prefix().is_empty())?; go(c, d + 1, n)?; }
        ok("children of an accepted archive are strictly ascending", t.children().windows(2).all(|w| w[0].prefix()[0] < w[1].prefix()[0]))
    }
    go(t, 0, &mut 0).map_err(|e| format!("{}: {}", what, e))
}
fn corrupt(b: &AlignedVec, r: &mut Rng) -> AlignedVec {
    let mut c = AlignedVec::with_capacity(b.len());
    c.extend_from_slice(b);
    let l = c.len() as u64;
    if l == 0 { return c; }
    for _ in 0..1 + r.below(3) {
        let i = if r.bool() { r.below(l) } else { l - 1 - r.below(l.min(32)) } as usize;
        match r.below(4) {
            0 => c[i] = r.below(256) as u8,
            1 => c[i] ^= 1 << r.below(8),
            2 => { let i = i & !3; for k in 0..4 { if i + k < c.len() { c[i + k] = r.below(256) as u8; } } }
            _ => { let i = i & !3; let v = (r.below(4000) as i32 - 2000).to_le_bytes(); for k in 0..4 { if i + k < c.len() { c[i + k] = v[k]; } } }
        }
    }
    c
}
fn trees(s: u64, a: &M, b: &M) -> R {
    let mut r = Rng::new(s);
    // what the crate itself writes is accepted, and equal after restoring it
    let x = bytes(&build::<T>(a))?;
    rkyv::check_archived_root::<T>(&x).map_err(|e| format!("archive of a RadixTree rejected: {:?}", e))?;
    let y = bytes(&build2::<A>(b))?;
    rkyv::check_archived_root::<A>(&y).map_err(|e| format!("archive of an ArcRadixTree rejected: {:?}", e))?;
    flavours(s as u8, a, b)?;
    strings(a)?;
    let mut n = node(&build::<T>(a));
    let k = r.below(3);
    for _ in 0..k { spoil(&mut n, &mut r) }
    let want = valid(&n);
    let z = bytes(&n)?;
    let t = rkyv::check_archived_root::<T>(&z);
    eq("validation of a RadixTree archive accepts exactly the well-formed nodes", t.is_ok(), want)?;
    let za = bytes(&arc(&n))?;
    let t = rkyv::check_archived_root::<A>(&za);
    eq("validation of an ArcRadixTree archive accepts exactly the well-formed nodes", t.is_ok(), want)?;
    for (i, q) in [&x, &z].into_iter().enumerate() {
        for _ in 0..6 { let c = corrupt(q, &mut r); if let Ok(t) = rkyv::check_archived_root::<T>(&c) { use_tree(&format!("corrupted RadixTree archive {}", i), t)?; } }
    }
    for (i, q) in [&y, &za].into_iter().enumerate() {
        for _ in 0..6 { let c = corrupt(q, &mut r); if let Ok(t) = rkyv::check_archived_root::<A>(&c) { use_tree(&format!("corrupted ArcRadixTree archive {}", i), t)?; } }
    }
    Ok(())
}
/// a value whose archived form records the position it was told to be at
#[derive(Clone, Copy, Debug)]
#[repr(C)]
struct At(u64);
impl Archive for At {
    type Archived = At;
    type Resolver = ();
    unsafe fn resolve(&self, pos: usize, _: (), out: *mut At) { out.write(At(pos as u64)) }
}
impl<S: rkyv::Fallible + ?Sized> Serialize<S> for At { fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) } }
fn places<X: Serialize<AllocSerializer<1024>> + AbstractRadixTreeMut<u8, At, Materialized = X>>(what: &str, a: &M) -> R where X::Archived: AbstractRadixTree<u8, At> {
    let mut t = X::empty();
    for k in a.keys() { t.union_with(&X::single(k, At(0))) }
    let x = bytes(&t)?;
    let mut n = 0;
    for v in unsafe { rkyv::archived_root::<X>(&x) }.values() { n += 1; eq(&format!("archived {}: the value's position", what), v.0, (v as *const At as usize - x.as_ptr() as usize) as u64)?; }
    eq("number of values", n, a.len())
}
fn strings(a: &M) -> R {
    let m: BTreeMap<Vec<u8>, String> = a.iter().map(|(k, v)| (k.clone(), format!("value {} {}", v, "xy".repeat(*v as usize % 17)))).collect();
    fn mk<X: AbstractRadixTreeMut<u8, String, Materialized = X>>(m: &BTreeMap<Vec<u8>, String>) -> X { let mut t = X::empty(); for (k, v) in m { t.union_with(&X::single(k, v.clone())) } t }
    fn rd<X: AbstractRadixTree<u8, String>>(t: &X) -> BTreeMap<Vec<u8>, String> { t.iter().map(|(k, v)| (k.as_ref().to_vec(), v.clone())).collect() }
    let x = bytes(&mk::<RadixTree<u8, String>>(&m))?;
    let t: RadixTree<u8, String> = unsafe { rkyv::archived_root::<RadixTree<u8, String>>(&x) }.deserialize(&mut Infallible).unwrap();
    eq("restored RadixTree of strings", rd(&t), m.clone())?;
    let x = bytes(&mk::<ArcRadixTree<u8, String>>(&m))?;
    let t: ArcRadixTree<u8, String> = unsafe { rkyv::archived_root::<ArcRadixTree<u8, String>>(&x) }.deserialize(&mut rkyv::de::deserializers::SharedDeserializeMap::new()).unwrap();
    eq("restored ArcRadixTree of strings", rd(&t), m.clone())?;
    places::<RadixTree<u8, At>>("RadixTree", a)?;
    places::<ArcRadixTree<u8, At>>("ArcRadixTree", a)?;
    places::<LazyRadixTree<'static, u8, At>>("LazyRadixTree", a)?;
    let vs: VecSet<[String; 4]> = m.values().cloned().collect();
    let x = bytes(&vs)?;
    let t: VecSet<[String; 4]> = unsafe { rkyv::archived_root::<VecSet<[String; 4]>>(&x) }.deserialize(&mut Infallible).unwrap();
    ok("restored VecSet of strings", t == vs)?;
    let vm: VecMap<[(String, String); 2]> = m.iter().map(|(k, v)| (format!("key {:?}", k), v.clone())).collect();
    let x = bytes(&vm)?;
    let t: VecMap<[(String, String); 2]> = unsafe { rkyv::archived_root::<VecMap<[(String, String); 2]>>(&x) }.deserialize(&mut Infallible).unwrap();
    ok("restored VecMap of strings", t == vm)
}
type S4 = VecSet<[u32; 4]>;
type M4 = VecMap<[(u32, u16); 4]>;
fn flat(s: u64, a: &[P], b: &[P]) -> R {
    let mut r = Rng::new(s);
    let va: Vec<u32> = a.iter().map(|x| x.0 as u32 * 3).collect();
    let vb: Vec<u32> = b.iter().map(|x| x.0 as u32 * 3).collect();
    let (sa, sb): (S4, S4) = (va.iter().cloned().collect(), vb.iter().cloned().collect());
    let (ma, mb): (M4, M4) = (va.iter().map(|k| (*k, *k as u16 ^ 77)).collect(), vb.iter().map(|k| (*k, *k as u16 ^ 99)).collect());
    let (xa, xb, ya, yb) = (bytes(&sa)?, bytes(&sb)?, bytes(&ma)?, bytes(&mb)?);
    let x = rkyv::check_archived_root::<S4>(&xa).map_err(|e| format!("archive of a VecSet rejected: {:?}", e))?;
    let x2 = rkyv::check_archived_root::<S4>(&xb).map_err(|e| format!("archive of a VecSet rejected: {:?}", e))?;
    let y = rkyv::check_archived_root::<M4>(&ya).map_err(|e| format!("archive of a VecMap rejected: {:?}", e))?;
    let y2 = rkyv::check_archived_root::<M4>(&yb).map_err(|e| format!("archive of a VecMap rejected: {:?}", e))?;
    let back: S4 = x.deserialize(&mut Infallible).unwrap();
    ok("restored VecSet equals the original", back == sa)?;
    let back: M4 = y.deserialize(&mut Infallible).unwrap();
    ok("restored VecMap equals the original", back == ma)?;
    let (bs, bs2): (std::collections::BTreeSet<u32>, std::collections::BTreeSet<u32>) = (va.iter().cloned().collect(), vb.iter().cloned().collect());
    for k in 0..60u32 {
        let k = if k % 2 == 0 { k } else { va.get(k as usize % va.len().max(1)).cloned().unwrap_or(0) + k % 3 };
        eq("archived set: contains", x.contains(&k), bs.contains(&k))?;
        eq("archived map: get", y.get(&k).cloned(), ma.get(&k).cloned())?;
    }
    eq("archived set: is_empty", x.is_empty(), va.is_empty())?;
    eq("archived set: is_subset", AbstractVecSet::is_subset(x, x2), bs.is_subset(&bs2))?;
    eq("archived set: is_superset of a plain one", AbstractVecSet::is_superset(x, &sb), bs.is_superset(&bs2))?;
    eq("archived set: is_disjoint", AbstractVecSet::is_disjoint(x, x2), bs.is_disjoint(&bs2))?;
    let u: S4 = AbstractVecSet::union(x, x2);
    eq("archived set: union", u.as_ref().to_vec(), bs.union(&bs2).cloned().collect())?;
    let u: S4 = AbstractVecSet::difference(&sa, x2);
    eq("plain minus archived set", u.as_ref().to_vec(), bs.difference(&bs2).cloned().collect())?;
    let mut u = sa.clone();
    u.intersection_with(x2);
    eq("intersection_with an archived set", u.as_ref().to_vec(), bs.intersection(&bs2).cloned().collect())?;
    let j: M4 = y.inner_join(y2, |_, a, b| Some(a.wrapping_add(*b)));
    let want: Vec<(u32, u16)> = bs.intersection(&bs2).map(|k| (*k, (*k as u16 ^ 77).wrapping_add(*k as u16 ^ 99))).collect();
    eq("archived map: inner_join", j.as_ref().to_vec(), want)?;
    // foreign archives: accepted exactly when strictly ascending
    let mut f: Vec<u32> = va.clone();
    for _ in 0..r.below(3) {
        let l = f.len() as u64;
        match r.below(4) { 0 if l > 1 => { let i = r.below(l - 1) as usize; f.swap(i, i + 1) } 1 if l > 0 => { let i = r.below(l) as usize; let q = f[i]; f.insert(i, q) } 2 if l > 0 => { let i = l as usize - 1; f[i] = f[0] } _ => { f.push(r.below(2000) as u32) } }
    }
    let want = f.windows(2).all(|w| w[0] < w[1]);
    let q = bytes(&f)?;
    eq(&format!("validation of a VecSet archive of {:?}", f), rkyv::check_archived_root::<S4>(&q).is_ok(), want)?;
    let fm: Vec<(u32, u16)> = f.iter().enumerate().map(|(i, k)| (*k, i as u16)).collect();
    let qm = bytes(&fm)?;
    eq(&format!("validation of a VecMap archive of {:?}", fm), rkyv::check_archived_root::<M4>(&qm).is_ok(), want)?;
    for _ in 0..6 {
        let c = corrupt(&xa, &mut r);
        if let Ok(t) = rkyv::check_archived_root::<S4>(&c) { ok("an accepted VecSet archive is strictly ascending", t.iter().cloned().collect::<Vec<_>>().windows(2).all(|w| w[0] < w[1]))?; }
        let c = corrupt(&ya, &mut r);
        if let Ok(t) = rkyv::check_archived_root::<M4>(&c) { ok("an accepted VecMap archive is strictly ascending", t.iter().map(|x| x.0).collect::<Vec<_>>().windows(2).all(|w| w[0] < w[1]))?; }
    }
    Ok(())
}
pub fn c22(c: &mut Ctx) {
    let mut s = c.seed << 20;
    let t = c.deadline;
    c.deadline = std::time::Instant::now() + (t - std::time::Instant::now()) / 2;
    pairs(c, 4, 4000, |c, _, a, b| { s += 1; let q = s; c.case(!a.is_empty() && !b.is_empty(), || format!("archived set and map a={:?} b={:?} variation {}", a, b, q), || flat(q, a, b)) });
    c.deadline = t;
    c.truncated = false;
    tpairs(c, 6000, |c, _, a, b| { s += 1; let q = s; c.case(!a.is_empty() && !b.is_empty(), || format!("archived trees a={:?} b={:?} variation {}", a, b, q), || trees(q, a, b)) });
    let _: Option<(Archived<T>, BTreeMap<u8, u8>)> = None;
}
