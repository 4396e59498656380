//! Serde: round trips and arbitrary input sequences.
use crate::ctx::*;
use serde::de::{self, value::U32Deserializer, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{VecMap, VecSet};

type Err = de::value::Error;
/// ordered by the high half; the low half tells equal elements apart
#[derive(Clone, Copy, Debug)]
pub struct X(u32);
impl PartialEq for X { fn eq(&self, o: &X) -> bool { self.0 >> 16 == o.0 >> 16 } }
impl Eq for X {}
impl PartialOrd for X { fn partial_cmp(&self, o: &X) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for X { fn cmp(&self, o: &X) -> Ordering { (self.0 >> 16).cmp(&(o.0 >> 16)) } }
impl<'de> Deserialize<'de> for X { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<X, D::Error> { u32::deserialize(d).map(X) } }
impl Serialize for X { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(self.0) } }

/// a format that announces any length it likes
struct F<'a> { items: &'a [(u32, u32)], hint: Option<usize>, fail: Option<usize>, i: usize }
impl<'de, 'a> SeqAccess<'de> for F<'a> {
    type Error = Err;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
        if self.fail == Some(self.i) { return Err(de::Error::custom("broken")); }
        self.i += 1;
        match self.items.get(self.i - 1) { Some(x) => { let d: U32Deserializer<Err> = x.0.into_deserializer(); s.deserialize(d).map(Some) } None => Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> { self.hint }
}
impl<'de, 'a> MapAccess<'de> for F<'a> {
    type Error = Err;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
        if self.fail == Some(self.i) { return Err(de::Error::custom("broken")); }
        self.i += 1;
        match self.items.get(self.i - 1) { Some(x) => { let d: U32Deserializer<Err> = x.0.into_deserializer(); s.deserialize(d).map(Some) } None => Ok(None) }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Err> { let d: U32Deserializer<Err> = self.items[self.i - 1].1.into_deserializer(); s.deserialize(d) }
    fn size_hint(&self) -> Option<usize> { self.hint }
}
impl<'de, 'a> Deserializer<'de> for F<'a> {
    type Error = Err;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { Err(de::Error::custom("neither a sequence nor a map was asked for")) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { v.visit_seq(self) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { v.visit_map(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any }
}
fn hint(h: u8, n: usize) -> Option<usize> { match h % 6 { 0 => None, 1 => Some(n), 2 => Some(0), 3 => Some(n / 2), 4 => Some(n + 1000), _ => Some(usize::MAX >> (h % 7)) } }

fn seq<const N: usize>(h: u8, items: &[(u32, u32)]) -> R
where [X; N]: smallvec::Array<Item = X>, [(X, u32); N]: smallvec::Array<Item = (X, u32)>,
    [u32; N]: smallvec::Array<Item = u32>, [(u32, u32); N]: smallvec::Array<Item = (u32, u32)> {
    let mut first: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    for x in items { first.entry(x.0 >> 16).or_insert(*x); }
    let d = || F { items, hint: hint(h, items.len()), fail: None, i: 0 };
    let s = VecSet::<[X; N]>::deserialize(d()).map_err(|e| format!("well-formed sequence rejected: {}", e))?;
    let got: Vec<u32> = s.as_ref().iter().map(|x| x.0 >> 16).collect();
    eq("deserialised set, elements", got, first.keys().cloned().collect())?;
    for x in s.as_ref() { ok("deserialised set holds elements of the input", items.iter().any(|y| y.0 == x.0))?; }
    let m = VecMap::<[(X, u32); N]>::deserialize(d()).map_err(|e| format!("well-formed map rejected: {}", e))?;
    let got: Vec<(u32, u32)> = m.as_ref().iter().map(|x| (x.0 .0, x.1)).collect();
    eq("deserialised map, entries (the first one per key)", got, first.values().cloned().collect())?;
    if !items.is_empty() {
        let at = h as usize % items.len();
        let e = || F { items, hint: hint(h, items.len()), fail: Some(at), i: 0 };
        ok("a broken sequence is an error", VecSet::<[X; N]>::deserialize(e()).is_err() && VecMap::<[(X, u32); N]>::deserialize(e()).is_err())?;
    }
    // as JSON, out of order and with duplicates
    let js = serde_json::to_string(&items.iter().map(|x| x.0).collect::<Vec<_>>()).unwrap();
    let s: VecSet<[X; N]> = serde_json::from_str(&js).map_err(|e| format!("well-formed sequence rejected: {}", e))?;
    eq("set from JSON", s.as_ref().iter().map(|x| x.0 >> 16).collect::<Vec<_>>(), first.keys().cloned().collect::<Vec<_>>())?;
    for neg in [false, true] {
        let js = format!("[{},{}]", js, neg);
        let t: TotalVecSet<[u32; N]> = serde_json::from_str(&js).map_err(|e| format!("well-formed total set rejected: {}", e))?;
        for x in items.iter().take(20) { ok("total set from JSON", t.contains(&x.0) == !neg)?; ok("total set from JSON", t.contains(&(x.0 ^ 0x8000_0000)) == neg)?; }
        eq("total set from JSON, written again", serde_json::to_string(&t).unwrap(), { let mut v: Vec<u32> = items.iter().map(|x| x.0).collect(); v.sort(); v.dedup(); format!("[{},{}]", serde_json::to_string(&v).unwrap(), neg) })?;
    }
    let js = format!("[{{{}}},7]", items.iter().map(|x| format!("\"{}\":{}", x.0, x.1 % 9)).collect::<Vec<_>>().join(","));
    let t: TotalVecMap<u32, [(u32, u32); N]> = serde_json::from_str(&js).map_err(|e| format!("well-formed total map rejected: {}", e))?;
    let mut f: BTreeMap<u32, u32> = BTreeMap::new();
    for x in items { f.entry(x.0).or_insert(x.1 % 9); }
    for (k, v) in &f { eq(&format!("total map from JSON at {}", k), t[k], *v)?; }
    eq("total map from JSON elsewhere", t[&0xffff_fff0], 7)?;
    eq("total map from JSON holds no default entries", t.non_default_mappings().as_ref().to_vec(), f.into_iter().filter(|x| x.1 != 7).collect())
}
fn round<const N: usize>(a: &[P]) -> R
where [u32; N]: smallvec::Array<Item = u32>, [(u32, u32); N]: smallvec::Array<Item = (u32, u32)> {
    let s: VecSet<[u32; N]> = a.iter().map(|x| x.0 as u32).collect();
    let m: VecMap<[(u32, u32); N]> = a.iter().map(|x| (x.0 as u32, x.0 as u32 % 5)).collect();
    ok("set round trip", serde_json::from_str::<VecSet<[u32; N]>>(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())? == s)?;
    eq("set as JSON", serde_json::to_string(&s).unwrap(), serde_json::to_string(&a.iter().map(|x| x.0).collect::<Vec<_>>()).unwrap())?;
    ok("map round trip", serde_json::from_str::<VecMap<[(u32, u32); N]>>(&serde_json::to_string(&m).unwrap()).map_err(|e| e.to_string())? == m)?;
    eq("map as JSON", serde_json::to_string(&m).unwrap(), serde_json::to_string(&a.iter().map(|x| (x.0, x.0 % 5)).collect::<BTreeMap<_, _>>()).unwrap())?;
    let t: TotalVecSet<[u32; N]> = s.into();
    let n = !t.clone();
    ok("total set round trip", serde_json::from_str::<TotalVecSet<[u32; N]>>(&serde_json::to_string(&t).unwrap()).map_err(|e| e.to_string())? == t)?;
    ok("negated total set round trip", serde_json::from_str::<TotalVecSet<[u32; N]>>(&serde_json::to_string(&n).unwrap()).map_err(|e| e.to_string())? == n)?;
    let t = TotalVecMap::<u32, [(u32, u32); N]>::new(m, 3);
    ok("total map round trip", serde_json::from_str::<TotalVecMap<u32, [(u32, u32); N]>>(&serde_json::to_string(&t).unwrap()).map_err(|e| e.to_string())? == t)
}
pub fn c21(c: &mut Ctx) {
    let go = |c: &mut Ctx, h: u8, v: &[(u32, u32)]| {
        c.case(v.len() > 1, || format!("deserialise, announced length {:?}, sequence {:?}", hint(h, v.len()), v), || match h % 3 { 0 => seq::<1>(h, v), 1 => seq::<3>(h, v), _ => seq::<8>(h, v) });
    };
    // all sequences over three keys up to length 5
    for l in 0..=5u32 { for x in 0..3u32.pow(l) { for h in 0..6u8 {
        if c.done() { return; }
        if l == 5 && !c.thorough && h % 3 != (x % 3) as u8 { continue; }
        let mut y = x;
        let v: Vec<(u32, u32)> = (0..l).map(|i| { let k = y % 3; y /= 3; (k << 16 | i, 100 + i) }).collect();
        go(c, h.wrapping_add((x % 5) as u8 * 6), &v);
    } } }
    let mut r = Rng::new(c.seed);
    for i in 0..c.reps(3000) {
        if c.done() { return; }
        let lim = [5, 20, 40, 100, 400][r.below(5) as usize];
        let n = r.below(lim);
        let rg = [2, 10, 60, 1000][r.below(4) as usize];
        let mut v: Vec<(u32, u32)> = (0..n).map(|j| ((r.below(rg) as u32) << 16 | j as u32, r.below(1000) as u32)).collect();
        match i % 4 { 1 => v.sort(), 2 => { v.sort(); v.reverse() } _ => {} }
        go(c, r.below(250) as u8, &v);
        let s = rset(&mut r, n, rg, 0);
        c.case(s.len() > 1, || format!("round trip {:?}", s), || match i % 3 { 0 => round::<1>(&s), 1 => round::<3>(&s), _ => round::<8>(&s) });
    }
}
