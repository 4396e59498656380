//@ tag sd
//@ # ---- serde: what a format presents, and the contracts of its traits (trusted stand-ins for serde's own traits) ------------
enum Tok { Leaf(int), List(Seq<Tok>), Entries(Seq<(Tok, Tok)>) }
/// how a value reads from a format
trait DeSpec: Sized {
    /// v is what t deserialises to
    spec fn dec(t: Tok, v: Self) -> bool;
    spec fn dreq() -> bool;
}
spec fn decodable<T: DeSpec>(t: Tok) -> bool { exists|v: T| #[trigger] T::dec(t, v) }
spec fn decs<T: DeSpec>(t: Seq<Tok>, s: Seq<T>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] T::dec(t[i], s[i]) }
spec fn decp<K: DeSpec, V: DeSpec>(t: Seq<(Tok, Tok)>, s: Seq<(K, V)>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < t.len() ==> K::dec(#[trigger] t[i].0, s[i].0) && V::dec(t[i].1, s[i].1) }
trait SeqAccess<'de>: Sized {
    type Error;
    spec fn toks(&self) -> Seq<Tok>;
    /// the input is well-formed: the format itself never fails
    spec fn ok(&self) -> bool;
    /// untrusted
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_element<T: DeSpec>(&mut self) -> (r: Result<Option<T>, Self::Error>)
      requires T::dreq()
      ensures final(self).ok() == old(self).ok(), match r {
          Ok(Some(v)) => old(self).toks().len() > 0 && T::dec(old(self).toks()[0], v) && final(self).toks() == old(self).toks().skip(1),
          Ok(None) => old(self).toks().len() == 0 && final(self).toks() == old(self).toks(),
          Err(_) => !old(self).ok() || (old(self).toks().len() > 0 && !decodable::<T>(old(self).toks()[0])),
      };
}
trait MapAccess<'de>: Sized {
    type Error;
    spec fn toks(&self) -> Seq<(Tok, Tok)>;
    spec fn ok(&self) -> bool;
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_entry<K: DeSpec, V: DeSpec>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
      requires K::dreq(), V::dreq()
      ensures final(self).ok() == old(self).ok(), match r {
          Ok(Some(e)) => old(self).toks().len() > 0 && K::dec(old(self).toks()[0].0, e.0) && V::dec(old(self).toks()[0].1, e.1) && final(self).toks() == old(self).toks().skip(1),
          Ok(None) => old(self).toks().len() == 0 && final(self).toks() == old(self).toks(),
          Err(_) => !old(self).ok() || (old(self).toks().len() > 0 && !(decodable::<K>(old(self).toks()[0].0) && decodable::<V>(old(self).toks()[0].1))),
      };
}
/// `serde::de::Visitor`, the part a sequence visitor overrides (every other visit method fails)
trait SeqVisitor<'de>: Sized {
    type Value;
    spec fn vreq() -> bool;
    spec fn vdec(t: Seq<Tok>, v: Self::Value) -> bool;
    fn visit_seq<B: SeqAccess<'de>>(self, seq: B) -> (r: Result<Self::Value, B::Error>)
      requires Self::vreq()
      ensures match r { Ok(v) => Self::vdec(seq.toks(), v), Err(_) => !seq.ok() || !(exists|v: Self::Value| #[trigger] Self::vdec(seq.toks(), v)) };
}
trait MapVisitor<'de>: Sized {
    type Value;
    spec fn vreq() -> bool;
    spec fn vdec(t: Seq<(Tok, Tok)>, v: Self::Value) -> bool;
    fn visit_map<M: MapAccess<'de>>(self, map: M) -> (r: Result<Self::Value, M::Error>)
      requires Self::vreq()
      ensures match r { Ok(v) => Self::vdec(map.toks(), v), Err(_) => !map.ok() || !(exists|v: Self::Value| #[trigger] Self::vdec(map.toks(), v)) };
}
trait Deserializer<'de>: Sized {
    type Error;
    spec fn tok(self) -> Tok;
    spec fn ok(self) -> bool;
    fn deserialize_seq<V: SeqVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
      requires V::vreq()
      ensures match r { Ok(v) => self.tok() is List && V::vdec(self.tok()->List_0, v),
          Err(_) => !self.ok() || !(self.tok() is List) || !(exists|v: V::Value| #[trigger] V::vdec(self.tok()->List_0, v)) };
    fn deserialize_map<V: MapVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
      requires V::vreq()
      ensures match r { Ok(v) => self.tok() is Entries && V::vdec(self.tok()->Entries_0, v),
          Err(_) => !self.ok() || !(self.tok() is Entries) || !(exists|v: V::Value| #[trigger] V::vdec(self.tok()->Entries_0, v)) };
}
trait Deserialize<'de>: DeSpec {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
      requires Self::dreq()
      ensures match r { Ok(v) => Self::dec(deserializer.tok(), v), Err(_) => !deserializer.ok() || !decodable::<Self>(deserializer.tok()) };
}
impl<X: DeSpec, Y: DeSpec> DeSpec for (X, Y) {
    spec fn dec(t: Tok, v: (X, Y)) -> bool { t is List && t->List_0.len() == 2 && X::dec(t->List_0[0], v.0) && Y::dec(t->List_0[1], v.1) }
    spec fn dreq() -> bool { X::dreq() && Y::dreq() }
}
impl<'de, X: Deserialize<'de>, Y: Deserialize<'de>> Deserialize<'de> for (X, Y) {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
}
uninterp spec fn bool_tok(b: bool) -> Tok;
impl DeSpec for bool { spec fn dec(t: Tok, v: bool) -> bool { t == bool_tok(v) } spec fn dreq() -> bool { true } }
impl<'de> Deserialize<'de> for bool {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
}
/// how a value writes to a format
trait SerSpec { spec fn enc(&self) -> Tok; }
impl<T: SerSpec> SerSpec for &T { spec fn enc(&self) -> Tok { (**self).enc() } }
impl<X: SerSpec, Y: SerSpec> SerSpec for (X, Y) { spec fn enc(&self) -> Tok { Tok::List(seq![self.0.enc(), self.1.enc()]) } }
impl SerSpec for bool { spec fn enc(&self) -> Tok { bool_tok(*self) } }
trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn els(&self) -> Seq<Tok>;
    /// the length announced to the format
    spec fn len(&self) -> Option<usize>;
    /// the result o stands for the written list t
    spec fn done(&self, t: Seq<Tok>, o: Self::Ok) -> bool;
    fn serialize_element<T: SerSpec>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
      ensures r.is_ok() ==> final(self).els() == old(self).els().push(value.enc()), final(self).len() == old(self).len(), forall|t: Seq<Tok>, o: Self::Ok| #[trigger] final(self).done(t, o) == old(self).done(t, o);
    /// a format may rely on the announced length
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
      requires self.len().is_some() ==> self.len() == Some(self.els().len() as usize)
      ensures match r { Ok(o) => self.done(self.els(), o), Err(_) => true };
}
trait SerializeMap: Sized {
    type Ok;
    type Error;
    spec fn els(&self) -> Seq<(Tok, Tok)>;
    spec fn len(&self) -> Option<usize>;
    spec fn done(&self, t: Seq<(Tok, Tok)>, o: Self::Ok) -> bool;
    fn serialize_entry<K: SerSpec, V: SerSpec>(&mut self, k: &K, v: &V) -> (r: Result<(), Self::Error>)
      ensures r.is_ok() ==> final(self).els() == old(self).els().push((k.enc(), v.enc())), final(self).len() == old(self).len(), forall|t: Seq<(Tok, Tok)>, o: Self::Ok| #[trigger] final(self).done(t, o) == old(self).done(t, o);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
      requires self.len().is_some() ==> self.len() == Some(self.els().len() as usize)
      ensures match r { Ok(o) => self.done(self.els(), o), Err(_) => true };
}
trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    /// the result o stands for the written value t
    spec fn wrote(self, t: Tok, o: Self::Ok) -> bool;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
      ensures match r { Ok(st) => st.els() == Seq::<Tok>::empty() && st.len() == len && forall|t: Seq<Tok>, o: Self::Ok| #[trigger] st.done(t, o) ==> self.wrote(Tok::List(t), o), Err(_) => true };
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
      ensures match r { Ok(st) => st.els() == Seq::<(Tok, Tok)>::empty() && st.len() == len && forall|t: Seq<(Tok, Tok)>, o: Self::Ok| #[trigger] st.done(t, o) ==> self.wrote(Tok::Entries(t), o), Err(_) => true };
}
trait Serialize: SerSpec {
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
      ensures match r { Ok(o) => serializer.wrote(self.enc(), o), Err(_) => true };
}
impl<T: Serialize> Serialize for &T {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
impl<X: Serialize, Y: Serialize> Serialize for (X, Y) {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
impl Serialize for bool {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
/// reading back what was written gives the value back
#[verifier::opaque]
spec fn roundtrips<T: DeSpec + SerSpec>() -> bool { forall|x: T, y: T| #[trigger] T::dec(x.enc(), y) <==> x == y }
proof fn lemma_roundtrips<T: DeSpec + SerSpec>(x: T, y: T) requires roundtrips::<T>() ensures T::dec(x.enc(), y) <==> x == y { reveal(roundtrips); }
//@ # ---- capacity and sorting of a SmallVec -------------------------------------------------------------------------------------
impl<A: Array> SmallVec<A> {
    /// `SmallVec::with_capacity` for a length the input announced: an unbounded request would abort or panic
    #[verifier::external_body]
    fn with_capacity_untrusted(n: usize) -> (r: Self) requires n <= 65536 ensures r@ == Seq::<A::Item>::empty() { unimplemented!() }
    /// a stable sort (derefs to `slice::sort`)
    #[verifier::external_body]
    fn sort(&mut self) where A::Item: Ord
      requires ord_laws::<A::Item>()
      ensures final(self)@.len() == old(self)@.len(), forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> #[trigger] oc(final(self)@[i], final(self)@[j]) != Ordering::Greater,
        forall|x: A::Item| #[trigger] cls(final(self)@, x, oceq()) == cls(old(self)@, x, oceq())
    { unimplemented!() }
    /// `SmallVec::dedup` (`==` agrees with `cmp`, as Ord documents)
    #[verifier::external_body]
    fn dedup(&mut self) where A::Item: Ord
      requires ord_laws::<A::Item>(), contiguous(old(self)@, oceq())
      ensures dedup_ok(old(self)@, final(self)@, Keep::First, oceq())
    { unimplemented!() }
    /// a stable sort by a key function
    #[verifier::external_body]
    fn sort_by_key<K: Ord, F: Fn(&A::Item) -> K>(&mut self, f: F)
      requires ord_laws::<K>(), exists|g: spec_fn(A::Item) -> K| #[trigger] is_key(g) && key_fn(f, g)
      ensures final(self)@.len() == old(self)@.len(),
        forall|g: spec_fn(A::Item) -> K| #[trigger] is_key(g) && key_fn(f, g) ==>
          (forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> #[trigger] oc(g(final(self)@[i]), g(final(self)@[j])) != Ordering::Greater)
          && (forall|x: A::Item| #[trigger] cls(final(self)@, x, geq(g)) == cls(old(self)@, x, geq(g)))
    { unimplemented!() }
    #[verifier::external_body]
    fn dedup_by_key<K: Ord, F: Fn(&mut A::Item) -> K>(&mut self, f: F)
      requires ord_laws::<K>(), exists|g: spec_fn(A::Item) -> K| #[trigger] is_key(g) && mkey_fn(f, g)
      ensures forall|g: spec_fn(A::Item) -> K| #[trigger] is_key(g) && mkey_fn(f, g) && contiguous(old(self)@, geq(g)) ==> dedup_ok(old(self)@, final(self)@, Keep::First, geq(g))
    { unimplemented!() }
}
/// names the function a key closure computes
spec fn is_key<T, K>(g: spec_fn(T) -> K) -> bool { true }
spec fn geq<T, K: Ord>(g: spec_fn(T) -> K) -> spec_fn(T, T) -> bool { |a: T, b: T| oc(g(a), g(b)) == Ordering::Equal }
spec fn key_fn<T, K, F: Fn(&T) -> K>(f: F, g: spec_fn(T) -> K) -> bool { (forall|x: T| #[trigger] f.requires((&x,))) && forall|x: T, k: K| #[trigger] f.ensures((&x,), k) ==> k == g(x) }
#[verifier::prophetic]
spec fn mkey_fn<T, K, F: Fn(&mut T) -> K>(f: F, g: spec_fn(T) -> K) -> bool { (forall|m: &mut T| #[trigger] f.requires((m,))) && forall|m: &mut T, k: K| #[trigger] f.ensures((m,), k) ==> *final(m) == *m && k == g(*m) }
fn vx_min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
