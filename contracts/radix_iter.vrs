//@ include radix_pred.vrs
//@ include tviter.vrs
//@ tag rxi
//@ # ---- iteration ---------------------------------------------------------------------------------------------------------

/// trusted: `Arc::make_mut`
#[verifier::external_body]
fn vx_make_mut<K: Clone>(a: &mut Arc<Vec<K>>) -> (r: &mut Vec<K>)
    requires clone_ok::<K>()
    ensures (*r)@ == (*old(a))@, (*final(a))@ == (*final(r))@
{ unimplemented!() }
/// trusted: `slice::to_vec`
#[verifier::external_body]
fn vx_to_vec<K: Clone>(s: &[K]) -> (r: Vec<K>)
    requires clone_ok::<K>()
    ensures r@ == s@
{ unimplemented!() }
/// trusted: `Vec::extend_from_slice`
#[verifier::external_body]
fn vx_extend<K: Clone>(v: &mut Vec<K>, s: &[K])
    requires clone_ok::<K>()
    ensures final(v)@ == old(v)@ + s@
{ unimplemented!() }
/// trusted: `slice::last_mut`
#[verifier::external_body]
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T)
    requires old(v)@.len() > 0
    ensures *r == old(v)@.last(), final(v)@ == old(v)@.drop_last().push(*final(r))
{ unimplemented!() }
/// trusted: an allocation is at most isize::MAX bytes, and a node is not zero-sized
#[verifier::external_body]
proof fn axiom_children_len<K: TKey, V: TValue, T: AbstractRadixTree<K, V>>(t: &T)
    ensures t.kids().len() < usize::MAX - 1
{}
//@ struct src/radix_tree/mod.rs IterKey
impl<K> View for IterKey<K> { type V = Seq<K>; closed spec fn view(&self) -> Seq<K> { self.0@ } }
impl<T> IterKey<T> {
//@ fn src/radix_tree/mod.rs | AsRef<[T]> for IterKey | as_ref
//@ ret r
    ensures r@ == self@
//@ rw `self . 0 . as_ref ( )` => `self.0.as_slice()`
//@ endfn
//@ fn src/radix_tree/mod.rs | Borrow<[T]> for IterKey | borrow
//@ name vx_borrow
//@ ret r
    ensures r@ == self@
//@ rw `self . 0 . as_ref ( )` => `self.0.as_slice()`
//@ endfn
//@ fn src/radix_tree/mod.rs | Deref for IterKey | deref
//@ name vx_deref
//@ sigrw `Self :: Target` => `[T]`
//@ ret r
    ensures r@ == self@
//@ rw `self . 0 . as_ref ( )` => `self.0.as_slice()`
//@ endfn
}
/// `#[derive(Clone)]`
#[verifier::external_body]
fn vx_clone_key<K>(k: &IterKey<K>) -> (r: IterKey<K>) ensures r@ == k@ { unimplemented!() }
impl<K: Clone> IterKey<K> {
//@ fn src/radix_tree/mod.rs | IterKey | new
//@ ret r
    requires clone_ok::<K>()
    ensures r@ == root@
//@ rw `root . to_vec ( )` => `vx_to_vec(root)`
//@ endfn
//@ fn src/radix_tree/mod.rs | IterKey | append
    requires clone_ok::<K>()
    ensures final(self)@ == old(self)@ + data@
//@ rw `Arc :: make_mut ( & mut self . 0 )` => `vx_make_mut(&mut self.0)`
//@ rw `elems . extend_from_slice ( $$x )` => `vx_extend(elems, $x)`
//@ endfn
//@ fn src/radix_tree/mod.rs | IterKey | pop
    requires clone_ok::<K>()
    ensures final(self)@ == chop(old(self)@, n as int)
//@ rw `Arc :: make_mut ( & mut self . 0 )` => `vx_make_mut(&mut self.0)`
//@ start
    proof { assert(self@.take(self@.len() as int) =~= self@); }
//@ end
    proof { assert(self@ =~= chop(old(self)@, n as int)); }
//@ endfn
}
/// without the last n elements
spec fn chop<K>(s: Seq<K>, n: int) -> Seq<K> { s.take(if n <= s.len() { s.len() - n } else { 0 }) }
/// the mapping of a tree
spec fn getf<K, V>(t: TV<K, V>) -> spec_fn(Seq<K>) -> Option<V> { |k: Seq<K>| tget(t, k) }
//@ struct src/radix_tree/mod.rs Values
//@ struct src/radix_tree/mod.rs Iter
/// what a stack frame still has to deliver
spec fn frem<K, V>(t: TV<K, V>, pos: int, path: Seq<K>) -> Seq<(Seq<K>, V)> { if pos == 0 { ents(t, path) } else { cents(t, path, pos - 1) } }
spec fn srem<K, V, T: View<V = TV<K, V>>>(s: Seq<(&T, usize)>, path: Seq<K>) -> Seq<(Seq<K>, V)>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let (t, pos) = s.last(); frem(t@, pos as int, path) + srem(s.drop_last(), chop(path, t@.p.len() as int)) } }
spec fn vrem<K, V, T: View<V = TV<K, V>>>(s: Seq<(&T, usize)>) -> Seq<V>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let (t, pos) = s.last(); (if pos == 0 { vals(t@) } else { cvals(t@, pos - 1) }) + vrem(s.drop_last()) } }
spec fn stack_ok<K, V, T: View<V = TV<K, V>>>(s: Seq<(&T, usize)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= s[i].0@.c.len() + 1 }
/// the work left: strictly decreases with every step
spec fn twork<K, V>(t: TV<K, V>) -> nat
    decreases t, t.c.len() + 1
{ 1 + cwork(t, 0) }
spec fn cwork<K, V>(t: TV<K, V>, i: int) -> nat
    decreases t, t.c.len() - i
{ if 0 <= i < t.c.len() { twork(t.c[i]) + cwork(t, i + 1) + 1 } else { 1 } }
spec fn swork<K, V, T: View<V = TV<K, V>>>(s: Seq<(&T, usize)>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { let (t, pos) = s.last(); (if pos == 0 { twork(t@) } else { cwork(t@, pos - 1) }) + swork(s.drop_last()) } }
spec fn topinc<K, V, T: View<V = TV<K, V>>>(s: Seq<(&T, usize)>) -> Seq<(&T, usize)> { s.drop_last().push((s.last().0, (s.last().1 + 1) as usize)) }
proof fn lemma_top<K: TKey, V: TValue, T: AbstractRadixTree<K, V>>(s: Seq<(&T, usize)>, path: Seq<K>)
    requires s.len() > 0, stack_ok(s)
    ensures s.last().1 < usize::MAX, s.last().1 <= s.last().0@.c.len() + 1,
      s.last().1 == 0 ==> srem(s, path) == (match s.last().0@.v { Some(v) => seq![(path, v)], None => Seq::empty() }) + srem(topinc(s), path) && vrem(s) == os(s.last().0@.v) + vrem(topinc(s)) && swork(topinc(s)) < swork(s) && stack_ok(topinc(s)),
      0 < s.last().1 <= s.last().0@.c.len() ==> ({ let n = topinc(s).push((&s.last().0.kids()[s.last().1 - 1], 0)); srem(s, path) == srem(n, path + s.last().0.kids()[s.last().1 - 1]@.p) && vrem(s) == vrem(n) && swork(n) < swork(s) && stack_ok(n) }),
      s.last().1 == s.last().0@.c.len() + 1 ==> srem(s, path) == srem(s.drop_last(), chop(path, s.last().0@.p.len() as int)) && vrem(s) == vrem(s.drop_last()) && swork(s.drop_last()) < swork(s) && stack_ok(s.drop_last()),
      topinc(s).drop_last() == s.drop_last(), topinc(s).len() == s.len(), topinc(s).last() == (s.last().0, (s.last().1 + 1) as usize), stack_ok(s.drop_last())
{
    let (t, pos) = s.last();
    t.lemma_tree(); axiom_children_len(t);
    assert(s[s.len() - 1].1 <= s[s.len() - 1].0@.c.len() + 1);
    let u = topinc(s);
    assert(u.drop_last() =~= s.drop_last());
    let rest = srem(s.drop_last(), chop(path, t@.p.len() as int)); let vrest = vrem(s.drop_last());
    assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).1 <= s.drop_last()[i].0@.c.len() + 1 by { assert(s.drop_last()[i] == s[i]); }
    if pos == 0 {
        let h: Seq<(Seq<K>, V)> = match t@.v { Some(v) => seq![(path, v)], None => Seq::empty() };
        assert(h + cents(t@, path, 0) + rest =~= h + (cents(t@, path, 0) + rest));
        assert(os(t@.v) + cvals(t@, 0) + vrest =~= os(t@.v) + (cvals(t@, 0) + vrest));
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).1 <= u[i].0@.c.len() + 1 by { if i < s.len() - 1 { assert(u[i] == s[i]); } }
    } else if pos <= t@.c.len() {
        let c = &t.kids()[pos - 1];
        let n = u.push((c, 0));
        reveal_with_fuel(srem, 2); reveal_with_fuel(vrem, 2); reveal_with_fuel(swork, 2);
        assert(n.drop_last() =~= u);
        assert(chop(path + c@.p, c@.p.len() as int) =~= path);
        assert(ents(c@, path + c@.p) + cents(t@, path, pos as int) + rest =~= ents(c@, path + c@.p) + (cents(t@, path, pos as int) + rest));
        assert(vals(c@) + cvals(t@, pos as int) + vrest =~= vals(c@) + (cvals(t@, pos as int) + vrest));
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).1 <= n[i].0@.c.len() + 1 by { if i < s.len() - 1 { assert(n[i] == s[i]); } }
    } else {
        assert(Seq::<(Seq<K>, V)>::empty() + rest =~= rest); assert(Seq::<V>::empty() + vrest =~= vrest);
    }
}
proof fn lemma_single<K: TKey, V: TValue, T: AbstractRadixTree<K, V>>(t: &T, path: Seq<K>)
    ensures srem(seq![(t, 0usize)], path) == ents(t@, path), vrem(seq![(t, 0usize)]) == vals(t@), stack_ok(seq![(t, 0usize)])
{
    let s = seq![(t, 0usize)];
    reveal_with_fuel(srem, 2); reveal_with_fuel(vrem, 2);
    assert(s.drop_last() =~= Seq::empty());
    assert(ents(t@, path) + Seq::empty() =~= ents(t@, path)); assert(vals(t@) + Seq::empty() =~= vals(t@));
    assert(s.last() == (t, 0usize));
}
impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> Values<'a, K, V, T> {
    spec fn rem(&self) -> Seq<V> { vrem(self.stack@) }
    spec fn inv(&self) -> bool { stack_ok(self.stack@) }
//@ fn src/radix_tree/mod.rs | Values | new
//@ ret r
    ensures r.inv(), r.rem() == vals(tree@)
//@ start
    proof { lemma_single(tree, Seq::empty()); assert forall|s: Seq<(&T, usize)>| s.len() == 1 && s[0] == (tree, 0usize) implies #[trigger] vrem(s) == vals(tree@) && stack_ok(s) by { assert(s =~= seq![(tree, 0usize)]); } }
//@ end
    proof { let s = vx_r.stack@; assert(s.len() == 1 && s[0] == (tree, 0usize)); assert(vrem(s) == vals(tree@)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | Values | tree
//@ ret r
    requires self.stack@.len() > 0
    ensures r == self.stack@.last().0
//@ endfn
//@ fn src/radix_tree/mod.rs | Values | inc
//@ ret r
    requires old(self).stack@.len() > 0, old(self).stack@.last().1 < usize::MAX
    ensures final(self).stack@ == topinc(old(self).stack@), r == (if old(self).stack@.last().1 == 0 { None } else { Some((old(self).stack@.last().1 - 1) as usize) })
//@ rw `self . stack . last_mut ( ) . unwrap ( )` => `vx_last_mut(&mut self.stack)`
//@ endfn
//@ fn src/radix_tree/mod.rs | Iterator for Values | next
//@ ret r
//@ sigrw `Option < Self :: Item >` => `Option<&'a V>`
    requires old(self).inv()
    ensures final(self).inv(), match r { Some(v) => old(self).rem() == seq![*v] + final(self).rem(), None => old(self).rem().len() == 0 && final(self).rem().len() == 0 }
//@ loop 0
      invariant self.inv(), self.rem() == old(self).rem()
      decreases swork(self.stack@)
//@ loopstart 0
    let ghost s0 = self.stack@;
    proof { lemma_top(s0, Seq::<K>::empty()); s0.last().0.lemma_tree(); assert(Seq::<V>::empty() + vrem(topinc(s0)) =~= vrem(topinc(s0))); }
//@ endfn
}
impl<'a, K: TKey, V: TValue, T: AbstractRadixTree<K, V>> Iter<'a, K, V, T> {
    spec fn rem(&self) -> Seq<(Seq<K>, V)> { srem(self.stack@, self.path@) }
    spec fn inv(&self) -> bool { stack_ok(self.stack@) }
//@ fn src/radix_tree/mod.rs | Iter | empty
//@ ret r
    requires key_laws::<K>()
    ensures r.inv(), r.rem() == Seq::<(Seq<K>, V)>::empty()
//@ start
    proof { lemma_kc::<K>(); }
//@ endfn
//@ fn src/radix_tree/mod.rs | Iter | new
//@ ret r
    ensures r.inv(), r.rem() == ents(tree@, prefix@)
//@ start
    proof { lemma_single(tree, prefix@); }
//@ end
    proof { let s = vx_r.stack@; assert(s =~= seq![(tree, 0usize)]); }
//@ endfn
//@ fn src/radix_tree/mod.rs | Iter | tree
//@ ret r
    requires self.stack@.len() > 0
    ensures r == self.stack@.last().0
//@ endfn
//@ fn src/radix_tree/mod.rs | Iter | inc
//@ ret r
    requires old(self).stack@.len() > 0, old(self).stack@.last().1 < usize::MAX
    ensures final(self).stack@ == topinc(old(self).stack@), final(self).path == old(self).path, r == (if old(self).stack@.last().1 == 0 { None } else { Some((old(self).stack@.last().1 - 1) as usize) })
//@ rw `self . stack . last_mut ( ) . unwrap ( )` => `vx_last_mut(&mut self.stack)`
//@ endfn
//@ fn src/radix_tree/mod.rs | Iterator for Iter | next
//@ ret r
//@ sigrw `Option < Self :: Item >` => `Option<(IterKey<K>, &'a V)>`
    requires key_laws::<K>(), old(self).inv()
    ensures final(self).inv(), match r { Some((k, v)) => old(self).rem() == seq![(k@, *v)] + final(self).rem(), None => old(self).rem().len() == 0 && final(self).rem().len() == 0 }
//@ rw `self . tree ( ) . value ( ) . as_ref ( )` => `self.tree().value()`
//@ rw `self . path . clone ( )` => `vx_clone_key(&self.path)`
//@ start
    proof { lemma_kc::<K>(); }
//@ loop 0
      invariant clone_ok::<K>(), self.inv(), self.rem() == old(self).rem()
      decreases swork(self.stack@)
//@ loopstart 0
    let ghost s0 = self.stack@; let ghost p0 = self.path@;
    proof { lemma_top(s0, p0); s0.last().0.lemma_tree(); assert(Seq::<(Seq<K>, V)>::empty() + srem(topinc(s0), p0) =~= srem(topinc(s0), p0)); }
//@ endfn
}
trait RadixTreeIter<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | iter
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r.inv(), listing(r.rem(), getf(self@))
//@ start
    proof { lemma_kc::<K>(); lemma_tree_ents(self@, getf(self@)); }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | values
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r.inv(), exists|s: Seq<(Seq<K>, V)>| #[trigger] listing(s, getf(self@)) && r.rem() == snds(s)
//@ start
    proof { lemma_tree_ents(self@, getf(self@)); lemma_vals(self@, self@.p); }
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreeIter<K, V> for T {}
//@ tag rxi.into
//@ struct src/radix_tree/mod.rs ObjAndIter
/// trusted: the boxed tree stays where it is as long as the iterator that owns it (values kept beyond that dangle: see known_findings.txt)
#[verifier::external_body]
fn vx_extend_lifetime<T>(b: &T) -> (r: &'static T) ensures *r == *b { unimplemented!() }
impl<K: 'static, V> ObjAndIter<K, V> {
//@ fn src/radix_tree/mod.rs | ObjAndIter | new
//@ ret r
    requires forall|x: &'static K| *x == *k ==> #[trigger] f.requires((x,))
    ensures f.ensures((&*k,), r.v)
//@ rw `unsafe { std :: mem :: transmute ( k . as_ref ( ) ) }` => `vx_extend_lifetime(&*k)`
//@ endfn
}
impl<K: TKey + 'static, V: TValue + 'static, T: AbstractRadixTree<K, V> + 'static> ObjAndIter<T, Iter<'static, K, V, T>> {
    spec fn rem(&self) -> Seq<(Seq<K>, V)> { self.v.rem() }
    spec fn inv(&self) -> bool { self.v.inv() }
//@ fn src/radix_tree/mod.rs | Iterator for ObjAndIter | next
//@ ret r
//@ sigrw `Option < Self :: Item >` => `Option<(IterKey<K>, &'static V)>`
    requires key_laws::<K>(), old(self).inv()
    ensures final(self).inv(), match r { Some((k, v)) => old(self).rem() == seq![(k@, *v)] + final(self).rem(), None => old(self).rem().len() == 0 && final(self).rem().len() == 0 }
//@ endfn
}
trait RadixTreeIntoIter<K: TKey + 'static, V: TValue + 'static>: AbstractRadixTree<K, V> + 'static {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | into_iter
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r.inv(), listing(r.rem(), getf(self@))
//@ rw `( $$b , | $x | $$e )` => `($b, |$x: &'static Self| -> (vx_i: Iter<'static, K, V, Self>) requires key_laws::<K>(), wf($x@) ensures vx_i.inv(), listing(vx_i.rem(), getf($x@)) { $e })`
//@ endfn
}
impl<K: TKey + 'static, V: TValue + 'static, T: AbstractRadixTree<K, V> + 'static> RadixTreeIntoIter<K, V> for T {}
//@ tag rxi.scan
trait RadixTreeScan<K: TKey, V: TValue>: AbstractRadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTree | scan_prefix
//@ ret r
    requires key_laws::<K>(), wf(self@)
    ensures r.inv(), listing(r.rem(), withp(self@, prefix@))
//@ rw `& tree . prefix ( ) [ tree . prefix ( ) . len ( ) - rt .. ]` => `vstd::slice::slice_subrange(tree.prefix(), tree.prefix().len() - rt, tree.prefix().len())`
//@ start
    proof {
        lemma_kc::<K>(); lemma_wf_nil(self@);
        let f = withp(self@, prefix@);
        assert forall|s: TV<K, V>, rt: int| #[trigger] below(self@, prefix@, s, rt) && (wfc(s) || isnil(s)) implies listing(ents(s, prefix@ + s.p.skip(s.p.len() - rt)), f) by { lemma_part_ents(self@, s, prefix@, rt, f); }
        assert forall|s: TV<K, V>| prefix@ + #[trigger] s.p.skip(s.p.len() as int) =~= prefix@ by {}
        assert(absent(self@, prefix@) ==> listing(Seq::<(Seq<K>, V)>::empty(), f)) by {
            if absent(self@, prefix@) { assert forall|k: Seq<K>| (#[trigger] f(k)).is_none() by { if pre(prefix@, k) { lemma_uncat(prefix@, k); assert(tget(self@, prefix@ + k.skip(prefix@.len() as int)).is_none()); } } }
        }
    }
//@ endfn
}
impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> RadixTreeScan<K, V> for T {}
