//@ include radix_base.vrs
//@ include radix_flat.vrs
//@ tag rxn
/// `#[derive(Clone)]`
#[verifier::external_body]
fn vx_clone_tree<K: TKey, V: TValue>(t: &RadixTree<K, V>) -> (r: RadixTree<K, V>)
    requires clone_ok::<K>(), clone_ok::<V>()
    ensures r@ == t@
{ unimplemented!() }
spec fn kv_ok<K: TKey, V: TValue>() -> bool { key_laws::<K>() && clone_ok::<V>() }
proof fn lemma_kc<K: TKey>()
    requires key_laws::<K>()
    ensures clone_ok::<K>(), ord_laws::<K>()
{ reveal(key_laws); }
impl<K: TKey, V: TValue> RadixTree<K, V> {
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | split
    requires kv_ok::<K, V>(), n < old(self)@.p.len()
    ensures final(self)@ == nd(old(self)@, n as int)
//@ rw `assert ! ( $$x ) ;` => `vx_assert($x);`
//@ rw `self . prefix ( ) [ .. n ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(self.prefix(), 0, n))`
//@ rw `self . prefix ( ) [ n .. ] . into ( )` => `vx_frag(vstd::slice::slice_subrange(self.prefix(), n, self.prefix().len()))`
//@ start
    proof { lemma_kc::<K>(); }
    let ghost t0 = self@;
//@ before `self . children_mut ( ) . push ( child )`
    let ghost cv = child@;
    proof { assert(cv == short(t0, n as int)); assert(self@ == (TV { p: t0.p.take(n as int), v: None, c: Seq::empty() })) by { assert(self@.c =~= Seq::empty()); } }
//@ after `self . children_mut ( ) . push ( child )`
    proof { assert(self@.c =~= seq![cv]); }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | prepend0
    requires key_laws::<K>()
    ensures final(self)@ == if isnil(old(self)@) { old(self)@ } else { TV { p: prefix@ + old(self)@.p, ..old(self)@ } }
//@ rw `let mut prefix1 = SmallVec :: new ( )` => `let mut prefix1: SmallVec<[K; 16]> = SmallVec::new()`
//@ rw `prefix1 . into ( )` => `Fragment::from_small_vec(prefix1)`
//@ start
    let ghost t0 = self@;
    proof { assert(Seq::<K>::empty() + t0.p =~= t0.p); }
//@ after `prefix1 . extend_from_slice ( prefix )`
    proof { assert(prefix1@ =~= prefix@); }
//@ endfn
//@ fn src/radix_tree/mod.rs | trait AbstractRadixTreeMut | unsplit
    requires kv_ok::<K, V>(), cok(old(self)@.c)
    ensures final(self)@ == unsp(old(self)@)
//@ rw `self . children_mut ( ) . retain ( | $x | $$b ) ;` => `vx_retain(self.children_mut(), |$x: &RadixTree<K, V>| -> (r: bool) ensures r == !isnil($x@) { $b });`
//@ start
    let ghost t0 = self@;
    proof {
        lemma_kc::<K>(); lemma_view(*self);
        assert forall|s: Seq<RadixTree<K, V>>, i: int| #![trigger vs(s), s[i]] vs(s) == t0.c && 0 <= i < s.len() implies !isnil(s[i]@) && s[i]@ == t0.c[i] by { assert(vs(s)[i] == s[i]@); assert(wfc(t0.c[i])); }
        assert forall|s: Seq<RadixTree<K, V>>| (#[trigger] vs(s)) == t0.c implies s.len() == t0.c.len() by { assert(vs(s).len() == s.len()); }
    }
//@ before `if self . children ( ) . len ( ) == 1`
    proof { assert(self@ == t0); lemma_view(*self); assert(self@.c.len() == 1 ==> wfc(t0.c[0])); assert(self@.c.len() == 0 ==> t0.c =~= Seq::empty()); }
//@ after `let mut child = self . children_mut ( ) . pop ( ) . unwrap ( )`
    proof { assert(child@ == t0.c[0]); assert(!isnil(child@)); assert(self@.p == t0.p); }
//@ endfn
}
