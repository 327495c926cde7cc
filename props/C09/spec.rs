use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::hash::Hash;
verus! {

broadcast use group_hash_axioms;

pub assume_specification<T> [ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
  requires a < old(s)@.len(), b < old(s)@.len(),
  ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None });

/// The key and value types clone to equal values and hash/compare like their identity.
spec fn faithful<K: Clone, V: Clone>() -> bool {
  &&& obeys_key_model::<K>()
  &&& forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b
  &&& forall|a: V, b: V| #[trigger] call_ensures(V::clone, (&a,), b) ==> a == b
}

/*@type types-ts-interned/src/cache.rs :: CacheStats
#derive Clone, Copy
@*/

impl CacheStats {
  // `#[derive(Default)]` in the source
  #[verifier::external_body]
  fn default() -> (r: Self) ensures r == (CacheStats { hits: 0, misses: 0, insertions: 0, evictions: 0 })
  { CacheStats { hits: 0, misses: 0, insertions: 0, evictions: 0 } }

  spec fn headroom(self) -> bool {
    self.hits < u64::MAX && self.misses < u64::MAX && self.insertions < u64::MAX && self.evictions < u64::MAX
  }
}

/*@type types-ts-interned/src/cache.rs :: ClockEntry
@*/

/*@type types-ts-interned/src/cache.rs :: ClockCache
#rewrite `HashMap<K, usize, StableHasher>` => `HashMap<K, usize>`
@*/

spec fn ref_count<K, V>(s: Seq<ClockEntry<K, V>>) -> nat
  decreases s.len()
{
  if s.len() == 0 { 0 } else { ref_count(s.drop_last()) + if s.last().ref_bit { 1nat } else { 0nat } }
}

proof fn ref_count_update<K, V>(s: Seq<ClockEntry<K, V>>, i: int, e: ClockEntry<K, V>)
  requires 0 <= i < s.len(), s[i].ref_bit, !e.ref_bit,
  ensures ref_count(s.update(i, e)) + 1 == ref_count(s),
  decreases s.len(),
{
  let t = s.update(i, e);
  if i == s.len() - 1 {
    assert(t.drop_last() =~= s.drop_last());
  } else {
    assert(t.drop_last() =~= s.drop_last().update(i, e));
    ref_count_update(s.drop_last(), i, e);
  }
}

impl<K: Eq + Hash + Clone, V: Clone> ClockCache<K, V> {
  /// Representation invariant: `index` is exactly the inverse of the entry list,
  /// and the entry list never outgrows the capacity.
  spec fn wf(self) -> bool {
    &&& self.entries@.len() <= self.capacity
    &&& forall|k: K| #[trigger] self.index@.contains_key(k) ==>
          self.index@[k] < self.entries@.len() && self.entries@[self.index@[k] as int].key == k
    &&& forall|i: int| 0 <= i < self.entries@.len() ==>
          self.index@.contains_key(#[trigger] self.entries@[i].key) && self.index@[self.entries@[i].key] == i
  }

  /// The abstract contents.
  spec fn view(self) -> Map<K, V> {
    Map::new(self.index@.dom(), |k: K| self.entries@[self.index@[k] as int].value)
  }

/*@fn types-ts-interned/src/cache.rs :: ClockCache::new
#ret r
#rewrite `HashMap::with_hasher(stable_hasher())` => `HashMap::new()`
#spec
  requires faithful::<K, V>(),
  ensures r.wf(), r.view() =~= Map::empty(), r.capacity == capacity,
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::len
#ret r
#spec
  requires self.wf(),
  ensures r <= self.capacity, r == self.entries@.len(),
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::contains
#ret r
#spec
  requires faithful::<K, V>(), self.wf(),
  ensures r == self.view().contains_key(*key),
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::get
#ret r
#spec
  requires faithful::<K, V>(), old(self).wf(), old(self).stats.headroom(),
  ensures
    final(self).wf(), final(self).capacity == old(self).capacity,
    final(self).view() =~= old(self).view(),
    match r {
      Some(v) => old(self).view().contains_key(*key) && v == old(self).view()[*key],
      None => !old(self).view().contains_key(*key),
    },
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::remove
#ret r
#spec
  requires faithful::<K, V>(), old(self).wf(),
  ensures
    final(self).wf(), final(self).capacity == old(self).capacity,
    final(self).view() =~= old(self).view().remove(*key),
    match r {
      Some(v) => old(self).view().contains_key(*key) && v == old(self).view()[*key],
      None => !old(self).view().contains_key(*key),
    },
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::insert
#spec
  requires faithful::<K, V>(), old(self).wf(), old(self).stats.headroom(),
  ensures
    final(self).wf(), final(self).capacity == old(self).capacity,
    old(self).capacity == 0 ==> final(self).view() =~= old(self).view(),
    old(self).capacity > 0 && (old(self).view().contains_key(key) || old(self).entries@.len() < old(self).capacity)
      ==> final(self).view() =~= old(self).view().insert(key, value),
    old(self).capacity > 0 && !old(self).view().contains_key(key) && old(self).entries@.len() >= old(self).capacity
      ==> exists|victim: K| #[trigger] old(self).view().contains_key(victim)
        && final(self).view() =~= old(self).view().remove(victim).insert(key, value),
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::evict_one
#spec
  requires faithful::<K, V>(), old(self).wf(), old(self).stats.evictions < u64::MAX,
  ensures
    final(self).wf(), final(self).capacity == old(self).capacity,
    old(self).entries@.len() == 0 ==> final(self).entries@.len() == 0,
    old(self).entries@.len() > 0 ==> final(self).entries@.len() == old(self).entries@.len() - 1,
    old(self).entries@.len() > 0 ==> exists|victim: K| #[trigger] old(self).view().contains_key(victim)
      && final(self).view() =~= old(self).view().remove(victim),
#loop 0
    invariant_except_break
      self.entries@.len() == old(self).entries@.len(), self.index@ == old(self).index@,
      self.view() =~= old(self).view(), self.stats == old(self).stats, self.stats.evictions < u64::MAX,
    invariant
      faithful::<K, V>(), self.wf(), self.capacity == old(self).capacity, old(self).entries@.len() > 0, old(self).wf(),
    ensures
      self.entries@.len() == old(self).entries@.len() - 1,
      exists|victim: K| #[trigger] old(self).view().contains_key(victim)
        && self.view() =~= old(self).view().remove(victim),
    decreases ref_count(self.entries@),
#at before `if let Some(entry) = self.entries.get_mut(self.hand)`
      let ghost pre = self.entries@;
#at before `continue`
          proof { ref_count_update(pre, self.hand - 1, self.entries@[self.hand - 1]); assert(self.entries@ =~= pre.update(self.hand - 1, self.entries@[self.hand - 1])); }
#at before `break`
      proof { assert(old(self).view().contains_key(evicted_key)); }
@*/

/*@fn types-ts-interned/src/cache.rs :: ClockCache::clear
#spec
  requires faithful::<K, V>(), old(self).wf(),
  ensures final(self).wf(), final(self).view() =~= Map::empty(), final(self).capacity == old(self).capacity,
@*/
}
} // verus!
fn main() {}
