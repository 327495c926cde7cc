// ---- lib/coll.rs: hash maps, hash sets, deques as mathematical maps, sets, sequences ----
// Trusted: each method below is the one of std / ahash of the same name on keys whose Eq and Hash agree
// (u32 here); iteration is read as "the list of elements, in some order".
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct HashSet<K> { m: std::collections::HashSet<K> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct VecDeque<K> { m: std::collections::VecDeque<K> }

trait HasDefault: Sized {
  spec fn is_default(self) -> bool;
  fn make() -> (r: Self) ensures r.is_default();
}

/// `l` lists the elements of `s` once each
spec fn lists<K>(l: Seq<K>, s: Set<K>) -> bool {
  &&& l.no_duplicates()
  &&& forall|k: K| #[trigger] l.contains(k) <==> s.contains(k)
}

impl<K: std::hash::Hash + Eq + Copy, V> HashMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  fn get(&self, k: &K) -> (r: Option<&V>)
    ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
  #[verifier::external_body]
  fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures match r {
      Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
      None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
    } { unimplemented!() }
  #[verifier::external_body]
  fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v),
      r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  fn remove(&mut self, k: &K) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(*k),
      r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  fn keys(&self) -> (r: Vec<K>) ensures lists(r@, self@.dom()) { unimplemented!() }
  /// `m.iter()`
  #[verifier::external_body]
  fn pairs(&self) -> (r: Vec<(&K, &V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
      forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
      forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0 { unimplemented!() }
  #[verifier::external_body]
  proof fn finite(&self) ensures self@.dom().finite() {}
}
impl<K: std::hash::Hash + Eq + Copy, V> std::ops::Index<&K> for HashMap<K, V> {
  type Output = V;
  #[verifier::external_body]
  fn index(&self, k: &K) -> (r: &V) ensures *r == self@[*k] { unimplemented!() }
}
impl<K: std::hash::Hash + Eq + Copy, V> vstd::std_specs::core::IndexSpecImpl<&K> for HashMap<K, V> {
  open spec fn index_req(&self, k: &&K) -> bool { self@.contains_key(**k) }
}
#[verifier::reject_recursive_types(K)]
struct Entry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
impl<K: std::hash::Hash + Eq + Copy, V> HashMap<K, V> {
  fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
    ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k { Entry { m: self, k } }
}
impl<'a, K: std::hash::Hash + Eq + Copy, V: HasDefault> Entry<'a, K, V> {
  #[verifier::external_body]
  fn or_default(self) -> (r: &'a mut V)
    ensures old(self.m)@.contains_key(self.k) ==> *r == old(self.m)@[self.k], !old(self.m)@.contains_key(self.k) ==> (*r).is_default(),
      final(self.m)@ == old(self.m)@.insert(self.k, *final(r)) { unimplemented!() }
}
impl<K: std::hash::Hash + Eq + Copy> HashSet<K> {
  uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body]
  fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  /// `HashSet::from_iter([k])`
  #[verifier::external_body]
  fn one(k: K) -> (r: Self) ensures r@ == Set::<K>::empty().insert(k) { unimplemented!() }
  #[verifier::external_body]
  fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body]
  fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body]
  fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
  /// `s.extend(t.iter().cloned())`
  #[verifier::external_body]
  fn extend_from_set(&mut self, t: &HashSet<K>) ensures final(self)@ == old(self)@.union(t@) { unimplemented!() }
  /// `for x in set`
  #[verifier::external_body]
  fn list(&self) -> (r: Vec<K>) ensures lists(r@, self@) { unimplemented!() }
  #[verifier::external_body]
  fn iter(&self) -> (r: Vec<K>) ensures lists(r@, self@) { unimplemented!() }
  #[verifier::external_body]
  proof fn finite(&self) ensures self@.finite() {}
}
impl<K: std::hash::Hash + Eq + Copy> HasDefault for HashSet<K> {
  spec fn is_default(self) -> bool { self@ == Set::<K>::empty() }
  #[verifier::external_body]
  fn make() -> (r: Self) { unimplemented!() }
}
impl<K: Copy> VecDeque<K> {
  uninterp spec fn view(&self) -> Seq<K>;
  /// `VecDeque::from([k])`
  #[verifier::external_body]
  fn one(k: K) -> (r: Self) ensures r@ == seq![k] { unimplemented!() }
  #[verifier::external_body]
  fn push_back(&mut self, k: K) ensures final(self)@ == old(self)@.push(k) { unimplemented!() }
  #[verifier::external_body]
  fn pop_front(&mut self) -> (r: Option<K>)
    ensures old(self)@.len() == 0 ==> r == None::<K> && final(self)@ == old(self)@,
      old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
        && (forall|x: K| #[trigger] old(self)@.contains(x) ==> x == old(self)@[0] || final(self)@.contains(x))
        && (forall|x: K| #[trigger] final(self)@.contains(x) ==> old(self)@.contains(x))
        && (old(self)@.no_duplicates() ==> final(self)@.no_duplicates() && !final(self)@.contains(old(self)@[0])) { unimplemented!() }
}
spec fn ascending(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
/// `v.sort_unstable()` on u32
#[verifier::external_body]
fn sort_u32(v: &mut Vec<u32>)
  ensures ascending(final(v)@), final(v)@.len() == old(v)@.len(), old(v)@.to_multiset() == final(v)@.to_multiset(),
    forall|k: u32| #![trigger final(v)@.contains(k)] #![trigger old(v)@.contains(k)] final(v)@.contains(k) == old(v)@.contains(k),
    old(v)@.no_duplicates() ==> final(v)@.no_duplicates() { unimplemented!() }
