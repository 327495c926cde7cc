#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
struct NameId(u64);
impl Copy for NameId {}
impl Clone for NameId { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/*@type types-ts-interned/src/store.rs :: NameInterner
#rewrite `ahash :: AHashMap < String , NameId >` => `Names`
#rewrite `ahash :: AHashMap < NameId , String >` => `Ids`
@*/
// AHashMap<String, NameId> and AHashMap<NameId, String>
#[verifier::external_body]
struct Names { m: HashMap<String, u64> }
#[verifier::external_body]
struct Ids { m: HashMap<u64, String> }
impl View for Names { type V = Map<Seq<char>, NameId>; uninterp spec fn view(&self) -> Map<Seq<char>, NameId>; }
impl View for Ids { type V = Map<NameId, Seq<char>>; uninterp spec fn view(&self) -> Map<NameId, Seq<char>>; }
impl Names {
  #[verifier::external_body]
  fn get(&self, k: &String) -> (r: Option<&NameId>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
  #[verifier::external_body]
  fn insert(&mut self, k: String, v: NameId) -> (r: Option<NameId>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
impl Ids {
  #[verifier::external_body]
  fn get(&self, k: &NameId) -> (r: Option<&String>) ensures match r { Some(v) => self@.contains_key(*k) && v@ == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
  #[verifier::external_body]
  fn insert(&mut self, k: NameId, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
}
#[verifier::external_body]
fn string_is(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn hash_name(name: &String, salt: u64) -> (r: NameId) { unimplemented!() }
impl NameInterner {
  /// every interned name has one id and every id one name
  spec fn wf(self) -> bool {
    &&& forall|s: Seq<char>| #[trigger] self.by_name@.contains_key(s) ==> self.by_id@.contains_key(self.by_name@[s]) && self.by_id@[self.by_name@[s]] == s
    &&& forall|i: NameId| #[trigger] self.by_id@.contains_key(i) ==> self.by_name@.contains_key(self.by_id@[i]) && self.by_name@[self.by_id@[i]] == i
  }
/*@fn types-ts-interned/src/store.rs :: NameInterner::intern
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#sig `impl Into < String >` => `String`
#rewrite `let name = name . into ( ) ;` => ``
#rewrite `Self :: hash_name ( & name , salt )` => `hash_name(&name, salt)`
#rewrite `existing == & name` => `string_is(existing, &name)`
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    final(self).by_name@ == old(self).by_name@.insert(name@, r),
    final(self).by_id@ == old(self).by_id@.insert(r, name@),
    old(self).by_name@.contains_key(name@) ==> r == old(self).by_name@[name@],
    !old(self).by_name@.contains_key(name@) ==> !old(self).by_id@.contains_key(r),
    forall|s: Seq<char>| #[trigger] old(self).by_name@.contains_key(s) ==> final(self).by_name@[s] == old(self).by_name@[s],
#entry
  proof { if self.by_name@.contains_key(name@) { let i = self.by_name@[name@]; assert(self.by_name@.insert(name@, i) =~= self.by_name@); assert(self.by_id@.insert(i, name@) =~= self.by_id@); } }
#loop 0
    invariant *self == *old(self), old(self).wf(), !self.by_name@.contains_key(name@),
@*/
/*@fn types-ts-interned/src/store.rs :: NameInterner::name
#ret r
#rewrite `| s | s . as_str ( )` => `|s: &'_ String| -> (t: &str) ensures t@ == s@ { s.as_str() }`
#spec
  requires self.by_id@.contains_key(id),
  ensures r@ == self.by_id@[id],
@*/
}

// ---- interning of types, signatures, shapes and objects ---------------------------------------
// the concurrent table: an entry locks its shard; between two entries other threads may insert
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
#[verifier::reject_recursive_types(T)]
struct Table<Id, T> { m: HashMap<u64, (Id, T)> }
impl<Id, T> View for Table<Id, T> { type V = Map<Id, T>; uninterp spec fn view(&self) -> Map<Id, T>; }
spec fn grows<Id, T>(a: Map<Id, T>, b: Map<Id, T>) -> bool { forall|i: Id| #[trigger] a.contains_key(i) ==> b.contains_key(i) && b[i] == a[i] }
enum Entry<'a, T> { Occupied(&'a T), Vacant(()) }
impl<Id: Copy, T> Table<Id, T> {
  #[verifier::external_body]
  fn entry(&mut self, id: Id) -> (r: Entry<'_, T>)
    ensures grows(old(self)@, final(self)@), match r { Entry::Occupied(v) => final(self)@.contains_key(id) && final(self)@[id] == *v, Entry::Vacant(_) => !final(self)@.contains_key(id) },
  { unimplemented!() }
  // VacantEntry::insert, still under the entry's lock
  #[verifier::external_body]
  fn fill(&mut self, id: Id, v: T) ensures final(self)@ == old(self)@.insert(id, v) { unimplemented!() }
}
// the fingerprint closure: a function of the value and the salt
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
#[verifier::reject_recursive_types(T)]
struct Minter<Id, T> { p: core::marker::PhantomData<(Id, T)> }
impl<Id, T> Minter<Id, T> {
  uninterp spec fn minted(self, v: T, salt: u64) -> Id;
  #[verifier::external_body]
  fn mint(&self, v: &T, salt: u64) -> (r: Id) ensures r == self.minted(*v, salt) { unimplemented!() }
}
#[verifier::external_body]
fn same<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
// one more salt: the loop would have to run 2^64 times to wrap
#[verifier::external_body]
fn next_salt(s: u64) -> (r: u64) ensures r == s + 1 { s.wrapping_add(1) }
/// `v` sits at the first of its candidate ids that other values left free
spec fn settled<Id, T>(m: Map<Id, T>, f: Minter<Id, T>, v: T, id: Id) -> bool { m.contains_key(id) && m[id] == v && exists|s: u64| #[trigger] first_at(m, f, v, s) && f.minted(v, s) == id }
spec fn first_at<Id, T>(m: Map<Id, T>, f: Minter<Id, T>, v: T, s: u64) -> bool { forall|t: u64| t < s ==> m.contains_key(#[trigger] f.minted(v, t)) && m[f.minted(v, t)] != v }
/*@fn types-ts-interned/src/store.rs :: TypeStore::insert_with_collision
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#sig `< T , Id , MakeId >` => `<T, Id: Copy>`
#sig `& DashMap < Id , T , RandomState >` => `&mut Table<Id, T>`
#sig `mut make_id : MakeId` => `make_id: Minter<Id, T>`
#sig `where T : Eq , Id : Copy + Eq + Hash + std :: fmt :: Debug , MakeId : FnMut ( & T , u64 ) -> Id ,` => ``
#rewrite `make_id ( & value , salt )` => `make_id.mint(&value, salt)`
#rewrite `entry . get ( ) == & value` => `same(entry, &value)`
#rewrite `entry . insert ( value )` => `map.fill(id, value)`
#rewrite `salt = salt . wrapping_add ( 1 )` => `salt = next_salt(salt)`
#spec
  ensures grows(old(map)@, final(map)@), settled(final(map)@, make_id, value, r),
#loop 0
    invariant grows(old(map)@, map@), first_at(map@, make_id, value, salt),
#at before `return id` 0
              proof { assert(first_at(map@, make_id, value, salt)); }
#at before `return id` 1
            proof { assert(first_at(map@, make_id, value, salt)); }
@*/
/// once interned, a value keeps its id, whatever is interned later
proof fn settled_stays<Id, T>(a: Map<Id, T>, b: Map<Id, T>, f: Minter<Id, T>, v: T, id: Id)
  requires settled(a, f, v, id), grows(a, b),
  ensures settled(b, f, v, id),
{ let s = choose|s: u64| #[trigger] first_at(a, f, v, s) && f.minted(v, s) == id; assert(first_at(b, f, v, s)); }
/// equal values have the same id and different values different ids
proof fn settled_once<Id, T>(m: Map<Id, T>, f: Minter<Id, T>, v: T, w: T, i: Id, j: Id)
  requires settled(m, f, v, i), settled(m, f, w, j),
  ensures (v == w) == (i == j),
{
  if v == w {
    let s = choose|s: u64| #[trigger] first_at(m, f, v, s) && f.minted(v, s) == i; let t = choose|s: u64| #[trigger] first_at(m, f, w, s) && f.minted(w, s) == j;
    if s < t { assert(m[f.minted(w, s)] != w); } if t < s { assert(m[f.minted(v, t)] != v); }
  }
}
}
fn main() {}
