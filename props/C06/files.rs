#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
verus! {
/*@type diagnostics/src/lib.rs :: FileId
#derive Clone, Copy, PartialEq, Eq, Hash
@*/
/*@type typecheck-ts/src/files.rs :: FileOrigin
#derive Clone, Copy, PartialEq, Eq
@*/
/*@type typecheck-ts/src/files.rs :: FileRegistryEntry
@*/
/*@type typecheck-ts/src/files.rs :: FileRegistry
#rewrite `AHashMap < FileKey , FileRegistryEntry >` => `KeyMap`
#rewrite `AHashMap < FileId , FileKey >` => `IdMap<FileKey>`
#rewrite `AHashMap < FileId , FileOrigin >` => `IdMap<FileOrigin>`
@*/
/*@const typecheck-ts/src/files.rs :: FALLBACK_START
@*/
/*@const typecheck-ts/src/files.rs :: RESERVED_FILE_ID
@*/
// FileKey: an interned path; equal keys have equal text
#[verifier::external_body]
struct FileKey { s: String }
impl View for FileKey { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl FileKey {
  #[verifier::external_body]
  fn clone(&self) -> (r: FileKey) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
// AHashMap, with the calls the registry makes
#[verifier::external_body]
struct KeyMap { m: HashMap<String, FileRegistryEntry> }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct IdMap<V> { m: HashMap<u32, V> }
struct Pair { source: Option<FileId>, lib: Option<FileId> }
spec fn both(e: FileRegistryEntry) -> Pair { Pair { source: e.source, lib: e.lib } }
spec fn slot(p: Pair, o: FileOrigin) -> Option<FileId> { match o { FileOrigin::Source => p.source, FileOrigin::Lib => p.lib } }
impl View for KeyMap { type V = Map<Seq<char>, Pair>; uninterp spec fn view(&self) -> Map<Seq<char>, Pair>; }
impl<V> View for IdMap<V> { type V = Map<FileId, V>; uninterp spec fn view(&self) -> Map<FileId, V>; }
impl KeyMap {
  #[verifier::external_body]
  fn get(&self, k: &FileKey) -> (r: Option<&FileRegistryEntry>) ensures match r { Some(e) => self@.contains_key(k@) && both(*e) == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
  // entry(k).or_default()
  #[verifier::external_body]
  fn or_default(&mut self, k: FileKey) -> (r: &mut FileRegistryEntry)
    ensures both(*r) == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { Pair { source: None, lib: None } }), final(self)@ == old(self)@.insert(k@, both(*final(r))),
  { unimplemented!() }
}
impl<V> IdMap<V> {
  #[verifier::external_body]
  fn get(&self, k: &FileId) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
  #[verifier::external_body]
  fn contains_key(&self, k: &FileId) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  fn insert(&mut self, k: FileId, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(v) => Some(*v), None => None });
#[verifier::external_body]
fn cloned_key(o: Option<&FileKey>) -> (r: Option<FileKey>) ensures match r { Some(k) => o is Some && k@ == o.unwrap()@, None => o is None } { unimplemented!() }
#[verifier::external_body]
fn either(a: Option<FileId>, b: Option<FileId>) -> (r: Option<FileId>) ensures r == (if a is Some { a } else { b }) { a.or(b) }
// the number in `fileN.ts` / `fileN.tsx`, if it fits 32 bits
uninterp spec fn file_number(k: Seq<char>) -> Option<u32>;
#[verifier::external_body]
fn parse_file_number(name: &str) -> (r: Option<u32>) ensures r == file_number(name@) { unimplemented!() }
// SipHash of key, origin and salt
uninterp spec fn sip(k: Seq<char>, o: FileOrigin, salt: u64) -> u64;
#[verifier::external_body]
fn stable_hash(key: &FileKey, origin: FileOrigin, salt: u64) -> (r: u64) ensures r == sip(key@, origin, salt) { unimplemented!() }

impl FileRegistry {
  spec fn id_of(self, k: Seq<char>, o: FileOrigin) -> Option<FileId> { if self.keys@.contains_key(k) { slot(self.keys@[k], o) } else { None } }
  /// (key, origin) <-> id is a bijection that avoids the reserved id
  spec fn wf(self) -> bool {
    &&& forall|k: Seq<char>, o: FileOrigin| (#[trigger] self.id_of(k, o)) is Some ==> {
      let i = self.id_of(k, o).unwrap();
      i.0 != u32::MAX && self.id_to_key@.contains_key(i) && self.id_to_key@[i]@ == k && self.id_to_origin@.contains_key(i) && self.id_to_origin@[i] == o
    }
    &&& forall|i: FileId| #[trigger] self.id_to_key@.contains_key(i) ==> self.id_to_origin@.contains_key(i) && self.id_of(self.id_to_key@[i]@, self.id_to_origin@[i]) == Some(i)
    &&& forall|i: FileId| #[trigger] self.id_to_origin@.contains_key(i) ==> self.id_to_key@.contains_key(i)
  }
/*@fn typecheck-ts/src/files.rs :: FileRegistry::lookup_key
#ret r
#rewrite `self . id_to_key . get ( & id ) . cloned ( )` => `cloned_key(self.id_to_key.get(&id))`
#spec
  ensures match r { Some(k) => self.id_to_key@.contains_key(id) && k@ == self.id_to_key@[id]@, None => !self.id_to_key@.contains_key(id) },
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::lookup_origin
#ret r
#spec
  ensures r == (if self.id_to_origin@.contains_key(id) { Some(self.id_to_origin@[id]) } else { None }),
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::lookup_id
#ret r
#rewrite `entry . source . or ( entry . lib )` => `either(entry.source, entry.lib)`
#spec
  ensures r == (if self.id_of(key@, FileOrigin::Source) is Some { self.id_of(key@, FileOrigin::Source) } else { self.id_of(key@, FileOrigin::Lib) }),
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::lookup_id_with_origin
#ret r
#spec
  ensures r == self.id_of(key@, origin),
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::ids_for_key
#ret r
#spec
  ensures
    (match (self.id_of(key@, FileOrigin::Source), self.id_of(key@, FileOrigin::Lib)) { (Some(a), Some(b)) => r@ == seq![a, b], (Some(a), None) => r@ == seq![a], (None, Some(b)) => r@ == seq![b], (None, None) => r@ == Seq::<FileId>::empty() }),
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::allocate_fallback
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
  ensures !old(self).id_to_key@.contains_key(r), r.0 != u32::MAX, r.0 >= 0x8000_0000, *final(self) == *old(self),
#loop 0
    invariant *self == *old(self),
#at before `let mut candidate`
    proof { assert((raw as u32) | 0x8000_0000u32 >= 0x8000_0000u32) by (bit_vector); assert((1u32 << 31u32) == 0x8000_0000u32) by (bit_vector); }
@*/
/*@fn typecheck-ts/src/files.rs :: FileRegistry::intern
#ret r
#rewrite `debug_assert_ne ! ( id , FileId ( RESERVED_FILE_ID ) )` => `assert(id.0 != u32::MAX)`
#rewrite `self . keys . entry ( key . clone ( ) ) . or_default ( )` => `self.keys.or_default(key.clone())`
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).id_of(key@, origin) == Some(r), r.0 != u32::MAX,
    forall|k: Seq<char>, o: FileOrigin| (k != key@ || o != origin) ==> #[trigger] final(self).id_of(k, o) == old(self).id_of(k, o),
    old(self).id_of(key@, origin) is Some ==> *final(self) == *old(self),
    old(self).id_of(key@, origin) is None ==> !old(self).id_to_key@.contains_key(r),
    old(self).id_of(key@, origin) is None && origin is Source && file_number(key@) is Some && file_number(key@).unwrap() != u32::MAX && !old(self).id_to_key@.contains_key(FileId(file_number(key@).unwrap())) ==> r.0 == file_number(key@).unwrap(),
#at before `let entry`
    let ghost m = self.keys@;
#at after `self . id_to_origin . insert`
    proof {
      assert(self.keys@ =~= m.insert(key@, self.keys@[key@]));
      assert forall|k: Seq<char>, o: FileOrigin| (k != key@ || o != origin) implies #[trigger] self.id_of(k, o) == old(self).id_of(k, o) by {}
      assert forall|k: Seq<char>, o: FileOrigin| (#[trigger] self.id_of(k, o)) is Some implies { let i = self.id_of(k, o).unwrap();
        i.0 != u32::MAX && self.id_to_key@.contains_key(i) && self.id_to_key@[i]@ == k && self.id_to_origin@.contains_key(i) && self.id_to_origin@[i] == o } by {
        if k == key@ && o == origin {} else { assert(old(self).id_of(k, o) is Some); }
      }
      assert forall|i: FileId| #[trigger] self.id_to_key@.contains_key(i) implies self.id_to_origin@.contains_key(i) && self.id_of(self.id_to_key@[i]@, self.id_to_origin@[i]) == Some(i) by {
        if i != id { assert(old(self).id_to_key@.contains_key(i)); assert(self.id_to_key@[i] == old(self).id_to_key@[i]); assert(old(self).id_of(old(self).id_to_key@[i]@, old(self).id_to_origin@[i]) == Some(i)); }
      }
      assert forall|i: FileId| #[trigger] self.id_to_origin@.contains_key(i) implies self.id_to_key@.contains_key(i) by { if i != id { assert(old(self).id_to_origin@.contains_key(i)); } }
    }
@*/
}
/*@fn typecheck-ts/src/files.rs :: preferred_file_id
#ret r
#rewrite `let remainder = name . strip_prefix ( "file" ) ? ; let stripped = remainder . strip_suffix ( ".ts" ) . or_else ( | | remainder . strip_suffix ( ".tsx" ) ) ? ; let preferred = stripped . parse :: < u32 > ( ) . ok ( ) ? ;` => `let preferred = parse_file_number(name)?;`
#spec
  ensures r == (match file_number(key@) { Some(n) => if n == u32::MAX { None } else { Some(n) }, None => None }),
@*/
// ---- synthetic definitions ----------------------------------------------------------------
/*@type hir-js/src/ids.rs :: DefId
#derive Clone, Copy, PartialEq, Eq, Hash
@*/
spec fn pack(file: u32, local: u32) -> u64 { ((file as u64) << 32) | (local as u64) }
impl DefId {
/*@fn hir-js/src/ids.rs :: DefId::new
#ret r
#spec
  ensures r.0 == pack(file.0, local), (r.0 >> 32) as u32 == file.0,
#entry
  proof { let f = file.0; let l = local; assert((((f as u64) << 32) | (l as u64)) >> 32 == f as u64) by (bit_vector); }
@*/
}
#[verifier::external_body]
struct Taken { m: HashSet<DefId> }
impl View for Taken { type V = Set<DefId>; uninterp spec fn view(&self) -> Set<DefId>; }
impl Taken {
  #[verifier::external_body]
  fn insert(&mut self, x: DefId) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
}
#[verifier::external_body]
fn stable_hash_u32<T: Hash>(value: &T) -> (r: u32) { unimplemented!() }
// the next element of `0u32..`
#[verifier::external_body]
fn next_salt(s: u32) -> (r: u32) { s + 1 }
/*@fn typecheck-ts/src/program/sem_hir_builder.rs :: alloc_synthetic_def_id
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#sig `HashSet < DefId >` => `Taken`
#rewrite `for salt in 0u32 .. {` => `let mut salt_: u32 = 0; loop invariant taken@ == old(taken)@ { let salt = salt_; salt_ = next_salt(salt_);`
#rewrite `let id = DefId :: new ( file , candidate ) ;` => `let id = DefId::new(file, candidate); proof { if taken@.contains(id) { assert(taken@.insert(id) =~= taken@); } }`
#spec
  ensures !old(taken)@.contains(r), final(taken)@ == old(taken)@.insert(r), (r.0 >> 32) as u32 == file.0,
@*/
/// two different (key, origin) pairs never share an id
proof fn one_file_per_id(r: FileRegistry, a: Seq<char>, ao: FileOrigin, b: Seq<char>, bo: FileOrigin)
  requires r.wf(), r.id_of(a, ao) is Some, r.id_of(a, ao) == r.id_of(b, bo),
  ensures a == b, ao == bo,
{}
}
fn main() {}
