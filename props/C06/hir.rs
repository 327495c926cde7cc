use vstd::prelude::*;
use vstd::utf8::*;
use std::collections::BTreeMap;
verus! {
/*@type diagnostics/src/lib.rs :: FileId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: NameId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: DefId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: BodyId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: DefKind
#derive Clone, Copy
@*/
/*@type hir-js/src/hir.rs :: BodyKind
#derive Clone, Copy
@*/
/*@type hir-js/src/ids.rs :: DefPath
#derive Clone, Copy
@*/
/*@type hir-js/src/ids.rs :: BodyPath
#derive Clone, Copy
@*/
/*@type hir-js/src/ids.rs :: StableHasher
@*/
/*@type hir-js/src/intern.rs :: NameInterner
#rewrite `BTreeMap < String , NameId >` => `Names`
#rewrite `BTreeMap < NameId , String >` => `Ids`
#rewrite `fn ( & str , u64 ) -> NameId` => `HashFn`
@*/

// ---- packing ---------------------------------------------------------------------------
spec fn pack(file: u32, local: u32) -> u64 { ((file as u64) << 32) | (local as u64) }
proof fn pack_facts(f: u32, l: u32)
  ensures (pack(f, l) >> 32) as u32 == f, pack(f, l) as u32 == l,
{
  assert((((f as u64) << 32) | (l as u64)) >> 32 == f as u64 && ((((f as u64) << 32) | (l as u64)) as u32) == l) by (bit_vector);
}
proof fn pack_onto(v: u64)
  ensures pack((v >> 32) as u32, v as u32) == v,
{
  assert(((((v >> 32) as u32) as u64) << 32) | ((v as u32) as u64) == v) by (bit_vector);
}
/// distinct (file, local) pairs get distinct ids
proof fn pack_injective(f: u32, l: u32, g: u32, m: u32)
  requires pack(f, l) == pack(g, m),
  ensures f == g, l == m,
{ pack_facts(f, l); pack_facts(g, m); }
impl DefId {
/*@fn hir-js/src/ids.rs :: DefId::new
#ret r
#spec
  ensures r.0 == pack(file.0, local), (r.0 >> 32) as u32 == file.0, r.0 as u32 == local,
#entry
  proof { pack_facts(file.0, local); }
@*/
/*@fn hir-js/src/ids.rs :: DefId::file
#ret r
#spec
  ensures r.0 == (self.0 >> 32) as u32, exists|l: u32| self.0 == #[trigger] pack(r.0, l),
#entry
  proof { pack_onto(self.0); }
@*/
/*@fn hir-js/src/ids.rs :: DefId::local
#ret r
#spec
  ensures r == self.0 as u32, exists|f: u32| self.0 == #[trigger] pack(f, r),
#entry
  proof { pack_onto(self.0); }
@*/
}
impl BodyId {
/*@fn hir-js/src/ids.rs :: BodyId::new
#ret r
#spec
  ensures r.0 == pack(file.0, local), (r.0 >> 32) as u32 == file.0, r.0 as u32 == local,
#entry
  proof { pack_facts(file.0, local); }
@*/
/*@fn hir-js/src/ids.rs :: BodyId::file
#ret r
#spec
  ensures r.0 == (self.0 >> 32) as u32, exists|l: u32| self.0 == #[trigger] pack(r.0, l),
#entry
  proof { pack_onto(self.0); }
@*/
/*@fn hir-js/src/ids.rs :: BodyId::local
#ret r
#spec
  ensures r == self.0 as u32, exists|f: u32| self.0 == #[trigger] pack(f, r),
#entry
  proof { pack_onto(self.0); }
@*/
}

// ---- the stable hash: FNV-1a over a byte stream -----------------------------------------
spec fn fnv1(h: u64, b: u8) -> u64 { (((h ^ (b as u64)) * 0x100000001b3) % 0x1_0000_0000_0000_0000) as u64 }
spec fn fnv_from(h: u64, s: Seq<u8>) -> u64
  decreases s.len(),
{ if s.len() == 0 { h } else { fnv1(fnv_from(h, s.drop_last()), s.last()) } }
spec fn fnv(s: Seq<u8>) -> u64 { fnv_from(0xcbf29ce484222325, s) }
spec fn le(v: u64) -> Seq<u8> { seq![(v >> 0u64) as u8, (v >> 8u64) as u8, (v >> 16u64) as u8, (v >> 24u64) as u8, (v >> 32u64) as u8, (v >> 40u64) as u8, (v >> 48u64) as u8, (v >> 56u64) as u8] }
proof fn fnv_push(h: u64, s: Seq<u8>, b: u8)
  ensures fnv_from(h, s.push(b)) == fnv1(fnv_from(h, s), b),
{ assert(s.push(b).drop_last() =~= s); }
proof fn fnv_cat(h: u64, s: Seq<u8>, t: Seq<u8>)
  ensures fnv_from(h, s + t) == fnv_from(fnv_from(h, s), t),
  decreases t.len(),
{
  if t.len() == 0 { assert(s + t =~= s); }
  else { fnv_cat(h, s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); }
}
proof fn cat_all()
  ensures
    forall|h: u64, s: Seq<u8>, t: Seq<u8>| #[trigger] fnv_from(fnv_from(h, s), t) == fnv_from(h, s + t),
    forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) == s,
    forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s,
{
  assert forall|h: u64, s: Seq<u8>, t: Seq<u8>| #[trigger] fnv_from(fnv_from(h, s), t) == fnv_from(h, s + t) by { fnv_cat(h, s, t); }
  assert forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) == s by { assert(s + Seq::<u8>::empty() =~= s); }
  assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
}
spec fn fold32(h: u64) -> u32 { (h ^ (h >> 32)) as u32 }
// <integer>::to_le_bytes
#[verifier::external_body]
fn le_bytes(v: u64) -> (r: [u8; 8]) ensures r@ == le(v) { v.to_le_bytes() }
/*@const hir-js/src/intern.rs :: NAME_HASH_DOMAIN
@*/
/*@const hir-js/src/ids.rs :: STABLE_HASH_OFFSET
@*/
/*@const hir-js/src/ids.rs :: STABLE_HASH_PRIME
@*/
impl StableHasher {
/*@fn hir-js/src/ids.rs :: StableHasher::new
#ret r
#spec
  ensures r.0 == fnv(Seq::<u8>::empty()),
@*/
/*@fn hir-js/src/ids.rs :: StableHasher::write_byte
#spec
  ensures final(self).0 == fnv1(old(self).0, byte),
@*/
/*@fn hir-js/src/ids.rs :: StableHasher::write_u64
#rewrite `value . to_le_bytes ( )` => `le_bytes(value)`
#rewrite `self . write_byte ( byte )` => `self.write_byte(*byte)`
#spec
  ensures final(self).0 == fnv_from(old(self).0, le(value)),
#entry
  let ghost h = self.0;
  proof { assert(le(value).take(8) =~= le(value)); }
#loop 0 while=ix
    invariant ix <= 8, ix_s@ == le(value), self.0 == fnv_from(h, le(value).take(ix as int)),
    decreases 8 - ix,
#at before `self . write_byte`
    proof { fnv_push(h, le(value).take(ix - 1), le(value)[ix - 1]); assert(le(value).take(ix as int) =~= le(value).take(ix - 1).push(le(value)[ix - 1])); }
@*/
/*@fn hir-js/src/ids.rs :: StableHasher::write_str
#spec
  ensures final(self).0 == fnv_from(old(self).0, encode_utf8(value@)),
#entry
  let ghost h = self.0; let ghost v = encode_utf8(value@);
  proof { assert(v.take(v.len() as int) =~= v); }
#loop 0 while=ix
    invariant ix <= ix_s@.len(), ix_s@ == v, self.0 == fnv_from(h, v.take(ix as int)),
    decreases ix_s@.len() - ix,
#at before `self . write_byte`
    proof { fnv_push(h, v.take(ix - 1), v[ix - 1]); assert(v.take(ix as int) =~= v.take(ix - 1).push(v[ix - 1])); }
@*/
/*@fn hir-js/src/ids.rs :: StableHasher::finish
#ret r
#spec
  ensures r == self.0,
@*/
/*@fn hir-js/src/ids.rs :: StableHasher::finish_u32
#ret r
#spec
  ensures r == fold32(self.0),
@*/
}

// ---- what is hashed ----------------------------------------------------------------------
spec fn salted(salt: Option<u64>) -> Seq<u8> { match salt { Some(s) => if s == 0 { Seq::empty() } else { le(s) }, None => Seq::empty() } }
spec fn def_stream(p: DefPath) -> Seq<u8> {
  le(p.module.0 as u64) + le(if p.parent is Some { 1 } else { 0 }) + (match p.parent { Some(d) => le(d.0), None => Seq::empty() }) + le(def_no(p.kind)) + le(p.disambiguator as u64) + le(p.name.0)
}
spec fn body_stream(p: BodyPath) -> Seq<u8> { le(p.owner.0) + le(body_no(p.kind)) + le(p.disambiguator as u64) }
spec fn def_hash(p: DefPath, salt: u64) -> u32 { fold32(fnv(def_stream(p) + salted(Some(salt)))) }
spec fn body_hash(p: BodyPath, salt: u64) -> u32 { fold32(fnv(body_stream(p) + salted(Some(salt)))) }
proof fn le_injective(a: u64, b: u64)
  requires le(a) == le(b),
  ensures a == b,
{
  assert((a >> 0u64) as u8 == (b >> 0u64) as u8) by { assert(le(a)[0] == le(b)[0]); }
  assert((a >> 8u64) as u8 == (b >> 8u64) as u8) by { assert(le(a)[1] == le(b)[1]); }
  assert((a >> 16u64) as u8 == (b >> 16u64) as u8) by { assert(le(a)[2] == le(b)[2]); }
  assert((a >> 24u64) as u8 == (b >> 24u64) as u8) by { assert(le(a)[3] == le(b)[3]); }
  assert((a >> 32u64) as u8 == (b >> 32u64) as u8) by { assert(le(a)[4] == le(b)[4]); }
  assert((a >> 40u64) as u8 == (b >> 40u64) as u8) by { assert(le(a)[5] == le(b)[5]); }
  assert((a >> 48u64) as u8 == (b >> 48u64) as u8) by { assert(le(a)[6] == le(b)[6]); }
  assert((a >> 56u64) as u8 == (b >> 56u64) as u8) by { assert(le(a)[7] == le(b)[7]); }
  assert(a == b) by (bit_vector) requires
    (a >> 0u64) as u8 == (b >> 0u64) as u8, (a >> 8u64) as u8 == (b >> 8u64) as u8, (a >> 16u64) as u8 == (b >> 16u64) as u8, (a >> 24u64) as u8 == (b >> 24u64) as u8,
    (a >> 32u64) as u8 == (b >> 32u64) as u8, (a >> 40u64) as u8 == (b >> 40u64) as u8, (a >> 48u64) as u8 == (b >> 48u64) as u8, (a >> 56u64) as u8 == (b >> 56u64) as u8;
}
/// paths that differ in any component are hashed from different bytes
proof fn def_streams_differ(p: DefPath, q: DefPath)
  requires def_stream(p) == def_stream(q),
  ensures p.module.0 == q.module.0, p.parent == q.parent, def_no(p.kind) == def_no(q.kind), p.disambiguator == q.disambiguator, p.name == q.name,
{
  let a = def_stream(p); let b = def_stream(q);
  assert(a.subrange(0, 8) =~= le(p.module.0 as u64)); assert(b.subrange(0, 8) =~= le(q.module.0 as u64)); le_injective(p.module.0 as u64, q.module.0 as u64);
  let x = if p.parent is Some { 1u64 } else { 0u64 }; let y = if q.parent is Some { 1u64 } else { 0u64 };
  assert(a.subrange(8, 16) =~= le(x)); assert(b.subrange(8, 16) =~= le(y)); le_injective(x, y);
  let n = if p.parent is Some { 24int } else { 16int };
  if p.parent is Some { let d = p.parent.unwrap().0; let e = q.parent.unwrap().0; assert(a.subrange(16, 24) =~= le(d)); assert(b.subrange(16, 24) =~= le(e)); le_injective(d, e); }
  assert(a.subrange(n, n + 8) =~= le(def_no(p.kind))); assert(b.subrange(n, n + 8) =~= le(def_no(q.kind))); le_injective(def_no(p.kind), def_no(q.kind));
  assert(a.subrange(n + 8, n + 16) =~= le(p.disambiguator as u64)); assert(b.subrange(n + 8, n + 16) =~= le(q.disambiguator as u64)); le_injective(p.disambiguator as u64, q.disambiguator as u64);
  assert(a.subrange(n + 16, n + 24) =~= le(p.name.0)); assert(b.subrange(n + 16, n + 24) =~= le(q.name.0)); le_injective(p.name.0, q.name.0);
}
proof fn body_streams_differ(p: BodyPath, q: BodyPath)
  requires body_stream(p) == body_stream(q),
  ensures p.owner == q.owner, body_no(p.kind) == body_no(q.kind), p.disambiguator == q.disambiguator,
{
  let a = body_stream(p); let b = body_stream(q);
  assert(a.subrange(0, 8) =~= le(p.owner.0)); assert(b.subrange(0, 8) =~= le(q.owner.0)); le_injective(p.owner.0, q.owner.0);
  assert(a.subrange(8, 16) =~= le(body_no(p.kind))); assert(b.subrange(8, 16) =~= le(body_no(q.kind))); le_injective(body_no(p.kind), body_no(q.kind));
  assert(a.subrange(16, 24) =~= le(p.disambiguator as u64)); assert(b.subrange(16, 24) =~= le(q.disambiguator as u64)); le_injective(p.disambiguator as u64, q.disambiguator as u64);
}
// Option::filter on a salt
#[verifier::external_body]
fn nonzero(s: Option<u64>) -> (r: Option<u64>) ensures r == (match s { Some(v) => if v != 0 { Some(v) } else { None }, None => None }) { s.filter(|s| *s != 0) }
// the discriminants of the kinds
spec fn def_no(k: DefKind) -> u64 { k as u64 }
spec fn body_no(k: BodyKind) -> u64 { k as u64 }
impl DefPath {
/*@fn hir-js/src/ids.rs :: DefPath::new
#ret r
#spec
  ensures r.module == module, r.parent == parent, r.kind == kind, r.name == name, r.disambiguator == disambiguator,
@*/
/*@fn hir-js/src/ids.rs :: DefPath::stable_hash_impl
#ret r
#rewrite `salt . filter ( | s | * s != 0 )` => `nonzero(salt)`
#spec
  ensures r.0 == fnv(def_stream(*self) + salted(salt)),
#entry
  proof { cat_all(); }
@*/
/*@fn hir-js/src/ids.rs :: DefPath::stable_hash
#ret r
#spec
  ensures r == fnv(def_stream(*self)),
#entry
  proof { assert(def_stream(*self) + salted(None) =~= def_stream(*self)); }
@*/
/*@fn hir-js/src/ids.rs :: DefPath::stable_hash_with_salt
#ret r
#spec
  ensures r == def_hash(*self, salt),
@*/
/*@fn hir-js/src/ids.rs :: DefPath::stable_hash_u32
#ret r
#spec
  ensures r == def_hash(*self, 0),
@*/
}
impl BodyPath {
/*@fn hir-js/src/ids.rs :: BodyPath::new
#ret r
#spec
  ensures r.owner == owner, r.kind == kind, r.disambiguator == disambiguator,
@*/
/*@fn hir-js/src/ids.rs :: BodyPath::stable_hash_impl
#ret r
#rewrite `salt . filter ( | s | * s != 0 )` => `nonzero(salt)`
#spec
  ensures r.0 == fnv(body_stream(*self) + salted(salt)),
#entry
  proof { cat_all(); }
@*/
/*@fn hir-js/src/ids.rs :: BodyPath::stable_hash
#ret r
#spec
  ensures r == fnv(body_stream(*self)),
#entry
  proof { assert(body_stream(*self) + salted(None) =~= body_stream(*self)); }
@*/
/*@fn hir-js/src/ids.rs :: BodyPath::stable_hash_with_salt
#ret r
#spec
  ensures r == body_hash(*self, salt),
@*/
/*@fn hir-js/src/ids.rs :: BodyPath::stable_hash_u32
#ret r
#spec
  ensures r == body_hash(*self, 0),
@*/
}

// ---- allocation of definition and body ids -------------------------------------------------
pub enum Slot<V> { Free, Taken(V) }
#[verifier::external_body]
fn look<V: Copy>(m: &BTreeMap<u32, V>, k: u32) -> (r: Slot<V>) ensures r == (if m@.contains_key(k) { Slot::Taken(m@[k]) } else { Slot::Free }) { match m.get(&k) { Some(v) => Slot::Taken(*v), None => Slot::Free } }
#[verifier::external_body]
fn put<V>(m: &mut BTreeMap<u32, V>, k: u32, v: V) ensures final(m)@ == old(m)@.insert(k, v) { m.insert(k, v); }
// one more salt: the loop would have to run 2^64 times to overflow
#[verifier::external_body]
fn next_salt(s: u64) -> (r: u64) ensures r == s + 1, r > s { s + 1 }
#[verifier::external_body]
fn def_eq(a: &DefPath, b: &DefPath) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
fn body_eq(a: &BodyPath, b: &BodyPath) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// the first salt whose hash is free or already this path's
spec fn def_allot(m: Map<u32, DefPath>, p: DefPath, salt: u64) -> bool {
  &&& m.contains_key(def_hash(p, salt)) ==> m[def_hash(p, salt)] == p
  &&& forall|t: u64| t < salt ==> m.contains_key(#[trigger] def_hash(p, t)) && m[def_hash(p, t)] != p
}
/*@fn hir-js/src/lower.rs :: allocate_def_id
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `match allocated . entry ( candidate )` => `match look(allocated, candidate)`
#rewrite `Entry :: Vacant ( slot )` => `Slot::Free`
#rewrite `slot . insert ( def_path )` => `put(allocated, candidate, def_path)`
#rewrite `Entry :: Occupied ( existing ) if * existing . get ( ) == def_path` => `Slot::Taken(existing) if def_eq(&existing, &def_path)`
#rewrite `Entry :: Occupied ( _ )` => `Slot::Taken(_)`
#rewrite `salt += 1` => `salt = next_salt(salt)`
#spec
  ensures
    exists|salt: u64| #[trigger] def_allot(old(allocated)@, def_path, salt) && r == DefId(pack(def_path.module.0, def_hash(def_path, salt))) && final(allocated)@ == old(allocated)@.insert(def_hash(def_path, salt), def_path),
#loop 0
    invariant *allocated == *old(allocated), forall|t: u64| t < salt ==> old(allocated)@.contains_key(#[trigger] def_hash(def_path, t)) && old(allocated)@[def_hash(def_path, t)] != def_path,
#at before `match allocated . entry`
    let ghost salt_ = salt;
    proof { assert(candidate == def_hash(def_path, salt_)); if !allocated@.contains_key(candidate) || allocated@[candidate] == def_path { assert(def_allot(allocated@, def_path, salt_)); } if allocated@.contains_key(candidate) && allocated@[candidate] == def_path { assert(allocated@ =~= allocated@.insert(candidate, def_path)); } }
@*/
/// the first salt whose hash is free or already this path's
spec fn body_allot(m: Map<u32, BodyPath>, p: BodyPath, salt: u64) -> bool {
  &&& m.contains_key(body_hash(p, salt)) ==> m[body_hash(p, salt)] == p
  &&& forall|t: u64| t < salt ==> m.contains_key(#[trigger] body_hash(p, t)) && m[body_hash(p, t)] != p
}
/*@fn hir-js/src/lower.rs :: allocate_body_id
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `match allocated . entry ( candidate )` => `match look(allocated, candidate)`
#rewrite `Entry :: Vacant ( slot )` => `Slot::Free`
#rewrite `slot . insert ( body_path )` => `put(allocated, candidate, body_path)`
#rewrite `Entry :: Occupied ( existing ) if * existing . get ( ) == body_path` => `Slot::Taken(existing) if body_eq(&existing, &body_path)`
#rewrite `Entry :: Occupied ( _ )` => `Slot::Taken(_)`
#rewrite `salt += 1` => `salt = next_salt(salt)`
#spec
  ensures
    exists|salt: u64| #[trigger] body_allot(old(allocated)@, body_path, salt) && r == BodyId(pack((body_path.owner.0 >> 32) as u32, body_hash(body_path, salt))) && final(allocated)@ == old(allocated)@.insert(body_hash(body_path, salt), body_path),
#loop 0
    invariant *allocated == *old(allocated), forall|t: u64| t < salt ==> old(allocated)@.contains_key(#[trigger] body_hash(body_path, t)) && old(allocated)@[body_hash(body_path, t)] != body_path,
#at before `match allocated . entry`
    let ghost salt_ = salt;
    proof { assert(candidate == body_hash(body_path, salt_)); if !allocated@.contains_key(candidate) || allocated@[candidate] == body_path { assert(body_allot(allocated@, body_path, salt_)); } if allocated@.contains_key(candidate) && allocated@[candidate] == body_path { assert(allocated@ =~= allocated@.insert(candidate, body_path)); } }
@*/

// ---- name interning ------------------------------------------------------------------------
#[verifier::external_body]
struct Names { m: BTreeMap<String, NameId> }
#[verifier::external_body]
struct Ids { m: BTreeMap<NameId, String> }
#[verifier::external_body]
struct HashFn { f: fn(&str, u64) -> NameId }
uninterp spec fn hash_of(f: HashFn, s: Seq<char>, salt: u64) -> NameId;
impl View for Names { type V = Map<Seq<char>, NameId>; uninterp spec fn view(&self) -> Map<Seq<char>, NameId>; }
impl View for Ids { type V = Map<NameId, Seq<char>>; uninterp spec fn view(&self) -> Map<NameId, Seq<char>>; }
// BTreeMap<String, NameId> and BTreeMap<NameId, String>
impl Names {
  #[verifier::external_body]
  fn get(&self, k: &str) -> (r: Option<&NameId>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { self.m.get(k) }
  #[verifier::external_body]
  fn insert(&mut self, k: String, v: NameId) -> (r: Option<NameId>) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k, v) }
  #[verifier::external_body]
  fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, NameId>::empty() { unimplemented!() }
  #[verifier::external_body]
  fn len(&self) -> (r: usize) ensures r == self@.len() { self.m.len() }
}
impl Ids {
  #[verifier::external_body]
  fn get(&self, k: &NameId) -> (r: Option<&String>) ensures match r { Some(v) => self@.contains_key(*k) && v@ == self@[*k], None => !self@.contains_key(*k) } { self.m.get(k) }
  #[verifier::external_body]
  fn insert(&mut self, k: NameId, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k, v@) { self.m.insert(k, v) }
  #[verifier::external_body]
  fn new() -> (r: Self) ensures r@ == Map::<NameId, Seq<char>>::empty() { unimplemented!() }
}
#[verifier::external_body]
fn apply(f: &HashFn, s: &str, salt: u64) -> (r: NameId) ensures r == hash_of(*f, s@, salt) { (f.f)(s, salt) }
#[verifier::external_body]
fn string_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
impl NameInterner {
  /// every interned name has one id and every id one name
  spec fn wf(self) -> bool {
    &&& forall|s: Seq<char>| #[trigger] self.by_name@.contains_key(s) ==> self.by_id@.contains_key(self.by_name@[s]) && self.by_id@[self.by_name@[s]] == s
    &&& forall|i: NameId| #[trigger] self.by_id@.contains_key(i) ==> self.by_name@.contains_key(self.by_id@[i]) && self.by_name@[self.by_id@[i]] == i
  }
/*@fn hir-js/src/intern.rs :: NameInterner::new
#ret r
#sig `fn ( & str , u64 ) -> NameId` => `HashFn`
#rewrite `by_name : BTreeMap :: new ( )` => `by_name: Names::new()`
#rewrite `by_id : BTreeMap :: new ( )` => `by_id: Ids::new()`
#spec
  ensures r.wf(), r.by_name@ == Map::<Seq<char>, NameId>::empty(),
@*/
/*@fn hir-js/src/intern.rs :: NameInterner::hash_name
#ret r
#spec
  ensures r.0 == fnv(le(0x6e616d65) + encode_utf8(name@) + le(salt)),
#entry
  proof {
    let o = 0xcbf29ce484222325u64; assert(Seq::<u8>::empty() + le(0x6e616d65) =~= le(0x6e616d65));
    fnv_cat(o, Seq::empty(), le(0x6e616d65)); fnv_cat(o, le(0x6e616d65), encode_utf8(name@)); fnv_cat(o, le(0x6e616d65) + encode_utf8(name@), le(salt));
  }
@*/
/*@fn hir-js/src/intern.rs :: NameInterner::intern
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#sig `impl AsRef < str >` => `&str`
#rewrite `name . as_ref ( )` => `name`
#rewrite `( self . hash ) ( name_ref , salt )` => `apply(&self.hash, name_ref, salt)`
#rewrite `existing == name_ref` => `string_is(existing, name_ref)`
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).hash == old(self).hash,
    final(self).by_name@ == old(self).by_name@.insert(name@, r),
    final(self).by_id@ == old(self).by_id@.insert(r, name@),
    old(self).by_name@.contains_key(name@) ==> r == old(self).by_name@[name@],
    !old(self).by_name@.contains_key(name@) ==> !old(self).by_id@.contains_key(r),
    forall|s: Seq<char>| #[trigger] old(self).by_name@.contains_key(s) ==> final(self).by_name@[s] == old(self).by_name@[s],
#entry
  proof { if self.by_name@.contains_key(name@) { let i = self.by_name@[name@]; assert(self.by_name@.insert(name@, i) =~= self.by_name@); assert(self.by_id@.insert(i, name@) =~= self.by_id@); } }
#loop 0
    invariant owned@ == name_ref@, name_ref@ == name@, *self == *old(self), old(self).wf(), !self.by_name@.contains_key(name@),
@*/
/*@fn hir-js/src/intern.rs :: NameInterner::resolve
#ret r
#rewrite `| s | s . as_str ( )` => `|s: &'_ String| -> (t: &str) ensures t@ == s@ { s.as_str() }`
#spec
  ensures match r { Some(s) => self.by_id@.contains_key(id) && s@ == self.by_id@[id], None => !self.by_id@.contains_key(id) },
@*/
}
/// interning is injective: two names share an id only if they are equal
proof fn one_name_per_id(n: NameInterner, a: Seq<char>, b: Seq<char>)
  requires n.wf(), n.by_name@.contains_key(a), n.by_name@.contains_key(b), n.by_name@[a] == n.by_name@[b],
  ensures a == b,
{}
}
fn main() {}
