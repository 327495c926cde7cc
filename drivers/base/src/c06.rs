//! C06: identifiers name exactly one thing.
use crate::common::{Ctx, Rng};
use crate::ensure;
use diagnostics::FileId;
use hir_js::{BodyId, DefId};
use std::collections::{BTreeMap, HashMap, HashSet};
use types_ts_interned as tt;

/// hir-js's interner, whole, with access to its constructor
#[allow(dead_code, unused)]
mod intern {
  include!(concat!(env!("OUT_DIR"), "/intern.rs"));
  pub fn with(h: fn(&str, u64) -> NameId) -> NameInterner {
    NameInterner::new(h)
  }
}
/// the checker's file registry, whole
#[allow(dead_code, unused)]
mod files {
  include!(concat!(env!("OUT_DIR"), "/files.rs"));
}
/// definition and body id allocation over paths that hash badly
#[cfg(have_alloc)]
#[allow(dead_code, unused)]
mod alloc {
  use diagnostics::FileId;
  use hir_js::{BodyId, DefId};
  use std::collections::btree_map::Entry;
  use std::collections::BTreeMap;
  #[derive(Clone, Copy, PartialEq, Eq, Debug)]
  pub struct DefPath { pub module: FileId, pub n: u32 }
  #[derive(Clone, Copy, PartialEq, Eq, Debug)]
  pub struct BodyPath { pub owner: DefId, pub n: u32 }
  impl DefPath {
    pub fn stable_hash_u32(&self) -> u32 { self.stable_hash_with_salt(0) }
    pub fn stable_hash_with_salt(&self, s: u64) -> u32 { super::weak(self.n, s) }
  }
  impl BodyPath {
    pub fn stable_hash_u32(&self) -> u32 { self.stable_hash_with_salt(0) }
    pub fn stable_hash_with_salt(&self, s: u64) -> u32 { super::weak(self.n, s) }
  }
  include!(concat!(env!("OUT_DIR"), "/alloc.rs"));
}
#[cfg(have_synth)]
#[allow(dead_code, unused)]
mod synth {
  use diagnostics::FileId;
  use hir_js::DefId;
  use std::collections::HashSet;
  use std::hash::Hash;
  fn stable_hash_u32<T: Hash>(v: &T) -> u32 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    (h.finish() % 7) as u32
  }
  include!(concat!(env!("OUT_DIR"), "/synth.rs"));
}
/// few values, all reached by some salt
fn weak(n: u32, salt: u64) -> u32 {
  ((n % 3) as u64 + salt * (1 + n as u64 % 2) + salt / 16) as u32 % 64
}
fn names(r: &mut Rng, n: usize) -> Vec<String> {
  (0..n).map(|_| (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'é', '\u{10000}', '"'])).collect()).collect()
}
fn hir_names(v: &[String], h: fn(&str, u64) -> crate::ids::NameId) -> Result<(), String> {
  let mut it = intern::with(h);
  let mut seen: HashMap<String, crate::ids::NameId> = HashMap::new();
  for s in v {
    let id = it.intern(s);
    ensure!(seen.get(s).map_or(true, |w| *w == id), "{s:?} changed id to {id:?}");
    ensure!(seen.iter().all(|(t, w)| t == s || *w != id), "{s:?} shares {id:?}");
    seen.insert(s.clone(), id);
    for (t, w) in &seen {
      ensure!(it.resolve(*w) == Some(t.as_str()), "{w:?} resolves to {:?}, not {t:?}", it.resolve(*w));
    }
    ensure!(it.len() == seen.len(), "len");
  }
  Ok(())
}
fn tt_names(v: &[String]) -> Result<(), String> {
  let st = tt::TypeStore::new();
  let ids: Vec<_> = v.iter().map(|s| st.intern_name(s.as_str())).collect();
  for (i, a) in v.iter().enumerate() {
    ensure!(st.name(ids[i]) == *a, "{a:?} resolves to {:?}", st.name(ids[i]));
    for (j, b) in v.iter().enumerate() {
      ensure!((a == b) == (ids[i] == ids[j]), "{a:?} / {b:?}");
    }
  }
  Ok(())
}
/// interning under a fingerprint with few values
fn tt_values(v: &[u32]) -> Result<(), String> {
  fn few(raw: u128, _: u64, salt: u64) -> u128 {
    (raw % 2 + salt as u128) % 4096
  }
  let st = tt::TypeStore::with_options_and_fingerprint(tt::TypeOptions::default(), few);
  let mk = |n: &u32| tt::TypeKind::NumberLiteral((*n as f64).into());
  let ids: Vec<_> = v.iter().map(|n| st.intern_type(mk(n))).collect();
  for (i, a) in v.iter().enumerate() {
    ensure!(st.type_kind(ids[i]) == mk(a), "type {a} reads back {:?}", st.type_kind(ids[i]));
    ensure!(st.intern_type(mk(a)) == ids[i], "type {a} interned twice");
    for (j, b) in v.iter().enumerate() {
      ensure!((a == b) == (ids[i] == ids[j]), "types {a} / {b}");
    }
  }
  Ok(())
}
fn registry(v: &[(String, bool)]) -> Result<(), String> {
  use files::FileOrigin::{Lib, Source};
  let mut r = files::FileRegistry::new();
  let mut m: Vec<((String, bool), FileId)> = vec![];
  for (s, lib) in v {
    // "@i": the source named after the id handed out in step i
    let s = &match s.strip_prefix('@').and_then(|i| i.parse::<usize>().ok()) {
      Some(i) if !m.is_empty() => format!("file{}.ts", m[i % m.len()].1 .0),
      _ => s.clone(),
    };
    let k = crate::api::FileKey::new(s.as_str());
    let o = if *lib { Lib } else { Source };
    let was = m.iter().find(|e| e.0 .0 == *s && e.0 .1 == *lib).map(|e| e.1);
    let num = s.strip_prefix("file").and_then(|t| t.strip_suffix(".ts").or_else(|| t.strip_suffix(".tsx"))).and_then(|t| t.parse::<u32>().ok());
    let free = num.is_some_and(|n| m.iter().all(|e| e.1 .0 != n));
    let id = r.intern(&k, o);
    ensure!(id.0 != u32::MAX, "{s} got the reserved id");
    match was {
      Some(w) => ensure!(w == id, "{s} changed id"),
      None => {
        ensure!(m.iter().all(|e| e.1 != id), "{s} shares {id:?}");
        if !*lib && free && num != Some(u32::MAX) {
          ensure!(Some(id.0) == num, "{s} did not get its number: {id:?}");
        }
        m.push(((s.clone(), *lib), id));
      }
    }
    for ((t, l), w) in &m {
      let k = crate::api::FileKey::new(t.as_str());
      let o = if *l { Lib } else { Source };
      ensure!(r.lookup_id_with_origin(&k, o) == Some(*w) && r.lookup_key(*w) == Some(k.clone()) && r.lookup_origin(*w) == Some(o), "lookup of {t} / {w:?}");
      let both: Vec<FileId> = [false, true].iter().filter_map(|b| m.iter().find(|e| e.0 .0 == *t && e.0 .1 == *b).map(|e| e.1)).collect();
      ensure!(r.ids_for_key(&k) == both && r.lookup_id(&k) == both.first().copied(), "ids_for_key {t}");
    }
  }
  Ok(())
}
#[cfg(have_alloc)]
fn allocation(v: &[u32]) -> Result<(), String> {
  let f = FileId(7);
  let (mut m, mut seen) = (BTreeMap::new(), HashMap::new());
  for n in v {
    let id = alloc::allocate_def_id(alloc::DefPath { module: f, n: *n }, &mut m);
    ensure!(id.file() == f, "def {n} in the wrong file");
    ensure!(seen.get(n).map_or(true, |w| *w == id) && seen.iter().all(|(k, w)| k == n || *w != id), "def {n}: {id:?}, already {seen:?}");
    seen.insert(*n, id);
    ensure!(m.len() == seen.len() && m.get(&id.local()).map(|p| p.n) == Some(*n), "table after def {n}");
  }
  let (mut m, mut seen) = (BTreeMap::new(), HashMap::new());
  for n in v {
    let id = alloc::allocate_body_id(alloc::BodyPath { owner: DefId::new(f, 1), n: *n }, &mut m);
    ensure!(id.file() == f, "body {n} in the wrong file");
    ensure!(seen.get(n).map_or(true, |w| *w == id) && seen.iter().all(|(k, w)| k == n || *w != id), "body {n}: {id:?}, already {seen:?}");
    seen.insert(*n, id);
    ensure!(m.len() == seen.len() && m.get(&id.local()).map(|p| p.n) == Some(*n), "table after body {n}");
  }
  Ok(())
}
#[cfg(not(have_alloc))]
fn allocation(_: &[u32]) -> Result<(), String> {
  Ok(())
}
#[cfg(have_synth)]
fn synthetic() -> Result<(), String> {
  let mut t: HashSet<DefId> = HashSet::new();
  for n in 0..7u32 {
    let before = t.clone();
    let id = synth::alloc_synthetic_def_id(FileId(9), &mut t, &n);
    ensure!(!before.contains(&id) && t.contains(&id) && t.len() == before.len() + 1 && id.file() == FileId(9), "synthetic {n}: {id:?}");
  }
  Ok(())
}
#[cfg(not(have_synth))]
fn synthetic() -> Result<(), String> {
  Ok(())
}
fn packed(f: u32, l: u32) -> Result<(), String> {
  let (d, b) = (DefId::new(FileId(f), l), BodyId::new(FileId(f), l));
  ensure!(d.file().0 == f && d.local() == l && b.file().0 == f && b.local() == l, "packing ({f}, {l})");
  Ok(())
}
fn fnv(s: &[u8]) -> u64 {
  s.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
fn hashes(r: &mut Rng) -> Result<(), String> {
  use crate::ids::{BodyPath, DefKind, DefPath, NameId};
  let kinds = [DefKind::Var, DefKind::Class, DefKind::StaticBlock, DefKind::VarDeclarator];
  let p = DefPath::new(FileId(r.next() as u32), r.bool().then(|| crate::ids::DefId(r.next())), *r.pick(&kinds), NameId(r.next()), r.next() as u32);
  let mut s = vec![];
  let mut w = |v: u64| s.extend(v.to_le_bytes());
  w(p.module.0 as u64);
  w(p.parent.is_some() as u64);
  if let Some(d) = p.parent {
    w(d.0);
  }
  w(p.kind as u64);
  w(p.disambiguator as u64);
  w(p.name.0);
  ensure!(p.stable_hash() == fnv(&s), "stable_hash of {p:?}");
  let f32 = |h: u64| (h ^ (h >> 32)) as u32;
  ensure!(p.stable_hash_u32() == f32(fnv(&s)), "stable_hash_u32 of {p:?}");
  s.extend(5u64.to_le_bytes());
  ensure!(p.stable_hash_with_salt(5) == f32(fnv(&s)), "salted hash of {p:?}");
  let b = BodyPath::new(crate::ids::DefId(r.next()), hir_js::BodyKind::Function, r.next() as u32);
  let mut s = vec![];
  for v in [b.owner.0, b.kind as u64, b.disambiguator as u64] {
    s.extend(v.to_le_bytes());
  }
  ensure!(b.stable_hash() == fnv(&s) && b.stable_hash_u32() == f32(fnv(&s)), "hash of {b:?}");
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "boundary (file, local) pairs; random histories of names, values, definition/body paths and files under hashes with few values, every earlier entry re-read after each step".into();
  let m = u32::MAX;
  for f in [0, 1, 2, 0x7fff_ffff, 0x8000_0000, m - 1, m] {
    for l in [0, 1, 2, 0x7fff_ffff, 0x8000_0000, m - 1, m] {
      cx.case(true, format!("pack {f} {l}"), || packed(f, l));
    }
  }
  cx.case(true, "synthetic ids", synthetic);
  let mut r = Rng::new(cx.rng.next());
  for k in 0..if cx.thorough { 20_000 } else { 600 } {
    let n = 1 + r.below(12);
    let v = names(&mut r, n);
    cx.case(true, format!("names {v:?}"), || hir_names(&v, |s, salt| crate::ids::NameId(weak(s.len() as u32, salt) as u64)));
    cx.case(true, format!("names, one hash {v:?}"), || hir_names(&v, |_, salt| crate::ids::NameId(42 + salt)));
    cx.case(true, format!("type names {v:?}"), || tt_names(&v));
    let v: Vec<u32> = (0..n).map(|_| r.below(10) as u32).collect();
    cx.case(true, format!("paths {v:?}"), || allocation(&v));
    cx.case(true, format!("types {v:?}"), || tt_values(&v));
    let v: Vec<(String, bool)> = (0..n).map(|_| {
      let s = match r.below(8) {
        6 | 7 => format!("@{}", r.below(9)),
        0 => "x.ts".into(),
        1 => format!("file{}.ts", r.below(4)),
        2 => format!("file{}.tsx", r.below(4)),
        3 => format!("file{}.ts", u32::MAX - r.below(2) as u32),
        4 => "file4294967296.ts".into(),
        _ => format!("k{}", r.below(5)),
      };
      (s, r.below(3) == 0)
    }).collect();
    cx.case(true, format!("files {v:?}"), || registry(&v));
    let mut q = Rng::new(r.next());
    cx.case(true, format!("hash {k}"), || hashes(&mut q));
  }
}
