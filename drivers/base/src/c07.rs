//! C07: unions and intersections have one canonical form.
use crate::common::{Ctx, Rng};
use crate::ensure;
use crate::tygen::*;
use std::collections::BTreeSet;
use types_ts_interned::*;

type Set = BTreeSet<TypeId>;
fn leaves(s: &St, m: &[TypeId], union: bool) -> Set {
  let mut o = Set::new();
  for t in m {
    match s.type_kind(*t) {
      TypeKind::Union(v) if union => o.extend(v),
      TypeKind::Intersection(v) if !union => o.extend(v),
      _ => { o.insert(*t); }
    }
  }
  o
}
/// what the result of a union/intersection of the set `f` has to be: a single type or several
fn want(s: &St, f: &Set, union: bool) -> Result<Set, TypeKind> {
  let kinds: Vec<TypeKind> = f.iter().map(|t| s.type_kind(*t)).collect();
  let any = |p: fn(&TypeKind) -> bool| kinds.iter().any(p);
  if union {
    if any(|k| matches!(k, TypeKind::Any)) { return Err(TypeKind::Any); }
    if any(|k| matches!(k, TypeKind::Unknown)) { return Err(TypeKind::Unknown); }
    let mut f = f.clone();
    let b = any(|k| matches!(k, TypeKind::Boolean)) || any(|k| matches!(k, TypeKind::BooleanLiteral(true))) && any(|k| matches!(k, TypeKind::BooleanLiteral(false)));
    if b { f.insert(s.primitive_ids().boolean); }
    f.retain(|t| match s.type_kind(*t) {
      TypeKind::Never => false,
      TypeKind::BooleanLiteral(_) => !b,
      TypeKind::NumberLiteral(_) => !any(|k| matches!(k, TypeKind::Number)),
      TypeKind::StringLiteral(_) | TypeKind::TemplateLiteral(_) => !any(|k| matches!(k, TypeKind::String)),
      TypeKind::BigIntLiteral(_) => !any(|k| matches!(k, TypeKind::BigInt)),
      TypeKind::UniqueSymbol => !any(|k| matches!(k, TypeKind::Symbol)),
      _ => true,
    });
    return if f.is_empty() { Err(TypeKind::Never) } else { Ok(f) };
  }
  if any(|k| matches!(k, TypeKind::Never)) { return Err(TypeKind::Never); }
  if any(|k| matches!(k, TypeKind::Any)) { return Err(TypeKind::Any); }
  let mut f = f.clone();
  f.retain(|t| match s.type_kind(*t) {
    TypeKind::Unknown => false,
    TypeKind::Boolean => !any(|k| matches!(k, TypeKind::BooleanLiteral(_))),
    TypeKind::Number => !any(|k| matches!(k, TypeKind::NumberLiteral(_))),
    TypeKind::String => !any(|k| matches!(k, TypeKind::StringLiteral(_) | TypeKind::TemplateLiteral(_))),
    TypeKind::BigInt => !any(|k| matches!(k, TypeKind::BigIntLiteral(_))),
    TypeKind::Symbol => !any(|k| matches!(k, TypeKind::UniqueSymbol)),
    _ => true,
  });
  if f.is_empty() { return Err(TypeKind::Unknown); }
  let fam = |k: &TypeKind| match k {
    TypeKind::String | TypeKind::StringLiteral(_) | TypeKind::TemplateLiteral(_) => 1,
    TypeKind::Number | TypeKind::NumberLiteral(_) => 2,
    TypeKind::Boolean | TypeKind::BooleanLiteral(_) => 3,
    TypeKind::BigInt | TypeKind::BigIntLiteral(_) => 4,
    TypeKind::Symbol | TypeKind::UniqueSymbol => 5,
    _ => 0,
  };
  let lit = |k: &TypeKind| matches!(k, TypeKind::StringLiteral(_) | TypeKind::NumberLiteral(_) | TypeKind::BooleanLiteral(_) | TypeKind::BigIntLiteral(_));
  for x in &f {
    for y in &f {
      let (a, b) = (s.type_kind(*x), s.type_kind(*y));
      if fam(&a) != 0 && fam(&b) != 0 && (fam(&a) != fam(&b) || (x != y && lit(&a) && lit(&b))) {
        return Err(TypeKind::Never);
      }
    }
  }
  Ok(f)
}
fn op(s: &St, m: &[TypeId], union: bool) -> TypeId {
  if union { s.union(m.to_vec()) } else { s.intersection(m.to_vec()) }
}
fn check(s: &St, m: &[TypeId], union: bool) -> Result<TypeId, String> {
  let t = op(s, m, union);
  let k = s.type_kind(t);
  match want(s, &leaves(s, m, union), union) {
    Err(w) => ensure!(k == w, "{m:?} union={union}: {k:?}, not {w:?}"),
    Ok(f) if f.len() == 1 => ensure!(t == *f.iter().next().unwrap(), "{m:?} union={union}: {k:?}, not its one member"),
    Ok(f) => {
      let v = match (&k, union) { (TypeKind::Union(v), true) | (TypeKind::Intersection(v), false) => v, _ => return Err(format!("{m:?} union={union}: {k:?}, not {f:?}")) };
      ensure!(v.len() == f.len() && v.iter().copied().collect::<Set>() == f, "{m:?} union={union}: members {v:?}, not {f:?}");
      for w in v.windows(2) {
        ensure!(s.type_cmp(w[0], w[1]) == std::cmp::Ordering::Less, "{m:?}: members not in order");
      }
    }
  }
  let again = if union { TypeKind::Union(m.to_vec()) } else { TypeKind::Intersection(m.to_vec()) };
  ensure!(s.intern_type(again) == t, "intern_type makes another type of {m:?}");
  ensure!(s.canon(t) == t && s.intern_type(k) == t && op(s, &[t], union) == t && op(s, &[t, t], union) == t, "{t:?} is not canonical");
  Ok(t)
}
fn all(s: &St, m: &[TypeId], r: &mut Rng) -> Result<(), String> {
  for union in [true, false] {
    let t = check(s, m, union)?;
    let mut p = m.to_vec();
    r.shuffle(&mut p);
    if !m.is_empty() { p.push(m[r.below(m.len())]); }
    ensure!(op(s, &p, union) == t, "order of members matters: {m:?} {p:?} union={union}");
    // grouping; an `any` meeting a group that came to `never` is the exception
    let ka: Vec<TypeKind> = leaves(s, m, false).iter().map(|t| s.type_kind(*t)).collect();
    if union || !ka.iter().any(|k| matches!(k, TypeKind::Any)) {
      for c in 0..=p.len() {
        let g = op(s, &p[..c], union);
        let mut q = vec![g];
        q.extend_from_slice(&p[c..]);
        ensure!(op(s, &q, union) == t, "grouping matters: {p:?} at {c} union={union}");
        let h = op(s, &p[c..], union);
        ensure!(op(s, &[g, h], union) == t, "grouping matters: {p:?} in two at {c} union={union}");
      }
    }
  }
  Ok(())
}
fn nested(s: &St, r: &mut Rng, v: &[TypeId]) -> Result<(), String> {
  let k = compound(s, r, v);
  let t = s.intern_type(k.clone());
  match &k {
    TypeKind::Union(_) | TypeKind::Intersection(_) => {}
    TypeKind::Callable { overloads } => {
      let TypeKind::Callable { overloads: o } = s.type_kind(t) else { return Err("not callable".into()) };
      let set = |v: &[SignatureId]| v.iter().copied().collect::<BTreeSet<_>>();
      ensure!(set(&o) == set(overloads) && o.len() == set(&o).len(), "overloads {overloads:?} became {o:?}");
      let mut p = overloads.clone();
      p.extend(overloads.first().copied());
      r.shuffle(&mut p);
      ensure!(s.intern_type(TypeKind::Callable { overloads: p }) == t, "overload order matters: {overloads:?}");
    }
    _ => ensure!(s.type_kind(t) == k, "{k:?} was interned as {:?}", s.type_kind(t)),
  }
  ensure!(s.intern_type(s.type_kind(t)) == t && s.canon(t) == t, "{k:?} is not stable");
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "every pair and triple of base types, then random lists of random types: against the set definition, every order and grouping tried".into();
  cx.exhaustive = false;
  let s = TypeStore::new();
  let b = base(&s);
  let mut r = Rng::new(cx.rng.next());
  for i in 0..b.len() {
    for j in i..b.len() {
      cx.case(true, format!("pair {i} {j}"), || all(&s, &[b[i], b[j]], &mut r));
    }
  }
  for i in 0..b.len() {
    for j in i..b.len() {
      for k in j..b.len() {
        if cx.failed() { return; }
        cx.case(true, format!("triple {i} {j} {k}"), || all(&s, &[b[i], b[j], b[k]], &mut r));
      }
    }
  }
  for round in 0..(if cx.thorough { 120 } else { 25 }) {
    let s = TypeStore::new();
    let v = pool(&s, &mut r, 150);
    for i in 0..200 {
      if cx.failed() { return; }
      let n = r.below(6);
      let m: Vec<TypeId> = (0..n).map(|_| if r.bool() { v[r.below(25)] } else { pick(&mut r, &v) }).collect();
      let d = format!("pool {round} list {i}: {:?}", m.iter().map(|t| s.type_kind(*t)).collect::<Vec<_>>());
      cx.case(n > 1, d, || all(&s, &m, &mut r));
      cx.case(true, format!("pool {round} type {i}"), || nested(&s, &mut r, &v));
    }
  }
}
