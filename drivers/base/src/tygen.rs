//! types of every kind, built over earlier ones
use crate::common::Rng;
use types_ts_interned::*;
use std::sync::Arc;
pub type St = Arc<TypeStore>;

pub fn base(s: &St) -> Vec<TypeId> {
  let k = |k| s.intern_type(k);
  let mut v: Vec<TypeId> = vec![
    TypeKind::Any, TypeKind::Unknown, TypeKind::Never, TypeKind::Void, TypeKind::Null, TypeKind::Undefined,
    TypeKind::EmptyObject, TypeKind::Boolean, TypeKind::Number, TypeKind::String, TypeKind::BigInt,
    TypeKind::Symbol, TypeKind::UniqueSymbol, TypeKind::BooleanLiteral(true), TypeKind::BooleanLiteral(false), TypeKind::This,
  ].into_iter().map(k).collect();
  for x in [1.0, -0.5, f64::NAN] {
    v.push(s.intern_type(TypeKind::NumberLiteral(x.into())));
  }
  for x in ["a", "b", "", "ab"] {
    let n = s.intern_name(x);
    v.push(s.intern_type(TypeKind::StringLiteral(n)));
  }
  for x in [0, -7] {
    v.push(s.intern_type(TypeKind::BigIntLiteral(x.into())));
  }
  for x in 0..2 {
    v.push(s.intern_type(TypeKind::TypeParam(TypeParamId(x))));
    v.push(s.intern_type(TypeKind::Ref { def: DefId(x as u64), args: vec![] }));
  }
  let st = s.primitive_ids().string;
  for (h, l) in [("", ""), ("a", ""), ("", "a")] {
    v.push(s.intern_type(TypeKind::TemplateLiteral(TemplateLiteralType { head: h.into(), spans: vec![TemplateChunk { literal: l.into(), ty: st }] })));
  }
  v
}
pub fn pick(r: &mut Rng, v: &[TypeId]) -> TypeId {
  // favour the most recent ones: neighbours differ in few places
  if r.below(3) == 0 { v[v.len() - 1 - r.below(v.len().min(8))] } else { v[r.below(v.len())] }
}
fn some(r: &mut Rng, v: &[TypeId], n: usize) -> Vec<TypeId> {
  (0..r.below(n + 1)).map(|_| pick(r, v)).collect()
}
fn opt(r: &mut Rng, v: &[TypeId]) -> Option<TypeId> {
  if r.bool() { Some(pick(r, v)) } else { None }
}
pub fn sig(s: &St, r: &mut Rng, v: &[TypeId]) -> SignatureId {
  let params = some(r, v, 2).into_iter().map(|ty| Param { name: None, ty, optional: r.below(4) == 0, rest: r.below(4) == 0 }).collect();
  let mut g = Signature::new(params, pick(r, v));
  if r.below(4) == 0 {
    g.this_param = Some(pick(r, v));
  }
  for i in 0..(r.below(4) / 2) {
    let mut d = TypeParamDecl::new(TypeParamId((i + r.below(2)) as u32));
    d.constraint = opt(r, v);
    d.default = opt(r, v);
    g.type_params.push(d);
  }
  s.intern_signature(g)
}
pub fn sigs(s: &St, r: &mut Rng, v: &[TypeId], n: usize) -> Vec<SignatureId> {
  (0..r.below(n + 1)).map(|_| sig(s, r, v)).collect()
}
pub fn prop(s: &St, r: &mut Rng, v: &[TypeId]) -> Property {
  let name = s.intern_name(*r.pick(&["p", "q", "", "pp"]));
  let key = match r.below(4) { 0 => PropKey::Number(r.below(3) as i64 - 1), 1 => PropKey::Symbol(name), _ => PropKey::String(name) };
  Property {
    key,
    data: PropData {
      ty: pick(r, v), optional: r.below(3) == 0, readonly: r.below(3) == 0,
      accessibility: [None, None, Some(Accessibility::Public), Some(Accessibility::Protected), Some(Accessibility::Private)][r.below(5)],
      is_method: r.below(3) == 0, origin: None,
      declared_on: if r.below(3) == 0 { Some(DefId(r.below(2) as u64)) } else { None },
    },
  }
}
pub fn shape(s: &St, r: &mut Rng, v: &[TypeId]) -> Shape {
  let mut h = Shape::new();
  h.properties = (0..r.below(3)).map(|_| prop(s, r, v)).collect();
  if r.below(3) == 0 { h.call_signatures = sigs(s, r, v, 2); }
  if r.below(3) == 0 { h.construct_signatures = sigs(s, r, v, 2); }
  if r.below(3) == 0 { h.indexers = some(r, v, 2).into_iter().map(|t| Indexer { key_type: [s.primitive_ids().string, s.primitive_ids().number][r.below(2)], value_type: t, readonly: r.bool() }).collect(); }
  h
}
pub fn compound(s: &St, r: &mut Rng, v: &[TypeId]) -> TypeKind {
  let md = |r: &mut Rng| [MappedModifier::Add, MappedModifier::Remove, MappedModifier::Preserve][r.below(3)].clone();
  match r.below(17) {
    0 | 1 => TypeKind::Union(some(r, v, 4)),
    2 => TypeKind::Intersection(some(r, v, 3)),
    3 => TypeKind::Array { ty: pick(r, v), readonly: r.bool() },
    4 | 5 => {
      let e = some(r, v, 3).into_iter().map(|ty| TupleElem { ty, optional: r.below(3) == 0, rest: r.below(3) == 0, readonly: r.below(3) == 0 }).collect();
      TypeKind::Tuple(e)
    }
    6 => TypeKind::Ref { def: DefId(r.below(2) as u64), args: some(r, v, 3) },
    7 => TypeKind::Infer { param: TypeParamId(r.below(2) as u32), constraint: opt(r, v) },
    8 => TypeKind::Predicate { parameter: [None, Some(PredicateParam::This), Some(PredicateParam::Param(0)), Some(PredicateParam::Param(1))][r.below(4)], asserted: opt(r, v), asserts: r.bool() },
    9 => TypeKind::Conditional { check: pick(r, v), extends: pick(r, v), true_ty: pick(r, v), false_ty: pick(r, v), distributive: r.bool() },
    10 => TypeKind::Mapped(MappedType { param: TypeParamId(r.below(2) as u32), source: pick(r, v), value: pick(r, v), readonly: md(r), optional: md(r), name_type: opt(r, v), as_type: opt(r, v) }),
    11 => {
      let spans = some(r, v, 2).into_iter().map(|ty| TemplateChunk { literal: (*r.pick(&["", "x", "y"])).into(), ty }).collect();
      TypeKind::TemplateLiteral(TemplateLiteralType { head: (*r.pick(&["", "x", "y"])).into(), spans })
    }
    12 => TypeKind::Intrinsic { kind: [IntrinsicKind::Uppercase, IntrinsicKind::Lowercase, IntrinsicKind::NoInfer][r.below(3)], ty: pick(r, v) },
    13 => TypeKind::IndexedAccess { obj: pick(r, v), index: pick(r, v) },
    14 => TypeKind::KeyOf(pick(r, v)),
    15 => TypeKind::Callable { overloads: sigs(s, r, v, 3) },
    _ => {
      let h = s.intern_shape(shape(s, r, v));
      TypeKind::Object(s.intern_object(ObjectType { shape: h }))
    }
  }
}
/// `n` more types on top of the base ones
pub fn pool(s: &St, r: &mut Rng, n: usize) -> Vec<TypeId> {
  let mut v = base(s);
  for _ in 0..n {
    let k = compound(s, r, &v);
    let t = s.intern_type(k);
    v.push(t);
  }
  v
}
/// types that differ from each other in single fields
pub fn near(s: &St, r: &mut Rng, v: &[TypeId]) -> Vec<TypeId> {
  let a = v[v.len() - 1 - r.below(20)];
  let z = v[v.len() - 1 - r.below(20)];
  let p = s.primitive_ids().number;
  let n = s.intern_name("p");
  let mut o = vec![];
  for ty in [p, a, z] {
    for f in 0..8 {
      let (x, y, w) = (f & 1 != 0, f & 2 != 0, f & 4 != 0);
      o.push(TypeKind::Tuple(vec![TupleElem { ty, optional: x, rest: y, readonly: w }]));
      o.push(TypeKind::Tuple(vec![TupleElem { ty: p, optional: false, rest: false, readonly: false }, TupleElem { ty, optional: x, rest: y, readonly: w }]));
      o.push(TypeKind::Conditional { check: if x { p } else { ty }, extends: if y { p } else { ty }, true_ty: p, false_ty: if w { ty } else { p }, distributive: w });
      o.push(TypeKind::Mapped(MappedType { param: TypeParamId(0), source: p, value: ty, readonly: if x { MappedModifier::Add } else { MappedModifier::Preserve }, optional: if y { MappedModifier::Remove } else { MappedModifier::Preserve }, name_type: if w { Some(ty) } else { None }, as_type: if x != w { Some(ty) } else { None } }));
      o.push(TypeKind::Predicate { parameter: if x { Some(PredicateParam::Param(1)) } else { None }, asserted: if y { Some(ty) } else { None }, asserts: w });
      let prop = Property { key: PropKey::String(n), data: PropData { ty, optional: x, readonly: y, accessibility: if x != y { Some(Accessibility::Private) } else { None }, is_method: w, origin: None, declared_on: if y != w { Some(DefId(1)) } else { None } } };
      let h = s.intern_shape(Shape { properties: vec![prop], call_signatures: vec![], construct_signatures: vec![], indexers: if x { vec![Indexer { key_type: p, value_type: ty, readonly: y }] } else { vec![] } });
      o.push(TypeKind::Object(s.intern_object(ObjectType { shape: h })));
      let mut g = Signature::new(vec![Param { name: None, ty, optional: x, rest: y }], p);
      if w { let mut d = TypeParamDecl::new(TypeParamId(0)); d.constraint = if x { Some(ty) } else { None }; d.default = if y { Some(ty) } else { None }; g.type_params.push(d); }
      if x && y { g.this_param = Some(ty); }
      let g = s.intern_signature(g);
      o.push(TypeKind::Callable { overloads: vec![g] });
      let h = s.intern_shape(Shape { properties: vec![], call_signatures: if w { vec![g] } else { vec![] }, construct_signatures: if w { vec![] } else { vec![g] }, indexers: vec![] });
      o.push(TypeKind::Object(s.intern_object(ObjectType { shape: h })));
    }
  }
  let g = s.intern_signature(Signature::new(vec![Param { name: None, ty: a, optional: false, rest: false }], p));
  let q = Property { key: PropKey::String(n), data: PropData { ty: z, optional: false, readonly: false, accessibility: None, is_method: false, origin: None, declared_on: None } };
  for f in 0..8 {
    for x in 0..6 {
      let indexers = if x == 0 { vec![] } else { vec![Indexer { key_type: if x > 3 { s.primitive_ids().string } else { p }, value_type: if x & 1 != 0 { a } else { z }, readonly: x & 2 != 0 }] };
      let h = s.intern_shape(Shape { properties: if f & 1 != 0 { vec![q.clone()] } else { vec![] }, call_signatures: if f & 2 != 0 { vec![g] } else { vec![] }, construct_signatures: if f & 4 != 0 { vec![g] } else { vec![] }, indexers });
      o.push(TypeKind::Object(s.intern_object(ObjectType { shape: h })));
    }
  }
  o.into_iter().map(|k| s.intern_type(k)).collect()
}
