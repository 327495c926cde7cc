//! C08: the canonical order of types and signatures is total and structural.
use crate::common::{Ctx, Rng};
use crate::ensure;
use crate::tygen::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;
use types_ts_interned::*;

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
enum T { I(i128), U(u128), S(String), N(Vec<Rc<T>>) }
struct Keys<'a> { s: &'a St, t: HashMap<TypeId, Rc<T>>, g: HashMap<SignatureId, Rc<T>> }
fn n(v: Vec<Rc<T>>) -> Rc<T> { Rc::new(T::N(v)) }
fn i<X: Into<i128>>(x: X) -> Rc<T> { Rc::new(T::I(x.into())) }
fn b(x: bool) -> Rc<T> { i(x as i128) }
fn st(x: &str) -> Rc<T> { Rc::new(T::S(x.to_string())) }
fn float(f: f64) -> i128 {
  if f.is_nan() { return i128::MAX; }
  let f = if f == 0.0 { 0.0 } else { f };
  let x = f.to_bits() as i64;
  if x < 0 { -((x & i64::MAX) as i128) } else { x as i128 }
}
impl<'a> Keys<'a> {
  fn o(&mut self, t: Option<TypeId>) -> Rc<T> { let v = t.map(|t| self.ty(t)); n(v.into_iter().collect()) }
  fn tys(&mut self, v: &[TypeId]) -> Rc<T> { let v = v.iter().map(|t| self.ty(*t)).collect(); n(v) }
  fn gs(&mut self, v: &[SignatureId]) -> Rc<T> { let v = v.iter().map(|t| self.sig(*t)).collect(); n(v) }
  fn prop_key(&self, k: &PropKey) -> Rc<T> {
    match k { PropKey::String(x) => n(vec![i(0), st(&self.s.name(*x))]), PropKey::Number(x) => n(vec![i(1), i(*x)]), PropKey::Symbol(x) => n(vec![i(2), st(&self.s.name(*x))]) }
  }
  fn sig(&mut self, g: SignatureId) -> Rc<T> {
    if let Some(k) = self.g.get(&g) { return k.clone(); }
    let v = self.s.signature(g);
    let ps = v.params.iter().map(|p| n(vec![b(p.optional), b(p.rest), self.ty(p.ty)])).collect();
    let ret = self.ty(v.ret);
    let tp = v.type_params.iter().map(|p| n(vec![i(p.id.0), self.o(p.constraint), self.o(p.default)])).collect();
    let k = n(vec![n(ps), ret, n(tp), self.o(v.this_param), Rc::new(T::U(g.0))]);
    self.g.insert(g, k.clone());
    k
  }
  fn ty(&mut self, t: TypeId) -> Rc<T> {
    if let Some(k) = self.t.get(&t) { return k.clone(); }
    let md = |m: &MappedModifier| i(match m { MappedModifier::Add => 0, MappedModifier::Remove => 1, MappedModifier::Preserve => 2 });
    let kind = self.s.type_kind(t);
    let (d, p): (i128, Rc<T>) = match &kind {
      TypeKind::Any => (0, n(vec![])), TypeKind::Unknown => (1, n(vec![])), TypeKind::Never => (2, n(vec![])), TypeKind::Void => (3, n(vec![])),
      TypeKind::Null => (4, n(vec![])), TypeKind::Undefined => (5, n(vec![])), TypeKind::Boolean => (6, n(vec![])), TypeKind::Number => (7, n(vec![])),
      TypeKind::String => (8, n(vec![])), TypeKind::BigInt => (9, n(vec![])), TypeKind::Symbol => (10, n(vec![])), TypeKind::UniqueSymbol => (11, n(vec![])),
      TypeKind::BooleanLiteral(x) => (12, b(*x)),
      TypeKind::NumberLiteral(x) => (13, i(float(x.0))),
      TypeKind::StringLiteral(x) => (14, st(&self.s.name(*x))),
      TypeKind::BigIntLiteral(x) => (15, i(x.to_string().parse::<i128>().unwrap())),
      TypeKind::This => (16, n(vec![])),
      TypeKind::Infer { param, constraint } => (17, n(vec![i(param.0), self.o(*constraint)])),
      TypeKind::Tuple(v) => (18, { let v = v.iter().map(|e| n(vec![self.ty(e.ty), b(e.optional), b(e.rest), b(e.readonly)])).collect(); n(v) }),
      TypeKind::Array { ty, readonly } => (19, n(vec![b(*readonly), self.ty(*ty)])),
      TypeKind::Union(v) => (20, self.tys(v)),
      TypeKind::Intersection(v) => (21, self.tys(v)),
      TypeKind::Object(o) => (22, {
        let h = self.s.shape(self.s.object(*o).shape);
        let ps = h.properties.iter().map(|p| {
          let a = p.data.accessibility.as_ref().map(|a| i(match a { Accessibility::Public => 0, Accessibility::Protected => 1, Accessibility::Private => 2 }));
          n(vec![self.prop_key(&p.key), self.ty(p.data.ty), b(p.data.optional), b(p.data.readonly), b(p.data.is_method), n(a.into_iter().collect()), n(p.data.declared_on.map(|d| i(d.0)).into_iter().collect())])
        }).collect();
        let ix = h.indexers.iter().map(|x| n(vec![self.ty(x.key_type), self.ty(x.value_type), b(x.readonly)])).collect();
        n(vec![n(ps), self.gs(&h.call_signatures), self.gs(&h.construct_signatures), n(ix)])
      }),
      TypeKind::Callable { overloads } => (23, self.gs(overloads)),
      TypeKind::Ref { def, args } => (24, n(vec![i(def.0), self.tys(args)])),
      TypeKind::TypeParam(p) => (25, i(p.0)),
      TypeKind::Predicate { parameter, asserted, asserts } => (26, n(vec![
        n(parameter.map(|p| match p { PredicateParam::This => n(vec![i(0)]), PredicateParam::Param(x) => n(vec![i(1), i(x)]) }).into_iter().collect()),
        self.o(*asserted), b(*asserts)])),
      TypeKind::Conditional { check, extends, true_ty, false_ty, distributive } => (27, n(vec![self.ty(*check), self.ty(*extends), self.ty(*true_ty), self.ty(*false_ty), b(*distributive)])),
      TypeKind::Mapped(m) => (28, n(vec![i(m.param.0), self.ty(m.source), self.ty(m.value), md(&m.readonly), md(&m.optional), self.o(m.name_type), self.o(m.as_type)])),
      TypeKind::TemplateLiteral(t) => (29, { let v = t.spans.iter().map(|c| n(vec![self.ty(c.ty), st(&c.literal)])).collect(); n(vec![st(&t.head), n(v)]) }),
      TypeKind::IndexedAccess { obj, index } => (30, n(vec![self.ty(*obj), self.ty(*index)])),
      TypeKind::KeyOf(x) => (31, self.ty(*x)),
      TypeKind::EmptyObject => (32, n(vec![])),
      TypeKind::Intrinsic { kind, ty } => (33, n(vec![i(*kind as i128), self.ty(*ty)])),
    };
    let k = n(vec![i(d), p, Rc::new(T::U(t.0))]);
    self.t.insert(t, k.clone());
    k
  }
}
fn pair(s: &St, k: &mut Keys, x: TypeId, y: TypeId) -> Result<(), String> {
  let (a, z) = (s.type_cmp(x, y), s.type_cmp(y, x));
  ensure!(a == z.reverse(), "{x:?} {y:?}: {a:?} one way, {z:?} the other");
  ensure!((a == Ordering::Equal) == (x == y), "{x:?} {y:?}: {a:?}");
  let (kx, ky) = (k.ty(x), k.ty(y));
  ensure!(a == kx.cmp(&ky), "{:?} against {:?}: {a:?}, structure says {:?}", s.type_kind(x), s.type_kind(y), kx.cmp(&ky));
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "pools of random types over base types: every pair of a sample of 130 types and of the last signatures and property keys compared both ways and against an independent structural key; every triple of 40 for transitivity".into();
  cx.exhaustive = false;
  let mut r = Rng::new(cx.rng.next());
  for round in 0..(if cx.thorough { 60 } else { 12 }) {
    let s = TypeStore::new();
    let v = pool(&s, &mut r, 260);
    let mut k = Keys { s: &s, t: HashMap::new(), g: HashMap::new() };
    let mut some = base(&s);
    // variants: what differs from an earlier type in one field
    while some.len() < 130 { some.push(pick(&mut r, &v)); }
    some.extend(near(&s, &mut r, &v));
    for &x in &some {
      for &y in &some {
        if cx.failed() { return; }
        cx.case(x != y, format!("round {round} {x:?} {y:?}"), || pair(&s, &mut k, x, y));
      }
    }
    for _ in 0..40 {
      some.push(pick(&mut r, &v));
    }
    let m = some.len();
    let t = &some[m - 40..];
    for &x in t {
      for &y in t {
        for &z in t {
          let (a, b, c) = (s.type_cmp(x, y), s.type_cmp(y, z), s.type_cmp(x, z));
          if a != Ordering::Greater && b != Ordering::Greater {
            let want = if a == Ordering::Equal { b } else if b == Ordering::Equal { a } else { Ordering::Less };
            if c != want {
              cx.case(true, format!("round {round} triple {x:?} {y:?} {z:?}"), || Err(format!("not transitive: {a:?} {b:?} {c:?}")));
            }
          }
        }
      }
    }
    let mut g: Vec<SignatureId> = Vec::new();
    for i in 0..80 {
      g.push(if i < 40 { sig(&s, &mut r, &v) } else { sig(&s, &mut r, &v[..6]) });
    }
    for &x in &g {
      for &y in &g {
        cx.case(x != y, format!("round {round} signatures {x:?} {y:?}"), || {
          let a = s.compare_signatures(x, y);
          ensure!(a == k.sig(x).cmp(&k.sig(y)), "{:?} against {:?}: {a:?}", s.signature(x), s.signature(y));
          ensure!(a == s.compare_signatures(y, x).reverse() && (a == Ordering::Equal) == (x == y), "not antisymmetric");
          Ok(())
        });
      }
    }
    let ps: Vec<PropKey> = (0..20).map(|_| prop(&s, &mut r, &v).key).collect();
    for x in &ps {
      for y in &ps {
        cx.case(x != y, format!("round {round} keys {x:?} {y:?}"), || {
          ensure!(s.compare_prop_keys(x, y) == k.prop_key(x).cmp(&k.prop_key(y)), "{x:?} {y:?}: {:?}", s.compare_prop_keys(x, y));
          Ok(())
        });
      }
    }
  }
}
