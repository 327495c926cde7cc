#![feature(allocator_api)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
/*@include order.rs@*/
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ObjectId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ShapeId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeParamId(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SignatureId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NameId(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct DefId(pub u64);
#[verifier::external_body]
pub struct BigInt {}
#[verifier::external_body]
pub struct Num {}
/*@type types-ts-interned/src/kind.rs :: MappedModifier
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: MappedType
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TemplateLiteralType
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TemplateChunk
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: IntrinsicKind
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TupleElem
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: PredicateParam
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TypeKind
#pub
#rewrite `OrderedFloat < f64 >` => `Num`
@*/
/*@type types-ts-interned/src/kind.rs :: CompositeKind
#pub
@*/
/*@type types-ts-interned/src/signature.rs :: TypeParamVariance
#pub
@*/
/*@type types-ts-interned/src/signature.rs :: TypeParamDecl
#pub
@*/
/*@type types-ts-interned/src/signature.rs :: Param
#pub
@*/
/*@type types-ts-interned/src/signature.rs :: Signature
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: Accessibility
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: PropData
#pub
#rewrite `crate :: ids :: DefId` => `DefId`
@*/
/*@type types-ts-interned/src/shape.rs :: PropKey
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: Property
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: Indexer
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: Shape
#pub
@*/
/*@type types-ts-interned/src/shape.rs :: ObjectType
#pub
@*/

// ---- keys: finite trees of integers under the lexicographic order -------------
pub enum Tree { Int(int), Node(Seq<Tree>) }
pub open spec fn tree_cmp(a: Tree, b: Tree) -> Ordering
  decreases a, 0int,
{
  match (a, b) {
    (Tree::Int(x), Tree::Int(y)) => int_cmp(x, y),
    (Tree::Int(_), Tree::Node(_)) => Ordering::Less,
    (Tree::Node(_), Tree::Int(_)) => Ordering::Greater,
    (Tree::Node(s), Tree::Node(t)) => lex(s, t, 0),
  }
}
/// compares from position i on: element by element, then by length
pub open spec fn lex(s: Seq<Tree>, t: Seq<Tree>, i: int) -> Ordering
  decreases s, s.len() - i,
{
  if i < 0 || i >= s.len() || i >= t.len() { int_cmp(s.len() as int, t.len() as int) }
  else {
    let c = tree_cmp(s[i], t[i]);
    if c != Ordering::Equal { c } else { lex(s, t, i + 1) }
  }
}
proof fn cmp_rev(a: Tree, b: Tree)
  ensures tree_cmp(a, b) == rev(tree_cmp(b, a)), (tree_cmp(a, b) == Ordering::Equal) == (a == b),
  decreases a, 0int,
{
  match (a, b) {
    (Tree::Node(s), Tree::Node(t)) => { tlex_rev(s, t, 0); if tree_cmp(a, b) == Ordering::Equal { assert(s =~= t); } },
    _ => {},
  }
}
proof fn tlex_rev(s: Seq<Tree>, t: Seq<Tree>, i: int)
  requires 0 <= i <= s.len(), i <= t.len(),
  ensures lex(s, t, i) == rev(lex(t, s, i)),
    (lex(s, t, i) == Ordering::Equal) == (s.len() == t.len() && forall|j: int| i <= j < s.len() ==> s[j] == t[j]),
  decreases s, s.len() - i,
{
  if i < s.len() && i < t.len() {
    cmp_rev(s[i], t[i]);
    tlex_rev(s, t, i + 1);
  }
}
proof fn cmp_trans(a: Tree, b: Tree, c: Tree)
  requires tree_cmp(a, b) == Ordering::Less, tree_cmp(b, c) == Ordering::Less,
  ensures tree_cmp(a, c) == Ordering::Less,
  decreases a, 0int,
{
  match (a, b, c) {
    (Tree::Node(s), Tree::Node(t), Tree::Node(u)) => tlex_trans(s, t, u, 0),
    _ => {},
  }
}
proof fn tlex_trans(s: Seq<Tree>, t: Seq<Tree>, u: Seq<Tree>, i: int)
  requires 0 <= i <= s.len(), i <= t.len(), i <= u.len(), lex(s, t, i) == Ordering::Less, lex(t, u, i) == Ordering::Less,
  ensures lex(s, u, i) == Ordering::Less,
  decreases s, s.len() - i,
{
  if i < s.len() && i < t.len() && i < u.len() {
    cmp_rev(s[i], t[i]); cmp_rev(t[i], u[i]); cmp_rev(s[i], u[i]);
    if tree_cmp(s[i], t[i]) == Ordering::Less && tree_cmp(t[i], u[i]) == Ordering::Less { cmp_trans(s[i], t[i], u[i]); }
    if s[i] == t[i] && t[i] == u[i] { tlex_trans(s, t, u, i + 1); }
  }
}
/// comparing the keys of things whose keys differ is a total order
pub open spec fn total<T>(cmp: spec_fn(T, T) -> Ordering) -> bool {
  &&& forall|a: T, b: T| #[trigger] cmp(a, b) == rev(cmp(b, a))
  &&& forall|a: T, b: T| (#[trigger] cmp(a, b) == Ordering::Equal) == (a == b)
  &&& forall|a: T, b: T, c: T| #[trigger] cmp(a, b) == Ordering::Less && #[trigger] cmp(b, c) == Ordering::Less ==> cmp(a, c) == Ordering::Less
}

// ---- what the code compares by -----------------------------------------------
pub trait Key {
  spec fn key(&self) -> Tree;
  fn kcmp(&self, o: &Self) -> (r: Ordering) ensures r == tree_cmp(self.key(), o.key());
}
pub open spec fn bkey(b: bool) -> Tree { Tree::Int(if b { 1 } else { 0 }) }
pub open spec fn skey(s: Seq<char>) -> Tree { Tree::Node(Seq::new(s.len(), |i: int| Tree::Int(s[i] as int))) }
pub uninterp spec fn num_key(n: Num) -> int;
pub uninterp spec fn big_key(n: BigInt) -> int;
pub open spec fn md_key(m: MappedModifier) -> Tree { Tree::Int(match m { MappedModifier::Add => 0, MappedModifier::Remove => 1, MappedModifier::Preserve => 2 }) }
pub open spec fn ik_key(m: IntrinsicKind) -> Tree {
  Tree::Int(match m { IntrinsicKind::Uppercase => 0, IntrinsicKind::Lowercase => 1, IntrinsicKind::Capitalize => 2, IntrinsicKind::Uncapitalize => 3,
    IntrinsicKind::NoInfer => 4, IntrinsicKind::BuiltinIteratorReturn => 5 })
}
pub open spec fn pp_key(m: PredicateParam) -> Tree {
  match m { PredicateParam::This => Tree::Node(seq![Tree::Int(0)]), PredicateParam::Param(n) => Tree::Node(seq![Tree::Int(1), Tree::Int(n as int)]) }
}
pub open spec fn ac_key(m: Accessibility) -> Tree { Tree::Int(match m { Accessibility::Public => 0, Accessibility::Protected => 1, Accessibility::Private => 2 }) }
impl Key for bool { open spec fn key(&self) -> Tree { bkey(*self) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for u8 { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for u32 { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for u64 { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for i64 { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for u128 { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for usize { open spec fn key(&self) -> Tree { Tree::Int(*self as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for str { open spec fn key(&self) -> Tree { skey(self@) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for String { open spec fn key(&self) -> Tree { skey(self@) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl Key for Num { open spec fn key(&self) -> Tree { Tree::Int(num_key(*self)) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for BigInt { open spec fn key(&self) -> Tree { Tree::Int(big_key(*self)) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for MappedModifier { open spec fn key(&self) -> Tree { md_key(*self) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for IntrinsicKind { open spec fn key(&self) -> Tree { ik_key(*self) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for PredicateParam { open spec fn key(&self) -> Tree { pp_key(*self) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for Accessibility { open spec fn key(&self) -> Tree { ac_key(*self) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for SignatureId { open spec fn key(&self) -> Tree { Tree::Int(self.0 as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for TypeParamId { open spec fn key(&self) -> Tree { Tree::Int(self.0 as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Key for DefId { open spec fn key(&self) -> Tree { Tree::Int(self.0 as int) } #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub open spec fn okey(k: Option<Tree>) -> Tree { match k { None => Tree::Node(seq![]), Some(x) => Tree::Node(seq![x]) } }
impl<T: Key> Key for Option<T> {
  open spec fn key(&self) -> Tree { okey(match *self { None => None, Some(x) => Some(x.key()) }) }
  #[verifier::external_body] fn kcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() }
}

// ---- the interned values (each id names one value for ever: C06) ---------------
pub uninterp spec fn kd(t: TypeId) -> TypeKind;
pub uninterp spec fn sg(s: SignatureId) -> Signature;
pub uninterp spec fn ob(o: ObjectId) -> ObjectType;
pub uninterp spec fn sh(s: ShapeId) -> Shape;
pub uninterp spec fn nm(n: NameId) -> Seq<char>;
/// The keys of types and signatures.  Interned values are built bottom-up (they refer to earlier ones
/// only), so these two recursive equations have a solution; it is what the code computes with.
pub uninterp spec fn tkey(t: TypeId) -> Tree;
pub uninterp spec fn gkey(s: SignatureId) -> Tree;
pub axiom fn tkey_def(t: TypeId)
  ensures tkey(t) == Tree::Node(seq![Tree::Int(discr(kd(t))), Tree::Node(parts(kd(t))), Tree::Int(t.0 as int)]);
pub axiom fn gkey_def(s: SignatureId)
  ensures gkey(s) == Tree::Node(sig_parts(sg(s)).push(Tree::Int(s.0 as int)));
pub open spec fn types(v: Seq<TypeId>) -> Seq<Tree> { Seq::new(v.len(), |i: int| tkey(v[i])) }
pub open spec fn sigs(v: Seq<SignatureId>) -> Seq<Tree> { Seq::new(v.len(), |i: int| gkey(v[i])) }
pub open spec fn otype(t: Option<TypeId>) -> Tree { okey(match t { None => None, Some(x) => Some(tkey(x)) }) }
pub open spec fn elem(e: TupleElem) -> Tree { Tree::Node(seq![tkey(e.ty), bkey(e.optional), bkey(e.rest), bkey(e.readonly)]) }
pub open spec fn elems(v: Seq<TupleElem>) -> Seq<Tree> { Seq::new(v.len(), |i: int| elem(v[i])) }
pub open spec fn chunk(e: TemplateChunk) -> Tree { Tree::Node(seq![tkey(e.ty), skey(e.literal@)]) }
pub open spec fn chunks(v: Seq<TemplateChunk>) -> Seq<Tree> { Seq::new(v.len(), |i: int| chunk(v[i])) }
pub open spec fn param(e: Param) -> Tree { Tree::Node(seq![bkey(e.optional), bkey(e.rest), tkey(e.ty)]) }
pub open spec fn params(v: Seq<Param>) -> Seq<Tree> { Seq::new(v.len(), |i: int| param(v[i])) }
pub open spec fn tparam(e: TypeParamDecl) -> Tree { Tree::Node(seq![Tree::Int(e.id.0 as int), otype(e.constraint), otype(e.default)]) }
pub open spec fn tparams(v: Seq<TypeParamDecl>) -> Seq<Tree> { Seq::new(v.len(), |i: int| tparam(v[i])) }
pub open spec fn sig_parts(s: Signature) -> Seq<Tree> {
  seq![Tree::Node(params(s.params@)), tkey(s.ret), Tree::Node(tparams(s.type_params@)), otype(s.this_param)]
}
pub open spec fn pkey(k: PropKey) -> Tree {
  match k {
    PropKey::String(n) => Tree::Node(seq![Tree::Int(0), skey(nm(n))]),
    PropKey::Number(n) => Tree::Node(seq![Tree::Int(1), Tree::Int(n as int)]),
    PropKey::Symbol(n) => Tree::Node(seq![Tree::Int(2), skey(nm(n))]),
  }
}
pub open spec fn oacc(a: Option<Accessibility>) -> Tree { okey(match a { None => None, Some(x) => Some(ac_key(x)) }) }
pub open spec fn odef(a: Option<DefId>) -> Tree { okey(match a { None => None, Some(x) => Some(Tree::Int(x.0 as int)) }) }
pub open spec fn opred(a: Option<PredicateParam>) -> Tree { okey(match a { None => None, Some(x) => Some(pp_key(x)) }) }
pub open spec fn prop(p: Property) -> Tree {
  Tree::Node(seq![pkey(p.key), tkey(p.data.ty), bkey(p.data.optional), bkey(p.data.readonly), bkey(p.data.is_method), oacc(p.data.accessibility), odef(p.data.declared_on)])
}
pub open spec fn props(v: Seq<Property>) -> Seq<Tree> { Seq::new(v.len(), |i: int| prop(v[i])) }
pub open spec fn indexer(e: Indexer) -> Tree { Tree::Node(seq![tkey(e.key_type), tkey(e.value_type), bkey(e.readonly)]) }
pub open spec fn indexers(v: Seq<Indexer>) -> Seq<Tree> { Seq::new(v.len(), |i: int| indexer(v[i])) }
pub open spec fn shape_parts(s: Shape) -> Seq<Tree> {
  seq![Tree::Node(props(s.properties@)), Tree::Node(sigs(s.call_signatures@)), Tree::Node(sigs(s.construct_signatures@)), Tree::Node(indexers(s.indexers@))]
}
pub open spec fn discr(k: TypeKind) -> int {
  match k {
    TypeKind::Any => 0, TypeKind::Unknown => 1, TypeKind::Never => 2, TypeKind::Void => 3, TypeKind::Null => 4, TypeKind::Undefined => 5,
    TypeKind::Boolean => 6, TypeKind::Number => 7, TypeKind::String => 8, TypeKind::BigInt => 9, TypeKind::Symbol => 10, TypeKind::UniqueSymbol => 11,
    TypeKind::BooleanLiteral(_) => 12, TypeKind::NumberLiteral(_) => 13, TypeKind::StringLiteral(_) => 14, TypeKind::BigIntLiteral(_) => 15,
    TypeKind::This => 16, TypeKind::Infer { .. } => 17, TypeKind::Tuple(_) => 18, TypeKind::Array { .. } => 19, TypeKind::Union(_) => 20,
    TypeKind::Intersection(_) => 21, TypeKind::Object(_) => 22, TypeKind::Callable { .. } => 23, TypeKind::Ref { .. } => 24, TypeKind::TypeParam(_) => 25,
    TypeKind::Predicate { .. } => 26, TypeKind::Conditional { .. } => 27, TypeKind::Mapped(_) => 28, TypeKind::TemplateLiteral(_) => 29,
    TypeKind::IndexedAccess { .. } => 30, TypeKind::KeyOf(_) => 31, TypeKind::EmptyObject => 32, TypeKind::Intrinsic { .. } => 33,
  }
}
/// the parts of a kind, in the order in which they decide
pub open spec fn parts(k: TypeKind) -> Seq<Tree> {
  match k {
    TypeKind::BooleanLiteral(b) => seq![bkey(b)],
    TypeKind::NumberLiteral(n) => seq![Tree::Int(num_key(n))],
    TypeKind::StringLiteral(n) => seq![skey(nm(n))],
    TypeKind::BigIntLiteral(n) => seq![Tree::Int(big_key(n))],
    TypeKind::Union(v) => types(v@),
    TypeKind::Intersection(v) => types(v@),
    TypeKind::Object(o) => shape_parts(sh(ob(o).shape)),
    TypeKind::Callable { overloads } => sigs(overloads@),
    TypeKind::Ref { def, args } => seq![Tree::Int(def.0 as int), Tree::Node(types(args@))],
    TypeKind::Infer { param, constraint } => seq![Tree::Int(param.0 as int), otype(constraint)],
    TypeKind::Tuple(v) => elems(v@),
    TypeKind::Array { ty, readonly } => seq![bkey(readonly), tkey(ty)],
    TypeKind::TypeParam(p) => seq![Tree::Int(p.0 as int)],
    TypeKind::Predicate { parameter, asserted, asserts } => seq![opred(parameter), otype(asserted), bkey(asserts)],
    TypeKind::Conditional { check, extends, true_ty, false_ty, distributive } => seq![tkey(check), tkey(extends), tkey(true_ty), tkey(false_ty), bkey(distributive)],
    TypeKind::Mapped(m) => seq![Tree::Int(m.param.0 as int), tkey(m.source), tkey(m.value), md_key(m.readonly), md_key(m.optional), otype(m.name_type), otype(m.as_type)],
    TypeKind::TemplateLiteral(t) => seq![skey(t.head@), Tree::Node(chunks(t.spans@))],
    TypeKind::Intrinsic { kind, ty } => seq![ik_key(kind), tkey(ty)],
    TypeKind::IndexedAccess { obj, index } => seq![tkey(obj), tkey(index)],
    TypeKind::KeyOf(t) => seq![tkey(t)],
    _ => seq![],
  }
}
pub open spec fn type_order() -> spec_fn(TypeId, TypeId) -> Ordering { |a: TypeId, b: TypeId| tree_cmp(tkey(a), tkey(b)) }
pub open spec fn sig_order() -> spec_fn(SignatureId, SignatureId) -> Ordering { |a: SignatureId, b: SignatureId| tree_cmp(gkey(a), gkey(b)) }
// the properties: both orders are total, and only one id is equal to itself
proof fn type_order_total()
  ensures total(type_order()),
{
  let le = type_order();
  assert forall|a: TypeId, b: TypeId| #[trigger] le(a, b) == rev(le(b, a)) by { cmp_rev(tkey(a), tkey(b)); }
  assert forall|a: TypeId, b: TypeId| (#[trigger] le(a, b) == Ordering::Equal) == (a == b) by {
    cmp_rev(tkey(a), tkey(b)); tkey_def(a); tkey_def(b);
    if tkey(a) == tkey(b) { assert(tkey(a)->Node_0[2] == Tree::Int(a.0 as int)); assert(tkey(b)->Node_0[2] == Tree::Int(b.0 as int)); }
  }
  assert forall|a: TypeId, b: TypeId, c: TypeId| #[trigger] le(a, b) == Ordering::Less && #[trigger] le(b, c) == Ordering::Less implies le(a, c) == Ordering::Less by { cmp_trans(tkey(a), tkey(b), tkey(c)); }
}
proof fn sig_order_total()
  ensures total(sig_order()),
{
  let le = sig_order();
  assert forall|a: SignatureId, b: SignatureId| #[trigger] le(a, b) == rev(le(b, a)) by { cmp_rev(gkey(a), gkey(b)); }
  assert forall|a: SignatureId, b: SignatureId| (#[trigger] le(a, b) == Ordering::Equal) == (a == b) by {
    cmp_rev(gkey(a), gkey(b)); gkey_def(a); gkey_def(b);
    if gkey(a) == gkey(b) { assert(gkey(a)->Node_0[4] == Tree::Int(a.0 as int)); assert(gkey(b)->Node_0[4] == Tree::Int(b.0 as int)); }
  }
  assert forall|a: SignatureId, b: SignatureId, c: SignatureId| #[trigger] le(a, b) == Ordering::Less && #[trigger] le(b, c) == Ordering::Less implies le(a, c) == Ordering::Less by { cmp_trans(gkey(a), gkey(b), gkey(c)); }
}
pub open spec fn th(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn at(s: Seq<Tree>, t: Seq<Tree>, i: int) -> Ordering { tree_cmp(s[i], t[i]) }
/// fixed-length lists compare part by part
proof fn lex_fixed(s: Seq<Tree>, t: Seq<Tree>)
  requires s.len() == t.len() <= 7,
  ensures
    tree_cmp(Tree::Node(s), Tree::Node(t)) == lex(s, t, 0),
    s.len() == 0 ==> lex(s, t, 0) == Ordering::Equal,
    s.len() == 1 ==> lex(s, t, 0) == at(s, t, 0),
    s.len() == 2 ==> lex(s, t, 0) == th(at(s, t, 0), at(s, t, 1)),
    s.len() == 3 ==> lex(s, t, 0) == th(at(s, t, 0), th(at(s, t, 1), at(s, t, 2))),
    s.len() == 4 ==> lex(s, t, 0) == th(at(s, t, 0), th(at(s, t, 1), th(at(s, t, 2), at(s, t, 3)))),
    s.len() == 5 ==> lex(s, t, 0) == th(at(s, t, 0), th(at(s, t, 1), th(at(s, t, 2), th(at(s, t, 3), at(s, t, 4))))),
    s.len() == 7 ==> lex(s, t, 0) == th(at(s, t, 0), th(at(s, t, 1), th(at(s, t, 2), th(at(s, t, 3), th(at(s, t, 4), th(at(s, t, 5), at(s, t, 6))))))),
{
  reveal_with_fuel(lex, 9);
}
pub open spec fn nodes(s: Seq<Tree>, t: Seq<Tree>) -> Ordering { tree_cmp(Tree::Node(s), Tree::Node(t)) }

proof fn int_step()
  ensures forall|x: int, y: int| #[trigger] tree_cmp(Tree::Int(x), Tree::Int(y)) == int_cmp(x, y),
{}
proof fn elems_step(a: Seq<TupleElem>, b: Seq<TupleElem>, i: int)
  ensures
    nodes(elems(a), elems(b)) == lex(elems(a), elems(b), 0),
    0 <= i < a.len() && i < b.len() ==> lex(elems(a), elems(b), i) == th(th(tree_cmp(tkey(a[i].ty), tkey(b[i].ty)), th(tree_cmp(bkey(a[i].optional), bkey(b[i].optional)),
      th(tree_cmp(bkey(a[i].rest), bkey(b[i].rest)), tree_cmp(bkey(a[i].readonly), bkey(b[i].readonly))))), lex(elems(a), elems(b), i + 1)),
    0 <= i && (i >= a.len() || i >= b.len()) ==> lex(elems(a), elems(b), i) == int_cmp(a.len() as int, b.len() as int),
{
  if 0 <= i < a.len() && i < b.len() { assert(elems(a)[i] == elem(a[i])); assert(elems(b)[i] == elem(b[i])); lex_fixed(elem(a[i])->Node_0, elem(b[i])->Node_0); }
}
proof fn chunks_step(a: Seq<TemplateChunk>, b: Seq<TemplateChunk>, i: int)
  ensures
    nodes(chunks(a), chunks(b)) == lex(chunks(a), chunks(b), 0),
    0 <= i < a.len() && i < b.len() ==> lex(chunks(a), chunks(b), i) == th(th(tree_cmp(tkey(a[i].ty), tkey(b[i].ty)), tree_cmp(skey(a[i].literal@), skey(b[i].literal@))), lex(chunks(a), chunks(b), i + 1)),
    0 <= i && (i >= a.len() || i >= b.len()) ==> lex(chunks(a), chunks(b), i) == int_cmp(a.len() as int, b.len() as int),
{
  if 0 <= i < a.len() && i < b.len() { assert(chunks(a)[i] == chunk(a[i])); assert(chunks(b)[i] == chunk(b[i])); lex_fixed(chunk(a[i])->Node_0, chunk(b[i])->Node_0); }
}
/// the comparison of two kinds of one sort, spelt out
pub open spec fn kind_cmp(x: TypeKind, y: TypeKind) -> Ordering {
  match (x, y) {
    (TypeKind::BooleanLiteral(a), TypeKind::BooleanLiteral(b)) => tree_cmp(bkey(a), bkey(b)),
    (TypeKind::NumberLiteral(a), TypeKind::NumberLiteral(b)) => tree_cmp(Tree::Int(num_key(a)), Tree::Int(num_key(b))),
    (TypeKind::StringLiteral(a), TypeKind::StringLiteral(b)) => tree_cmp(skey(nm(a)), skey(nm(b))),
    (TypeKind::BigIntLiteral(a), TypeKind::BigIntLiteral(b)) => tree_cmp(Tree::Int(big_key(a)), Tree::Int(big_key(b))),
    (TypeKind::Union(a), TypeKind::Union(b)) => nodes(types(a@), types(b@)),
    (TypeKind::Intersection(a), TypeKind::Intersection(b)) => nodes(types(a@), types(b@)),
    (TypeKind::Object(a), TypeKind::Object(b)) => nodes(shape_parts(sh(ob(a).shape)), shape_parts(sh(ob(b).shape))),
    (TypeKind::Callable { overloads: a }, TypeKind::Callable { overloads: b }) => nodes(sigs(a@), sigs(b@)),
    (TypeKind::Ref { def: d, args: a }, TypeKind::Ref { def: e, args: b }) => th(tree_cmp(Tree::Int(d.0 as int), Tree::Int(e.0 as int)), nodes(types(a@), types(b@))),
    (TypeKind::Infer { param: p, constraint: a }, TypeKind::Infer { param: q, constraint: b }) => th(tree_cmp(Tree::Int(p.0 as int), Tree::Int(q.0 as int)), tree_cmp(otype(a), otype(b))),
    (TypeKind::Tuple(a), TypeKind::Tuple(b)) => nodes(elems(a@), elems(b@)),
    (TypeKind::Array { ty: a, readonly: p }, TypeKind::Array { ty: b, readonly: q }) => th(tree_cmp(bkey(p), bkey(q)), tree_cmp(tkey(a), tkey(b))),
    (TypeKind::TypeParam(p), TypeKind::TypeParam(q)) => tree_cmp(Tree::Int(p.0 as int), Tree::Int(q.0 as int)),
    (TypeKind::Predicate { parameter: p, asserted: a, asserts: x }, TypeKind::Predicate { parameter: q, asserted: b, asserts: y }) =>
      th(tree_cmp(opred(p), opred(q)), th(tree_cmp(otype(a), otype(b)), tree_cmp(bkey(x), bkey(y)))),
    (TypeKind::Conditional { check: a, extends: b, true_ty: c, false_ty: d, distributive: e }, TypeKind::Conditional { check: f, extends: g, true_ty: h, false_ty: i, distributive: j }) =>
      th(tree_cmp(tkey(a), tkey(f)), th(tree_cmp(tkey(b), tkey(g)), th(tree_cmp(tkey(c), tkey(h)), th(tree_cmp(tkey(d), tkey(i)), tree_cmp(bkey(e), bkey(j)))))),
    (TypeKind::Mapped(m), TypeKind::Mapped(n)) =>
      th(tree_cmp(Tree::Int(m.param.0 as int), Tree::Int(n.param.0 as int)), th(tree_cmp(tkey(m.source), tkey(n.source)), th(tree_cmp(tkey(m.value), tkey(n.value)),
        th(tree_cmp(md_key(m.readonly), md_key(n.readonly)), th(tree_cmp(md_key(m.optional), md_key(n.optional)), th(tree_cmp(otype(m.name_type), otype(n.name_type)), tree_cmp(otype(m.as_type), otype(n.as_type)))))))),
    (TypeKind::TemplateLiteral(t), TypeKind::TemplateLiteral(u)) => th(tree_cmp(skey(t.head@), skey(u.head@)), nodes(chunks(t.spans@), chunks(u.spans@))),
    (TypeKind::Intrinsic { kind: p, ty: a }, TypeKind::Intrinsic { kind: q, ty: b }) => th(tree_cmp(ik_key(p), ik_key(q)), tree_cmp(tkey(a), tkey(b))),
    (TypeKind::IndexedAccess { obj: a, index: b }, TypeKind::IndexedAccess { obj: c, index: d }) => th(tree_cmp(tkey(a), tkey(c)), tree_cmp(tkey(b), tkey(d))),
    (TypeKind::KeyOf(a), TypeKind::KeyOf(b)) => tree_cmp(tkey(a), tkey(b)),
    _ => Ordering::Equal,
  }
}
proof fn kind_step(x: TypeKind, y: TypeKind)
  requires discr(x) == discr(y),
  ensures nodes(parts(x), parts(y)) == kind_cmp(x, y),
{
  hide(tree_cmp); hide(lex); hide(skey); hide(types); hide(sigs); hide(elems); hide(chunks); hide(otype); hide(opred);
  let (s, t) = (parts(x), parts(y));
  match x {
    TypeKind::Union(_) | TypeKind::Intersection(_) | TypeKind::Callable { .. } | TypeKind::Tuple(_) => {}
    TypeKind::Mapped(_) => { assert(s.len() == 7 && t.len() == 7); lex_fixed(s, t); }
    TypeKind::Conditional { .. } => { assert(s.len() == 5 && t.len() == 5); lex_fixed(s, t); }
    TypeKind::Predicate { .. } => { assert(s.len() == 3 && t.len() == 3); lex_fixed(s, t); }
    TypeKind::Object(_) => {}
    TypeKind::Ref { .. } | TypeKind::Infer { .. } | TypeKind::Array { .. } | TypeKind::TemplateLiteral(_) | TypeKind::Intrinsic { .. } | TypeKind::IndexedAccess { .. } =>
      { assert(s.len() == 2 && t.len() == 2); lex_fixed(s, t); }
    TypeKind::BooleanLiteral(_) | TypeKind::NumberLiteral(_) | TypeKind::StringLiteral(_) | TypeKind::BigIntLiteral(_) | TypeKind::TypeParam(_) | TypeKind::KeyOf(_) =>
      { assert(s.len() == 1 && t.len() == 1); lex_fixed(s, t); }
    _ => { assert(s.len() == 0 && t.len() == 0); lex_fixed(s, t); }
  }
}
proof fn type_step(a: TypeId, b: TypeId)
  ensures
    tree_cmp(tkey(a), tkey(b)) == th(int_cmp(discr(kd(a)), discr(kd(b))), th(kind_cmp(kd(a), kd(b)), int_cmp(a.0 as int, b.0 as int)))
      || discr(kd(a)) != discr(kd(b)),
    discr(kd(a)) != discr(kd(b)) ==> tree_cmp(tkey(a), tkey(b)) == int_cmp(discr(kd(a)), discr(kd(b))),
    a == b ==> tree_cmp(tkey(a), tkey(b)) == Ordering::Equal,
{
  tkey_def(a); tkey_def(b);
  lex_fixed(tkey(a)->Node_0, tkey(b)->Node_0);
  if discr(kd(a)) == discr(kd(b)) { kind_step(kd(a), kd(b)); }
  cmp_rev(tkey(a), tkey(b));
}

// ---- the code ------------------------------------------------------------------
pub open spec fn same_kind(a: TypeKind, b: TypeKind) -> bool {
  match (a, b) {
    (TypeKind::Union(v), TypeKind::Union(w)) => v@ == w@,
    (TypeKind::Intersection(v), TypeKind::Intersection(w)) => v@ == w@,
    (TypeKind::Tuple(v), TypeKind::Tuple(w)) => v@ == w@,
    (TypeKind::Callable { overloads: v }, TypeKind::Callable { overloads: w }) => v@ == w@,
    (TypeKind::Ref { def: d, args: v }, TypeKind::Ref { def: e, args: w }) => d == e && v@ == w@,
    (TypeKind::TemplateLiteral(v), TypeKind::TemplateLiteral(w)) => v.head@ == w.head@ && chunks(v.spans@) == chunks(w.spans@),
    _ => a == b,
  }
}
#[verifier::external_body]
struct Names {}
impl Names {
  #[verifier::external_body]
  fn read(&self) -> (r: &Names) { unimplemented!() }
  #[verifier::external_body]
  fn name(&self, id: NameId) -> (r: &str) ensures r@ == nm(id) { unimplemented!() }
}
struct TypeStore { names: Names }
impl TypeKind {
/*@fn types-ts-interned/src/kind.rs :: TypeKind::discriminant
#ret r
#spec
  ensures r == discr(*self),
@*/
}
impl PropKey {
/*@fn types-ts-interned/src/shape.rs :: PropKey::discriminant
#ret r
#spec
  ensures r == (match *self { PropKey::String(_) => 0u8, PropKey::Number(_) => 1u8, PropKey::Symbol(_) => 2u8 }),
@*/
/*@fn types-ts-interned/src/shape.rs :: PropKey::cmp_with
#ret r
#sig `& impl Fn ( NameId ) -> & 'a str` => `&impl Fn(NameId) -> &'a str`
#rewrite `. cmp (` => `.kcmp(`
#rewrite? `std :: cmp :: Ordering` => `Ordering`
#rewrite? `use PropKey :: * ;` => ` `
#rewrite? `( String ( a ) , String ( b ) ) | ( Symbol ( a ) , Symbol ( b ) )` => `(PropKey::String(a), PropKey::String(b)) | (PropKey::Symbol(a), PropKey::Symbol(b))`
#rewrite? `( Number ( a ) , Number ( b ) )` => `(PropKey::Number(a), PropKey::Number(b))`
#spec
  requires forall|n: NameId| #[trigger] call_requires(resolve_name, (n,)),
    forall|n: NameId, s: &str| #[trigger] call_ensures(resolve_name, (n,), s) ==> s@ == nm(n),
  ensures r == tree_cmp(pkey(*self), pkey(*other)),
#entry
  proof { ordering_eq(); lex_fixed(pkey(*self)->Node_0, pkey(*other)->Node_0); }
@*/
}
impl TypeStore {
  #[verifier::external_body]
  fn type_kind(&self, id: TypeId) -> (r: TypeKind) ensures same_kind(r, kd(id)) { unimplemented!() }
  #[verifier::external_body]
  fn signature(&self, id: SignatureId) -> (r: Signature) ensures sig_parts(r) == sig_parts(sg(id)) { unimplemented!() }
  #[verifier::external_body]
  fn object(&self, id: ObjectId) -> (r: ObjectType) ensures r == ob(id) { unimplemented!() }
  #[verifier::external_body]
  fn shape(&self, id: ShapeId) -> (r: Shape) ensures shape_parts(r) == shape_parts(sh(id)) { unimplemented!() }
/*@fn types-ts-interned/src/store.rs :: TypeStore::type_cmp
#ret r
#attr #[verifier::rlimit(200)]
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#post breakval Ordering::Equal
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == tree_cmp(tkey(a), tkey(b)),
#entry
  hide(parts); hide(lex); hide(type_order); hide(total); hide(types); hide(sigs); hide(shape_parts); hide(elems); hide(chunks); hide(skey); hide(tree_cmp); hide(sig_parts);
  proof { ordering_eq(); type_step(a, b); int_step(); }
#at before `let mut idx = 0 ;` 0
  proof { assert(a.len() == a@.len()); }
#at before `let mut idx = 0 ;` 1
  proof { assert(a.spans.len() == a.spans@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(elems(a@), elems(b@), 0) == lex(elems(a@), elems(b@), idx as int),
  ensures brk == nodes(elems(a@), elems(b@)),
#at before `let Some ( a_elem ) = a . get ( idx ) else {`
  proof { ordering_eq(); int_step(); elems_step(a@, b@, idx as int); }
#loop 1
  invariant a.spans@.len() <= usize::MAX, idx <= a.spans@.len(), idx <= b.spans@.len(), lex(chunks(a.spans@), chunks(b.spans@), 0) == lex(chunks(a.spans@), chunks(b.spans@), idx as int),
  ensures brk == nodes(chunks(a.spans@), chunks(b.spans@)),
#at before `let Some ( left ) = a . spans . get ( idx ) else {`
  proof { ordering_eq(); int_step(); chunks_step(a.spans@, b.spans@, idx as int); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::signature_cmp
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == tree_cmp(gkey(a), gkey(b)),
#entry
  proof { ordering_eq();
    sig_order_total(); assert(sig_order()(a, b) == tree_cmp(gkey(a), gkey(b)));
    gkey_def(a); gkey_def(b); lex_fixed(gkey(a)->Node_0, gkey(b)->Node_0);
  }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_params
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == nodes(params(a@), params(b@)),
#entry
  proof { ordering_eq(); assert(vstd::slice::spec_slice_len(a) == a@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(params(a@), params(b@), 0) == lex(params(a@), params(b@), idx as int),
#at after `let Some ( b_param ) = b . get ( idx ) else {`
  proof { ordering_eq(); assert(params(a@)[idx as int] == param(a@[idx as int])); assert(params(b@)[idx as int] == param(b@[idx as int])); lex_fixed(param(a@[idx as int])->Node_0, param(b@[idx as int])->Node_0); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_type_params
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == nodes(tparams(a@), tparams(b@)),
#entry
  proof { ordering_eq(); assert(vstd::slice::spec_slice_len(a) == a@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(tparams(a@), tparams(b@), 0) == lex(tparams(a@), tparams(b@), idx as int),
#at after `let Some ( b_param ) = b . get ( idx ) else {`
  proof { ordering_eq(); assert(tparams(a@)[idx as int] == tparam(a@[idx as int])); assert(tparams(b@)[idx as int] == tparam(b@[idx as int])); lex_fixed(tparam(a@[idx as int])->Node_0, tparam(b@[idx as int])->Node_0); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::option_type_cmp
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
  ensures r == tree_cmp(otype(a), otype(b)),
#entry
  proof { ordering_eq(); if a.is_some() && b.is_some() { lex_fixed(otype(a)->Node_0, otype(b)->Node_0); } }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::composite_cmp
#ret r
#attr #[verifier::loop_isolation(false)]
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures match (a, b) {
    (CompositeKind::Union(v), CompositeKind::Union(w)) => r == nodes(types(v@), types(w@)),
    (CompositeKind::Intersection(v), CompositeKind::Intersection(w)) => r == nodes(types(v@), types(w@)),
    (CompositeKind::Object(v), CompositeKind::Object(w)) => r == nodes(shape_parts(*v), shape_parts(*w)),
    _ => r == Ordering::Equal,
  },
#entry
  proof { ordering_eq(); if a is Object && b is Object { assert(a->Object_0.properties.len() == a->Object_0.properties@.len()); } if a is Object && b is Object { lex_fixed(shape_parts(*a->Object_0), shape_parts(*b->Object_0)); } }
#loop 0
  invariant a.properties@.len() <= usize::MAX, idx <= a.properties@.len(), idx <= b.properties@.len(), lex(props(a.properties@), props(b.properties@), 0) == lex(props(a.properties@), props(b.properties@), idx as int),
#at before `let Some ( a_prop ) = a . properties . get ( idx ) else {`
  proof { lex_fixed(shape_parts(*a), shape_parts(*b)); }
#at after `let Some ( b_prop ) = b . properties . get ( idx ) else {`
  proof { ordering_eq(); assert(props(a.properties@)[idx as int] == prop(a.properties@[idx as int])); assert(props(b.properties@)[idx as int] == prop(b.properties@[idx as int])); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_props
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#rewrite `& | id | names . name ( id )` => `&|id: NameId| -> (s: &str) ensures s@ == nm(id) { names.name(id) }`
#spec
  ensures r == tree_cmp(prop(*a), prop(*b)),
#entry
  proof { ordering_eq(); lex_fixed(prop(*a)->Node_0, prop(*b)->Node_0); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_indexers
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#post then_with
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == nodes(indexers(a@), indexers(b@)),
#entry
  proof { ordering_eq(); assert(vstd::slice::spec_slice_len(a) == a@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(indexers(a@), indexers(b@), 0) == lex(indexers(a@), indexers(b@), idx as int),
#at after `let Some ( bi ) = b . get ( idx ) else {`
  proof { ordering_eq(); assert(indexers(a@)[idx as int] == indexer(a@[idx as int])); assert(indexers(b@)[idx as int] == indexer(b@[idx as int])); lex_fixed(indexer(a@[idx as int])->Node_0, indexer(b@[idx as int])->Node_0); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_signature_slices
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == nodes(sigs(a@), sigs(b@)),
#entry
  proof { ordering_eq(); assert(vstd::slice::spec_slice_len(a) == a@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(sigs(a@), sigs(b@), 0) == lex(sigs(a@), sigs(b@), idx as int),
#at after `let Some ( bsig ) = b . get ( idx ) else {`
  proof { ordering_eq(); assert(sigs(a@)[idx as int] == gkey(a@[idx as int])); assert(sigs(b@)[idx as int] == gkey(b@[idx as int])); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_slices
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `. cmp (` => `.kcmp(`
#spec
  ensures r == nodes(types(a@), types(b@)),
#entry
  proof { ordering_eq(); assert(vstd::slice::spec_slice_len(a) == a@.len()); }
#loop 0
  invariant a@.len() <= usize::MAX, idx <= a@.len(), idx <= b@.len(), lex(types(a@), types(b@), 0) == lex(types(a@), types(b@), idx as int),
#at after `let Some ( bt ) = b . get ( idx ) else {`
  proof { ordering_eq(); assert(types(a@)[idx as int] == tkey(a@[idx as int])); assert(types(b@)[idx as int] == tkey(b@[idx as int])); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_prop_keys
#ret r
#sig `crate :: PropKey` => `PropKey`
#rewrite `& | id | names . name ( id )` => `&|id: NameId| -> (s: &str) ensures s@ == nm(id) { names.name(id) }`
#spec
  ensures r == tree_cmp(pkey(*a), pkey(*b)),
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::compare_signatures
#ret r
#spec
  ensures r == tree_cmp(gkey(a), gkey(b)),
@*/
}
}
fn main() {}
