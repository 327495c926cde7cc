#![feature(allocator_api)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
/*@include order.rs@*/
// the id newtypes (types-ts-interned/src/ids.rs makes them with a macro)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TypeId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ObjectId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct TypeParamId(pub u32);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct SignatureId(pub u128);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct NameId(pub u64);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct DefId(pub u64);
#[verifier::external_body]
pub struct BigInt {}
#[verifier::external_body]
pub struct Num {}
/*@type types-ts-interned/src/kind.rs :: MappedModifier
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: MappedType
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TemplateLiteralType
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TemplateChunk
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: IntrinsicKind
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TupleElem
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: PredicateParam
#pub
@*/
/*@type types-ts-interned/src/kind.rs :: TypeKind
#pub
#rewrite `OrderedFloat < f64 >` => `Num`
@*/
/*@type types-ts-interned/src/store.rs :: PrimitiveIds
@*/
/// the store; its tables appear only through type_kind and insert_type_direct
struct TypeStore { primitives: PrimitiveIds }

// ---- the interned types ------------------------------------------------------
// A TypeId stands for an id this store has handed out: it names one kind, for ever (C06).
pub uninterp spec fn kd(t: TypeId) -> TypeKind;
/// the canonical order of types (a total order that identifies only equal ids: C08)
pub uninterp spec fn tcmp(a: TypeId, b: TypeId) -> Ordering;
pub open spec fn torder() -> spec_fn(TypeId, TypeId) -> Ordering { |a: TypeId, b: TypeId| tcmp(a, b) }
pub axiom fn torder_total() ensures total_order(torder()), antisym(torder());
pub open spec fn same_kind(a: TypeKind, b: TypeKind) -> bool {
  match (a, b) {
    (TypeKind::Union(v), TypeKind::Union(w)) => v@ == w@,
    (TypeKind::Intersection(v), TypeKind::Intersection(w)) => v@ == w@,
    (TypeKind::Tuple(v), TypeKind::Tuple(w)) => v@ == w@,
    (TypeKind::Callable { overloads: v }, TypeKind::Callable { overloads: w }) => v@ == w@,
    (TypeKind::Ref { def: d, args: v }, TypeKind::Ref { def: e, args: w }) => d == e && v@ == w@,
    (TypeKind::TemplateLiteral(v), TypeKind::TemplateLiteral(w)) => v.head@ == w.head@ && v.spans@ == w.spans@,
    _ => a == b,
  }
}
// C06: equal kinds have one id
pub axiom fn interned_once(a: TypeId, b: TypeId)
  requires same_kind(kd(a), kd(b)),
  ensures a == b;
// the store invariant, established at every insertion below
pub axiom fn interned_good(t: TypeId)
  ensures good(kd(t));
pub open spec fn good(k: TypeKind) -> bool {
  match k {
    TypeKind::Union(v) => good_union(v@),
    TypeKind::Intersection(v) => good_inter(v@),
    _ => true,
  }
}
pub type P = spec_fn(TypeId) -> bool;
pub open spec fn some(f: P) -> bool { exists|x: TypeId| #[trigger] f(x) }
pub open spec fn one(f: P) -> bool { some(f) && forall|x: TypeId, y: TypeId| #[trigger] f(x) && #[trigger] f(y) ==> x == y }
pub open spec fn strict(v: Seq<TypeId>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> tcmp(#[trigger] v[i], #[trigger] v[j]) == Ordering::Less }
/// `v` is the sorted list, without repetition, of the ids satisfying `f`
pub open spec fn lists(v: Seq<TypeId>, f: P) -> bool { strict(v) && forall|x: TypeId| #[trigger] v.contains(x) <==> f(x) }
pub open spec fn in_seq(v: Seq<TypeId>) -> P { |x: TypeId| v.contains(x) }
pub open spec fn both(f: P, g: P) -> P { |x: TypeId| f(x) || g(x) }

// ---- unions ------------------------------------------------------------------
/// the non-union types a type contributes to a union
pub open spec fn leaf_u(t: TypeId, x: TypeId) -> bool { match kd(t) { TypeKind::Union(v) => v@.contains(x), _ => x == t } }
pub open spec fn leaves_u(t: TypeId) -> P { |x: TypeId| leaf_u(t, x) }
pub open spec fn flat_u(m: Seq<TypeId>) -> P { |x: TypeId| exists|i: int| 0 <= i < m.len() && leaf_u(#[trigger] m[i], x) }
pub open spec fn is_any(x: TypeId) -> bool { kd(x) is Any }
pub open spec fn is_unknown(x: TypeId) -> bool { kd(x) is Unknown }
pub open spec fn is_never(x: TypeId) -> bool { kd(x) is Never }
pub open spec fn is_boolean(x: TypeId) -> bool { kd(x) is Boolean }
pub open spec fn is_number(x: TypeId) -> bool { kd(x) is Number }
pub open spec fn is_string(x: TypeId) -> bool { kd(x) is String }
pub open spec fn is_bigint(x: TypeId) -> bool { kd(x) is BigInt }
pub open spec fn is_symbol(x: TypeId) -> bool { kd(x) is Symbol }
pub open spec fn is_unique(x: TypeId) -> bool { kd(x) is UniqueSymbol }
pub open spec fn is_true(x: TypeId) -> bool { kd(x) == TypeKind::BooleanLiteral(true) }
pub open spec fn is_false(x: TypeId) -> bool { kd(x) == TypeKind::BooleanLiteral(false) }
pub open spec fn is_numlit(x: TypeId) -> bool { kd(x) is NumberLiteral }
pub open spec fn is_strlit(x: TypeId) -> bool { kd(x) is StringLiteral }
pub open spec fn is_biglit(x: TypeId) -> bool { kd(x) is BigIntLiteral }
pub open spec fn is_tpl(x: TypeId) -> bool { kd(x) is TemplateLiteral }
/// some member of `f` satisfies `p`
pub open spec fn hasp(f: P, p: P) -> bool { exists|x: TypeId| #[trigger] f(x) && p(x) }
pub open spec fn p_any() -> P { |x: TypeId| is_any(x) }
pub open spec fn p_unknown() -> P { |x: TypeId| is_unknown(x) }
pub open spec fn p_never() -> P { |x: TypeId| is_never(x) }
pub open spec fn p_boolean() -> P { |x: TypeId| is_boolean(x) }
pub open spec fn p_number() -> P { |x: TypeId| is_number(x) }
pub open spec fn p_string() -> P { |x: TypeId| is_string(x) }
pub open spec fn p_bigint() -> P { |x: TypeId| is_bigint(x) }
pub open spec fn p_symbol() -> P { |x: TypeId| is_symbol(x) }
pub open spec fn p_unique() -> P { |x: TypeId| is_unique(x) }
pub open spec fn p_true() -> P { |x: TypeId| is_true(x) }
pub open spec fn p_false() -> P { |x: TypeId| is_false(x) }
pub open spec fn p_boollit() -> P { |x: TypeId| kd(x) is BooleanLiteral }
pub open spec fn p_numlit() -> P { |x: TypeId| is_numlit(x) }
pub open spec fn p_strlit() -> P { |x: TypeId| is_strlit(x) }
pub open spec fn p_biglit() -> P { |x: TypeId| is_biglit(x) }
pub open spec fn p_tpl() -> P { |x: TypeId| is_tpl(x) }
/// boolean is a member, spelt out or as both of its literals
pub open spec fn bool_u(f: P) -> bool { hasp(f, p_boolean()) || (hasp(f, p_true()) && hasp(f, p_false())) }
pub open spec fn keep_u(k: TypeKind, b: bool, n: bool, s: bool, g: bool, y: bool) -> bool {
  match k {
    TypeKind::BooleanLiteral(_) => !b,
    TypeKind::NumberLiteral(_) => !n,
    TypeKind::StringLiteral(_) => !s,
    TypeKind::TemplateLiteral(_) => !s,
    TypeKind::BigIntLiteral(_) => !g,
    TypeKind::UniqueSymbol => !y,
    _ => true,
  }
}
/// the members left once `never` and the literals of a present primitive are dropped
pub open spec fn rest_u(f: P) -> P {
  |x: TypeId| ((f(x) && !is_never(x)) || (is_boolean(x) && bool_u(f)))
    && keep_u(kd(x), bool_u(f), hasp(f, p_number()), hasp(f, p_string()), hasp(f, p_bigint()), hasp(f, p_symbol()))
}
/// `r` is the union of the set `f` of non-union types
pub open spec fn union_is(r: TypeId, f: P) -> bool {
  if hasp(f, p_any()) { is_any(r) }
  else if hasp(f, p_unknown()) { is_unknown(r) }
  else if !some(rest_u(f)) { is_never(r) }
  else if one(rest_u(f)) { rest_u(f)(r) }
  else { kd(r) matches TypeKind::Union(v) && lists(v@, rest_u(f)) }
}
pub open spec fn good_union(v: Seq<TypeId>) -> bool {
  &&& v.len() >= 2 && lists(v, rest_u(in_seq(v)))
  &&& forall|i: int| 0 <= i < v.len() ==> !(kd(#[trigger] v[i]) is Any || kd(v[i]) is Unknown || kd(v[i]) is Never || kd(v[i]) is Union)
}

// ---- intersections -----------------------------------------------------------
pub open spec fn leaf_i(t: TypeId, x: TypeId) -> bool { match kd(t) { TypeKind::Intersection(v) => v@.contains(x), _ => x == t } }
pub open spec fn leaves_i(t: TypeId) -> P { |x: TypeId| leaf_i(t, x) }
pub open spec fn flat_i(m: Seq<TypeId>) -> P { |x: TypeId| exists|i: int| 0 <= i < m.len() && leaf_i(#[trigger] m[i], x) }
pub open spec fn keep_i(k: TypeKind, bl: bool, nl: bool, sl: bool, gl: bool, tl: bool, us: bool) -> bool {
  match k {
    TypeKind::Unknown => false,
    TypeKind::Boolean => !bl,
    TypeKind::Number => !nl,
    TypeKind::String => !sl && !tl,
    TypeKind::BigInt => !gl,
    TypeKind::Symbol => !us,
    _ => true,
  }
}
pub open spec fn rest_i(f: P) -> P {
  |x: TypeId| f(x) && keep_i(kd(x), hasp(f, p_boollit()), hasp(f, p_numlit()), hasp(f, p_strlit()), hasp(f, p_biglit()), hasp(f, p_tpl()), hasp(f, p_unique()))
}
/// the primitive family of a type, 0 if none
pub open spec fn fam(k: TypeKind) -> u8 {
  match k {
    TypeKind::String | TypeKind::StringLiteral(_) | TypeKind::TemplateLiteral(_) => 1,
    TypeKind::Number | TypeKind::NumberLiteral(_) => 2,
    TypeKind::Boolean | TypeKind::BooleanLiteral(_) => 4,
    TypeKind::BigInt | TypeKind::BigIntLiteral(_) => 8,
    TypeKind::Symbol | TypeKind::UniqueSymbol => 16,
    _ => 0,
  }
}
pub open spec fn unit_lit(k: TypeKind) -> bool { k is StringLiteral || k is NumberLiteral || k is BooleanLiteral || k is BigIntLiteral }
/// no value has both types
pub open spec fn clash(x: TypeId, y: TypeId) -> bool {
  fam(kd(x)) != 0 && fam(kd(y)) != 0 && (fam(kd(x)) != fam(kd(y)) || (x != y && unit_lit(kd(x)) && unit_lit(kd(y))))
}
pub open spec fn clashes(f: P) -> bool { exists|x: TypeId, y: TypeId| #[trigger] f(x) && #[trigger] f(y) && clash(x, y) }
pub open spec fn inter_is(r: TypeId, f: P) -> bool {
  if hasp(f, p_never()) { is_never(r) }
  else if hasp(f, p_any()) { is_any(r) }
  else if !some(rest_i(f)) { is_unknown(r) }
  else if one(rest_i(f)) { rest_i(f)(r) }
  else if clashes(rest_i(f)) { is_never(r) }
  else { kd(r) matches TypeKind::Intersection(v) && lists(v@, rest_i(f)) }
}
pub open spec fn good_inter(v: Seq<TypeId>) -> bool {
  &&& v.len() >= 2 && lists(v, rest_i(in_seq(v))) && !clashes(in_seq(v))
  &&& forall|i: int| 0 <= i < v.len() ==> !(kd(#[trigger] v[i]) is Any || kd(v[i]) is Unknown || kd(v[i]) is Never || kd(v[i]) is Intersection)
}

// ---- what the verifier is told about std -------------------------------------
pub open spec fn dedup_of(v: Seq<TypeId>) -> Seq<TypeId>
  decreases v.len(),
{
  if v.len() <= 1 { v } else {
    let d = dedup_of(v.drop_last());
    if d.len() > 0 && d.last() == v.last() { d } else { d.push(v.last()) }
  }
}
#[verifier::external_body]
fn vec_dedup(v: &mut Vec<TypeId>) ensures final(v)@ == dedup_of(old(v)@) { v.dedup() }
#[verifier::external_body]
fn vec_extend(v: &mut Vec<TypeId>, w: Vec<TypeId>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
#[verifier::external_body]
fn vec_retain<F: FnMut(&TypeId) -> bool>(v: &mut Vec<TypeId>, f: F)
  requires forall|x: &TypeId| #[trigger] call_requires(f, (x,)),
  ensures forall|x: TypeId| #[trigger] final(v)@.contains(x) ==> old(v)@.contains(x) && call_ensures(f, (&x,), true),
    forall|x: TypeId| #[trigger] old(v)@.contains(x) ==> final(v)@.contains(x) || call_ensures(f, (&x,), false),
{ v.retain(f) }
proof fn dedup_strict(v: Seq<TypeId>)
  requires sorted_by_order(v, torder()),
  ensures strict(dedup_of(v)), forall|x: TypeId| #[trigger] dedup_of(v).contains(x) <==> v.contains(x),
    v.len() > 0 ==> dedup_of(v).len() > 0 && dedup_of(v).last() == v.last(),
  decreases v.len(),
{
  torder_total();
  if v.len() > 1 {
    let u = v.drop_last(); let d = dedup_of(u); let r = dedup_of(v);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies torder()(#[trigger] u[i], #[trigger] u[j]) != Ordering::Greater by { assert(torder()(v[i], v[j]) != Ordering::Greater); }
    dedup_strict(u);
    assert(v =~= u.push(v.last()));
    assert(v[v.len() - 1] == v.last() && u[u.len() - 1] == u.last() && v[u.len() - 1] == u.last());
    assert(torder()(u.last(), v.last()) != Ordering::Greater);
    if d.last() != v.last() {
      assert(r == d.push(v.last()));
      assert forall|i: int, j: int| 0 <= i < j < r.len() implies tcmp(#[trigger] r[i], #[trigger] r[j]) == Ordering::Less by {
        if j == d.len() {
          assert(torder()(d.last(), v.last()) != Ordering::Equal);
          assert(d[d.len() - 1] == d.last());
          if i < d.len() - 1 {
            assert(tcmp(d[i], d[d.len() - 1]) == Ordering::Less);
            assert(torder()(r[i], d.last()) != Ordering::Greater);
            assert(torder()(r[i], v.last()) != Ordering::Greater);
            if tcmp(r[i], v.last()) == Ordering::Equal { assert(torder()(r[i], v.last()) == Ordering::Equal); assert(torder()(v.last(), d.last()) == Ordering::Less); assert(torder()(d.last(), v.last()) == rev(torder()(v.last(), d.last()))); }
          }
        }
      }
      assert forall|x: TypeId| #[trigger] r.contains(x) <==> v.contains(x) by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < d.len() { assert(d.contains(x)); let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(v[j] == x); } else { assert(v[v.len() - 1] == x); } }
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; if i < u.len() { assert(u[i] == x); assert(u.contains(x)); assert(dedup_of(u).contains(x)); let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(r[j] == x); } else { assert(r[r.len() - 1] == x); } }
      }
    } else {
      assert forall|x: TypeId| #[trigger] r.contains(x) <==> v.contains(x) by {
        if r.contains(x) { assert(u.contains(x)); let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(v[j] == x); }
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; if i < u.len() { assert(u[i] == x); assert(u.contains(x)); } else { assert(d[d.len() - 1] == x); } }
      }
    }
  }
}
/// a set has one sorted list
proof fn lists_unique(v: Seq<TypeId>, w: Seq<TypeId>, f: P)
  requires lists(v, f), lists(w, f),
  ensures v == w,
{
  torder_total();
  let le = torder();
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies #[trigger] v[i] != #[trigger] v[j] by {
    assert(le(v[i], v[i]) == rev(le(v[i], v[i])));
    if i < j { assert(tcmp(v[i], v[j]) == Ordering::Less); } else { assert(tcmp(v[j], v[i]) == Ordering::Less); }
  }
  assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies #[trigger] w[i] != #[trigger] w[j] by {
    assert(le(w[i], w[i]) == rev(le(w[i], w[i])));
    if i < j { assert(tcmp(w[i], w[j]) == Ordering::Less); } else { assert(tcmp(w[j], w[i]) == Ordering::Less); }
  }
  assert(v.no_duplicates() && w.no_duplicates());
  v.lemma_multiset_has_no_duplicates(); w.lemma_multiset_has_no_duplicates();
  assert forall|x: TypeId| v.to_multiset().count(x) == w.to_multiset().count(x) by {
    assert(v.contains(x) <==> w.contains(x));
    assert(v.to_multiset().contains(x) <==> v.contains(x));
    assert(w.to_multiset().contains(x) <==> w.contains(x));
  }
  assert(v.to_multiset() =~= w.to_multiset());
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies le(#[trigger] v[i], #[trigger] v[j]) != Ordering::Greater by { assert(tcmp(v[i], v[j]) == Ordering::Less); }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies le(#[trigger] w[i], #[trigger] w[j]) != Ordering::Greater by { assert(tcmp(w[i], w[j]) == Ordering::Less); }
  sorted_unique(v, w, le);
  assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by { assert(le(v[i], w[i]) == Ordering::Equal); }
  assert(v =~= w);
}
// ---- the canonical form depends on the set alone -----------------------------
proof fn union_unique(r1: TypeId, r2: TypeId, f: P)
  requires union_is(r1, f), union_is(r2, f),
  ensures r1 == r2,
{
  if hasp(f, p_any()) || hasp(f, p_unknown()) || !some(rest_u(f)) { interned_once(r1, r2); }
  else if one(rest_u(f)) { assert(rest_u(f)(r1) && rest_u(f)(r2)); }
  else {
    let (v, w) = (kd(r1)->Union_0@, kd(r2)->Union_0@);
    lists_unique(v, w, rest_u(f)); interned_once(r1, r2);
  }
}
proof fn inter_unique(r1: TypeId, r2: TypeId, f: P)
  requires inter_is(r1, f), inter_is(r2, f),
  ensures r1 == r2,
{
  if hasp(f, p_never()) || hasp(f, p_any()) || !some(rest_i(f)) { interned_once(r1, r2); }
  else if one(rest_i(f)) { assert(rest_i(f)(r1) && rest_i(f)(r2)); }
  else if clashes(rest_i(f)) { interned_once(r1, r2); }
  else {
    let (v, w) = (kd(r1)->Intersection_0@, kd(r2)->Intersection_0@);
    lists_unique(v, w, rest_i(f)); interned_once(r1, r2);
  }
}
/// a canonical union is the union of its own members
proof fn union_again(t: TypeId)
  ensures kd(t) is Union ==> union_is(t, flat_u(kd(t)->Union_0@)),
{
  interned_good(t);
  if kd(t) is Union {
    let v = kd(t)->Union_0@; let f = flat_u(v);
    assert forall|x: TypeId| #[trigger] f(x) == in_seq(v)(x) by {
      if f(x) { let i = choose|i: int| 0 <= i < v.len() && leaf_u(#[trigger] v[i], x); assert(v[i] == x); }
      if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(leaf_u(v[i], x)); }
    }
    assert(f =~= in_seq(v));
    assert forall|x: TypeId| #[trigger] f(x) implies !is_any(x) && !is_unknown(x) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; }
    many(v, rest_u(f));
  }
}
proof fn inter_again(t: TypeId)
  ensures kd(t) is Intersection ==> inter_is(t, flat_i(kd(t)->Intersection_0@)),
{
  interned_good(t);
  if kd(t) is Intersection {
    let v = kd(t)->Intersection_0@; let f = flat_i(v);
    assert forall|x: TypeId| #[trigger] f(x) == in_seq(v)(x) by {
      if f(x) { let i = choose|i: int| 0 <= i < v.len() && leaf_i(#[trigger] v[i], x); assert(v[i] == x); }
      if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(leaf_i(v[i], x)); }
    }
    assert(f =~= in_seq(v));
    assert forall|x: TypeId| #[trigger] f(x) implies !is_any(x) && !is_never(x) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; }
    many(v, rest_i(f));
    if clashes(rest_i(f)) {
      let (x, y) = choose|x: TypeId, y: TypeId| #[trigger] rest_i(f)(x) && #[trigger] rest_i(f)(y) && clash(x, y);
      assert(in_seq(v)(x) && in_seq(v)(y));
    }
  }
}
/// a strictly sorted list of two or more lists more than one id
proof fn many(v: Seq<TypeId>, f: P)
  requires lists(v, f),
  ensures v.len() >= 2 ==> some(f) && !one(f), v.len() == 1 ==> one(f) && f(v[0]), v.len() == 0 ==> !some(f),
{
  torder_total();
  if v.len() >= 2 {
    assert(v.contains(v[0]) && v.contains(v[1]));
    assert(f(v[0]) && f(v[1]));
    assert(tcmp(v[0], v[1]) == Ordering::Less);
    assert(torder()(v[0], v[0]) == rev(torder()(v[0], v[0])));
  } else if v.len() == 1 {
    assert(v.contains(v[0]));
    assert forall|x: TypeId, y: TypeId| #[trigger] f(x) && #[trigger] f(y) implies x == y by { assert(v.contains(x) && v.contains(y)); }
  } else if some(f) { let x = choose|x: TypeId| #[trigger] f(x); assert(v.contains(x)); }
}
proof fn has_in(f: P, p: P, x: TypeId)
  requires f(x), p(x),
  ensures hasp(f, p),
{}
/// dropping twice drops nothing more
proof fn rest_u_again(f: P, v: Seq<TypeId>)
  requires lists(v, rest_u(f)),
  ensures lists(v, rest_u(in_seq(v))),
{
  let g = in_seq(v); let r = rest_u(f);
  assert(g =~= r) by { assert forall|x: TypeId| #[trigger] g(x) == r(x) by { assert(v.contains(x) <==> r(x)); } }
  assert(hasp(g, p_boolean()) == bool_u(f)) by {
    if hasp(f, p_boolean()) { let x = choose|x: TypeId| #[trigger] f(x) && p_boolean()(x); assert(r(x)); }
    else if bool_u(f) { axiom_boolean(); let x = choose|x: TypeId| is_boolean(x); assert(r(x)); }
    if hasp(g, p_boolean()) { let x = choose|x: TypeId| #[trigger] g(x) && p_boolean()(x); assert(r(x)); if !bool_u(f) { assert(f(x)); } }
  }
  assert(bool_u(g) == bool_u(f)) by {
    if bool_u(g) && !bool_u(f) {
      let x = choose|x: TypeId| #[trigger] g(x) && p_true()(x); let y = choose|y: TypeId| #[trigger] g(y) && p_false()(y);
      assert(r(x) && r(y)); assert(f(x) && f(y)); assert(hasp(f, p_true()) && hasp(f, p_false()));
    }
  }
  keeps(f, r, p_number()); keeps(f, r, p_string()); keeps(f, r, p_bigint()); keeps(f, r, p_symbol());
  assert(rest_u(g) =~= r) by { assert forall|x: TypeId| #[trigger] rest_u(g)(x) == r(x) by { assert(g(x) == r(x)); if r(x) && is_boolean(x) && bool_u(f) {} } }
}
proof fn keeps(f: P, r: P, p: P)
  requires r == rest_u(f), p == p_number() || p == p_string() || p == p_bigint() || p == p_symbol(),
  ensures hasp(r, p) == hasp(f, p),
{
  if hasp(f, p) { let x = choose|x: TypeId| #[trigger] f(x) && p(x); assert(r(x)); }
  if hasp(r, p) { let x = choose|x: TypeId| #[trigger] r(x) && p(x); assert(f(x)); }
}
// every store has its primitives
pub axiom fn axiom_boolean() ensures exists|x: TypeId| is_boolean(x);
pub open spec fn flat_set_u(f: P) -> bool { forall|x: TypeId| #[trigger] f(x) ==> !(kd(x) is Union) }
/// how the members of a union are grouped does not matter
proof fn grouping_u(r1: TypeId, f1: P, f2: P, r: TypeId)
  requires union_is(r1, f1), flat_set_u(f1), flat_set_u(f2),
  ensures union_is(r, both(leaves_u(r1), f2)) == union_is(r, both(f1, f2)),
{
  let l = leaves_u(r1); let a = both(l, f2); let b = both(f1, f2);
  if hasp(f1, p_any()) {
    assert(l(r1) && p_any()(r1)); assert(a(r1)); assert(hasp(a, p_any()));
    let x = choose|x: TypeId| #[trigger] f1(x) && p_any()(x); assert(b(x)); assert(hasp(b, p_any()));
  } else if hasp(f2, p_any()) {
    let x = choose|x: TypeId| #[trigger] f2(x) && p_any()(x); assert(a(x) && b(x)); assert(hasp(a, p_any())); assert(hasp(b, p_any()));
  } else {
    assert(!hasp(b, p_any())) by { if hasp(b, p_any()) { let x = choose|x: TypeId| #[trigger] b(x) && p_any()(x); assert(f1(x) || f2(x)); } }
    if hasp(f1, p_unknown()) {
      assert(l(r1)); assert(forall|x: TypeId| #[trigger] l(x) ==> x == r1); assert(a(r1));
      assert(!hasp(a, p_any())) by { if hasp(a, p_any()) { let x = choose|x: TypeId| #[trigger] a(x) && p_any()(x); assert(l(x) || f2(x)); } }
      assert(hasp(a, p_unknown())) by { assert(p_unknown()(r1)); }
      let x = choose|x: TypeId| #[trigger] f1(x) && p_unknown()(x); assert(b(x)); assert(hasp(b, p_unknown()));
    } else {
      // l is rest_u(f1), or just `never`
      let s = rest_u(f1);
      assert forall|x: TypeId| #[trigger] l(x) == (s(x) || (x == r1 && is_never(r1))) by {
        if !some(s) { assert(is_never(r1)); assert(!s(x)); }
        else if one(s) { assert(s(r1)); assert(!(kd(r1) is Union)) by { if !f1(r1) { assert(is_boolean(r1)); } } if s(x) { assert(x == r1); } }
        else { let v = kd(r1)->Union_0@; assert(v.contains(x) <==> s(x)); }
      }
      assert forall|x: TypeId| #[trigger] l(x) implies !is_any(x) && !is_unknown(x) by { if s(x) { if f1(x) { has_at(f1, x); } } }
      assert(!hasp(a, p_any())) by { if hasp(a, p_any()) { let x = choose|x: TypeId| #[trigger] a(x) && p_any()(x); assert(l(x) || f2(x)); } }
      assert(hasp(a, p_unknown()) == hasp(f2, p_unknown())) by {
        if hasp(a, p_unknown()) { let x = choose|x: TypeId| #[trigger] a(x) && p_unknown()(x); assert(l(x) || f2(x)); }
        if hasp(f2, p_unknown()) { let x = choose|x: TypeId| #[trigger] f2(x) && p_unknown()(x); assert(a(x)); }
      }
      assert(hasp(b, p_unknown()) == hasp(f2, p_unknown())) by {
        if hasp(b, p_unknown()) { let x = choose|x: TypeId| #[trigger] b(x) && p_unknown()(x); assert(f1(x) || f2(x)); }
        if hasp(f2, p_unknown()) { let x = choose|x: TypeId| #[trigger] f2(x) && p_unknown()(x); assert(b(x)); }
      }
      keeps2(f1, f2, l, p_number()); keeps2(f1, f2, l, p_string()); keeps2(f1, f2, l, p_bigint()); keeps2(f1, f2, l, p_symbol());
      assert(bool_u(a) == bool_u(b)) by { bool_group(f1, f2, l); }
      assert(rest_u(a) =~= rest_u(b)) by {
        assert forall|x: TypeId| #[trigger] rest_u(a)(x) == rest_u(b)(x) by { regroup_at(f1, f2, l, x); }
      }
    }
  }
}
proof fn has_at(f: P, x: TypeId)
  requires f(x),
  ensures is_any(x) ==> hasp(f, p_any()), is_unknown(x) ==> hasp(f, p_unknown()), is_boolean(x) ==> hasp(f, p_boolean()), is_true(x) ==> hasp(f, p_true()), is_false(x) ==> hasp(f, p_false()),
    is_number(x) ==> hasp(f, p_number()), is_string(x) ==> hasp(f, p_string()), is_bigint(x) ==> hasp(f, p_bigint()), is_symbol(x) ==> hasp(f, p_symbol()),
{
  if is_any(x) { assert(p_any()(x)); } if is_unknown(x) { assert(p_unknown()(x)); } if is_boolean(x) { assert(p_boolean()(x)); } if is_true(x) { assert(p_true()(x)); }
  if is_false(x) { assert(p_false()(x)); } if is_number(x) { assert(p_number()(x)); } if is_string(x) { assert(p_string()(x)); } if is_bigint(x) { assert(p_bigint()(x)); } if is_symbol(x) { assert(p_symbol()(x)); }
}
pub open spec fn left(f1: P, l: P) -> bool { forall|x: TypeId| #[trigger] l(x) ==> rest_u(f1)(x) || is_never(x) }
pub open spec fn covers(f1: P, l: P) -> bool { forall|x: TypeId| #[trigger] rest_u(f1)(x) ==> l(x) }
proof fn keeps2(f1: P, f2: P, l: P, p: P)
  requires left(f1, l), covers(f1, l), p == p_number() || p == p_string() || p == p_bigint() || p == p_symbol(),
  ensures hasp(both(l, f2), p) == hasp(both(f1, f2), p),
{
  let a = both(l, f2); let b = both(f1, f2);
  if hasp(a, p) { let x = choose|x: TypeId| #[trigger] a(x) && p(x); if l(x) { assert(rest_u(f1)(x)); assert(f1(x)); } assert(b(x)); }
  if hasp(b, p) { let x = choose|x: TypeId| #[trigger] b(x) && p(x); if f1(x) { assert(rest_u(f1)(x)); assert(l(x)); } assert(a(x)); }
}
proof fn bool_group(f1: P, f2: P, l: P)
  requires left(f1, l), covers(f1, l),
  ensures bool_u(both(l, f2)) == bool_u(both(f1, f2)),
{
  let a = both(l, f2); let b = both(f1, f2);
  if bool_u(f1) {
    axiom_boolean(); let z = choose|x: TypeId| is_boolean(x); assert(rest_u(f1)(z)); assert(l(z)); assert(a(z)); has_at(a, z);
    if hasp(f1, p_boolean()) { let x = choose|x: TypeId| #[trigger] f1(x) && p_boolean()(x); assert(b(x)); has_at(b, x); }
    else {
      let x = choose|x: TypeId| #[trigger] f1(x) && p_true()(x); let y = choose|y: TypeId| #[trigger] f1(y) && p_false()(y);
      assert(b(x) && b(y)); has_at(b, x); has_at(b, y);
    }
  } else {
    // nothing about booleans changes from f1 to l
    assert forall|x: TypeId| (kd(x) is Boolean || kd(x) is BooleanLiteral) implies #[trigger] a(x) == b(x) by {
      if l(x) { assert(rest_u(f1)(x)); assert(f1(x)); }
      if f1(x) { assert(rest_u(f1)(x)); assert(l(x)); }
    }
    if hasp(a, p_boolean()) { let x = choose|x: TypeId| #[trigger] a(x) && p_boolean()(x); assert(b(x)); has_at(b, x); }
    if hasp(b, p_boolean()) { let x = choose|x: TypeId| #[trigger] b(x) && p_boolean()(x); assert(a(x)); has_at(a, x); }
    if hasp(a, p_true()) { let x = choose|x: TypeId| #[trigger] a(x) && p_true()(x); assert(b(x)); has_at(b, x); }
    if hasp(b, p_true()) { let x = choose|x: TypeId| #[trigger] b(x) && p_true()(x); assert(a(x)); has_at(a, x); }
    if hasp(a, p_false()) { let x = choose|x: TypeId| #[trigger] a(x) && p_false()(x); assert(b(x)); has_at(b, x); }
    if hasp(b, p_false()) { let x = choose|x: TypeId| #[trigger] b(x) && p_false()(x); assert(a(x)); has_at(a, x); }
  }
}
proof fn regroup_at(f1: P, f2: P, l: P, x: TypeId)
  requires left(f1, l), covers(f1, l),
    bool_u(both(l, f2)) == bool_u(both(f1, f2)),
    forall|p: P| p == p_number() || p == p_string() || p == p_bigint() || p == p_symbol() ==> #[trigger] hasp(both(l, f2), p) == hasp(both(f1, f2), p),
  ensures rest_u(both(l, f2))(x) == rest_u(both(f1, f2))(x),
{
  let a = both(l, f2); let b = both(f1, f2);
  assert(hasp(a, p_number()) == hasp(b, p_number())); assert(hasp(a, p_string()) == hasp(b, p_string())); assert(hasp(a, p_bigint()) == hasp(b, p_bigint())); assert(hasp(a, p_symbol()) == hasp(b, p_symbol()));
  up(f1, f2, p_number()); up(f1, f2, p_string()); up(f1, f2, p_bigint()); up(f1, f2, p_symbol());
  assert(bool_u(f1) ==> bool_u(b)) by { up(f1, f2, p_boolean()); up(f1, f2, p_true()); up(f1, f2, p_false()); }
  if rest_u(b)(x) {
    if f1(x) && !is_never(x) { assert(rest_u(f1)(x)); assert(l(x)); assert(a(x)); }
  }
  if rest_u(a)(x) {
    if l(x) && !is_never(x) { assert(rest_u(f1)(x)); if !f1(x) { assert(is_boolean(x)); } }
  }
}
proof fn up(f1: P, f2: P, p: P)
  ensures hasp(f1, p) ==> hasp(both(f1, f2), p),
{ if hasp(f1, p) { let x = choose|x: TypeId| #[trigger] f1(x) && p(x); assert(both(f1, f2)(x)); } }

// ---- intersections: dropping and grouping ------------------------------------
proof fn keeps_i(f: P, r: P, p: P)
  requires r == rest_i(f), p == p_boollit() || p == p_numlit() || p == p_strlit() || p == p_biglit() || p == p_tpl() || p == p_unique(),
  ensures hasp(r, p) == hasp(f, p),
{
  if hasp(f, p) { let x = choose|x: TypeId| #[trigger] f(x) && p(x); assert(r(x)); }
  if hasp(r, p) { let x = choose|x: TypeId| #[trigger] r(x) && p(x); assert(f(x)); }
}
proof fn rest_i_again(f: P, v: Seq<TypeId>)
  requires lists(v, rest_i(f)),
  ensures lists(v, rest_i(in_seq(v))), in_seq(v) =~= rest_i(f),
{
  let g = in_seq(v); let r = rest_i(f);
  assert(g =~= r) by { assert forall|x: TypeId| #[trigger] g(x) == r(x) by { assert(v.contains(x) <==> r(x)); } }
  keeps_i(f, r, p_boollit()); keeps_i(f, r, p_numlit()); keeps_i(f, r, p_strlit()); keeps_i(f, r, p_biglit()); keeps_i(f, r, p_tpl()); keeps_i(f, r, p_unique());
  assert(rest_i(g) =~= r) by { assert forall|x: TypeId| #[trigger] rest_i(g)(x) == r(x) by { assert(g(x) == r(x)); } }
}
pub open spec fn flat_set_i(f: P) -> bool { forall|x: TypeId| #[trigger] f(x) ==> !(kd(x) is Intersection) && !(kd(x) is Any) }
/// how the members of an intersection are grouped does not matter, `any` apart
proof fn grouping_i(r1: TypeId, f1: P, f2: P, r: TypeId)
  requires inter_is(r1, f1), flat_set_i(f1), flat_set_i(f2),
  ensures inter_is(r, both(leaves_i(r1), f2)) == inter_is(r, both(f1, f2)),
{
  let l = leaves_i(r1); let a = both(l, f2); let b = both(f1, f2); let s = rest_i(f1);
  assert(!hasp(f1, p_any())) by { if hasp(f1, p_any()) { let x = choose|x: TypeId| #[trigger] f1(x) && p_any()(x); } }
  assert(!hasp(b, p_any())) by { if hasp(b, p_any()) { let x = choose|x: TypeId| #[trigger] b(x) && p_any()(x); assert(f1(x) || f2(x)); } }
  if hasp(f1, p_never()) {
    let x = choose|x: TypeId| #[trigger] f1(x) && p_never()(x); assert(b(x)); assert(hasp(b, p_never()));
    assert(l(r1)); assert(a(r1)); assert(p_never()(r1)); assert(hasp(a, p_never()));
  } else if some(s) && !one(s) && clashes(s) {
    assert(l(r1)); assert(a(r1)); assert(p_never()(r1)); assert(hasp(a, p_never()));
    if !hasp(b, p_never()) {
      let (x, y) = choose|x: TypeId, y: TypeId| #[trigger] s(x) && #[trigger] s(y) && clash(x, y);
      clash_stays(f1, f2, x, y);
    }
  } else {
    assert forall|x: TypeId| #[trigger] l(x) == (s(x) || (x == r1 && is_unknown(r1))) by {
      if !some(s) { assert(is_unknown(r1)); assert(!s(x)); }
      else if one(s) { assert(s(r1)); assert(f1(r1)); if s(x) { assert(x == r1); } }
      else { let v = kd(r1)->Intersection_0@; assert(v.contains(x) <==> s(x)); }
    }
    assert forall|x: TypeId| #[trigger] l(x) implies !is_any(x) && !is_never(x) by { if s(x) { assert(f1(x)); if is_never(x) { assert(p_never()(x)); } } }
    assert(!hasp(a, p_any())) by { if hasp(a, p_any()) { let x = choose|x: TypeId| #[trigger] a(x) && p_any()(x); assert(l(x) || f2(x)); } }
    assert(hasp(a, p_never()) == hasp(b, p_never())) by {
      if hasp(a, p_never()) { let x = choose|x: TypeId| #[trigger] a(x) && p_never()(x); assert(f2(x)); assert(b(x)); }
      if hasp(b, p_never()) { let x = choose|x: TypeId| #[trigger] b(x) && p_never()(x); assert(!f1(x)); assert(a(x)); }
    }
    regroup_i(f1, f2, l, p_boollit()); regroup_i(f1, f2, l, p_numlit()); regroup_i(f1, f2, l, p_strlit()); regroup_i(f1, f2, l, p_biglit()); regroup_i(f1, f2, l, p_tpl()); regroup_i(f1, f2, l, p_unique());
    assert(rest_i(a) =~= rest_i(b)) by {
      assert forall|x: TypeId| #[trigger] rest_i(a)(x) == rest_i(b)(x) by {
        up(f1, f2, p_boollit()); up(f1, f2, p_numlit()); up(f1, f2, p_strlit()); up(f1, f2, p_biglit()); up(f1, f2, p_tpl()); up(f1, f2, p_unique());
        if rest_i(b)(x) && f1(x) { assert(s(x)); assert(l(x)); }
        if rest_i(a)(x) && l(x) { assert(s(x)); }
      }
    }
  }
}
proof fn regroup_i(f1: P, f2: P, l: P, p: P)
  requires forall|x: TypeId| #[trigger] l(x) ==> rest_i(f1)(x) || is_unknown(x), forall|x: TypeId| #[trigger] rest_i(f1)(x) ==> l(x),
    p == p_boollit() || p == p_numlit() || p == p_strlit() || p == p_biglit() || p == p_tpl() || p == p_unique(),
  ensures hasp(both(l, f2), p) == hasp(both(f1, f2), p),
{
  let a = both(l, f2); let b = both(f1, f2);
  if hasp(a, p) { let x = choose|x: TypeId| #[trigger] a(x) && p(x); if l(x) { assert(rest_i(f1)(x)); assert(f1(x)); } assert(b(x)); }
  if hasp(b, p) { let x = choose|x: TypeId| #[trigger] b(x) && p(x); if f1(x) { assert(rest_i(f1)(x)); assert(l(x)); } assert(a(x)); }
}
/// a member of a primitive family leaves a member of that family behind
proof fn family_stays(f1: P, f2: P, x: TypeId) -> (z: TypeId)
  requires rest_i(f1)(x), fam(kd(x)) != 0,
  ensures rest_i(both(f1, f2))(z), fam(kd(z)) == fam(kd(x)), unit_lit(kd(x)) ==> z == x,
{
  let b = both(f1, f2); let r = rest_i(b);
  if r(x) { x }
  else if hasp(b, p_boollit()) && is_boolean(x) { let z = choose|z: TypeId| #[trigger] b(z) && p_boollit()(z); assert(r(z)); z }
  else if hasp(b, p_numlit()) && is_number(x) { let z = choose|z: TypeId| #[trigger] b(z) && p_numlit()(z); assert(r(z)); z }
  else if hasp(b, p_strlit()) && is_string(x) { let z = choose|z: TypeId| #[trigger] b(z) && p_strlit()(z); assert(r(z)); z }
  else if hasp(b, p_tpl()) && is_string(x) { let z = choose|z: TypeId| #[trigger] b(z) && p_tpl()(z); assert(r(z)); z }
  else if hasp(b, p_biglit()) && is_bigint(x) { let z = choose|z: TypeId| #[trigger] b(z) && p_biglit()(z); assert(r(z)); z }
  else { let z = choose|z: TypeId| #[trigger] b(z) && p_unique()(z); assert(r(z)); z }
}
proof fn clash_stays(f1: P, f2: P, x: TypeId, y: TypeId)
  requires rest_i(f1)(x), rest_i(f1)(y), clash(x, y),
  ensures some(rest_i(both(f1, f2))), !one(rest_i(both(f1, f2))), clashes(rest_i(both(f1, f2))),
{
  let z = family_stays(f1, f2, x); let w = family_stays(f1, f2, y);
  assert(clash(z, w)); assert(z != w);
}

pub open spec fn seen(v: Seq<TypeId>, j: int, p: P) -> bool { exists|k: int| 0 <= k < j && p(#[trigger] v[k]) }
proof fn flat_u_step(m: Seq<TypeId>, i: int)
  requires 0 <= i < m.len(),
  ensures
    forall|x: TypeId| #[trigger] flat_u(m.take(i + 1))(x) == (flat_u(m.take(i))(x) || leaf_u(m[i], x)),
    forall|x: TypeId| #[trigger] leaf_u(m[i], x) ==> flat_u(m)(x) && !(kd(x) is Union),
    kd(m[i]) is Union ==> forall|x: TypeId| #[trigger] leaf_u(m[i], x) ==> !is_any(x) && !is_unknown(x) && !is_never(x),
    kd(m[i]) is Any ==> hasp(flat_u(m), p_any()),
    hasp(flat_u(m.take(i + 1)), p_unknown()) == (hasp(flat_u(m.take(i)), p_unknown()) || is_unknown(m[i])),
    hasp(flat_u(m.take(i + 1)), p_any()) == (hasp(flat_u(m.take(i)), p_any()) || is_any(m[i])),
{
  let (a, b) = (m.take(i), m.take(i + 1));
  interned_good(m[i]);
  assert forall|x: TypeId| #[trigger] flat_u(b)(x) == (flat_u(a)(x) || leaf_u(m[i], x)) by {
    if flat_u(b)(x) { let k = choose|k: int| 0 <= k < b.len() && leaf_u(#[trigger] b[k], x); if k < i { assert(leaf_u(a[k], x)); } }
    if flat_u(a)(x) { let k = choose|k: int| 0 <= k < a.len() && leaf_u(#[trigger] a[k], x); assert(leaf_u(b[k], x)); }
    if leaf_u(m[i], x) { assert(leaf_u(b[i], x)); }
  }
  assert forall|x: TypeId| #[trigger] leaf_u(m[i], x) implies flat_u(m)(x) && !(kd(x) is Union) by {
    if kd(m[i]) is Union { let v = kd(m[i])->Union_0@; let k = choose|k: int| 0 <= k < v.len() && v[k] == x; }
  }
  if kd(m[i]) is Union { assert forall|x: TypeId| #[trigger] leaf_u(m[i], x) implies !is_any(x) && !is_unknown(x) && !is_never(x) by {
    let v = kd(m[i])->Union_0@; let k = choose|k: int| 0 <= k < v.len() && v[k] == x; } }
  else { assert(leaf_u(m[i], m[i])); assert(flat_u(b)(m[i])); }
  if is_any(m[i]) { assert(p_any()(m[i])); }
  if is_unknown(m[i]) { assert(p_unknown()(m[i])); }
  split_u(m, i, p_any()); split_u(m, i, p_unknown());
}
proof fn split_u(m: Seq<TypeId>, i: int, p: P)
  requires 0 <= i < m.len(), forall|x: TypeId| #[trigger] flat_u(m.take(i + 1))(x) == (flat_u(m.take(i))(x) || leaf_u(m[i], x)),
    kd(m[i]) is Union ==> forall|x: TypeId| #[trigger] leaf_u(m[i], x) ==> !p(x), p(m[i]) ==> !(kd(m[i]) is Union),
  ensures hasp(flat_u(m.take(i + 1)), p) == (hasp(flat_u(m.take(i)), p) || p(m[i])),
{
  let (a, b) = (m.take(i), m.take(i + 1));
  if hasp(flat_u(b), p) { let x = choose|x: TypeId| #[trigger] flat_u(b)(x) && p(x); if flat_u(a)(x) {} else { assert(leaf_u(m[i], x)); } }
  if hasp(flat_u(a), p) { let x = choose|x: TypeId| #[trigger] flat_u(a)(x) && p(x); assert(flat_u(b)(x)); }
  if p(m[i]) { assert(leaf_u(m[i], m[i])); assert(flat_u(b)(m[i])); }
}
/// no member of a flattened list is a union
proof fn flat_u_flat(m: Seq<TypeId>)
  ensures flat_set_u(flat_u(m)),
{
  assert forall|x: TypeId| #[trigger] flat_u(m)(x) implies !(kd(x) is Union) by {
    let k = choose|k: int| 0 <= k < m.len() && leaf_u(#[trigger] m[k], x); flat_u_step(m, k);
  }
}
proof fn seen_has(v: Seq<TypeId>, f: P, p: P)
  requires forall|x: TypeId| #[trigger] v.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x), forall|x: TypeId| #[trigger] p(x) ==> !is_never(x) && !is_unknown(x),
  ensures seen(v, v.len() as int, p) == hasp(f, p),
{
  if seen(v, v.len() as int, p) { let k = choose|k: int| 0 <= k < v.len() && p(#[trigger] v[k]); assert(v.contains(v[k])); assert(f(v[k])); }
  if hasp(f, p) { let x = choose|x: TypeId| #[trigger] f(x) && p(x); assert(v.contains(x)); let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(p(v[k])); }
}
proof fn seen_union(v: Seq<TypeId>, f: P)
  requires forall|x: TypeId| #[trigger] v.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x),
  ensures seen(v, v.len() as int, p_boolean()) == hasp(f, p_boolean()), seen(v, v.len() as int, p_true()) == hasp(f, p_true()), seen(v, v.len() as int, p_false()) == hasp(f, p_false()),
    seen(v, v.len() as int, p_number()) == hasp(f, p_number()), seen(v, v.len() as int, p_string()) == hasp(f, p_string()), seen(v, v.len() as int, p_bigint()) == hasp(f, p_bigint()), seen(v, v.len() as int, p_symbol()) == hasp(f, p_symbol()),
{
  seen_has(v, f, p_boolean()); seen_has(v, f, p_true()); seen_has(v, f, p_false()); seen_has(v, f, p_number()); seen_has(v, f, p_string()); seen_has(v, f, p_bigint()); seen_has(v, f, p_symbol());
}
proof fn seen_inter(v: Seq<TypeId>, f: P)
  requires forall|x: TypeId| #[trigger] v.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x),
  ensures seen(v, v.len() as int, p_boollit()) == hasp(f, p_boollit()), seen(v, v.len() as int, p_numlit()) == hasp(f, p_numlit()), seen(v, v.len() as int, p_strlit()) == hasp(f, p_strlit()),
    seen(v, v.len() as int, p_biglit()) == hasp(f, p_biglit()), seen(v, v.len() as int, p_tpl()) == hasp(f, p_tpl()), seen(v, v.len() as int, p_unique()) == hasp(f, p_unique()),
{
  seen_has(v, f, p_boollit()); seen_has(v, f, p_numlit()); seen_has(v, f, p_strlit()); seen_has(v, f, p_biglit()); seen_has(v, f, p_tpl()); seen_has(v, f, p_unique());
}
proof fn flat_i_step(m: Seq<TypeId>, i: int)
  requires 0 <= i < m.len(),
  ensures
    forall|x: TypeId| #[trigger] flat_i(m.take(i + 1))(x) == (flat_i(m.take(i))(x) || leaf_i(m[i], x)),
    forall|x: TypeId| #[trigger] leaf_i(m[i], x) ==> flat_i(m)(x) && !(kd(x) is Intersection),
    kd(m[i]) is Intersection ==> forall|x: TypeId| #[trigger] leaf_i(m[i], x) ==> !is_any(x) && !is_unknown(x) && !is_never(x),
    kd(m[i]) is Never ==> hasp(flat_i(m), p_never()),
    hasp(flat_i(m.take(i + 1)), p_never()) == (hasp(flat_i(m.take(i)), p_never()) || is_never(m[i])),
    hasp(flat_i(m.take(i + 1)), p_any()) == (hasp(flat_i(m.take(i)), p_any()) || is_any(m[i])),
{
  let (a, b) = (m.take(i), m.take(i + 1));
  interned_good(m[i]);
  assert forall|x: TypeId| #[trigger] flat_i(b)(x) == (flat_i(a)(x) || leaf_i(m[i], x)) by {
    if flat_i(b)(x) { let k = choose|k: int| 0 <= k < b.len() && leaf_i(#[trigger] b[k], x); if k < i { assert(leaf_i(a[k], x)); } }
    if flat_i(a)(x) { let k = choose|k: int| 0 <= k < a.len() && leaf_i(#[trigger] a[k], x); assert(leaf_i(b[k], x)); }
    if leaf_i(m[i], x) { assert(leaf_i(b[i], x)); }
  }
  assert forall|x: TypeId| #[trigger] leaf_i(m[i], x) implies flat_i(m)(x) && !(kd(x) is Intersection) by {
    if kd(m[i]) is Intersection { let v = kd(m[i])->Intersection_0@; let k = choose|k: int| 0 <= k < v.len() && v[k] == x; }
  }
  if kd(m[i]) is Intersection { assert forall|x: TypeId| #[trigger] leaf_i(m[i], x) implies !is_any(x) && !is_unknown(x) && !is_never(x) by {
    let v = kd(m[i])->Intersection_0@; let k = choose|k: int| 0 <= k < v.len() && v[k] == x; } }
  else { assert(leaf_i(m[i], m[i])); assert(flat_i(b)(m[i])); }
  if is_any(m[i]) { assert(p_any()(m[i])); }
  if is_never(m[i]) { assert(p_never()(m[i])); }
  split_i(m, i, p_any()); split_i(m, i, p_never());
}
proof fn split_i(m: Seq<TypeId>, i: int, p: P)
  requires 0 <= i < m.len(), forall|x: TypeId| #[trigger] flat_i(m.take(i + 1))(x) == (flat_i(m.take(i))(x) || leaf_i(m[i], x)),
    kd(m[i]) is Intersection ==> forall|x: TypeId| #[trigger] leaf_i(m[i], x) ==> !p(x), p(m[i]) ==> !(kd(m[i]) is Intersection),
  ensures hasp(flat_i(m.take(i + 1)), p) == (hasp(flat_i(m.take(i)), p) || p(m[i])),
{
  let (a, b) = (m.take(i), m.take(i + 1));
  if hasp(flat_i(b), p) { let x = choose|x: TypeId| #[trigger] flat_i(b)(x) && p(x); if flat_i(a)(x) {} else { assert(leaf_i(m[i], x)); } }
  if hasp(flat_i(a), p) { let x = choose|x: TypeId| #[trigger] flat_i(a)(x) && p(x); assert(flat_i(b)(x)); }
  if p(m[i]) { assert(leaf_i(m[i], m[i])); assert(flat_i(b)(m[i])); }
}
proof fn flat_i_flat(m: Seq<TypeId>)
  ensures forall|x: TypeId| #[trigger] flat_i(m)(x) ==> !(kd(x) is Intersection),
{
  assert forall|x: TypeId| #[trigger] flat_i(m)(x) implies !(kd(x) is Intersection) by {
    let k = choose|k: int| 0 <= k < m.len() && leaf_i(#[trigger] m[k], x); flat_i_step(m, k);
  }
}

spec fn one_hot(b: u8) -> bool { b == 1 || b == 2 || b == 4 || b == 8 || b == 16 }
proof fn bits()
  ensures 1u8 << 0u8 == 1u8, 1u8 << 1u8 == 2u8, 1u8 << 2u8 == 4u8, 1u8 << 3u8 == 8u8, 1u8 << 4u8 == 16u8,
{
  assert(1u8 << 0u8 == 1u8 && 1u8 << 1u8 == 2u8 && 1u8 << 2u8 == 4u8 && 1u8 << 3u8 == 8u8 && 1u8 << 4u8 == 16u8) by (bit_vector);
}
spec fn wsub(c: u8) -> u8 { if c == 0 { 255 } else { (c - 1) as u8 } }
proof fn bits_or(a: u8, b: u8)
  requires one_hot(a) || a == 0, one_hot(b) || b == 0,
  ensures a == 0 ==> a | b == b, b == 0 ==> a | b == a, a == b ==> a | b == a, (a | b) & wsub(a | b) != 0 <==> a != 0 && b != 0 && a != b,
{
  let c = a | b;
  assert((a == 0 || a == 1 || a == 2 || a == 4 || a == 8 || a == 16) && (b == 0 || b == 1 || b == 2 || b == 4 || b == 8 || b == 16) ==>
    (a == 0 ==> a | b == b) && (b == 0 ==> a | b == a) && (a == b ==> a | b == a) && ((a | b) == 0 <==> a == 0 && b == 0)
    && (((a | b) != 0 && (a | b) & sub(a | b, 1) != 0) <==> a != 0 && b != 0 && a != b)) by (bit_vector);
  if c == 0 { assert(0u8 & 255u8 == 0) by (bit_vector); }
}
spec fn lit_seen(v: Seq<TypeId>, j: int, l: Option<TypeId>, p: P) -> bool {
  match l {
    Some(t) => (exists|k: int| 0 <= k < j && #[trigger] v[k] == t && p(t)) && forall|k: int| 0 <= k < j && p(#[trigger] v[k]) ==> v[k] == t,
    None => forall|k: int| 0 <= k < j ==> !p(#[trigger] v[k]),
  }
}
proof fn in_push(v: Seq<TypeId>, t: TypeId, x: TypeId)
  ensures v.push(t).contains(x) <==> v.contains(x) || x == t,
{
  let w = v.push(t);
  if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; if i < v.len() { assert(v[i] == x); } }
  if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(w[i] == x); }
  assert(w[v.len() as int] == t);
}
proof fn in_append(v: Seq<TypeId>, u: Seq<TypeId>, x: TypeId)
  ensures (v + u).contains(x) <==> v.contains(x) || u.contains(x),
{
  let w = v + u;
  if w.contains(x) { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; if i < v.len() { assert(v[i] == x); } else { assert(u[i - v.len()] == x); } }
  if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(w[i] == x); }
  if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(w[v.len() + i] == x); }
}
pub uninterp spec fn scmp(a: SignatureId, b: SignatureId) -> Ordering;
pub open spec fn sorder() -> spec_fn(SignatureId, SignatureId) -> Ordering { |a: SignatureId, b: SignatureId| scmp(a, b) }
// C08
pub axiom fn sorder_total() ensures total_order(sorder()), antisym(sorder());
/// overload sets are sorted and freed of repetitions, every other kind stays as it is
spec fn canonical_kind(r: TypeKind, k: TypeKind) -> bool {
  match (r, k) {
    (TypeKind::Callable { overloads: v }, TypeKind::Callable { overloads: w }) =>
      sorted_by_order(v@, sorder()) && forall|x: SignatureId| #[trigger] v@.contains(x) <==> w@.contains(x),
    _ => same_kind(r, k),
  }
}
// ---- the code ----------------------------------------------------------------
impl TypeStore {
  spec fn wf(self) -> bool {
    let p = self.primitives;
    is_any(p.any) && is_unknown(p.unknown) && is_never(p.never) && is_boolean(p.boolean)
  }
  // DashMap lookup; panics on an id the store never made
  #[verifier::external_body]
  fn type_kind(&self, id: TypeId) -> (r: TypeKind) ensures same_kind(r, kd(id)) { unimplemented!() }
  // proved in C06: the id returned names the kind inserted
  #[verifier::external_body]
  fn insert_type_direct(&self, kind: TypeKind) -> (r: TypeId) requires good(kind) ensures same_kind(kd(r), kind) { unimplemented!() }
  // C08
  #[verifier::external_body]
  fn type_cmp(&self, a: TypeId, b: TypeId) -> (r: Ordering) ensures r == tcmp(a, b) { unimplemented!() }
  #[verifier::external_body]
  fn signature_cmp(&self, a: SignatureId, b: SignatureId) -> (r: Ordering) ensures r == scmp(a, b) { unimplemented!() }

/*@fn types-ts-interned/src/store.rs :: TypeStore::sort_and_dedup
#rewrite `members . sort_by ( | a , b | self . type_cmp ( * a , * b ) )` => `let cmp = |a: &TypeId, b: &TypeId| -> (o: Ordering) ensures o == tcmp(*a, *b) { self.type_cmp(*a, *b) }; proof { torder_total(); assert(compares(cmp, torder())); } members.sort_by(cmp)`
#rewrite `members . dedup ( )` => `vec_dedup(members)`
#spec
  ensures strict(final(members)@), forall|x: TypeId| #[trigger] final(members)@.contains(x) <==> old(members)@.contains(x),
#entry
  proof { torder_total(); assert(total_order(torder())); }
#at after `members . sort_by ( | a , b | self . type_cmp ( * a , * b ) ) ;`
  proof {
    assert(sorted_by_order(members@, torder()));
    dedup_strict(members@);
    assert forall|x: TypeId| #[trigger] members@.contains(x) <==> old(members)@.contains(x) by {
      assert(members@.to_multiset().contains(x) <==> members@.contains(x)) by { members@.to_multiset_ensures(); }
      assert(old(members)@.to_multiset().contains(x) <==> old(members)@.contains(x)) by { old(members)@.to_multiset_ensures(); }
    }
  }
@*/

/*@fn types-ts-interned/src/store.rs :: TypeStore::canon
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
  requires self.wf(),
  ensures r == ty,
#entry
  proof { union_again(ty); inter_again(ty);
    assert forall|r: TypeId| #[trigger] union_is(r, flat_u(kd(ty)->Union_0@)) && kd(ty) is Union implies r == ty by { union_unique(r, ty, flat_u(kd(ty)->Union_0@)); }
    assert forall|r: TypeId| #[trigger] inter_is(r, flat_i(kd(ty)->Intersection_0@)) && kd(ty) is Intersection implies r == ty by { inter_unique(r, ty, flat_i(kd(ty)->Intersection_0@)); }
  }
@*/

/*@fn types-ts-interned/src/store.rs :: TypeStore::union
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `flat . extend ( inner )` => `vec_extend(&mut flat, inner)`
#rewrite `flat . retain ( | member | match self . type_kind ( * member ) {` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == keep_u(kd(*member), has_boolean, has_number, has_string, has_bigint, has_symbol) { match self.type_kind(*member) {`
#rewrite `_ => true , } )` => `_ => true, } })`
#spec
  requires self.wf(),
  ensures union_is(r, flat_u(members@)),
#entry
  let ghost ms = members@; let ghost f = flat_u(ms);
  proof { assert(ms.take(ms.len() as int) =~= ms); flat_u_flat(ms); }
#loop 0 while=ix
    invariant
      self.wf(), members@ == ms, ix_s@ == ms, f == flat_u(ms), ix <= ms.len(),
      forall|x: TypeId| #[trigger] flat@.contains(x) <==> flat_u(ms.take(ix as int))(x) && !is_never(x) && !is_unknown(x),
      has_unknown <==> hasp(flat_u(ms.take(ix as int)), p_unknown()),
      !hasp(flat_u(ms.take(ix as int)), p_any()),
    decreases ms.len() - ix,
#at before `match self . type_kind ( member ) {`
    let ghost flat0 = flat@;
    proof { flat_u_step(ms, ix - 1); assert(ms[ix - 1] == member); }
#at afterblock `match self . type_kind ( member ) {`
    proof {
      assert forall|x: TypeId| #[trigger] flat@.contains(x) <==> flat_u(ms.take(ix as int))(x) && !is_never(x) && !is_unknown(x) by {
        assert(flat_u(ms.take(ix as int))(x) == (flat_u(ms.take(ix - 1))(x) || leaf_u(member, x)));
        assert(flat0.contains(x) <==> flat_u(ms.take(ix - 1))(x) && !is_never(x) && !is_unknown(x));
        match kd(member) {
          TypeKind::Union(v) => { in_append(flat0, v@, x); assert(flat@ == flat0 + v@); assert(leaf_u(member, x) == v@.contains(x)); assert(flat@.contains(x) <==> flat0.contains(x) || v@.contains(x)); assert(flat@.contains(x) <==> flat_u(ms.take(ix as int))(x) && !is_never(x) && !is_unknown(x)); }
          TypeKind::Any | TypeKind::Unknown | TypeKind::Never => { assert(flat@ == flat0); assert(leaf_u(member, x) ==> x == member); assert(flat@.contains(x) <==> flat_u(ms.take(ix as int))(x) && !is_never(x) && !is_unknown(x)); }
          _ => { in_push(flat0, member, x); assert(flat@ == flat0.push(member)); assert(leaf_u(member, x) <==> x == member); assert(flat@.contains(x) <==> flat_u(ms.take(ix as int))(x) && !is_never(x) && !is_unknown(x)); }
        }
      }
    }
#loop 1 while=jx
    invariant
      jx_s@ == flat@, jx <= flat@.len(),
      has_boolean == seen(flat@, jx as int, p_boolean()), has_true == seen(flat@, jx as int, p_true()), has_false == seen(flat@, jx as int, p_false()),
      has_number == seen(flat@, jx as int, p_number()), has_string == seen(flat@, jx as int, p_string()), has_bigint == seen(flat@, jx as int, p_bigint()), has_symbol == seen(flat@, jx as int, p_symbol()),
    decreases flat@.len() - jx,
#at before `match self . type_kind ( * member ) {` 0
    proof { assert(flat@[jx - 1] == *member); }
#at before `if has_true && has_false && ! has_boolean {`
    let ghost flat1 = flat@;
    proof { seen_union(flat1, f); }
#at before `flat . retain (`
    let ghost flat2 = flat@;
    proof {
      assert(has_boolean == bool_u(f));
      assert forall|x: TypeId| #[trigger] flat2.contains(x) <==> (f(x) && !is_never(x)) || (is_boolean(x) && bool_u(f)) by {
        assert(flat1.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x));
        if f(x) && is_unknown(x) { assert(p_unknown()(x)); }
        if is_boolean(x) { interned_once(x, self.primitives.boolean); }
        if hasp(f, p_boolean()) { let z = choose|z: TypeId| #[trigger] f(z) && p_boolean()(z); interned_once(z, self.primitives.boolean); }
        else if bool_u(f) { in_push(flat1, self.primitives.boolean, x); }
      }
    }
#at before `self . sort_and_dedup ( & mut flat ) ;`
    proof { assert forall|x: TypeId| #[trigger] flat@.contains(x) <==> rest_u(f)(x) by { assert(flat2.contains(x) <==> (f(x) && !is_never(x)) || (is_boolean(x) && bool_u(f))); } }
#at after `self . sort_and_dedup ( & mut flat ) ;`
    proof {
      assert(lists(flat@, rest_u(f)));
      many(flat@, rest_u(f)); rest_u_again(f, flat@);
      assert forall|i: int| 0 <= i < flat@.len() implies !(kd(#[trigger] flat@[i]) is Any || kd(flat@[i]) is Unknown || kd(flat@[i]) is Never || kd(flat@[i]) is Union) by {
        let x = flat@[i]; assert(flat@.contains(x)); assert(rest_u(f)(x)); if f(x) { has_at(f, x); }
      }
    }
@*/

/*@fn types-ts-interned/src/store.rs :: TypeStore::intersection
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `flat . extend ( inner )` => `vec_extend(&mut flat, inner)`
#rewrite `flat . retain ( | member | ! matches ! ( self . type_kind ( * member ) , TypeKind :: Boolean ) )` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == !is_boolean(*member) { !matches!(self.type_kind(*member), TypeKind::Boolean) })`
#rewrite `flat . retain ( | member | ! matches ! ( self . type_kind ( * member ) , TypeKind :: Number ) )` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == !is_number(*member) { !matches!(self.type_kind(*member), TypeKind::Number) })`
#rewrite `flat . retain ( | member | ! matches ! ( self . type_kind ( * member ) , TypeKind :: String ) )` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == !is_string(*member) { !matches!(self.type_kind(*member), TypeKind::String) })`
#rewrite `flat . retain ( | member | ! matches ! ( self . type_kind ( * member ) , TypeKind :: BigInt ) )` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == !is_bigint(*member) { !matches!(self.type_kind(*member), TypeKind::BigInt) })`
#rewrite `flat . retain ( | member | ! matches ! ( self . type_kind ( * member ) , TypeKind :: Symbol ) )` => `vec_retain(&mut flat, |member: &TypeId| -> (keep: bool) ensures keep == !is_symbol(*member) { !matches!(self.type_kind(*member), TypeKind::Symbol) })`
#rewrite `const FAMILY_STRING : u8 = 1 << 0 ;` => `let FAMILY_STRING: u8 = 1 << 0;`
#rewrite `const FAMILY_NUMBER : u8 = 1 << 1 ;` => `let FAMILY_NUMBER: u8 = 1 << 1;`
#rewrite `const FAMILY_BOOLEAN : u8 = 1 << 2 ;` => `let FAMILY_BOOLEAN: u8 = 1 << 2;`
#rewrite `const FAMILY_BIGINT : u8 = 1 << 3 ;` => `let FAMILY_BIGINT: u8 = 1 << 3;`
#rewrite `const FAMILY_SYMBOL : u8 = 1 << 4 ;` => `let FAMILY_SYMBOL: u8 = 1 << 4;`
#spec
  requires self.wf(),
  ensures inter_is(r, flat_i(members@)),
#entry
  let ghost ms = members@; let ghost f = flat_i(ms);
  proof { assert(ms.take(ms.len() as int) =~= ms); flat_i_flat(ms); }
#loop 0 while=ix
    invariant
      self.wf(), members@ == ms, ix_s@ == ms, f == flat_i(ms), ix <= ms.len(),
      forall|x: TypeId| #[trigger] flat@.contains(x) <==> flat_i(ms.take(ix as int))(x) && !is_any(x) && !is_unknown(x),
      has_any <==> hasp(flat_i(ms.take(ix as int)), p_any()),
      !hasp(flat_i(ms.take(ix as int)), p_never()),
    decreases ms.len() - ix,
#at before `match self . type_kind ( member ) {`
    let ghost flat0 = flat@;
    proof { flat_i_step(ms, ix - 1); assert(ms[ix - 1] == member); }
#at afterblock `match self . type_kind ( member ) {`
    proof {
      assert forall|x: TypeId| #[trigger] flat@.contains(x) <==> flat_i(ms.take(ix as int))(x) && !is_any(x) && !is_unknown(x) by {
        assert(flat_i(ms.take(ix as int))(x) == (flat_i(ms.take(ix - 1))(x) || leaf_i(member, x)));
        match kd(member) {
          TypeKind::Intersection(v) => { in_append(flat0, v@, x); assert(flat@ == flat0 + v@); assert(leaf_i(member, x) == v@.contains(x)); assert(flat@.contains(x) <==> flat0.contains(x) || v@.contains(x)); assert(flat@.contains(x) <==> flat_i(ms.take(ix as int))(x) && !is_any(x) && !is_unknown(x)); }
          TypeKind::Any | TypeKind::Unknown | TypeKind::Never => { assert(flat@ == flat0); assert(leaf_i(member, x) ==> x == member); assert(flat@.contains(x) <==> flat_i(ms.take(ix as int))(x) && !is_any(x) && !is_unknown(x)); }
          _ => { in_push(flat0, member, x); assert(flat@ == flat0.push(member)); assert(leaf_i(member, x) <==> x == member); assert(flat@.contains(x) <==> flat_i(ms.take(ix as int))(x) && !is_any(x) && !is_unknown(x)); }
        }
      }
    }
#loop 1 while=jx
    invariant
      jx_s@ == flat@, jx <= flat@.len(),
      has_boolean_literal == seen(flat@, jx as int, p_boollit()), has_number_literal == seen(flat@, jx as int, p_numlit()), has_string_literal == seen(flat@, jx as int, p_strlit()),
      has_bigint_literal == seen(flat@, jx as int, p_biglit()), has_template_literal == seen(flat@, jx as int, p_tpl()), has_unique_symbol == seen(flat@, jx as int, p_unique()),
    decreases flat@.len() - jx,
#at before `match self . type_kind ( * member ) {` 0
    proof { assert(flat@[jx - 1] == *member); }
#at before `if has_boolean_literal {`
    let ghost flat1 = flat@;
    proof {
      assert forall|x: TypeId| #[trigger] flat1.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x) by {
        if f(x) && is_any(x) { assert(p_any()(x)); } if f(x) && is_never(x) { assert(p_never()(x)); }
      }
      seen_inter(flat1, f);
    }
#at before `if flat . is_empty ( ) {`
    proof {
      assert forall|x: TypeId| #[trigger] flat@.contains(x) <==> rest_i(f)(x) by {
        assert(flat1.contains(x) <==> f(x) && !is_never(x) && !is_unknown(x));
        if f(x) && is_never(x) { assert(p_never()(x)); }
      }
      if flat@.len() > 0 { assert(flat@.contains(flat@[0])); assert(rest_i(f)(flat@[0])); }
      assert(flat@.len() == 0 ==> !some(rest_i(f))) by { if some(rest_i(f)) { let x = choose|x: TypeId| #[trigger] rest_i(f)(x); assert(flat@.contains(x)); } }
    }
#at after `self . sort_and_dedup ( & mut flat ) ;`
    proof {
      assert(lists(flat@, rest_i(f)));
      many(flat@, rest_i(f)); rest_i_again(f, flat@);
      assert forall|i: int| 0 <= i < flat@.len() implies rest_i(f)(#[trigger] flat@[i]) by { assert(flat@.contains(flat@[i])); }
      assert forall|i: int| 0 <= i < flat@.len() implies !(kd(#[trigger] flat@[i]) is Any || kd(flat@[i]) is Unknown || kd(flat@[i]) is Never || kd(flat@[i]) is Intersection) by {
        let x = flat@[i]; assert(rest_i(f)(x)); if is_any(x) { assert(p_any()(x)); } if is_never(x) { assert(p_never()(x)); }
      }
    }
#at before `let mut families : u8 = 0 ;`
    proof { bits(); }
#loop 2 while=kx
    invariant
      self.wf(), members@ == ms, f == flat_i(ms), kx_s@ == flat@, kx <= flat@.len(), !hasp(f, p_never()), !hasp(f, p_any()), flat@.len() >= 2, some(rest_i(f)), !one(rest_i(f)),
      forall|i: int| 0 <= i < flat@.len() ==> rest_i(f)(#[trigger] flat@[i]),
      FAMILY_STRING == 1, FAMILY_NUMBER == 2, FAMILY_BOOLEAN == 4, FAMILY_BIGINT == 8, FAMILY_SYMBOL == 16,
      one_hot(families) || families == 0,
      forall|k: int| 0 <= k < kx ==> fam(kd(#[trigger] flat@[k])) == 0 || fam(kd(flat@[k])) == families,
      families != 0 ==> exists|k: int| 0 <= k < kx && fam(kd(#[trigger] flat@[k])) == families,
      lit_seen(flat@, kx as int, bool_literal, p_boollit()), lit_seen(flat@, kx as int, number_literal, p_numlit()), lit_seen(flat@, kx as int, string_literal, p_strlit()), lit_seen(flat@, kx as int, bigint_literal, p_biglit()),
    decreases flat@.len() - kx,
#at before `match self . type_kind ( * member ) {` 1
    let ghost fam0 = families;
    proof {
      bits();
      assert(flat@[kx - 1] == *member);
      assert(rest_i(f)(*member));
      assert forall|k: int| 0 <= k < kx && clash(#[trigger] flat@[k], *member) implies clashes(rest_i(f)) by { assert(rest_i(f)(flat@[k])); }
    }
#at before `if families & families . wrapping_sub ( 1 ) != 0 {`
    proof {
      let m = fam(kd(*member));
      assert(m == 0 ==> families == fam0);
      assert(m != 0 ==> families == fam0 | m);
      bits_or(fam0, m);
      if fam0 != 0 && m != 0 && fam0 != m { let k = choose|k: int| 0 <= k < kx - 1 && fam(kd(#[trigger] flat@[k])) == fam0; assert(clash(flat@[k], *member)); }
    }
#at before `self . insert_type_direct ( TypeKind :: Intersection ( flat ) )`
    proof {
      assert(!clashes(in_seq(flat@))) by {
        if clashes(in_seq(flat@)) {
          let (x, y) = choose|x: TypeId, y: TypeId| #[trigger] in_seq(flat@)(x) && #[trigger] in_seq(flat@)(y) && clash(x, y);
          let i = choose|i: int| 0 <= i < flat@.len() && flat@[i] == x; let j = choose|j: int| 0 <= j < flat@.len() && flat@[j] == y;
          assert(fam(kd(flat@[i])) == families && fam(kd(flat@[j])) == families);
        }
      }
    }
@*/

  // HashSet-backed, keeps the first of equal ids
  #[verifier::external_body]
  fn stable_dedup_signatures(signatures: &mut Vec<SignatureId>)
    ensures forall|x: SignatureId| #[trigger] final(signatures)@.contains(x) <==> old(signatures)@.contains(x),
  { unimplemented!() }
/*@fn types-ts-interned/src/store.rs :: TypeStore::canonicalize_kind
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `args . into_iter ( ) . map ( | t | self . canon ( t ) ) . collect ( )` => `{ let ghost a0 = args@; let v: Vec<TypeId> = args.into_iter().map(|t: TypeId| -> (u: TypeId) ensures u == t { self.canon(t) }).collect(); proof { assert(v@ =~= a0); } v }`
#rewrite `constraint . map ( | c | self . canon ( c ) )` => `constraint.map(|c: TypeId| -> (u: TypeId) ensures u == c { self.canon(c) })`
#rewrite `overloads . sort_by ( | a , b | self . signature_cmp ( * a , * b ) )` => `let ghost o0 = overloads@; let cmp = |a: &SignatureId, b: &SignatureId| -> (o: Ordering) ensures o == scmp(*a, *b) { self.signature_cmp(*a, *b) }; proof { sorder_total(); assert(compares(cmp, sorder())); } overloads.sort_by(cmp); proof { assert forall|x: SignatureId| #[trigger] overloads@.contains(x) <==> o0.contains(x) by { overloads@.to_multiset_ensures(); o0.to_multiset_ensures(); assert(overloads@.to_multiset().contains(x) <==> overloads@.contains(x)); assert(o0.to_multiset().contains(x) <==> o0.contains(x)); } }`
#spec
  requires self.wf(),
  ensures canonical_kind(r, kind),
#loop 0 while=ix
    invariant self.wf(), kind is Tuple, elems@ == kind->Tuple_0@, ix <= elems@.len(),
    decreases elems@.len() - ix,
#at exit `for elem in elems . iter_mut ( ) {`
    proof { assert(elems@ =~= kind->Tuple_0@); }
#loop 1 while=jx
    invariant self.wf(), kind is TemplateLiteral, tpl.head == kind->TemplateLiteral_0.head, tpl.spans@ == kind->TemplateLiteral_0.spans@, jx <= tpl.spans@.len(),
    decreases tpl.spans@.len() - jx,
#at exit `for span in tpl . spans . iter_mut ( ) {`
    proof { assert(tpl.spans@ =~= kind->TemplateLiteral_0.spans@); }
#at afterblock `if let Some ( as_type ) = mapped . as_type . as_mut ( ) {`
    proof { assert(mapped.name_type == kind->Mapped_0.name_type); assert(mapped.as_type == kind->Mapped_0.as_type); assert(mapped == kind->Mapped_0); }
@*/
/*@fn types-ts-interned/src/store.rs :: TypeStore::intern_type
#ret r
#spec
  requires self.wf(),
  ensures
    kind matches TypeKind::Union(m) ==> union_is(r, flat_u(m@)),
    kind matches TypeKind::Intersection(m) ==> inter_is(r, flat_i(m@)),
    !(kind is Union || kind is Intersection) ==> canonical_kind(kd(r), kind),
@*/
}
}
fn main() {}
