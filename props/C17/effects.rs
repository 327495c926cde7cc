use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- the syntax tree; what deciding the effects of an expression does not look into is opaque
#[verifier::external_body]
pub struct ArrowFuncExpr { x: u8 }
#[verifier::external_body]
pub struct CallExpr { x: u8 }
#[verifier::external_body]
pub struct ComputedMemberExpr { x: u8 }
#[verifier::external_body]
pub struct FuncExpr { x: u8 }
#[verifier::external_body]
pub struct IdExpr { x: u8 }
#[verifier::external_body]
pub struct ImportExpr { x: u8 }
#[verifier::external_body]
pub struct ImportMeta { x: u8 }
#[verifier::external_body]
pub struct MemberExpr { x: u8 }
#[verifier::external_body]
pub struct NewTarget { x: u8 }
#[verifier::external_body]
pub struct SuperExpr { x: u8 }
#[verifier::external_body]
pub struct TaggedTemplateExpr { x: u8 }
#[verifier::external_body]
pub struct ThisExpr { x: u8 }
#[verifier::external_body]
pub struct UnaryPostfixExpr { x: u8 }
#[verifier::external_body]
pub struct JsxElem { x: u8 }
#[verifier::external_body]
pub struct JsxExprContainer { x: u8 }
#[verifier::external_body]
pub struct JsxMemberExpr { x: u8 }
#[verifier::external_body]
pub struct JsxName { x: u8 }
#[verifier::external_body]
pub struct JsxSpreadAttr { x: u8 }
#[verifier::external_body]
pub struct JsxText { x: u8 }
#[verifier::external_body]
pub struct ArrPat { x: u8 }
#[verifier::external_body]
pub struct IdPat { x: u8 }
#[verifier::external_body]
pub struct ObjPat { x: u8 }
#[verifier::external_body]
pub struct InstantiationExpr { x: u8 }
#[verifier::external_body]
pub struct TypeAssertionExpr { x: u8 }
#[verifier::external_body]
pub struct NonNullAssertionExpr { x: u8 }
#[verifier::external_body]
pub struct SatisfiesExpr { x: u8 }
#[verifier::external_body]
pub struct NodeAssocData { x: u8 }
#[verifier::external_body]
pub struct Decorator { x: u8 }
#[verifier::external_body]
pub struct ClassOrFuncName { x: u8 }
#[verifier::external_body]
pub struct TypeParameter { x: u8 }
#[verifier::external_body]
pub struct TypeExpr { x: u8 }
#[verifier::external_body]
pub struct ClassOrObjGetter { x: u8 }
#[verifier::external_body]
pub struct ClassOrObjSetter { x: u8 }
#[verifier::external_body]
pub struct ClassOrObjMethod { x: u8 }
#[verifier::external_body]
pub struct ClassIndexSignature { x: u8 }
#[verifier::external_body]
pub struct ClassStaticBlock { x: u8 }
#[verifier::external_body]
pub struct ClassOrObjMemberDirectKey { x: u8 }
#[verifier::external_body]
pub struct Accessibility { x: u8 }
/*@type parse-js/src/loc.rs :: Loc
#derive Clone, Copy
@*/
/*@type parse-js/src/num.rs :: JsNumber
#derive Copy, Clone
@*/
/*@type parse-js/src/operator.rs :: OperatorName
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type parse-js/src/ast/node.rs :: Node
#rewrite `S : Drive + DriveMut` => `S`
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitBigIntExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitBoolExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitNullExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitNumExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitStrExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitRegexExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitArrElem
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitArrExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitTemplatePart
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitTemplateExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitObjExpr
@*/
/*@type parse-js/src/ast/class_or_object.rs :: ClassOrObjKey
@*/
/*@type parse-js/src/ast/class_or_object.rs :: ClassOrObjVal
@*/
/*@type parse-js/src/ast/class_or_object.rs :: ObjMemberType
@*/
/*@type parse-js/src/ast/class_or_object.rs :: ObjMember
@*/
/*@type parse-js/src/ast/class_or_object.rs :: ClassMember
@*/
/*@type parse-js/src/ast/expr/mod.rs :: UnaryExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: BinaryExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: CondExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: ClassExpr
#rewrite `super :: type_expr :: TypeParameter` => `TypeParameter`
@*/
/*@type parse-js/src/ast/expr/mod.rs :: Expr
@*/
/*@type parse-js/src/ast/stmt/decl.rs :: ClassDecl
@*/
/*@type minify-js/src/opt/side_effects.rs :: BigIntKind
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type minify-js/src/opt/side_effects.rs :: BigIntSign
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
use OperatorName::*;
trait Inner<T> { fn inner(&self) -> &T; }
impl<T> Inner<T> for Box<T> {
  // `Box::as_ref`
  #[verifier::external_body]
  fn inner(&self) -> (r: &T) ensures *r == **self { unimplemented!() }
}
// `text == "0"`
#[verifier::external_body]
fn is_text(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }

// ---- specification: ECMAScript's evaluation, one level at a time
/// the kinds of values (symbols count as objects: converting one throws)
pub enum K { Undefined, Null, Bool, Num, Str, BigInt, Obj }
/// evaluating e can yield a value of kind k
pub uninterp spec fn may(e: Node<Expr>, k: K) -> bool;
/// evaluating e ends, normally, having run no code of the program and changed nothing (nor does any
/// part of e do otherwise that evaluating e may reach)
pub uninterp spec fn quiet(e: Node<Expr>) -> bool;
/// the value of a BigInt literal, by its decimal text
pub uninterp spec fn dec_val(s: Seq<char>) -> nat;
/// the BigInt e is, when that can be seen
pub uninterp spec fn big(e: Node<Expr>) -> Option<int>;
spec fn only(e: Node<Expr>, k: K) -> bool { forall|x: K| #[trigger] may(e, x) ==> x == k }
spec fn primitive(e: Node<Expr>) -> bool { !may(e, K::Obj) }
spec fn nullish(e: Node<Expr>) -> bool { forall|x: K| #[trigger] may(e, x) ==> x == K::Undefined || x == K::Null }
/// e's value, converted to a number, can be a BigInt (an object converts to what its methods give)
spec fn maybe_big(e: Node<Expr>) -> bool { may(e, K::BigInt) || may(e, K::Obj) }
spec fn literal(op: K, k: K) -> bool { k == op }
/// the text of a BigInt literal is decimal without needless zeros
axiom fn dec_zero(s: Seq<char>) ensures (dec_val(s) == 0) == (s == "0"@);
axiom fn big_def(e: Node<Expr>) ensures big(e) == (match *e.stx {
  Expr::LitBigInt(b) => Some(dec_val(b.stx.value@) as int),
  Expr::Unary(u) => if u.stx.operator == UnaryNegation && big(u.stx.argument) is Some { Some(-(big(u.stx.argument)->0)) } else { None },
  _ => None,
});
axiom fn may_def(e: Node<Expr>) ensures forall|k: K| #[trigger] may(e, k) == (match *e.stx {
  Expr::LitNull(_) => k == K::Null,
  Expr::LitBool(_) => k == K::Bool,
  Expr::LitNum(_) => k == K::Num,
  Expr::LitStr(_) => k == K::Str,
  Expr::LitTemplate(_) => k == K::Str,
  Expr::LitBigInt(_) => k == K::BigInt,
  Expr::LitRegex(_) => k == K::Obj,
  Expr::LitArr(_) => k == K::Obj,
  Expr::LitObj(_) => k == K::Obj,
  Expr::ArrowFunc(_) => k == K::Obj,
  Expr::Func(_) => k == K::Obj,
  Expr::Class(_) => k == K::Obj,
  Expr::Unary(u) => match u.stx.operator {
    UnaryPlus => k == K::Num,
    UnaryNegation | BitwiseNot => (k == K::Num && !only(u.stx.argument, K::BigInt)) || (k == K::BigInt && maybe_big(u.stx.argument)),
    LogicalNot | Delete => k == K::Bool,
    Typeof => k == K::Str,
    Void => k == K::Undefined,
    _ => true,
  },
  Expr::Binary(b) => { let (l, r) = (b.stx.left, b.stx.right); match b.stx.operator {
    Addition => (k == K::Str && (may(l, K::Str) || may(l, K::Obj) || may(r, K::Str) || may(r, K::Obj)))
      || (k == K::Num && !only(l, K::Str) && !only(r, K::Str) && !only(l, K::BigInt) && !only(r, K::BigInt))
      || (k == K::BigInt && maybe_big(l) && maybe_big(r)),
    Subtraction | Multiplication | Division | Remainder | Exponentiation | BitwiseAnd | BitwiseOr | BitwiseXor | BitwiseLeftShift | BitwiseRightShift =>
      (k == K::Num && !only(l, K::BigInt) && !only(r, K::BigInt)) || (k == K::BigInt && maybe_big(l) && maybe_big(r)),
    BitwiseUnsignedRightShift => k == K::Num && !only(l, K::BigInt) && !only(r, K::BigInt),
    LessThan | LessThanOrEqual | GreaterThan | GreaterThanOrEqual | Equality | Inequality | StrictEquality | StrictInequality | In | Instanceof => k == K::Bool,
    LogicalAnd | LogicalOr | NullishCoalescing => may(l, k) || may(r, k),
    Comma => may(r, k),
    _ => true,
  } },
  Expr::Cond(c) => may(c.stx.consequent, k) || may(c.stx.alternate, k),
  _ => true,
});
spec fn same_numbers(l: Node<Expr>, r: Node<Expr>) -> bool {
  (only(l, K::BigInt) && only(r, K::BigInt)) || (!may(l, K::BigInt) && !may(r, K::BigInt))
}
spec fn quiet_elem(x: LitArrElem) -> bool { match x { LitArrElem::Single(e) => quiet(e), LitArrElem::Rest(_) => false, LitArrElem::Empty => true } }
spec fn quiet_part(x: LitTemplatePart) -> bool { match x { LitTemplatePart::Substitution(e) => quiet(e) && primitive(e), LitTemplatePart::String(_) => true } }
spec fn quiet_prop(x: Node<ObjMember>) -> bool {
  match x.stx.typ {
    ObjMemberType::Valued { key, val } => key is Direct && match val { ClassOrObjVal::Prop(Some(e)) => quiet(e), ClassOrObjVal::StaticBlock(_) => false, _ => true },
    _ => false,
  }
}
spec fn quiet_member(x: Node<ClassMember>) -> bool {
  x.stx.decorators@.len() == 0 && x.stx.key is Direct && match x.stx.val { ClassOrObjVal::Prop(Some(e)) => x.stx.static_ ==> quiet(e), ClassOrObjVal::StaticBlock(_) => false, _ => true }
}
spec fn all_elems(v: Seq<LitArrElem>, n: int) -> bool { forall|i: int| 0 <= i < n ==> quiet_elem(#[trigger] v[i]) }
spec fn all_parts(v: Seq<LitTemplatePart>, n: int) -> bool { forall|i: int| 0 <= i < n ==> quiet_part(#[trigger] v[i]) }
spec fn all_props(v: Seq<Node<ObjMember>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> quiet_prop(#[trigger] v[i]) }
spec fn all_members(v: Seq<Node<ClassMember>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> quiet_member(#[trigger] v[i]) }
axiom fn quiet_def(e: Node<Expr>) ensures quiet(e) == (match *e.stx {
  Expr::LitNull(_) => true,
  Expr::LitBool(_) => true,
  Expr::LitNum(_) => true,
  Expr::LitStr(_) => true,
  Expr::LitBigInt(_) => true,
  Expr::LitRegex(_) => true,
  Expr::ArrowFunc(_) => true,
  Expr::Func(_) => true,
  Expr::LitTemplate(t) => all_parts(t.stx.parts@, t.stx.parts@.len() as int),
  Expr::LitArr(a) => all_elems(a.stx.elements@, a.stx.elements@.len() as int),
  Expr::LitObj(o) => all_props(o.stx.members@, o.stx.members@.len() as int),
  Expr::Class(c) => c.stx.decorators@.len() == 0 && c.stx.extends is None && all_members(c.stx.members@, c.stx.members@.len() as int),
  Expr::Unary(u) => { let a = u.stx.argument; match u.stx.operator {
    UnaryPlus => quiet(a) && primitive(a) && !may(a, K::BigInt),
    UnaryNegation | BitwiseNot => quiet(a) && primitive(a),
    LogicalNot | Void | Typeof => quiet(a),
    _ => false,
  } },
  Expr::Binary(b) => { let (l, r) = (b.stx.left, b.stx.right); quiet(l) && quiet(r) && match b.stx.operator {
    StrictEquality | StrictInequality | LogicalAnd | LogicalOr | NullishCoalescing | Comma => true,
    Equality | Inequality => (primitive(l) && primitive(r)) || nullish(l) || nullish(r) || (only(l, K::Obj) && only(r, K::Obj)),
    LessThan | LessThanOrEqual | GreaterThan | GreaterThanOrEqual => primitive(l) && primitive(r),
    Addition => primitive(l) && primitive(r) && (only(l, K::Str) || only(r, K::Str) || same_numbers(l, r)),
    Subtraction | Multiplication | BitwiseAnd | BitwiseOr | BitwiseXor => primitive(l) && primitive(r) && same_numbers(l, r),
    Division | Remainder => primitive(l) && primitive(r) && same_numbers(l, r) && (!may(r, K::BigInt) || (big(r) is Some && big(r)->0 != 0)),
    BitwiseRightShift => primitive(l) && primitive(r) && same_numbers(l, r) && (!may(r, K::BigInt) || (big(r) is Some && big(r)->0 >= 0)),
    // a BigInt may not be raised to a negative power, nor be made too large
    Exponentiation | BitwiseLeftShift | BitwiseUnsignedRightShift => primitive(l) && primitive(r) && !may(l, K::BigInt) && !may(r, K::BigInt),
    _ => false,
  } },
  Expr::Cond(c) => quiet(c.stx.test) && quiet(c.stx.consequent) && quiet(c.stx.alternate),
  _ => false,
});
/// a class declaration is quiet as the class expression is
spec fn quiet_class(c: Node<ClassDecl>) -> bool { c.stx.decorators@.len() == 0 && c.stx.extends is None && all_members(c.stx.members@, c.stx.members@.len() as int) }

/*@fn minify-js/src/opt/side_effects.rs :: expr_definitely_string
#ret r
#spec
  ensures r ==> only(*expr, K::Str),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `as_ref` => `inner`
#entry
  proof { may_def(*expr); quiet_def(*expr); }
@*/
/*@fn minify-js/src/opt/side_effects.rs :: expr_definitely_primitive
#ret r
#spec
  ensures r ==> primitive(*expr),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `as_ref` => `inner`
#rewrite? `use OperatorName :: * ;` => ``
#entry
  proof { may_def(*expr); quiet_def(*expr); }
@*/
/*@fn minify-js/src/opt/side_effects.rs :: expr_bigint_kind
#ret r
#spec
  ensures r == BigIntKind::BigInt ==> only(*expr, K::BigInt), r == BigIntKind::NotBigInt && quiet(*expr) ==> !may(*expr, K::BigInt),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `as_ref` => `inner`
#rewrite? `use OperatorName :: * ;` => ``
#entry
  proof { may_def(*expr); quiet_def(*expr); }
@*/
/*@fn minify-js/src/opt/side_effects.rs :: expr_bigint_sign
#ret r
#spec
  ensures r == Some(BigIntSign::Zero) ==> big(*expr) == Some(0int), r == Some(BigIntSign::Positive) ==> big(*expr) is Some && big(*expr)->0 > 0, r == Some(BigIntSign::Negative) ==> big(*expr) is Some && big(*expr)->0 < 0,
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `as_ref` => `inner`
#rewrite `lit . stx . value == "0"` => `is_text(&lit.stx.value, "0")`
#entry
  proof { big_def(*expr); if let Expr::LitBigInt(b) = &*expr.stx { dec_zero(b.stx.value@); } }
@*/
/*@fn minify-js/src/opt/side_effects.rs :: is_side_effect_free_expr
#ret r
#spec
  ensures r ==> quiet(*expr),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `arr . stx . elements . iter ( ) . all ( | elem | match elem { LitArrElem :: Single ( expr ) => is_side_effect_free_expr ( expr ) , LitArrElem :: Empty => true , LitArrElem :: Rest ( _ ) => false , } )` => `{ let v = &arr.stx.elements; let mut ix: usize = 0; let mut ok = true; while ix < v.len() && ok invariant ix <= v.len(), ok ==> all_elems(v@, ix as int), ensures ok ==> all_elems(v@, v@.len() as int), decreases v.len() - ix { let elem = &v[ix]; let one = match elem { LitArrElem::Single(expr) => is_side_effect_free_expr(expr), LitArrElem::Empty => true, LitArrElem::Rest(_) => false }; if !one { ok = false; } ix = ix + 1; } ok }`
#rewrite `tpl . stx . parts . iter ( ) . all ( | part | match part { LitTemplatePart :: String ( _ ) => true , LitTemplatePart :: Substitution ( expr ) => { is_side_effect_free_expr ( expr ) && expr_definitely_primitive ( expr ) } } )` => `{ let v = &tpl.stx.parts; let mut ix: usize = 0; let mut ok = true; while ix < v.len() && ok invariant ix <= v.len(), ok ==> all_parts(v@, ix as int), ensures ok ==> all_parts(v@, v@.len() as int), decreases v.len() - ix { let part = &v[ix]; let one = match part { LitTemplatePart::String(_) => true, LitTemplatePart::Substitution(expr) => is_side_effect_free_expr(expr) && expr_definitely_primitive(expr) }; if !one { ok = false; } ix = ix + 1; } ok }`
#rewrite `obj . stx . members . iter ( ) . all ( | member | match & member . stx . typ { ObjMemberType :: Valued { key , val } => { if matches ! ( key , ClassOrObjKey :: Computed ( _ ) ) { return false ; } match val { ClassOrObjVal :: Prop ( Some ( expr ) ) => is_side_effect_free_expr ( expr ) , ClassOrObjVal :: Prop ( None ) => true , ClassOrObjVal :: Getter ( _ ) | ClassOrObjVal :: Setter ( _ ) | ClassOrObjVal :: Method ( _ ) => true , ClassOrObjVal :: StaticBlock ( _ ) => false , ClassOrObjVal :: IndexSignature ( _ ) => true , } } ObjMemberType :: Shorthand { .. } => false , ObjMemberType :: Rest { .. } => false , } )` => `{ let v = &obj.stx.members; let mut ix: usize = 0; let mut ok = true; while ix < v.len() && ok invariant ix <= v.len(), ok ==> all_props(v@, ix as int), ensures ok ==> all_props(v@, v@.len() as int), decreases v.len() - ix { let member = &v[ix]; let one = match &member.stx.typ { ObjMemberType::Valued { key, val } => { if matches!(key, ClassOrObjKey::Computed(_)) { false } else { match val { ClassOrObjVal::Prop(Some(expr)) => is_side_effect_free_expr(expr), ClassOrObjVal::Prop(None) => true, ClassOrObjVal::Getter(_) | ClassOrObjVal::Setter(_) | ClassOrObjVal::Method(_) => true, ClassOrObjVal::StaticBlock(_) => false, ClassOrObjVal::IndexSignature(_) => true } } } ObjMemberType::Shorthand { .. } => false, ObjMemberType::Rest { .. } => false }; if !one { ok = false; } ix = ix + 1; } ok }`
#rewrite `class . stx . members . iter ( ) . all ( | member | is_side_effect_free_class_member ( member ) )` => `{ let v = &class.stx.members; let mut ix: usize = 0; let mut ok = true; while ix < v.len() && ok invariant ix <= v.len(), ok ==> all_members(v@, ix as int), ensures ok ==> all_members(v@, v@.len() as int), decreases v.len() - ix { let member = &v[ix]; let one = is_side_effect_free_class_member(member); if !one { ok = false; } ix = ix + 1; } ok }`
#rewrite `class . stx . decorators . is_empty ( )` => `(class.stx.decorators.len() == 0)`
#rewrite `as_ref` => `inner`
#rewrite? `use OperatorName :: * ;` => ``
#entry
  proof { may_def(*expr); quiet_def(*expr); }
@*/
/*@fn minify-js/src/opt/side_effects.rs :: is_side_effect_free_class_decl
#ret r
#spec
  ensures r ==> quiet_class(*decl),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `decl . stx . decorators . is_empty ( )` => `(decl.stx.decorators.len() == 0)`
#rewrite `decl . stx . members . iter ( ) . all ( | member | is_side_effect_free_class_member ( member ) )` => `{ let v = &decl.stx.members; let mut ix: usize = 0; let mut ok = true; while ix < v.len() && ok invariant ix <= v.len(), ok ==> all_members(v@, ix as int), ensures ok ==> all_members(v@, v@.len() as int), decreases v.len() - ix { let member = &v[ix]; let one = is_side_effect_free_class_member(member); if !one { ok = false; } ix = ix + 1; } ok }`
@*/
/*@fn minify-js/src/opt/side_effects.rs :: is_side_effect_free_class_member
#ret r
#spec
  ensures r ==> quiet_member(*member),
#attr #[verifier::exec_allows_no_decreases_clause]
#rewrite `member . stx . decorators . is_empty ( )` => `(member.stx.decorators.len() == 0)`
#rewrite `init . as_ref ( ) . map_or ( true , is_side_effect_free_expr )` => `(match init { Some(e) => is_side_effect_free_expr(e), None => true })`
@*/
fn main() {}
}
