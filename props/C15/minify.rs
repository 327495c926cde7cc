use vstd::prelude::*;
use vstd::string::*;
verus! {
/*@include jsnum.rs@*/
/*@include jsval.rs@*/
/*@include jsstr.rs@*/

// ---- the syntax tree; expressions that constant folding does not look into are opaque
#[verifier::external_body]
pub struct ArrowFuncExpr { x: u8 }
#[verifier::external_body]
pub struct CallExpr { x: u8 }
#[verifier::external_body]
pub struct ClassExpr { x: u8 }
#[verifier::external_body]
pub struct ComputedMemberExpr { x: u8 }
#[verifier::external_body]
pub struct CondExpr { x: u8 }
#[verifier::external_body]
pub struct FuncExpr { x: u8 }
#[verifier::external_body]
pub struct IdExpr { x: u8 }
#[verifier::external_body]
pub struct ImportExpr { x: u8 }
#[verifier::external_body]
pub struct ImportMeta { x: u8 }
#[verifier::external_body]
pub struct MemberExpr { x: u8 }
#[verifier::external_body]
pub struct NewTarget { x: u8 }
#[verifier::external_body]
pub struct SuperExpr { x: u8 }
#[verifier::external_body]
pub struct TaggedTemplateExpr { x: u8 }
#[verifier::external_body]
pub struct ThisExpr { x: u8 }
#[verifier::external_body]
pub struct UnaryPostfixExpr { x: u8 }
#[verifier::external_body]
pub struct JsxElem { x: u8 }
#[verifier::external_body]
pub struct JsxExprContainer { x: u8 }
#[verifier::external_body]
pub struct JsxMemberExpr { x: u8 }
#[verifier::external_body]
pub struct JsxName { x: u8 }
#[verifier::external_body]
pub struct JsxSpreadAttr { x: u8 }
#[verifier::external_body]
pub struct JsxText { x: u8 }
#[verifier::external_body]
pub struct LitArrExpr { x: u8 }
#[verifier::external_body]
pub struct LitObjExpr { x: u8 }
#[verifier::external_body]
pub struct LitRegexExpr { x: u8 }
#[verifier::external_body]
pub struct LitTemplateExpr { x: u8 }
#[verifier::external_body]
pub struct ArrPat { x: u8 }
#[verifier::external_body]
pub struct IdPat { x: u8 }
#[verifier::external_body]
pub struct ObjPat { x: u8 }
#[verifier::external_body]
pub struct InstantiationExpr { x: u8 }
#[verifier::external_body]
pub struct TypeAssertionExpr { x: u8 }
#[verifier::external_body]
pub struct NonNullAssertionExpr { x: u8 }
#[verifier::external_body]
pub struct SatisfiesExpr { x: u8 }
#[verifier::external_body]
pub struct NodeAssocData { x: u8 }
/*@type parse-js/src/loc.rs :: Loc
#derive Clone, Copy
@*/
/*@type parse-js/src/num.rs :: JsNumber
#derive Copy, Clone
@*/
/*@type parse-js/src/operator.rs :: OperatorName
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type parse-js/src/ast/node.rs :: Node
#rewrite `S : Drive + DriveMut` => `S`
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitBigIntExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitBoolExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitNullExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitNumExpr
@*/
/*@type parse-js/src/ast/expr/lit.rs :: LitStrExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: UnaryExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: BinaryExpr
@*/
/*@type parse-js/src/ast/expr/mod.rs :: Expr
@*/
/*@type minify-js/src/opt/const_fold.rs :: ExprCtx
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type minify-js/src/opt/const_fold.rs :: ConstVal
#derive Clone, Copy
@*/
use OperatorName::*;

// the UTF-16 code units of a string literal, when it has escapes (a marker kept beside the node)
pub uninterp spec fn units_of(a: NodeAssocData) -> Option<Seq<u16>>;
#[verifier::external_body]
fn literal_string_code_units(a: &NodeAssocData) -> (r: Option<&[u16]>)
  ensures match r { Some(u) => units_of(*a) == Some(u@), None => units_of(*a) is None },
{ unimplemented!() }
pub uninterp spec fn well_formed(u: Seq<u16>) -> bool;
// `String::from_utf16(units).is_err()`
#[verifier::external_body]
fn ill_formed(u: &[u16]) -> (r: bool) ensures r == !well_formed(u@) { unimplemented!() }
impl NodeAssocData {
  #[verifier::external_body]
  pub fn default() -> (r: NodeAssocData) ensures units_of(r) is None { unimplemented!() }
}
trait Inner<T> { fn inner(&self) -> &T; }
impl<T> Inner<T> for Box<T> {
  // `Box::as_ref`
  #[verifier::external_body]
  fn inner(&self) -> (r: &T) ensures *r == **self { unimplemented!() }
}
// `std::mem::replace`
#[verifier::external_body]
fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }

// ---- specification
/// a decimal integer without needless zeros
spec fn canon(s: Seq<char>) -> bool { digits(s, 10) && (s[0] == '0' ==> s.len() == 1) }
/// BigInt::toString is the one decimal text of the value without needless zeros
axiom fn big_text(s: Seq<char>) ensures canon(s) ==> big_to_str(int_val(s, 10)) == s;
spec fn val(c: ConstVal) -> V {
  match c { ConstVal::Undefined => V::Undefined, ConstVal::Null => V::Null, ConstVal::Bool(b) => V::Bool(b), ConstVal::Num(n) => V::Num(num(n)), ConstVal::Str(s) => V::Str(s@), ConstVal::BigInt(s) => V::BigInt(int_val(s@, 10)) }
}
spec fn okc(c: ConstVal) -> bool { c matches ConstVal::BigInt(s) ==> canon(s@) }
/// what the parser guarantees of a literal
spec fn parsed(e: Node<Expr>) -> bool { *e.stx matches Expr::LitBigInt(b) ==> canon(b.stx.value@) }
spec fn lone(a: NodeAssocData) -> bool { match units_of(a) { Some(u) => !well_formed(u), None => false } }
spec fn is_lit(e: Node<Expr>) -> bool { match *e.stx { Expr::LitNull(_) => true, Expr::LitBool(_) => true, Expr::LitNum(_) => true, Expr::LitStr(_) => true, Expr::LitBigInt(_) => true, _ => false } }
/// the value of an expression that is one whatever the program does; None for any other
spec fn lit(e: Node<Expr>) -> Option<V> {
  match *e.stx {
    Expr::LitNull(_) => Some(V::Null),
    Expr::LitBool(b) => Some(V::Bool(b.stx.value)),
    Expr::LitNum(n) => Some(V::Num(num(n.stx.value.0))),
    Expr::LitStr(s) => if lone(s.assoc) { None } else { Some(V::Str(s.stx.value@)) },
    Expr::LitBigInt(b) => Some(V::BigInt(int_val(b.stx.value@, 10))),
    Expr::Unary(u) => match u.stx.operator {
      Void => if is_lit(u.stx.argument) { Some(V::Undefined) } else { None },
      UnaryNegation => match *u.stx.argument.stx { Expr::LitNum(n) => Some(V::Num(n_neg(num(n.stx.value.0)))), _ => None },
      _ => None,
    },
    _ => None,
  }
}
spec fn nullish(v: V) -> bool { v is Undefined || v is Null }
spec fn op_of(op: OperatorName) -> Option<Op> {
  match op {
    Addition => Some(Op::Add), Subtraction => Some(Op::Sub), Multiplication => Some(Op::Mul), Division => Some(Op::Div), Remainder => Some(Op::Rem), Exponentiation => Some(Op::Pow),
    BitwiseAnd => Some(Op::And), BitwiseOr => Some(Op::Or), BitwiseXor => Some(Op::Xor),
    BitwiseLeftShift => Some(Op::Shl), BitwiseRightShift => Some(Op::Sar), BitwiseUnsignedRightShift => Some(Op::Shr),
    LessThan => Some(Op::Lt), LessThanOrEqual => Some(Op::Le), GreaterThan => Some(Op::Gt), GreaterThanOrEqual => Some(Op::Ge),
    Equality => Some(Op::Eq), Inequality => Some(Op::Ne), StrictEquality => Some(Op::StrictEq), StrictInequality => Some(Op::StrictNe),
    _ => None,
  }
}
/// e may stand for `left op right` in ctx
spec fn stands_for(op: OperatorName, l: Node<Expr>, r: Node<Expr>, ctx: ExprCtx, e: Node<Expr>) -> bool {
  match op_of(op) {
    Some(o) => lit(l) is Some && lit(r) is Some && binary(o, lit(l)->0, lit(r)->0) is Some && lit(e) == binary(o, lit(l)->0, lit(r)->0),
    None => match op {
      NullishCoalescing => lit(l) is Some && e == (if nullish(lit(l)->0) { r } else { l }),
      LogicalAnd => (lit(l) is Some && e == (if to_bool(lit(l)->0) { r } else { l })) || (ctx == ExprCtx::Condition && lit(r) == Some(V::Bool(true)) && e == l),
      LogicalOr => (lit(l) is Some && e == (if to_bool(lit(l)->0) { l } else { r })) || (ctx == ExprCtx::Condition && lit(r) == Some(V::Bool(false)) && e == l),
      _ => false,
    },
  }
}
/// (the verifier does not know on its own that a field is a float)
spec fn same_f(x: f64, n: f64) -> bool { x == n }
spec fn is_f(n: f64) -> bool { exists|x: f64| #[trigger] same_f(x, n) }
spec fn float(c: ConstVal) -> bool { c matches ConstVal::Num(n) ==> is_f(n) }
fn negated(x: f64) -> (r: f64) ensures num(r) == n_neg(num(x)), same_f(r, r) { minus(x) }
fn float_from(x: f64) -> (r: f64) ensures r == x { x }
proof fn float_in(e: Node<Expr>) -> (r: f64)
  ensures *e.stx matches Expr::LitNum(n) ==> r == n.stx.value.0, *e.stx matches Expr::Unary(u) ==> (*u.stx.argument.stx matches Expr::LitNum(n) ==> r == n.stx.value.0),
{ match *e.stx { Expr::LitNum(n) => n.stx.value.0, Expr::Unary(u) => match *u.stx.argument.stx { Expr::LitNum(n) => n.stx.value.0, _ => 0.0f64 }, _ => 0.0f64 } }
proof fn typed(c: ConstVal) -> (r: f64) ensures c matches ConstVal::Num(n) ==> r == n { match c { ConstVal::Num(n) => n, _ => 0.0f64 } }

// ---- num_bigint::BigUint, assumed
#[verifier::external_body]
pub struct BigUint { x: u8 }
impl BigUint {
  pub uninterp spec fn view(&self) -> int;
  // `BigUint::parse_bytes(digits.as_bytes(), radix)`
  #[verifier::external_body]
  fn parse(s: &str, radix: u32) -> (r: Option<BigUint>)
    requires digits(s@, radix as int),
    ensures r matches Some(v) && v@ == int_val(s@, radix as int) && v@ >= 0,
  { unimplemented!() }
  // its decimal digits, which are a decimal literal of the same value
  #[verifier::external_body]
  fn to_str_radix(&self, radix: u32) -> (r: String)
    requires radix == 10,
    ensures canon(r@), int_val(r@, 10) == self@, is_decimal(r@), decimal(r@) == n_big(self@),
  { unimplemented!() }
}
// `str::encode_utf16`
#[verifier::external_body]
struct Units<'a> { it: std::str::EncodeUtf16<'a> }
impl<'a> Units<'a> {
  uninterp spec fn rest(&self) -> Seq<u16>;
  #[verifier::external_body]
  fn next(&mut self) -> (r: Option<u16>)
    ensures match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
  { self.it.next() }
}
#[verifier::external_body]
fn units_in<'a>(s: &'a str) -> (r: Units<'a>) ensures r.rest() == utf16(s@) { Units { it: s.encode_utf16() } }
proof fn cast_u32(v: u32) ensures v as i32 == signed32(v as int) { assert(v as i32 == (if v >= 0x8000_0000u32 { (v - 0x1_0000_0000) as i32 } else { v as i32 })) by (bit_vector); }
proof fn mask_mod(x: u32) ensures x & 0x1fu32 == x % 32u32 { assert(x & 0x1fu32 == x % 32u32) by (bit_vector); }
// parse_js::num::number_to_string (under contract in num.rs)
#[verifier::external_body]
fn number_to_string(n: f64) -> (r: String) ensures r@ == num_to_str(num(n)) { unimplemented!() }

/*@const parse-js/src/char.rs :: ECMASCRIPT_LINE_TERMINATORS
@*/
/*@const parse-js/src/char.rs :: ECMASCRIPT_WHITESPACE
@*/
/*@fn minify-js/src/opt/const_fold.rs :: is_ecmascript_whitespace
#ret r
#spec
  ensures r == js_ws(ch),
#rewrite `ECMASCRIPT_WHITESPACE . contains ( & ch )` => `in_list(&ECMASCRIPT_WHITESPACE, ch)`
#rewrite `ECMASCRIPT_LINE_TERMINATORS . contains ( & ch )` => `in_list(&ECMASCRIPT_LINE_TERMINATORS, ch)`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: trim_js_whitespace
#ret r
#spec
  ensures r@ == js_trim(raw@),
#rewrite `raw . trim_matches ( is_ecmascript_whitespace )` => `trim_by(raw, is_ecmascript_whitespace)`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: parse_int_digits_to_f64
#ret r
#spec
  requires 2 <= radix <= 36,
  ensures match r { Some(v) => int_literal(digits@, radix as int) is Some && num(v) == n_big(int_literal(digits@, radix as int)->0), None => int_literal(digits@, radix as int) is None },
#rewrite `use num_bigint :: BigUint ;` => ``
#rewrite `digits . is_empty ( )` => `empty(digits)`
#rewrite `digits . contains ( '_' )` => `has_char(digits, '_')`
#rewrite `digits . chars ( ) . all ( | ch | ch . to_digit ( radix ) . is_some ( ) )` => `all_digits(digits, radix)`
#rewrite `BigUint :: parse_bytes ( digits . as_bytes ( ) , radix )` => `BigUint::parse(digits, radix)`
#rewrite `decimal . parse :: < f64 > ( )` => `parse_f64(decimal.as_str())`
#rewrite `f64 :: NAN` => `nan()`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: coerce_str_to_num
#ret r
#spec
  ensures num(r) == str_to_num(raw@),
#rewrite `raw . is_empty ( )` => `empty(raw)`
#rewrite `body . is_empty ( )` => `empty(body)`
#attr #[verifier::loop_isolation(false)]
#attr #[verifier::allow_complex_invariants]
#attr #[verifier::rlimit(100)]
#at before `let mut sign`
  let ghost mut e: int = 0; let ghost mut at: int = 0;
#at before `if body . is_empty ( )`
  proof { short_text(body); infinity_text(body@); if had_sign { assert(prefix_radix(raw@) == 0); } else { assert(body@ == raw@); } }
#at before `if body == "Infinity"`
  proof { if infinity_word(body@) { assert(str_to_num(old_raw@) == (if raw@[0] == '-' { n_neg(N::Inf(false)) } else { N::Inf(false) })); } }
#at before `let parse_int`
  proof { if prefix_radix(body@) != 0 { not_decimal(body@, 1); } }
#at before `if body . contains ( '_' )`
  let ghost neg = raw@[0] == '-';
  proof {
    assert(str_to_num(old_raw@) == (if neg { n_neg(unsigned_to_num(body@)) } else { unsigned_to_num(body@) }));
    if exists|k: int| 0 <= k < body@.len() && #[trigger] body@[k] == '_' { let k = choose|k: int| 0 <= k < body@.len() && #[trigger] body@[k] == '_'; not_decimal(body@, k); }
  }
#at before `while let`
  proof { scan_start(body@); assert(iter.rest() =~= body@.skip(0)); }
#at before `match ch`
  let ghost i = body@.len() - iter.rest().len() - 1;
  let ghost (digit0, dot0, exp0, e0) = (saw_digit_before_exp, saw_dot, saw_exp, e);
  proof {
    assert(ch == body@[i]); assert(scanned(body@, i, digit0, dot0, exp0, e0)); assert(iter.rest() =~= body@.skip(i + 1));
    if saw_exp || !(dec(ch) || ch == '.' || is_exp(ch)) || (ch == '.' && saw_dot) || (is_exp(ch) && !saw_digit_before_exp) { scan_stuck(body@, i, digit0, dot0, exp0, e0); }
    else if !is_exp(ch) { scan_digit(body@, i, digit0, dot0, e0); }
  }
#at after `saw_exp = true ;`
  proof { e = i; }
#at before `let mut exp_digits`
  proof { at = body@.len() - iter.rest().len(); assert(iter.rest() =~= body@.skip(at)); assert(at == exp_digits_at(body@, i)); }
#at enter `while matches ! ( iter . peek ( ) , Some ( '0' ..= '9' ) )`
  proof { assert(dec(body@[body@.len() - iter.rest().len()])); assert(iter.rest().skip(1) =~= body@.skip(body@.len() - iter.rest().len() + 1)); }
#at before `if exp_digits == 0`
  proof { if exp_digits == 0 { scan_no_exp(body@, i, digit0, dot0, e0); } else { scan_exp(body@, i, at + exp_digits, dot0, e0); } }
#at before `if ! saw_digit_before_exp { return f64 :: NAN`
  proof {
    scanned_all(body@, saw_digit_before_exp, saw_dot, saw_exp, e);
    assert(num(sign) == (if neg { n_int(-1) } else { n_int(1) }));
    assert forall|v: f64| n_mul(num(sign), #[trigger] num(v)) == (if neg { n_neg(num(v)) } else { num(v) }) by { by_one(v); }
  }
#rewrite `body . strip_prefix ( '+' )` => `strip(body, '+')`
#rewrite `body . strip_prefix ( '-' )` => `strip(body, '-')`
#rewrite `sign = - 1.0 ;` => `sign = minus(1.0);`
#rewrite `f64 :: NAN` => `nan()`
#rewrite `f64 :: INFINITY` => `infinity()`
#rewrite `body == "Infinity"` => `is_text(body, "Infinity")`
#rewrite `body . starts_with ( "0b" )` => `starts2(body, "0b")`
#rewrite `body . starts_with ( "0B" )` => `starts2(body, "0B")`
#rewrite `body . starts_with ( "0o" )` => `starts2(body, "0o")`
#rewrite `body . starts_with ( "0O" )` => `starts2(body, "0O")`
#rewrite `body . starts_with ( "0x" )` => `starts2(body, "0x")`
#rewrite `body . starts_with ( "0X" )` => `starts2(body, "0X")`
#rewrite `& body [ 2 .. ]` => `tail2(body)`
#rewrite `body . contains ( '_' )` => `has_char(body, '_')`
#rewrite `body . chars ( ) . peekable ( )` => `chars_of(body)`
#rewrite `| digits : & str , radix : u32 | parse_int_digits_to_f64 ( digits , radix )` => `|digits: &str, radix: u32| -> (r: Option<f64>) requires 2 <= radix <= 36 ensures match r { Some(f) => int_literal(digits@, radix as int) is Some && num(f) == n_big(int_literal(digits@, radix as int)->0), None => int_literal(digits@, radix as int) is None } { parse_int_digits_to_f64(digits, radix) }`
#loop 0
  invariant iter.rest().len() <= body@.len(), iter.rest() == body@.skip(body@.len() - iter.rest().len()),
    scanned(body@, body@.len() - iter.rest().len(), saw_digit_before_exp, saw_dot, saw_exp, e),
  ensures iter.rest().len() == 0,
  decreases iter.rest().len(),
#loop 1
  invariant iter.rest().len() <= body@.len(), iter.rest() == body@.skip(body@.len() - iter.rest().len()),
    exp_digits >= 0, body@.len() - iter.rest().len() == at + exp_digits, at == exp_digits_at(body@, e), all_dec(body@, at, at + exp_digits), 0 <= at <= body@.len(), body@.len() < 0x7fff_ffff,
  ensures iter.rest().len() > 0 ==> !dec(iter.rest()[0]),
  decreases iter.rest().len(),
#rewrite `body . parse :: < f64 > ( ) . map ( | v | sign * v )` => `parse_f64(body).map(|v: f64| -> (f: f64) ensures num(f) == n_mul(num(sign), num(v)) { sign * v })`
#entry
  hide(is_decimal); hide(scanned); hide(mantissa); hide(js_trim); hide(int_literal); hide(infinity_word);
  proof { reveal_strlit("0b"); reveal_strlit("0B"); reveal_strlit("0o"); reveal_strlit("0O"); reveal_strlit("0x"); reveal_strlit("0X"); }
  let ghost old_raw = raw;
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_str_cmp
#ret r
#spec
  ensures (r == Ordering::Less) == str_lt(a@, b@), (r == Ordering::Greater) == str_lt(b@, a@),
#attr #[verifier::loop_isolation(false)]
#entry
  let ghost (ua, ub) = (utf16(a@), utf16(b@)); let ghost (ta, tb) = (a@, b@); let ghost mut i: int = 0;
#rewrite `a . encode_utf16 ( )` => `units_in(a)`
#rewrite `b . encode_utf16 ( )` => `units_in(b)`
#at before `match ( a . next`
  proof { i = i + 1; }
#loop 0
  invariant 0 <= i <= ua.len(), i <= ub.len(), a.rest() == ua.skip(i), b.rest() == ub.skip(i), ua == utf16(ta), ub == utf16(tb),
    str_lt(ta, tb) == unit_less(ua, ub, i), str_lt(tb, ta) == unit_less(ub, ua, i),
  decreases ua.len() - i,
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_to_uint32
#ret r
#spec
  ensures r == to_uint32(num(n)),
#entry
  hide(r_trunc); proof { trunc_int(0); }
#rewrite? `int` => `int_`
#at before `let wrapped`
  proof { assert(is_int(num(int_), n_trunc(num(n)))); assert(is_int(num(4294967296.0f64), two32())); }
#at after `let wrapped`
  proof { assert(is_int(num(wrapped), n_trunc(num(n)) % two32())); }
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_to_int32
#ret r
#spec
  ensures r == to_int32(num(n)),
#entry
  proof { assert forall|v: u32| #[trigger] (v as i32) == signed32(v as int) by { cast_u32(v); } }
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_pow
#ret r
#spec
  ensures num(r) == n_pow(num(a), num(b)),
#rewrite `f64 :: NAN` => `nan()`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: const_to_number
#ret r
#spec
  ensures match r { Some(n) => !(val(val_) is BigInt) && num(n) == to_num(val(val_)), None => val(val_) is BigInt },
#rewrite `f64 :: NAN` => `nan()`
#rewrite `match val {` => `match val_ {`
#sig `val : ConstVal` => `val_: ConstVal`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: const_to_string
#ret r
#spec
  requires okc(val_),
  ensures r matches Some(s) ==> s@ == to_str(val(val_)),
#entry
  proof { if let ConstVal::BigInt(s) = val_ { big_text(s@); } reveal_strlit("undefined"); reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    assert("undefined"@ =~= seq!['u', 'n', 'd', 'e', 'f', 'i', 'n', 'e', 'd']); assert("null"@ =~= seq!['n', 'u', 'l', 'l']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); }
#rewrite `"undefined" . to_string ( )` => `text("undefined")`
#rewrite `"null" . to_string ( )` => `text("null")`
#rewrite `"true" . to_string ( )` => `text("true")`
#rewrite `"false" . to_string ( )` => `text("false")`
#rewrite `s . to_string ( )` => `text(s)`
#rewrite `match val {` => `match val_ {`
#sig `val : ConstVal` => `val_: ConstVal`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_strict_eq
#ret r
#spec
  requires okc(a), okc(b),
  ensures r == strict_eq(val(a), val(b)),
#entry
  let ghost fa = typed(a); let ghost fb = typed(b);
  proof { if let ConstVal::BigInt(s) = a { big_text(s@); } if let ConstVal::BigInt(s) = b { big_text(s@); } }
@*/
/*@fn minify-js/src/opt/const_fold.rs :: js_loose_eq
#ret r
#spec
  requires okc(a), okc(b),
  ensures r matches Some(x) ==> x == loose_eq(val(a), val(b)),
  decreases bools(val(a), val(b)),
#entry
  let ghost fa = typed(a); let ghost fb = typed(b);
@*/
/*@fn minify-js/src/opt/const_fold.rs :: const_typeof
#ret r
#spec
  ensures r@ == type_name(val(val_)),
#rewrite `match val {` => `match val_ {`
#sig `val : ConstVal` => `val_: ConstVal`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: has_lone_surrogate
#ret r
#spec
  ensures r == lone(*assoc),
#rewrite `| units | String :: from_utf16 ( units ) . is_err ( )` => `|units: &[u16]| -> (x: bool) ensures x == !well_formed(units@) { ill_formed(units) }`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: is_safe_void_arg
#ret r
#spec
  ensures r ==> is_lit(*expr),
#rewrite `as_ref` => `inner`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: const_val
#ret r
#spec
  requires parsed(*expr),
  ensures r matches Some(c) ==> lit(*expr) == Some(val(c)) && okc(c) && float(c),
#entry
  let ghost fe = float_in(*expr);
  proof { assert(same_f(fe, fe)); }
#rewrite `as_ref` => `inner`
#rewrite `- n . stx . value . 0` => `negated(n.stx.value.0)`
@*/
impl ConstVal<'_> {
/*@fn minify-js/src/opt/const_fold.rs :: ConstVal::is_nullish
#ret r
#spec
  ensures r == nullish(val(self)),
@*/
}
/*@fn minify-js/src/opt/const_fold.rs :: const_truthiness
#ret r
#spec
  requires parsed(*expr),
  ensures r matches Some(b) ==> lit(*expr) is Some && b == to_bool(lit(*expr)->0),
#rewrite `s . is_empty ( )` => `empty(s)`
#at before `Some ( match v`
  let ghost fv = typed(v);
  proof { if let ConstVal::BigInt(s) = v { big_text(s@); zero_text(); } }
@*/
proof fn zero_text() ensures canon("0"@), int_val("0"@, 10) == 0, big_to_str(0) == "0"@
{ reveal_strlit("0"); assert("0"@ =~= seq!['0']); assert("0"@.drop_last() =~= Seq::empty()); reveal_with_fuel(int_val, 3); big_text("0"@); }
/*@fn minify-js/src/opt/const_fold.rs :: is_lit_true
#ret r
#spec
  ensures r ==> lit(*expr) == Some(V::Bool(true)),
#rewrite `as_ref` => `inner`
@*/
/*@fn minify-js/src/opt/const_fold.rs :: is_lit_false
#ret r
#spec
  ensures r ==> lit(*expr) == Some(V::Bool(false)),
#rewrite `as_ref` => `inner`
@*/
impl<S> Node<S> {
/*@fn parse-js/src/ast/node.rs :: Node::new
#ret r
#spec
  ensures *r.stx == stx, units_of(r.assoc) is None,
@*/
}
/*@fn minify-js/src/opt/const_fold.rs :: dummy_expr
@*/
/*@fn minify-js/src/opt/const_fold.rs :: number_expr
#ret r
#spec
  ensures r matches Some(e) ==> lit(e) == Some(V::Num(num(value))),
@*/
/*@fn minify-js/src/opt/const_fold.rs :: fold_binary_expr
#ret r
#spec
  requires parsed(old(bin).left), parsed(old(bin).right),
  ensures match r { Some(e) => stands_for(old(bin).operator, old(bin).left, old(bin).right, ctx, e), None => *final(bin) == *old(bin) },
#attr #[verifier::rlimit(100)]
#rewrite `use OperatorName :: * ;` => ``
#rewrite `std :: mem :: replace` => `replace`
#rewrite `format ! ( "{l}{}" , const_to_string ( other ) ? )` => `joined(l, const_to_string(other)?.as_str())`
#rewrite `format ! ( "{}{r}" , const_to_string ( other ) ? )` => `joined(const_to_string(other)?.as_str(), r)`
#rewrite `format ! ( "{l}{r}" )` => `joined(l, r)`
#rewrite `l % r` => `rem(l, r)`
#rewrite `const_to_number ( l ) ?` => `float_from(const_to_number(l)?)`
#rewrite `const_to_number ( r ) ?` => `float_from(const_to_number(r)?)`
#rewrite `unreachable ! ( )` => `unreached()`
#rewrite `wrapping_shl` => `wshl`
#rewrite `wrapping_shr` => `wshr`
#entry
  hide(str_to_num); hide(n_add); hide(n_mul); hide(n_div); hide(n_rem); hide(n_pow); hide(loose_eq); hide(strict_eq); hide(n_sub);
  proof { assert forall|x: u32| #[trigger] (x & 0x1fu32) == x % 32u32 by { mask_mod(x); } }
@*/
fn main() {}
}
