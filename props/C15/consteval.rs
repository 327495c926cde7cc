use vstd::prelude::*;
use vstd::string::*;
verus! {
/*@include jsnum.rs@*/
/*@include jsval.rs@*/
/*@include jsstr.rs@*/

// ---- num_bigint::BigInt, assumed
#[verifier::external_body]
pub struct BigInt { x: u8 }
impl BigInt {
  pub uninterp spec fn view(&self) -> int;
  #[verifier::external_body]
  pub fn of(i: i32) -> (r: BigInt) ensures r@ == i { unimplemented!() }
  #[verifier::external_body]
  fn same(&self, o: &BigInt) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
  #[verifier::external_body]
  fn cmp(&self, o: &BigInt) -> (r: Ordering)
    ensures r == (if self@ < o@ { Ordering::Less } else if self@ > o@ { Ordering::Greater } else { Ordering::Equal }),
  { unimplemented!() }
  #[verifier::external_body]
  fn negated(self) -> (r: BigInt) ensures r@ == -self@ { unimplemented!() }
  // `BigInt::parse_bytes(digits.as_bytes(), radix)`
  #[verifier::external_body]
  fn parse(s: &str, radix: u32) -> (r: Option<BigInt>)
    requires digits(s@, radix as int),
    ensures r matches Some(v) && v@ == int_val(s@, radix as int),
  { unimplemented!() }
  // truncates; None unless finite
  #[verifier::external_body]
  fn from_f64(n: f64) -> (r: Option<BigInt>)
    ensures match r { Some(i) => (num(n) is Fin || num(n) is Zero) && i@ == n_trunc(num(n)), None => num(n) is NaN || num(n) is Inf },
  { unimplemented!() }
  // `value.to_f64()`, infinite when too big
  #[verifier::external_body]
  fn to_f64(&self) -> (r: Option<f64>) ensures r matches Some(f) ==> num(f) == n_big(self@), r is None ==> n_big(self@) == N::Inf(self@ < 0) { unimplemented!() }
  #[verifier::external_body]
  fn negative(&self) -> (r: bool) ensures r == (self@ < 0) { unimplemented!() }
}
/*@type parse-js/src/num.rs :: JsNumber
#derive Copy, Clone
@*/
use JsNumber as JN;
/*@type optimize-js/src/il/inst.rs :: Const
@*/
/*@type optimize-js/src/il/inst.rs :: BinOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type optimize-js/src/il/inst.rs :: UnOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
use Const::*;
use BinOp::*;
use UnOp::*;
spec fn val(c: Const) -> V {
  match c { Undefined => V::Undefined, Null => V::Null, Bool(b) => V::Bool(b), Num(n) => V::Num(num(n.0)), Str(s) => V::Str(s@), BigInt(i) => V::BigInt(i@) }
}
/// (the verifier does not know on its own that the field of a constant is a float)
proof fn typed(c: Const) -> (r: f64) ensures c matches Num(n) ==> r == n.0 { match c { Num(n) => n.0, _ => 0.0f64 } }
// `discriminant(a) == discriminant(b)`
#[verifier::external_body]
fn same_kind(a: &Const, b: &Const) -> (r: bool) ensures r == same_type(val(*a), val(*b)) { unimplemented!() }
// the derived `==` (numbers, whose `==` is not JavaScript's, excluded)
#[verifier::external_body]
fn const_eq(a: &Const, b: &Const) -> (r: bool)
  requires !(a is Num && b is Num),
  ensures r == (val(*a) == val(*b)),
{ unimplemented!() }
// `a.encode_utf16().cmp(b.encode_utf16())`
#[verifier::external_body]
fn units_cmp(a: &str, b: &str) -> (r: Ordering)
  ensures (r == Ordering::Less) == str_lt(a@, b@), (r == Ordering::Greater) == str_lt(b@, a@),
{ a.encode_utf16().cmp(b.encode_utf16()) }

spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
// `Ordering::reverse`
fn reverse(o: Ordering) -> (r: Ordering) ensures r == rev(o) { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
fn equal(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Equal)) { match o { Some(Ordering::Equal) => true, _ => false } }
fn cast_i32(v: u32) ensures v as i32 == signed32(v as int) { assert(v as i32 == (if v >= 0x8000_0000u32 { (v - 0x1_0000_0000) as i32 } else { v as i32 })) by (bit_vector); }
/// Math.round
spec fn math_round(n: N) -> N {
  match n { N::Fin(x) => if x == x.floor() as real { n } else { signed_int((x + 0.5real).floor(), x < 0real) }, n => n }
}
/// below 2^52 the next integer is a double
axiom fn half_exact(a: f64) ensures num(a) matches N::Fin(x) ==> x - r_near(x) as real == 0.5real ==> rnd(r_near(x) as real + 1real) == N::Fin(r_near(x) as real + 1real) || r_near(x) == -1;

/*@const parse-js/src/char.rs :: ECMASCRIPT_LINE_TERMINATORS
@*/
/*@const parse-js/src/char.rs :: ECMASCRIPT_WHITESPACE
@*/
/*@fn optimize-js/src/eval/consteval.rs :: is_ecmascript_whitespace
#ret r
#spec
  ensures r == js_ws(ch),
#rewrite `ECMASCRIPT_WHITESPACE . contains ( & ch )` => `in_list(&ECMASCRIPT_WHITESPACE, ch)`
#rewrite `ECMASCRIPT_LINE_TERMINATORS . contains ( & ch )` => `in_list(&ECMASCRIPT_LINE_TERMINATORS, ch)`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: trim_js_whitespace
#ret r
#spec
  ensures r@ == js_trim(raw@),
#rewrite `raw . trim_matches ( is_ecmascript_whitespace )` => `trim_by(raw, is_ecmascript_whitespace)`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: bigint_to_f64
#ret r
#spec
  ensures num(r) == n_big(value@),
#rewrite `value . sign ( ) == Sign :: Minus` => `value.negative()`
#rewrite `f64 :: NEG_INFINITY` => `minus(infinity())`
#rewrite `f64 :: INFINITY` => `infinity()`
#rewrite `| | {` => `|| -> (r: f64) ensures num(r) == N::Inf(value@ < 0) {`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: parse_int_digits_to_bigint
#ret r
#spec
  requires 2 <= radix <= 36,
  ensures match r { Some(v) => int_literal(digits@, radix as int) == Some(v@), None => int_literal(digits@, radix as int) is None },
#rewrite `digits . is_empty ( )` => `empty(digits)`
#rewrite `digits . contains ( '_' )` => `has_char(digits, '_')`
#rewrite `digits . chars ( ) . all ( | ch | ch . to_digit ( radix ) . is_some ( ) )` => `all_digits(digits, radix)`
#rewrite `BigInt :: parse_bytes ( digits . as_bytes ( ) , radix )` => `BigInt::parse(digits, radix)`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: parse_bigint
#ret r
#spec
  ensures match r { Some(v) => str_to_bigint(raw@) == Some(v@), None => str_to_bigint(raw@) is None },
#entry
  proof { reveal_strlit("0b"); reveal_strlit("0B"); reveal_strlit("0o"); reveal_strlit("0O"); reveal_strlit("0x"); reveal_strlit("0X"); }
#rewrite `trimmed . is_empty ( )` => `empty(trimmed)`
#rewrite `BigInt :: from ( 0 )` => `BigInt::of(0)`
#rewrite `trimmed . strip_prefix ( '+' )` => `strip(trimmed, '+')`
#rewrite `trimmed . strip_prefix ( '-' )` => `strip(trimmed, '-')`
#rewrite `. map ( | v | - v )` => `.map(|v: BigInt| -> (r: BigInt) ensures r@ == -v@ { v.negated() })`
#rewrite `s . starts_with ( "0b" )` => `starts2(s, "0b")`
#rewrite `s . starts_with ( "0B" )` => `starts2(s, "0B")`
#rewrite `s . starts_with ( "0o" )` => `starts2(s, "0o")`
#rewrite `s . starts_with ( "0O" )` => `starts2(s, "0O")`
#rewrite `s . starts_with ( "0x" )` => `starts2(s, "0x")`
#rewrite `s . starts_with ( "0X" )` => `starts2(s, "0X")`
#rewrite `& s [ 2 .. ]` => `tail2(s)`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_bigint_to_num
#ret r
#spec
  ensures num(r) == n_big(v@),
@*/
/*@fn optimize-js/src/eval/consteval.rs :: cmp_bigint_num
#ret r
#spec
  ensures compared(V::BigInt(b@), V::Num(num(n)), r),
#rewrite? `int` => `int_`
#entry
  proof { fraction_exact(n); }
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_str_cmp
#ret r
#spec
  ensures (r == Ordering::Less) == str_lt(a@, b@), (r == Ordering::Greater) == str_lt(b@, a@),
#rewrite `a . encode_utf16 ( ) . cmp ( b . encode_utf16 ( ) )` => `units_cmp(a, b)`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_to_num
#ret r
#spec
  requires !(v is BigInt),
  ensures num(r) == to_num(val(*v)),
#rewrite `panic ! ( "cannot coerce bigint to num according to spec" )` => `unreached()`
#rewrite `f64 :: NAN` => `nan()`
#entry
  let ghost fv = typed(*v);
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_str_to_num
#ret r
#spec
  ensures num(r) == str_to_num(raw@),
#rewrite `raw . is_empty ( )` => `empty(raw)`
#rewrite `body . is_empty ( )` => `empty(body)`
#attr #[verifier::loop_isolation(false)]
#attr #[verifier::allow_complex_invariants]
#attr #[verifier::rlimit(100)]
#at before `let mut sign`
  let ghost mut e: int = 0; let ghost mut at: int = 0;
#at before `if body . is_empty ( )`
  proof { short_text(body); infinity_text(body@); if had_sign { assert(prefix_radix(raw@) == 0); } else { assert(body@ == raw@); } }
#at before `if body == "Infinity"`
  proof { if infinity_word(body@) { assert(str_to_num(old_raw@) == (if raw@[0] == '-' { n_neg(N::Inf(false)) } else { N::Inf(false) })); } }
#at before `let parse_int`
  proof { if prefix_radix(body@) != 0 { not_decimal(body@, 1); } }
#at before `if body . contains ( '_' )`
  let ghost neg = raw@[0] == '-';
  proof {
    assert(str_to_num(old_raw@) == (if neg { n_neg(unsigned_to_num(body@)) } else { unsigned_to_num(body@) }));
    if exists|k: int| 0 <= k < body@.len() && #[trigger] body@[k] == '_' { let k = choose|k: int| 0 <= k < body@.len() && #[trigger] body@[k] == '_'; not_decimal(body@, k); }
  }
#at before `while let`
  proof { scan_start(body@); assert(iter.rest() =~= body@.skip(0)); }
#at before `match ch`
  let ghost i = body@.len() - iter.rest().len() - 1;
  let ghost (digit0, dot0, exp0, e0) = (saw_digit_before_exp, saw_dot, saw_exp, e);
  proof {
    assert(ch == body@[i]); assert(scanned(body@, i, digit0, dot0, exp0, e0)); assert(iter.rest() =~= body@.skip(i + 1));
    if saw_exp || !(dec(ch) || ch == '.' || is_exp(ch)) || (ch == '.' && saw_dot) || (is_exp(ch) && !saw_digit_before_exp) { scan_stuck(body@, i, digit0, dot0, exp0, e0); }
    else if !is_exp(ch) { scan_digit(body@, i, digit0, dot0, e0); }
  }
#at after `saw_exp = true ;`
  proof { e = i; }
#at before `let mut exp_digits`
  proof { at = body@.len() - iter.rest().len(); assert(iter.rest() =~= body@.skip(at)); assert(at == exp_digits_at(body@, i)); }
#at enter `while matches ! ( iter . peek ( ) , Some ( '0' ..= '9' ) )`
  proof { assert(dec(body@[body@.len() - iter.rest().len()])); assert(iter.rest().skip(1) =~= body@.skip(body@.len() - iter.rest().len() + 1)); }
#at before `if exp_digits == 0`
  proof { if exp_digits == 0 { scan_no_exp(body@, i, digit0, dot0, e0); } else { scan_exp(body@, i, at + exp_digits, dot0, e0); } }
#at before `if ! saw_digit_before_exp { return f64 :: NAN`
  proof {
    scanned_all(body@, saw_digit_before_exp, saw_dot, saw_exp, e);
    assert(num(sign) == (if neg { n_int(-1) } else { n_int(1) }));
    assert forall|v: f64| n_mul(num(sign), #[trigger] num(v)) == (if neg { n_neg(num(v)) } else { num(v) }) by { by_one(v); }
  }
#rewrite `body . strip_prefix ( '+' )` => `strip(body, '+')`
#rewrite `body . strip_prefix ( '-' )` => `strip(body, '-')`
#rewrite `sign = - 1.0 ;` => `sign = minus(1.0);`
#rewrite `f64 :: NAN` => `nan()`
#rewrite `f64 :: INFINITY` => `infinity()`
#rewrite `body == "Infinity"` => `is_text(body, "Infinity")`
#rewrite `body . starts_with ( "0b" )` => `starts2(body, "0b")`
#rewrite `body . starts_with ( "0B" )` => `starts2(body, "0B")`
#rewrite `body . starts_with ( "0o" )` => `starts2(body, "0o")`
#rewrite `body . starts_with ( "0O" )` => `starts2(body, "0O")`
#rewrite `body . starts_with ( "0x" )` => `starts2(body, "0x")`
#rewrite `body . starts_with ( "0X" )` => `starts2(body, "0X")`
#rewrite `& body [ 2 .. ]` => `tail2(body)`
#rewrite `body . contains ( '_' )` => `has_char(body, '_')`
#rewrite `body . chars ( ) . peekable ( )` => `chars_of(body)`
#rewrite `| digits : & str , radix : u32 | parse_int_digits_to_bigint ( digits , radix ) . map ( | v | bigint_to_f64 ( & v ) )` => `|digits: &str, radix: u32| -> (r: Option<f64>) requires 2 <= radix <= 36 ensures match r { Some(f) => int_literal(digits@, radix as int) is Some && num(f) == n_big(int_literal(digits@, radix as int)->0), None => int_literal(digits@, radix as int) is None } { parse_int_digits_to_bigint(digits, radix).map(|v: BigInt| -> (f: f64) ensures num(f) == n_big(v@) { bigint_to_f64(&v) }) }`
#loop 0
  invariant iter.rest().len() <= body@.len(), iter.rest() == body@.skip(body@.len() - iter.rest().len()),
    scanned(body@, body@.len() - iter.rest().len(), saw_digit_before_exp, saw_dot, saw_exp, e),
  ensures iter.rest().len() == 0,
  decreases iter.rest().len(),
#loop 1
  invariant iter.rest().len() <= body@.len(), iter.rest() == body@.skip(body@.len() - iter.rest().len()),
    exp_digits >= 0, body@.len() - iter.rest().len() == at + exp_digits, at == exp_digits_at(body@, e), all_dec(body@, at, at + exp_digits), 0 <= at <= body@.len(), body@.len() < 0x7fff_ffff,
  ensures iter.rest().len() > 0 ==> !dec(iter.rest()[0]),
  decreases iter.rest().len(),
#rewrite `body . parse :: < f64 > ( ) . map ( | v | sign * v )` => `parse_f64(body).map(|v: f64| -> (f: f64) ensures num(f) == n_mul(num(sign), num(v)) { sign * v })`
#entry
  hide(is_decimal); hide(scanned); hide(mantissa); hide(js_trim); hide(int_literal); hide(infinity_word);
  proof { reveal_strlit("0b"); reveal_strlit("0B"); reveal_strlit("0o"); reveal_strlit("0O"); reveal_strlit("0x"); reveal_strlit("0X"); }
  let ghost old_raw = raw;
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_to_uint32
#ret r
#spec
  ensures r == (if v is BigInt { None } else { Some(to_uint32(to_num(val(*v))) as u32) }),
#entry
  hide(r_trunc); hide(str_to_num); proof { trunc_int(0); }
#rewrite? `int` => `int_`
#at before `let wrapped`
  proof { assert(is_int(num(int_), n_trunc(num(n)))); assert(is_int(num(4294967296.0f64), two32())); }
#at after `let wrapped`
  proof { assert(is_int(num(wrapped), n_trunc(num(n)) % two32())); }
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_to_int32
#ret r
#spec
  ensures r == (if v is BigInt { None } else { Some(to_int32(to_num(val(*v))) as i32) }),
#rewrite `. map ( | v | v as i32 )` => `.map(|v: u32| -> (i: i32) ensures i == signed32(v as int) { cast_i32(v); v as i32 })`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: coerce_to_bool
#ret r
#spec
  ensures r == to_bool(val(*v)),
#rewrite `v != & BigInt :: from ( 0 )` => `!v.same(&BigInt::of(0))`
#rewrite `v . is_empty ( )` => `empty(v.as_str())`
#entry
  let ghost fv = typed(*v);
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_cmp
#ret r
#spec
  ensures compared(val(*a), val(*b), r),
#rewrite `. map ( | a | a . cmp ( b ) )` => `.map(|a: BigInt| -> (o: Ordering) ensures o == int_cmp(a@, b@) { a.cmp(b) })`
#rewrite `. map ( | b | a . cmp ( & b ) )` => `.map(|b: BigInt| -> (o: Ordering) ensures o == int_cmp(a@, b@) { a.cmp(&b) })`
#rewrite `. map ( Ordering :: reverse )` => `.map(|o: Ordering| -> (r: Ordering) ensures r == rev(o) { reverse(o) })`
#entry
  let ghost fa = typed(*a); let ghost fb = typed(*b);
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_div
#ret r
#spec
  ensures num(r) == n_div(num(a), num(b)),
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_mod
#ret r
#spec
  ensures num(r) == n_rem(num(a), num(b)),
#rewrite `( _ , 0.0 ) =>` => `(_, z) if z == 0.0 =>`
#rewrite `a % b` => `rem(a, b)`
#rewrite `f64 :: NAN` => `nan()`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_pow
#ret r
#spec
  ensures num(r) == n_pow(num(a), num(b)),
#rewrite `f64 :: NAN` => `nan()`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_round
#ret r
#spec
  ensures num(r) == math_round(num(n)),
#entry
  proof { fraction_exact(n); half_exact(n); if let N::Fin(x) = num(n) { near(x); } }
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_strict_eq
#ret r
#spec
  ensures r == strict_eq(val(*a), val(*b)),
#rewrite `a == b` => `const_eq(a, b)`
#entry
  let ghost fa = typed(*a); let ghost fb = typed(*b);
@*/
/*@fn optimize-js/src/eval/consteval.rs :: js_loose_eq
#ret r
#spec
  ensures r == loose_eq(val(*a), val(*b)),
  decreases bools(val(*a), val(*b)),
#rewrite `discriminant ( a ) == discriminant ( b )` => `same_kind(a, b)`
#rewrite `. is_some_and ( | r | l == & r )` => `.is_some_and(|r: BigInt| -> (x: bool) ensures x == (l@ == r@) { l.same(&r) })`
#rewrite `. is_some_and ( | l | & l == r )` => `.is_some_and(|l: BigInt| -> (x: bool) ensures x == (l@ == r@) { l.same(r) })`
#rewrite `cmp_bigint_num ( l , r . 0 ) == Some ( Ordering :: Equal )` => `equal(cmp_bigint_num(l, r.0))`
#rewrite `cmp_bigint_num ( r , l . 0 ) == Some ( Ordering :: Equal )` => `equal(cmp_bigint_num(r, l.0))`
#entry
  let ghost fa = typed(*a); let ghost fb = typed(*b);
@*/

// parse_js::num::number_to_string (under contract in num.rs)
#[verifier::external_body]
fn number_to_string(n: f64) -> (r: String) ensures r@ == num_to_str(num(n)) { unimplemented!() }
spec fn op_of(op: BinOp) -> Option<Op> {
  match op {
    Add => Some(Op::Add), Sub => Some(Op::Sub), Mul => Some(Op::Mul), Div => Some(Op::Div), Mod => Some(Op::Rem), Exp => Some(Op::Pow),
    BitAnd => Some(Op::And), BitOr => Some(Op::Or), BitXor => Some(Op::Xor), Shl => Some(Op::Shl), Shr => Some(Op::Sar), UShr => Some(Op::Shr),
    Lt => Some(Op::Lt), Leq => Some(Op::Le), Gt => Some(Op::Gt), Geq => Some(Op::Ge), LooseEq => Some(Op::Eq), NotLooseEq => Some(Op::Ne), StrictEq => Some(Op::StrictEq), NotStrictEq => Some(Op::StrictNe),
    GetProp => None, BinOp::_Dummy => None,
  }
}
spec fn uop_of(op: UnOp) -> Option<UOp> {
  match op { BitNot => Some(UOp::BitNot), Neg => Some(UOp::Neg), Not => Some(UOp::Not), Plus => Some(UOp::Plus), Typeof => Some(UOp::Typeof), Void => Some(UOp::Void), UnOp::_Dummy => None }
}
proof fn mask_mod(x: u32) ensures x & 0x1fu32 == x % 32u32 { assert(x & 0x1fu32 == x % 32u32) by (bit_vector); }
proof fn bit_not(x: i32) ensures !x == -1 - x { assert(!x == sub(-1i32, x)) by (bit_vector); }
/*@fn optimize-js/src/eval/consteval.rs :: maybe_eval_const_bin_expr
#ret r
#spec
  ensures r matches Some(c) ==> op_of(op) is Some && binary(op_of(op)->0, val(*a), val(*b)) == Some(val(c)),
#entry
  hide(str_to_num); hide(n_add); hide(n_mul); hide(n_div); hide(n_rem); hide(n_pow); hide(is_less); hide(loose_eq); hide(strict_eq); hide(n_sub);
  let ghost fa = typed(*a); let ghost fb = typed(*b);
  proof { assert forall|x: u32| #[trigger] (x & 0x1fu32) == x % 32u32 by { mask_mod(x); } }
#rewrite `format ! ( "{}{r}" , number_to_string ( l . 0 ) )` => `joined(number_to_string(l.0).as_str(), r.as_str())`
#rewrite `format ! ( "{l}{}" , number_to_string ( r . 0 ) )` => `joined(l.as_str(), number_to_string(r.0).as_str())`
#rewrite `format ! ( "{l}{r}" )` => `joined(l.as_str(), r.as_str())`
#rewrite `wrapping_shl` => `wshl`
#rewrite `wrapping_shr` => `wshr`
#rewrite `| c | c . is_ge ( )` => `|c: Ordering| -> (x: bool) ensures x == (c != Ordering::Less) { c.is_ge() }`
#rewrite `| c | c . is_gt ( )` => `|c: Ordering| -> (x: bool) ensures x == (c == Ordering::Greater) { c.is_gt() }`
#rewrite `| c | c . is_le ( )` => `|c: Ordering| -> (x: bool) ensures x == (c != Ordering::Greater) { c.is_le() }`
#rewrite `| c | c . is_lt ( )` => `|c: Ordering| -> (x: bool) ensures x == (c == Ordering::Less) { c.is_lt() }`
@*/
/*@fn optimize-js/src/eval/consteval.rs :: maybe_eval_const_un_expr
#ret r
#spec
  ensures r matches Some(c) ==> uop_of(op) is Some && unary(uop_of(op)->0, val(*a)) == Some(val(c)),
#entry
  let ghost fa = typed(*a);
  proof { assert forall|x: i32| #[trigger] !x == -1 - x by { bit_not(x); } }
#rewrite `- l . 0` => `minus(l.0)`
#rewrite `"bigint" . into ( )` => `text("bigint")`
#rewrite `"boolean" . into ( )` => `text("boolean")`
#rewrite `"object" . into ( )` => `text("object")`
#rewrite `"number" . into ( )` => `text("number")`
#rewrite `"string" . into ( )` => `text("string")`
#rewrite `"undefined" . into ( )` => `text("undefined")`
@*/
// ---- builtin functions and values ---------------------------------------------------------------------
/// the functions whose results ECMAScript leaves to the implementation (and sqrt, correctly rounded)
pub enum Approx { Acos, Asin, Atan, Cos, Log, Log10, Log1p, Log2, Sin, Sqrt, Tan }
pub uninterp spec fn approx(f: Approx, n: N) -> N;
pub assume_specification [f64::acos] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Acos, num(a));
pub assume_specification [f64::asin] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Asin, num(a));
pub assume_specification [f64::atan] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Atan, num(a));
pub assume_specification [f64::cos] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Cos, num(a));
pub assume_specification [f64::ln] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Log, num(a));
pub assume_specification [f64::log10] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Log10, num(a));
pub assume_specification [f64::ln_1p] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Log1p, num(a));
pub assume_specification [f64::log2] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Log2, num(a));
pub assume_specification [f64::sin] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Sin, num(a));
pub assume_specification [f64::sqrt] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Sqrt, num(a));
pub assume_specification [f64::tan] (a: f64) -> (r: f64) ensures num(r) == approx(Approx::Tan, num(a));
pub open spec fn n_ceil(n: N) -> N { match n { N::Fin(x) => signed_int(-((-x).floor()), x < 0real), n => n } }
pub open spec fn n_floor(n: N) -> N { match n { N::Fin(x) => signed_int(x.floor(), x < 0real), n => n } }
pub open spec fn n_truncate(n: N) -> N { match n { N::Fin(x) => signed_int(r_trunc(x), x < 0real), n => n } }
pub assume_specification [f64::ceil] (a: f64) -> (r: f64) ensures num(r) == n_ceil(num(a));
pub assume_specification [f64::floor] (a: f64) -> (r: f64) ensures num(r) == n_floor(num(a));
spec fn builtin(f: Seq<char>, v: V) -> Option<V> {
  match v {
    V::Str(s) => if f == "Number"@ { Some(V::Num(str_to_num(s))) } else { None },
    V::Num(n) =>
      if f == "Math.abs"@ { Some(V::Num(n_abs(n))) } else if f == "Math.ceil"@ { Some(V::Num(n_ceil(n))) } else if f == "Math.floor"@ { Some(V::Num(n_floor(n))) }
      else if f == "Math.round"@ { Some(V::Num(math_round(n))) } else if f == "Math.trunc"@ { Some(V::Num(n_truncate(n))) }
      else if f == "Math.acos"@ { Some(V::Num(approx(Approx::Acos, n))) }
      else if f == "Math.asin"@ { Some(V::Num(approx(Approx::Asin, n))) }
      else if f == "Math.atan"@ { Some(V::Num(approx(Approx::Atan, n))) }
      else if f == "Math.cos"@ { Some(V::Num(approx(Approx::Cos, n))) }
      else if f == "Math.log"@ { Some(V::Num(approx(Approx::Log, n))) }
      else if f == "Math.log10"@ { Some(V::Num(approx(Approx::Log10, n))) }
      else if f == "Math.log1p"@ { Some(V::Num(approx(Approx::Log1p, n))) }
      else if f == "Math.log2"@ { Some(V::Num(approx(Approx::Log2, n))) }
      else if f == "Math.sin"@ { Some(V::Num(approx(Approx::Sin, n))) }
      else if f == "Math.sqrt"@ { Some(V::Num(approx(Approx::Sqrt, n))) }
      else if f == "Math.tan"@ { Some(V::Num(approx(Approx::Tan, n))) }
      else { None },
    _ => None,
  }
}
proof fn names(f: Seq<char>)
  ensures names_apart(f),
{ reveal_strlit("Math.abs"); reveal_strlit("Math.acos"); reveal_strlit("Math.asin"); reveal_strlit("Math.atan"); reveal_strlit("Math.ceil"); reveal_strlit("Math.cos"); reveal_strlit("Math.floor"); reveal_strlit("Math.log"); reveal_strlit("Math.log10"); reveal_strlit("Math.log1p"); reveal_strlit("Math.log2"); reveal_strlit("Math.round"); reveal_strlit("Math.sin"); reveal_strlit("Math.sqrt"); reveal_strlit("Math.tan"); reveal_strlit("Math.trunc"); reveal_strlit("Number"); assert("Math.abs"@[5] == 'a' && "Math.cos"@[5] == 'c'); assert("Math.abs"@[5] == 'a' && "Math.log"@[5] == 'l'); assert("Math.abs"@[5] == 'a' && "Math.sin"@[5] == 's'); assert("Math.abs"@[5] == 'a' && "Math.tan"@[5] == 't'); assert("Math.acos"@[6] == 'c' && "Math.asin"@[6] == 's'); assert("Math.acos"@[6] == 'c' && "Math.atan"@[6] == 't'); assert("Math.acos"@[5] == 'a' && "Math.ceil"@[5] == 'c'); assert("Math.acos"@[5] == 'a' && "Math.log2"@[5] == 'l'); assert("Math.acos"@[5] == 'a' && "Math.sqrt"@[5] == 's'); assert("Math.asin"@[6] == 's' && "Math.atan"@[6] == 't'); assert("Math.asin"@[5] == 'a' && "Math.ceil"@[5] == 'c'); assert("Math.asin"@[5] == 'a' && "Math.log2"@[5] == 'l'); assert("Math.asin"@[5] == 'a' && "Math.sqrt"@[5] == 's'); assert("Math.atan"@[5] == 'a' && "Math.ceil"@[5] == 'c'); assert("Math.atan"@[5] == 'a' && "Math.log2"@[5] == 'l'); assert("Math.atan"@[5] == 'a' && "Math.sqrt"@[5] == 's'); assert("Math.ceil"@[5] == 'c' && "Math.log2"@[5] == 'l'); assert("Math.ceil"@[5] == 'c' && "Math.sqrt"@[5] == 's'); assert("Math.cos"@[5] == 'c' && "Math.log"@[5] == 'l'); assert("Math.cos"@[5] == 'c' && "Math.sin"@[5] == 's'); assert("Math.cos"@[5] == 'c' && "Math.tan"@[5] == 't'); assert("Math.floor"@[5] == 'f' && "Math.log10"@[5] == 'l'); assert("Math.floor"@[5] == 'f' && "Math.log1p"@[5] == 'l'); assert("Math.floor"@[5] == 'f' && "Math.round"@[5] == 'r'); assert("Math.floor"@[5] == 'f' && "Math.trunc"@[5] == 't'); assert("Math.log"@[5] == 'l' && "Math.sin"@[5] == 's'); assert("Math.log"@[5] == 'l' && "Math.tan"@[5] == 't'); assert("Math.log10"@[9] == '0' && "Math.log1p"@[9] == 'p'); assert("Math.log10"@[5] == 'l' && "Math.round"@[5] == 'r'); assert("Math.log10"@[5] == 'l' && "Math.trunc"@[5] == 't'); assert("Math.log1p"@[5] == 'l' && "Math.round"@[5] == 'r'); assert("Math.log1p"@[5] == 'l' && "Math.trunc"@[5] == 't'); assert("Math.log2"@[5] == 'l' && "Math.sqrt"@[5] == 's'); assert("Math.round"@[5] == 'r' && "Math.trunc"@[5] == 't'); assert("Math.sin"@[5] == 's' && "Math.tan"@[5] == 't'); assert("Math.abs"@.len() == 8); assert("Math.acos"@.len() == 9); assert("Math.asin"@.len() == 9); assert("Math.atan"@.len() == 9); assert("Math.ceil"@.len() == 9); assert("Math.cos"@.len() == 8); assert("Math.floor"@.len() == 10); assert("Math.log"@.len() == 8); assert("Math.log10"@.len() == 10); assert("Math.log1p"@.len() == 10); assert("Math.log2"@.len() == 9); assert("Math.round"@.len() == 10); assert("Math.sin"@.len() == 8); assert("Math.sqrt"@.len() == 9); assert("Math.tan"@.len() == 8); assert("Math.trunc"@.len() == 10); assert("Number"@.len() == 6); }
spec fn names_apart(f: Seq<char>) -> bool {
  &&& f == "Math.abs"@ ==> f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.acos"@ ==> f != "Math.abs"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.asin"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.atan"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.ceil"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.cos"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.floor"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.log"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.log10"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.log1p"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.log2"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.round"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.sin"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.sqrt"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.tan"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.tan"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.trunc"@ && f != "Number"@
  &&& f == "Math.trunc"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Number"@
  &&& f == "Number"@ ==> f != "Math.abs"@ && f != "Math.acos"@ && f != "Math.asin"@ && f != "Math.atan"@ && f != "Math.ceil"@ && f != "Math.cos"@ && f != "Math.floor"@ && f != "Math.log"@ && f != "Math.log10"@ && f != "Math.log1p"@ && f != "Math.log2"@ && f != "Math.round"@ && f != "Math.sin"@ && f != "Math.sqrt"@ && f != "Math.tan"@ && f != "Math.trunc"@
}
/*@fn optimize-js/src/eval/consteval.rs :: maybe_eval_const_builtin_call
#ret r
#spec
  ensures r matches Some(c) ==> args@.len() == 1 && builtin(func@, val(args@[0])) == Some(val(c)),
#entry
  let ghost fv = if args@.len() == 1 { typed(args@[0]) } else { 0.0f64 };
  proof { names(func@); }
#rewrite `coerce_str_to_num ( & a )` => `coerce_str_to_num(a)`
#rewrite `( "Math.abs" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.abs") =>`
#rewrite `( "Math.acos" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.acos") =>`
#rewrite `( "Math.asin" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.asin") =>`
#rewrite `( "Math.atan" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.atan") =>`
#rewrite `( "Math.ceil" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.ceil") =>`
#rewrite `( "Math.cos" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.cos") =>`
#rewrite `( "Math.floor" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.floor") =>`
#rewrite `( "Math.log" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.log") =>`
#rewrite `( "Math.log10" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.log10") =>`
#rewrite `( "Math.log1p" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.log1p") =>`
#rewrite `( "Math.log2" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.log2") =>`
#rewrite `( "Math.round" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.round") =>`
#rewrite `( "Math.sin" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.sin") =>`
#rewrite `( "Math.sqrt" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.sqrt") =>`
#rewrite `( "Math.tan" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.tan") =>`
#rewrite `( "Math.trunc" , Num ( a ) ) =>` => `(f, Num(a)) if is_text(f, "Math.trunc") =>`
#rewrite `( "Number" , Str ( a ) ) =>` => `(f, Str(a)) if is_text(f, "Number") =>`
@*/
fn main() {}
}
