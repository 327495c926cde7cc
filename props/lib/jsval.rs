// ---- ECMAScript: primitive values, conversions and operators -----------------------------------------
#[verifier::ext_equal]
pub enum V { Undefined, Null, Bool(bool), Num(N), Str(Seq<char>), BigInt(int) }
use core::cmp::Ordering;

// -- strings
/// WhiteSpace or LineTerminator
pub open spec fn js_ws(c: char) -> bool {
  c == '\u{9}' || c == '\u{b}' || c == '\u{c}' || c == '\u{20}' || c == '\u{a0}' || c == '\u{feff}'
  || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200a}') || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
  || c == '\u{a}' || c == '\u{d}' || c == '\u{2028}' || c == '\u{2029}'
}
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
  decreases s.len()
{ if s.len() > 0 && js_ws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
  decreases s.len()
{ if s.len() > 0 && js_ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn js_trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
pub open spec fn units(c: char) -> Seq<u16> {
  let v = c as u32 as int;
  if v < 0x10000 { seq![v as u16] } else { seq![(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16] }
}
/// the UTF-16 code units of a text
pub open spec fn utf16(s: Seq<char>) -> Seq<u16>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { units(s[0]) + utf16(s.drop_first()) } }
pub open spec fn unit_less(a: Seq<u16>, b: Seq<u16>, i: int) -> bool
  decreases a.len() - i
{
  if i < 0 || i >= a.len() || i >= b.len() { a.len() < b.len() }
  else if a[i] == b[i] { unit_less(a, b, i + 1) } else { a[i] < b[i] }
}
/// the UTF-16 code units are ordered lexicographically
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { unit_less(utf16(a), utf16(b), 0) }

// -- StringToNumber and StringToBigInt
pub open spec fn dec(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit_val(c: char) -> int {
  if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
  else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> digit_val(#[trigger] s[i]) < radix) }
pub open spec fn int_val(s: Seq<char>, radix: int) -> int
  decreases s.len()
{ if s.len() == 0 { 0 } else { int_val(s.drop_last(), radix) * radix + digit_val(s.last()) } }
/// 0b, 0o or 0x
pub open spec fn prefix_radix(s: Seq<char>) -> int {
  if s.len() < 2 || s[0] != '0' { 0 }
  else if s[1] == 'b' || s[1] == 'B' { 2 } else if s[1] == 'o' || s[1] == 'O' { 8 } else if s[1] == 'x' || s[1] == 'X' { 16 } else { 0 }
}
pub open spec fn int_literal(s: Seq<char>, radix: int) -> Option<int> { if digits(s, radix) { Some(int_val(s, radix)) } else { None } }
pub open spec fn str_to_bigint(raw: Seq<char>) -> Option<int> {
  let s = js_trim(raw);
  if s.len() == 0 { Some(0) }
  else if s[0] == '+' { int_literal(s.skip(1), 10) }
  else if s[0] == '-' { match int_literal(s.skip(1), 10) { Some(v) => Some(-v), None => None } }
  else if prefix_radix(s) != 0 { int_literal(s.skip(2), prefix_radix(s)) }
  else { int_literal(s, 10) }
}
pub open spec fn is_exp(c: char) -> bool { c == 'e' || c == 'E' }
/// index of the first e or E, or the length
pub open spec fn exp_at(s: Seq<char>, i: int) -> int
  decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if is_exp(s[i]) { i } else { exp_at(s, i + 1) } }
pub open spec fn all_dec(s: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> dec(#[trigger] s[k]) }
/// `s[..e]` is digits with at most one point among them, and at least one digit
pub open spec fn mantissa(s: Seq<char>, e: int) -> bool {
  (forall|k: int| 0 <= k < e ==> dec(#[trigger] s[k]) || s[k] == '.')
  && (forall|k: int, l: int| 0 <= k < l < e ==> !(#[trigger] s[k] == '.' && #[trigger] s[l] == '.'))
  && (exists|k: int| 0 <= k < e && dec(#[trigger] s[k]))
}
/// an optional sign and at least one digit, from i to the end
pub open spec fn exponent(s: Seq<char>, i: int) -> bool {
  let d = if i < s.len() && (s[i] == '+' || s[i] == '-') { i + 1 } else { i };
  d < s.len() && all_dec(s, d, s.len() as int)
}
/// StrUnsignedDecimalLiteral other than Infinity
pub open spec fn is_decimal(s: Seq<char>) -> bool {
  let e = exp_at(s, 0);
  mantissa(s, e) && (e < s.len() ==> exponent(s, e + 1))
}
/// RoundMVResult of such a literal
pub uninterp spec fn decimal(s: Seq<char>) -> N;
pub open spec fn infinity_word(s: Seq<char>) -> bool { s == seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y'] }
pub open spec fn unsigned_to_num(s: Seq<char>) -> N { if infinity_word(s) { N::Inf(false) } else if is_decimal(s) { decimal(s) } else { N::NaN } }
pub open spec fn str_to_num(raw: Seq<char>) -> N {
  let s = js_trim(raw);
  if s.len() == 0 { N::Zero(false) }
  else if s[0] == '+' { unsigned_to_num(s.skip(1)) }
  else if s[0] == '-' { n_neg(unsigned_to_num(s.skip(1))) }
  else if prefix_radix(s) != 0 { match int_literal(s.skip(2), prefix_radix(s)) { Some(v) => n_big(v), None => N::NaN } }
  else { unsigned_to_num(s) }
}

// -- conversions
/// Number::toString
pub uninterp spec fn num_to_str(n: N) -> Seq<char>;
/// BigInt::toString
pub uninterp spec fn big_to_str(i: int) -> Seq<char>;
/// ToNumber (of a BigInt it throws)
pub open spec fn to_num(v: V) -> N {
  match v { V::Undefined => N::NaN, V::Null => N::Zero(false), V::Bool(b) => n_int(if b { 1 } else { 0 }), V::Num(n) => n, V::Str(s) => str_to_num(s), V::BigInt(_) => N::NaN }
}
pub open spec fn to_bool(v: V) -> bool {
  match v { V::Undefined => false, V::Null => false, V::Bool(b) => b, V::Num(n) => !(n is NaN || n is Zero), V::Str(s) => s.len() > 0, V::BigInt(i) => i != 0 }
}
pub open spec fn to_str(v: V) -> Seq<char> {
  match v {
    V::Undefined => seq!['u', 'n', 'd', 'e', 'f', 'i', 'n', 'e', 'd'], V::Null => seq!['n', 'u', 'l', 'l'],
    V::Bool(b) => if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] },
    V::Num(n) => num_to_str(n), V::Str(s) => s, V::BigInt(i) => big_to_str(i),
  }
}
pub open spec fn two32() -> int { 4294967296 }
pub open spec fn to_uint32(n: N) -> int { if n is Fin { n_trunc(n) % two32() } else { 0 } }
pub open spec fn to_int32(n: N) -> int { signed32(to_uint32(n)) }

// -- comparison
/// ℝ(b) < ℝ(n)
pub open spec fn big_lt_num(b: int, n: N) -> Option<bool> {
  match n { N::NaN => None, N::Inf(s) => Some(!s), _ => Some((b as real) < r_val(n)) }
}
pub open spec fn num_lt_big(n: N, b: int) -> Option<bool> {
  match n { N::NaN => None, N::Inf(s) => Some(s), _ => Some(r_val(n) < (b as real)) }
}
/// IsLessThan of primitives
pub open spec fn is_less(x: V, y: V) -> Option<bool> {
  match (x, y) {
    (V::Str(a), V::Str(b)) => Some(str_lt(a, b)),
    (V::BigInt(a), V::Str(b)) => match str_to_bigint(b) { None => None, Some(b) => Some(a < b) },
    (V::Str(a), V::BigInt(b)) => match str_to_bigint(a) { None => None, Some(a) => Some(a < b) },
    (V::BigInt(a), V::BigInt(b)) => Some(a < b),
    (V::BigInt(a), y) => big_lt_num(a, to_num(y)),
    (x, V::BigInt(b)) => num_lt_big(to_num(x), b),
    (x, y) => { let a = to_num(x); let b = to_num(y); if a is NaN || b is NaN { None } else { Some(n_lt(a, b)) } },
  }
}
/// what IsLessThan says of both orders
pub open spec fn compared(x: V, y: V, r: Option<Ordering>) -> bool {
  match r {
    None => is_less(x, y) is None && is_less(y, x) is None,
    Some(o) => is_less(x, y) == Some(o == Ordering::Less) && is_less(y, x) == Some(o == Ordering::Greater),
  }
}
pub open spec fn strict_eq(x: V, y: V) -> bool { match (x, y) { (V::Num(a), V::Num(b)) => n_eq(a, b), _ => x == y } }
pub open spec fn same_type(x: V, y: V) -> bool {
  match (x, y) { (V::Undefined, V::Undefined) => true, (V::Null, V::Null) => true, (V::Bool(_), V::Bool(_)) => true, (V::Num(_), V::Num(_)) => true, (V::Str(_), V::Str(_)) => true, (V::BigInt(_), V::BigInt(_)) => true, _ => false }
}
pub open spec fn bools(x: V, y: V) -> nat { ((if x is Bool { 1nat } else { 0nat }) + (if y is Bool { 1nat } else { 0nat })) as nat }
pub open spec fn loose_eq(x: V, y: V) -> bool
  decreases bools(x, y)
{
  if same_type(x, y) { strict_eq(x, y) } else {
    match (x, y) {
      (V::Null, V::Undefined) => true, (V::Undefined, V::Null) => true,
      (V::Num(a), V::Str(s)) => n_eq(a, str_to_num(s)), (V::Str(s), V::Num(b)) => n_eq(str_to_num(s), b),
      (V::BigInt(a), V::Str(s)) => str_to_bigint(s) == Some(a), (V::Str(s), V::BigInt(b)) => str_to_bigint(s) == Some(b),
      (V::Bool(a), y) => loose_eq(V::Num(to_num(x)), y), (x, V::Bool(b)) => loose_eq(x, V::Num(to_num(y))),
      (V::BigInt(a), V::Num(n)) => (n is Fin || n is Zero) && a as real == r_val(n), (V::Num(n), V::BigInt(a)) => (n is Fin || n is Zero) && a as real == r_val(n),
      _ => false,
    }
  }
}

// -- operators
pub enum Op { Add, Sub, Mul, Div, Rem, Pow, And, Or, Xor, Shl, Sar, Shr, Lt, Le, Gt, Ge, Eq, Ne, StrictEq, StrictNe }
pub open spec fn bit_and(x: int, y: int) -> int { ((x as i32) & (y as i32)) as int }
pub open spec fn bit_or(x: int, y: int) -> int { ((x as i32) | (y as i32)) as int }
pub open spec fn bit_xor(x: int, y: int) -> int { ((x as i32) ^ (y as i32)) as int }
pub open spec fn numeric(x: V, y: V) -> bool { !(x is BigInt) && !(y is BigInt) }
/// the value of `x op y`, None where it throws or is a BigInt
pub open spec fn binary(op: Op, x: V, y: V) -> Option<V> {
  let a = to_num(x); let b = to_num(y);
  match op {
    Op::Add => if x is Str || y is Str { Some(V::Str(to_str(x) + to_str(y))) } else if numeric(x, y) { Some(V::Num(n_add(a, b))) } else { None },
    Op::Lt => Some(V::Bool(is_less(x, y) == Some(true))),
    Op::Gt => Some(V::Bool(is_less(y, x) == Some(true))),
    Op::Le => Some(V::Bool(is_less(y, x) == Some(false))),
    Op::Ge => Some(V::Bool(is_less(x, y) == Some(false))),
    Op::Eq => Some(V::Bool(loose_eq(x, y))), Op::Ne => Some(V::Bool(!loose_eq(x, y))),
    Op::StrictEq => Some(V::Bool(strict_eq(x, y))), Op::StrictNe => Some(V::Bool(!strict_eq(x, y))),
    _ => if !numeric(x, y) { None } else { Some(V::Num(match op {
      Op::Sub => n_sub(a, b), Op::Mul => n_mul(a, b), Op::Div => n_div(a, b), Op::Rem => n_rem(a, b), Op::Pow => n_pow(a, b),
      Op::And => n_int(bit_and(to_int32(a), to_int32(b))), Op::Or => n_int(bit_or(to_int32(a), to_int32(b))), Op::Xor => n_int(bit_xor(to_int32(a), to_int32(b))),
      Op::Shl => n_int(signed32(to_int32(a) * pow2(to_uint32(b) % 32))),
      Op::Sar => n_int(to_int32(a) / pow2(to_uint32(b) % 32)),
      _ => n_int(to_uint32(a) / pow2(to_uint32(b) % 32)),
    })) },
  }
}
pub enum UOp { BitNot, Neg, Not, Plus, Typeof, Void }
pub open spec fn type_name(v: V) -> Seq<char> {
  match v {
    V::Undefined => "undefined"@, V::Null => "object"@, V::Bool(_) => "boolean"@, V::Num(_) => "number"@, V::Str(_) => "string"@, V::BigInt(_) => "bigint"@,
  }
}
pub open spec fn unary(op: UOp, x: V) -> Option<V> {
  match op {
    UOp::Not => Some(V::Bool(!to_bool(x))), UOp::Typeof => Some(V::Str(type_name(x))), UOp::Void => Some(V::Undefined),
    _ => if x is BigInt { None } else { Some(V::Num(match op { UOp::Neg => n_neg(to_num(x)), UOp::Plus => to_num(x), _ => n_int(-1 - to_int32(to_num(x))) })) },
  }
}
