use vstd::prelude::*;
use vstd::string::*;
verus! {
/*@include jsnum.rs@*/
/*@include jsval.rs@*/

/*@type parse-js/src/num.rs :: JsNumber
#derive Copy, Clone
@*/
/// the decimal digits of the shortest text that reads back as x, without needless zeros, and the power
/// of ten that its point stands at: x = 0.d1d2… × 10^n
pub uninterp spec fn shortest(x: real) -> (Seq<char>, int);
spec fn zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
/// the decimal text of a natural number
pub uninterp spec fn nat_text(i: int) -> Seq<char>;
/// Number::toString of a positive number, steps 6 to 10
spec fn layout(d: Seq<char>, n: int) -> Seq<char> {
  let k = d.len() as int;
  if k <= n && n <= 21 { d + zeros(n - k) }
  else if 0 < n && n <= 21 { d.take(n) + seq!['.'] + d.skip(n) }
  else if -6 < n && n <= 0 { seq!['0', '.'] + zeros(-n) + d }
  else {
    (if k == 1 { d } else { d.take(1) + seq!['.'] + d.skip(1) }) + seq!['e', if n - 1 >= 0 { '+' } else { '-' }] + nat_text(if n - 1 >= 0 { n - 1 } else { 1 - n })
  }
}
/// Number::toString
spec fn number_text(v: N) -> Seq<char> {
  match v {
    N::NaN => seq!['N', 'a', 'N'], N::Zero(_) => seq!['0'],
    N::Inf(s) => (if s { seq!['-'] } else { Seq::empty() }) + seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y'],
    N::Fin(x) => if x < 0real { seq!['-'] + layout(shortest(-x).0, shortest(-x).1) } else { layout(shortest(x).0, shortest(x).1) },
  }
}
spec fn sign_text(v: N) -> Seq<char> { if neg_sign(v) { seq!['-'] } else { Seq::empty() } }
spec fn abs_val(v: N) -> real { match v { N::Fin(x) => if x < 0real { -x } else { x }, _ => 0real } }
proof fn signed_text(v: N)
  requires v is Fin,
  ensures number_text(v) == sign_text(v) + layout(shortest(abs_val(v)).0, shortest(abs_val(v)).1),
{ hide(layout); let l = layout(shortest(abs_val(v)).0, shortest(abs_val(v)).1); assert(number_text(v) =~= sign_text(v) + l); }
axiom fn shortest_wf(x: real)
  ensures x > 0real ==> shortest(x).0.len() > 0 && shortest(x).0.len() < 100 && all_dec(shortest(x).0, 0, shortest(x).0.len() as int) && -1000 < shortest(x).1 < 1000;
/// the digits and exponent, perhaps with zeros more where the number is an integer written in full
spec fn decomposed(x: real, d: Seq<char>, exp: int) -> bool {
  let (s, n) = shortest(x); let z = d.len() - s.len();
  z >= 0 && d.len() < 200 && all_dec(d, 0, d.len() as int) && d == s + zeros(z) && exp == n - d.len() && (z > 0 ==> exp == 0 && n <= 21)
}
// `parse_ryu_to_decimal(&JsNumber(abs).to_string())`, assumed
#[verifier::external_body]
fn digits_of(abs: f64) -> (r: (String, i32))
  requires num(abs) is Fin, num(abs)->Fin_0 > 0real,
  ensures decomposed(num(abs)->Fin_0, r.0@, r.1 as int),
{ unimplemented!() }
// String methods on ASCII text, and `to_string`, assumed
#[verifier::external_body]
fn ascii_len(s: &String) -> (r: usize) requires all_dec(s@, 0, s@.len() as int) ensures r == s@.len() { s.len() }
#[verifier::external_body]
fn head(s: &String, k: usize) -> (r: &str) requires all_dec(s@, 0, s@.len() as int), k <= s@.len() ensures r@ == s@.take(k as int) { &s[..k] }
#[verifier::external_body]
fn tail(s: &String, k: usize) -> (r: &str) requires all_dec(s@, 0, s@.len() as int), k <= s@.len() ensures r@ == s@.skip(k as int) { &s[k..] }
#[verifier::external_body]
fn first_char(s: &String) -> (r: char) requires all_dec(s@, 0, s@.len() as int), s@.len() > 0 ensures r == s@[0] { s.as_bytes()[0] as char }
#[verifier::external_body]
fn push_zeros(out: &mut String, n: usize) ensures final(out)@ == old(out)@ + zeros(n as int) { out.extend(std::iter::repeat('0').take(n)) }
#[verifier::external_body]
fn int_text(i: i32) -> (r: String) requires i >= 0 ensures r@ == nat_text(i as int) { i.to_string() }
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures r@ == s@ { s.into() }

/*@fn parse-js/src/num.rs :: number_to_string
#ret r
#spec
  ensures r@ == number_text(num(n)),
#rewrite `"NaN" . to_string ( )` => `text("NaN")`
#rewrite `"0" . to_string ( )` => `text("0")`
#rewrite `"Infinity" . to_string ( )` => `text("Infinity")`
#rewrite `"-Infinity" . to_string ( )` => `text("-Infinity")`
#rewrite `let raw = JsNumber ( abs ) . to_string ( ) ;` => ``
#rewrite `parse_ryu_to_decimal ( & raw )` => `digits_of(abs)`
#rewrite `digits . len ( )` => `ascii_len(&digits)`
#rewrite `out . push_str ( & digits [ .. k ] )` => `out.push_str(head(&digits, k))`
#rewrite `out . push_str ( & digits [ k .. ] )` => `out.push_str(tail(&digits, k))`
#rewrite `out . push_str ( & digits [ 1 .. ] )` => `out.push_str(tail(&digits, 1))`
#rewrite `out . push_str ( & digits )` => `out.push_str(digits.as_str())`
#rewrite `out . push_str ( & exp . to_string ( ) )` => `out.push_str(int_text(exp).as_str())`
#rewrite `out . push_str ( & ( - exp ) . to_string ( ) )` => `out.push_str(int_text(-exp).as_str())`
#rewrite `digits . as_bytes ( ) [ 0 ] as char` => `first_char(&digits)`
#rewrite `out . extend ( std :: iter :: repeat ( '0' ) . take (` => `push_zeros(&mut out, (`
#entry
  proof { reveal_strlit("NaN"); reveal_strlit("0"); reveal_strlit("Infinity"); reveal_strlit("-Infinity"); reveal_strlit("-"); reveal_strlit(""); reveal_strlit("0.");
    assert("NaN"@ =~= seq!['N', 'a', 'N']); assert("0"@ =~= seq!['0']); assert("Infinity"@ =~= seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y']); assert("-Infinity"@ =~= seq!['-'] + seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y']);
    assert(Seq::<char>::empty() + seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y'] =~= seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y']);
  }
#at before `let k = exp`
  let ghost x = num(abs)->Fin_0; let ghost (sd, sn) = shortest(x);
  proof { shortest_wf(x); }
#at before `let mut out`
  let ghost sg: Seq<char> = sign_text(num(n));
  proof {
    signed_text(num(n));
    assert(digits@.len() == sd.len() ==> digits@ =~= sd);
    assert(sd.len() <= sn <= 21 ==> sd + zeros(sn - sd.len()) =~= digits@ + zeros(sn - digits@.len()));
  }
#rewrite `return out ;` => `proof { assert(out@ =~= sg + layout(sd, sn)); } return out;`
#attr #[verifier::rlimit(100)]
#at before `let exp = k - 1`
  proof { if sd.len() == 1 { assert(digits@.take(1) =~= digits@); } }
  let ghost o1 = out@;
  proof { assert(o1 =~= sg + (if sd.len() == 1 { sd } else { sd.take(1) + seq!['.'] + sd.skip(1) }) + seq!['e']); }
#tail res
  proof { assert(res@ =~= sg + layout(sd, sn)); }
@*/
pub open spec fn total(a: N, b: N) -> Ordering {
  if a == b { Ordering::Equal } else if n_lt(a, b) || (a == N::Zero(true) && b is Zero) { Ordering::Less } else { Ordering::Greater }
}
pub assume_specification [f64::total_cmp] (a: &f64, b: &f64) -> (r: Ordering)
  ensures !(num(*a) is NaN) && !(num(*b) is NaN) ==> r == total(num(*a), num(*b));
/// the order of constants: one NaN, above everything; 0 above -0
spec fn const_order(a: N, b: N) -> Ordering {
  match (a, b) { (N::NaN, N::NaN) => Ordering::Equal, (N::NaN, _) => Ordering::Greater, (_, N::NaN) => Ordering::Less, _ => total(a, b) }
}
/// it is a total order that tells apart whatever JavaScript tells apart
proof fn const_order_total(a: N, b: N, c: N)
  requires a != N::Fin(0real), b != N::Fin(0real), c != N::Fin(0real),
  ensures (const_order(a, b) == Ordering::Equal) == (a == b),
    (const_order(a, b) == Ordering::Less) == (const_order(b, a) == Ordering::Greater),
    const_order(a, b) == Ordering::Less && const_order(b, c) == Ordering::Less ==> const_order(a, c) == Ordering::Less,
{}
fn is_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { match o { Ordering::Equal => true, _ => false } }
impl JsNumber {
/*@fn parse-js/src/num.rs :: Ord for JsNumber::cmp
#ret r
#spec
  ensures r == const_order(num(self.0), num(other.0)),
#entry
  let ghost fa = float_in(*self); let ghost fb = float_in(*other);
@*/
/*@fn parse-js/src/num.rs :: PartialEq for JsNumber::eq
#ret r
#spec
  ensures r == (num(self.0) == num(other.0)),
#rewrite `. is_eq ( )` => `.eq_()`
@*/
}
trait IsEq { fn eq_(self) -> bool; }
impl IsEq for Ordering { fn eq_(self) -> (r: bool) ensures r == (self == Ordering::Equal) { match self { Ordering::Equal => true, _ => false } } }
proof fn float_in(a: JsNumber) -> (r: f64) ensures r == a.0 { a.0 }

// ---- BigInt literals: their value, as the one decimal text that the minifier relies on ----
spec fn canon(s: Seq<char>) -> bool { digits(s, 10) && (s[0] == '0' ==> s.len() == 1) }
/// without the separators
spec fn clean(s: Seq<char>) -> Seq<char>
  decreases s.len()
{ if s.len() == 0 { s } else if s.last() == '_' { clean(s.drop_last()) } else { clean(s.drop_last()).push(s.last()) } }
/// BigIntLiteral: the digits and radix of its NumericValue
spec fn big_digits(body: Seq<char>) -> (Seq<char>, int) { if prefix_radix(body) != 0 { (body.skip(2), prefix_radix(body)) } else { (body, 10) } }
// num_bigint::BigInt, assumed
#[verifier::external_body]
pub struct BigInt { x: u8 }
impl BigInt {
  pub uninterp spec fn view(&self) -> int;
  // `BigInt::parse_bytes(digits.as_bytes(), radix)`
  #[verifier::external_body]
  fn parse(s: &str, radix: u32) -> (r: Option<BigInt>)
    requires digits(s@, radix as int), 2 <= radix <= 36,
    ensures r matches Some(v) && v@ == int_val(s@, radix as int),
  { unimplemented!() }
  #[verifier::external_body]
  fn to_str_radix(&self, radix: u32) -> (r: String)
    requires radix == 10, self@ >= 0,
    ensures canon(r@), int_val(r@, 10) == self@,
  { unimplemented!() }
}
// methods of str and char, assumed
#[verifier::external_body]
fn ends_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body]
fn starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn but_last(s: &str) -> (r: &str) requires s@.len() > 0, s@.last() as int <= 127 ensures r@ == s@.drop_last() { &s[..s.len() - 1] }
#[verifier::external_body]
fn strip_either<'a>(s: &'a str, a: &str, b: &str) -> (r: Option<&'a str>)
  requires a@.len() == 2, b@.len() == 2,
  ensures match r { Some(t) => s@.len() >= 2 && (s@.take(2) == a@ || s@.take(2) == b@) && t@ == s@.skip(2), None => s@.len() < 2 || (s@.take(2) != a@ && s@.take(2) != b@) },
{ s.strip_prefix(a).or_else(|| s.strip_prefix(b)) }
#[verifier::external_body]
struct Chars { x: u8 }
impl Chars {
  uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  fn list(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Chars) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn to_digit(c: char, radix: u32) -> (r: Option<u32>)
  requires 2 <= radix <= 36,
  ensures match r { Some(v) => v == digit_val(c) && v < radix, None => digit_val(c) >= radix },
{ c.to_digit(radix) }
#[verifier::external_body]
fn from_digit(v: u32, radix: u32) -> (r: Option<char>)
  requires 2 <= radix <= 36, v < radix,
  ensures r matches Some(c) && digit_val(c) == v && c != '_' && (c as int) <= 127 && (c == '0' <==> v == 0),
{ char::from_digit(v, radix) }
#[verifier::external_body]
fn ascii_size(s: &String) -> (r: usize) requires forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) as int <= 127 ensures r == s@.len() { s.len() }
#[verifier::external_body]
fn sized(n: usize) -> (r: String) ensures r@.len() == 0 { String::with_capacity(n) }
proof fn val_nat(s: Seq<char>, radix: int)
  requires forall|i: int| 0 <= i < s.len() ==> 0 <= digit_val(#[trigger] s[i]) < radix, radix >= 2,
  ensures int_val(s, radix) >= 0,
  decreases s.len(),
{ if s.len() > 0 { val_nat(s.drop_last(), radix); assert(digit_val(s[s.len() - 1]) >= 0); assert(int_val(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires int_val(s.drop_last(), radix) >= 0, radix >= 2; } }
/*@fn parse-js/src/parse/expr/lit.rs :: normalise_literal_bigint
#ret r
#spec
  ensures r matches Some(t) ==> raw@.len() > 0 && raw@.last() == 'n' && canon(t@)
    && ({ let (d, radix) = big_digits(raw@.drop_last()); digits(clean(d), radix) && int_val(t@, 10) == int_val(clean(d), radix) }),
#entry
  proof { reveal_strlit("0b"); reveal_strlit("0B"); reveal_strlit("0o"); reveal_strlit("0O"); reveal_strlit("0x"); reveal_strlit("0X");
    let b = raw@.drop_last();
    if b.len() >= 2 { assert(b.take(2) =~= seq![b[0], b[1]]); }
    assert("0b"@ =~= seq!['0', 'b']); assert("0B"@ =~= seq!['0', 'B']); assert("0o"@ =~= seq!['0', 'o']); assert("0O"@ =~= seq!['0', 'O']); assert("0x"@ =~= seq!['0', 'x']); assert("0X"@ =~= seq!['0', 'X']);
  }
#rewrite `raw . ends_with ( 'n' )` => `ends_char(raw, 'n')`
#rewrite `& raw [ .. raw . len ( ) . saturating_sub ( 1 ) ]` => `but_last(raw)`
#rewrite `body . strip_prefix ( "0b" ) . or_else ( | | body . strip_prefix ( "0B" ) )` => `strip_either(body, "0b", "0B")`
#rewrite `body . strip_prefix ( "0o" ) . or_else ( | | body . strip_prefix ( "0O" ) )` => `strip_either(body, "0o", "0O")`
#rewrite `body . strip_prefix ( "0x" ) . or_else ( | | body . strip_prefix ( "0X" ) )` => `strip_either(body, "0x", "0X")`
#rewrite `String :: with_capacity ( digits . len ( ) )` => `sized(0)`
#rewrite `digits . chars ( )` => `chars_of(digits)`
#rewrite `ch . to_digit ( radix )` => `to_digit(ch, radix)`
#rewrite `char :: from_digit ( value , radix )` => `from_digit(value, radix)`
#rewrite `normalised_digits . len ( )` => `ascii_size(&normalised_digits)`
#rewrite `normalised_digits . starts_with ( '0' )` => `starts_char(normalised_digits.as_str(), '0')`
#rewrite `BigInt :: parse_bytes ( normalised_digits . as_bytes ( ) , radix )` => `BigInt::parse(normalised_digits.as_str(), radix)`
#at before `let mut normalised_digits`
  proof { assert(big_digits(raw@.drop_last()) == (digits@, radix as int)); }
#loop 0 while=ix list=list
  invariant ix <= ix_s.len(), ix_s@ == digits@, 2 <= radix <= 16,
    normalised_digits@.len() == clean(digits@.take(ix as int)).len(),
    forall|i: int| 0 <= i < normalised_digits@.len() ==> (#[trigger] normalised_digits@[i]) as int <= 127 && 0 <= digit_val(normalised_digits@[i]) < radix,
    forall|i: int| 0 <= i < normalised_digits@.len() ==> digit_val(#[trigger] clean(digits@.take(ix as int))[i]) < radix,
    int_val(normalised_digits@, radix as int) == int_val(clean(digits@.take(ix as int)), radix as int),
    saw_digit == (normalised_digits@.len() > 0),
  decreases ix_s.len() - ix,
#at before `if ch == '_'`
  let ghost n0 = normalised_digits@; let ghost c0 = clean(digits@.take(ix as int - 1));
  proof { let t = digits@.take(ix as int); assert(t.drop_last() =~= digits@.take(ix as int - 1)); assert(t.last() == ch); assert(c0.push(ch).drop_last() =~= c0); }
#at after `normalised_digits . push ( digit )`
  proof { assert(normalised_digits@.drop_last() =~= n0); assert(normalised_digits@.last() == digit); }
#at before `if prev_sep || ! saw_digit { return None ; } if radix`
  proof { assert(digits@.take(digits@.len() as int) =~= digits@); val_nat(normalised_digits@, radix as int); }
@*/
fn main() {}
}
