pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
  where F: std::marker::Destruct, T: std::marker::Destruct
  requires o matches Some(x) ==> call_requires(f, (x,)),
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
// ---- str methods used by the conversions, assumed ------------------------------------------------------
#[verifier::external_body]
fn trim_by<F: Fn(char) -> bool>(raw: &str, f: F) -> (r: &str)
  requires forall|c: char| call_requires(f, (c,)), forall|c: char, b: bool| call_ensures(f, (c,), b) ==> b == js_ws(c),
  ensures r@ == js_trim(raw@),
{ raw.trim_matches(f) }
#[verifier::external_body]
fn in_list(a: &[char], c: char) -> (r: bool) ensures r == a@.contains(c) { a.contains(&c) }
#[verifier::external_body]
fn strip<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
  ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != c },
{ s.strip_prefix(c) }
/// `s.starts_with(p)` of a two-character prefix
#[verifier::external_body]
fn starts2(s: &str, p: &str) -> (r: bool)
  requires p@.len() == 2,
  ensures r == (s@.len() >= 2 && s@[0] == p@[0] && s@[1] == p@[1]),
{ s.starts_with(p) }
/// `&s[2..]` after two ASCII characters
#[verifier::external_body]
fn tail2(s: &str) -> (r: &str)
  requires s@.len() >= 2, s@[0] as int <= 127, s@[1] as int <= 127,
  ensures r@ == s@.skip(2),
{ &s[2..] }
#[verifier::external_body]
fn has_char(s: &str, c: char) -> (r: bool) ensures r == (exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == c) { s.contains(c) }
#[verifier::external_body]
fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn is_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// `digits.chars().all(|ch| ch.to_digit(radix).is_some())`
#[verifier::external_body]
fn all_digits(s: &str, radix: u32) -> (r: bool)
  requires 2 <= radix <= 36,
  ensures r == (forall|i: int| 0 <= i < s@.len() ==> digit_val(#[trigger] s@[i]) < radix as int),
{ s.chars().all(|ch| ch.to_digit(radix).is_some()) }
/// `s.parse::<f64>()` of a decimal literal: correctly rounded
#[verifier::external_body]
fn parse_f64(s: &str) -> (r: Option<f64>)
  requires is_decimal(s@),
  ensures r matches Some(v) && num(v) == decimal(s@),
{ s.parse::<f64>().ok() }
/// `s.chars().peekable()`
#[verifier::external_body]
struct CharIter<'a> { it: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> CharIter<'a> {
  uninterp spec fn rest(&self) -> Seq<char>;
  #[verifier::external_body]
  fn next(&mut self) -> (r: Option<char>)
    ensures match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
  { self.it.next() }
  #[verifier::external_body]
  fn peek(&mut self) -> (r: Option<char>)
    ensures final(self).rest() == old(self).rest(), match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0], None => old(self).rest().len() == 0 },
  { self.it.peek().copied() }
}
#[verifier::external_body]
fn chars_of<'a>(s: &'a str) -> (r: CharIter<'a>) ensures r.rest() == s@ { CharIter { it: s.chars().peekable() } }

// ---- the scan of a decimal literal ------------------------------------------------------------------------
spec fn some_dec(s: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k < i && dec(#[trigger] s[k]) }
spec fn some_dot(s: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k < i && #[trigger] s[k] == '.' }
spec fn exp_digits_at(s: Seq<char>, e: int) -> int { if e + 1 < s.len() && (s[e + 1] == '+' || s[e + 1] == '-') { e + 2 } else { e + 1 } }
/// what has been seen of s before i; e is where the exponent began
spec fn scanned(s: Seq<char>, i: int, digit: bool, dot: bool, exp: bool, e: int) -> bool {
  &&& 0 <= i <= s.len()
  &&& !exp ==> digit == some_dec(s, i) && dot == some_dot(s, i) && (forall|k: int| 0 <= k < i ==> dec(#[trigger] s[k]) || s[k] == '.')
        && (forall|k: int, l: int| 0 <= k < l < i ==> !(#[trigger] s[k] == '.' && #[trigger] s[l] == '.'))
  &&& exp ==> digit && 0 <= e < i && is_exp(s[e]) && (forall|k: int| 0 <= k < e ==> !is_exp(#[trigger] s[k])) && mantissa(s, e)
        && exp_digits_at(s, e) < i && all_dec(s, exp_digits_at(s, e), i) && (i < s.len() ==> !dec(s[i]))
}
proof fn exp_index(s: Seq<char>, i: int)
  requires 0 <= i <= s.len(),
  ensures i <= exp_at(s, i) <= s.len(), forall|k: int| i <= k < exp_at(s, i) ==> !is_exp(#[trigger] s[k]), exp_at(s, i) < s.len() ==> is_exp(s[exp_at(s, i)]),
  decreases s.len() - i,
{ if i < s.len() && !is_exp(s[i]) { exp_index(s, i + 1); } }
/// the whole of s has been scanned
proof fn scanned_all(s: Seq<char>, digit: bool, dot: bool, exp: bool, e: int)
  requires scanned(s, s.len() as int, digit, dot, exp, e),
  ensures is_decimal(s) == digit,
{
  exp_index(s, 0);
  if exp { assert(exp_at(s, 0) == e) by { if exp_at(s, 0) < e { assert(is_exp(s[exp_at(s, 0)])); } } }
  else { assert(exp_at(s, 0) == s.len()) by { if exp_at(s, 0) < s.len() { assert(is_exp(s[exp_at(s, 0)])); } } }
}
/// the next character cannot continue what was scanned
proof fn scan_stuck(s: Seq<char>, i: int, digit: bool, dot: bool, exp: bool, e: int)
  requires scanned(s, i, digit, dot, exp, e), i < s.len(),
    exp || !(dec(s[i]) || s[i] == '.' || is_exp(s[i])) || (s[i] == '.' && dot) || (is_exp(s[i]) && (!digit || !exponent(s, i + 1))),
  ensures !is_decimal(s), exp ==> !dec(s[i]),
{
  exp_index(s, 0);
  if exp {
    assert(exp_at(s, 0) == e) by { if exp_at(s, 0) < e { assert(is_exp(s[exp_at(s, 0)])); } }
    assert(!dec(s[i]));
  } else {
    assert(exp_at(s, 0) >= i) by { if exp_at(s, 0) < i { assert(is_exp(s[exp_at(s, 0)])); } }
    if is_exp(s[i]) { assert(exp_at(s, 0) == i); }
    else { assert(exp_at(s, 0) > i); if s[i] == '.' { let k = choose|k: int| 0 <= k < i && #[trigger] s[k] == '.'; assert(s[k] == '.' && s[i] == '.'); } }
  }
}
proof fn scan_digit(s: Seq<char>, i: int, digit: bool, dot: bool, e: int)
  requires scanned(s, i, digit, dot, false, e), i < s.len(), dec(s[i]) || (s[i] == '.' && !dot),
  ensures scanned(s, i + 1, digit || dec(s[i]), dot || s[i] == '.', false, e),
{
  assert(some_dec(s, i + 1) == (some_dec(s, i) || dec(s[i])));
  assert(some_dot(s, i + 1) == (some_dot(s, i) || s[i] == '.'));
}
proof fn scan_start(s: Seq<char>) ensures scanned(s, 0, false, false, false, 0) {}
/// an exponent
proof fn scan_exp(s: Seq<char>, i: int, j: int, dot: bool, e: int)
  requires scanned(s, i, true, dot, false, e), i < s.len(), is_exp(s[i]), exp_digits_at(s, i) < j <= s.len(), all_dec(s, exp_digits_at(s, i), j), j < s.len() ==> !dec(s[j]),
  ensures scanned(s, j, true, dot, true, i),
{ assert forall|k: int| 0 <= k < i implies !is_exp(#[trigger] s[k]) by { assert(dec(s[k]) || s[k] == '.'); } }
/// an exponent without digits
proof fn scan_no_exp(s: Seq<char>, i: int, digit: bool, dot: bool, e: int)
  requires scanned(s, i, digit, dot, false, e), i < s.len(), is_exp(s[i]), exp_digits_at(s, i) < s.len() ==> !dec(s[exp_digits_at(s, i)]),
  ensures !is_decimal(s),
{ assert(!exponent(s, i + 1)); scan_stuck(s, i, digit, dot, false, e); }
/// a decimal literal holds nothing else
proof fn not_decimal(s: Seq<char>, i: int)
  requires 0 <= i < s.len(), !dec(s[i]), s[i] != '.', !is_exp(s[i]), s[i] != '+', s[i] != '-',
    s[i] == 'b' || s[i] == 'B' || s[i] == 'o' || s[i] == 'O' || s[i] == 'x' || s[i] == 'X' || s[i] == '_',
  ensures !is_decimal(s), !infinity_word(s),
{
  exp_index(s, 0);
  if i > exp_at(s, 0) { assert(!dec(s[i])); }
}
/// texts considered have fewer than 2^31 characters
axiom fn short_text(s: &str) ensures s@.len() < 0x7fff_ffff;
proof fn infinity_text(s: Seq<char>) ensures infinity_word(s) == (s == "Infinity"@), s.len() == 0 ==> !is_decimal(s) && !infinity_word(s), infinity_word(s) ==> s.len() > 0 && s[0] == 'I'
{ reveal_strlit("Infinity"); assert("Infinity"@ =~= seq!['I', 'n', 'f', 'i', 'n', 'i', 't', 'y']); }
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
/// `format!("{a}{b}")`
#[verifier::external_body]
fn joined(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { format!("{a}{b}") }
