// ---- lib/strlit.rs: the value of a literal body (ECMAScript SV / TV, UTF-16 code units) ----
spec fn units(c: char) -> Seq<u16> {
  let v = c as u32 as int;
  if v < 0x10000 { seq![v as u16] } else { seq![(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16] }
}
/// the UTF-16 code units of a text
spec fn utf16(s: Seq<char>) -> Seq<u16>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { units(s[0]) + utf16(s.drop_first()) } }

pub open spec fn is_hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn is_oct(c: char) -> bool { '0' <= c && c <= '7' }
pub open spec fn is_dec(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit(c: char) -> int {
  if '0' <= c && c <= '9' { c as u32 - 48 } else if 'a' <= c && c <= 'f' { c as u32 - 87 } else { c as u32 - 55 }
}
spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
/// the number a run of hexadecimal digits denotes
spec fn hexval(s: Seq<char>) -> int
  decreases s.len()
{ if s.len() == 0 { 0 } else { 16 * hexval(s.drop_last()) + digit(s.last()) } }
/// first position >= i holding c (s.len() if none)
spec fn find_from(s: Seq<char>, c: char, i: int) -> int
  decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { find_from(s, c, i + 1) } }

/// what follows a backslash: the number of characters the escape takes and the code units it stands for
enum Esc { Bad, Good { n: int, u: Seq<u16> } }
spec fn point(v: int) -> Seq<u16> {
  if v < 0x10000 { seq![v as u16] } else { seq![(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16] }
}
spec fn octal_run(s: Seq<char>) -> int {
  if s.len() < 2 || !is_oct(s[1]) { 1 } else if s.len() < 3 || !is_oct(s[2]) || s[0] > '3' { 2 } else { 3 }
}
spec fn octval(s: Seq<char>, n: int) -> int
  decreases n
{ if n <= 0 { 0 } else { 8 * octval(s, n - 1) + digit(s[n - 1]) } }
spec fn esc(s: Seq<char>) -> Esc {
  if s.len() == 0 { Esc::Bad }
  else if s[0] == '\r' { Esc::Good { n: if s.len() > 1 && s[1] == '\n' { 2 } else { 1 }, u: Seq::empty() } }
  else if s[0] == '\n' || s[0] == '\u{2028}' || s[0] == '\u{2029}' { Esc::Good { n: 1, u: Seq::empty() } }
  else if s[0] == 'b' { Esc::Good { n: 1, u: seq![8u16] } }
  else if s[0] == 'f' { Esc::Good { n: 1, u: seq![12u16] } }
  else if s[0] == 'n' { Esc::Good { n: 1, u: seq![10u16] } }
  else if s[0] == 'r' { Esc::Good { n: 1, u: seq![13u16] } }
  else if s[0] == 't' { Esc::Good { n: 1, u: seq![9u16] } }
  else if s[0] == 'v' { Esc::Good { n: 1, u: seq![11u16] } }
  else if is_oct(s[0]) { Esc::Good { n: octal_run(s), u: seq![octval(s, octal_run(s)) as u16] } }
  else if s[0] == 'x' {
    if s.len() >= 3 && is_hex(s[1]) && is_hex(s[2]) { Esc::Good { n: 3, u: seq![(16 * digit(s[1]) + digit(s[2])) as u16] } } else { Esc::Bad }
  } else if s[0] == 'u' {
    if s.len() >= 2 && s[1] == '{' {
      let e = find_from(s, '}', 2);
      let h = s.subrange(2, e);
      if e < s.len() && e > 2 && all_hex(h) && hexval(h) <= 0x10FFFF { Esc::Good { n: e + 1, u: point(hexval(h)) } } else { Esc::Bad }
    } else if s.len() >= 5 && all_hex(s.subrange(1, 5)) { Esc::Good { n: 5, u: seq![hexval(s.subrange(1, 5)) as u16] } } else { Esc::Bad }
  } else { Esc::Good { n: 1, u: units(s[0]) } }
}
spec fn cons(a: Seq<u16>, r: Option<Seq<u16>>) -> Option<Seq<u16>> { match r { Some(b) => Some(a + b), None => None } }
/// the string value of a literal body; `tmpl`: template characters (line terminators allowed, CR and CRLF are LF)
spec fn sv(s: Seq<char>, tmpl: bool) -> Option<Seq<u16>>
  decreases s.len()
{
  if s.len() == 0 { Some(Seq::empty()) }
  else if s[0] == '\\' {
    match esc(s.drop_first()) {
      Esc::Bad => None,
      Esc::Good { n, u } => if 1 <= n < s.len() { cons(u, sv(s.skip(1 + n), tmpl)) } else { None },
    }
  } else if s[0] == '\r' || s[0] == '\n' {
    if !tmpl { None } else { cons(seq![10u16], sv(s.skip(if s[0] == '\r' && s.len() > 1 && s[1] == '\n' { 2 } else { 1 }), tmpl)) }
  } else { cons(units(s[0]), sv(s.drop_first(), tmpl)) }
}
proof fn find_from_is(s: Seq<char>, c: char, i: int)
  requires 0 <= i <= s.len(),
  ensures ({ let e = find_from(s, c, i); i <= e <= s.len() && (e < s.len() ==> s[e] == c) && forall|k: int| i <= k < e ==> s[k] != c }),
  decreases s.len() - i
{ if i < s.len() && s[i] != c { find_from_is(s, c, i + 1); } }
proof fn esc_len(s: Seq<char>)
  ensures match esc(s) { Esc::Bad => true, Esc::Good { n, u } => 1 <= n <= s.len() },
{ if s.len() >= 2 { find_from_is(s, '}', 2); } }

/// a legacy escape (octal other than a lone \0, \8, \9) occurs as an escape in the body
spec fn legacy(s: Seq<char>) -> bool
  decreases s.len()
{
  if s.len() < 2 { false }
  else if s[0] != '\\' { legacy(s.drop_first()) }
  else if is_dec(s[1]) && !(s[1] == '0' && (s.len() < 3 || !is_dec(s[2]))) { true }
  else { legacy(s.skip(2)) }
}
/// no unescaped `q`, and no unescaped `${` if tmpl, no dangling backslash
spec fn closed(s: Seq<char>, q: char, tmpl: bool) -> bool
  decreases s.len()
{
  if s.len() == 0 { true }
  else if s[0] == '\\' { s.len() > 1 && closed(s.skip(2), q, tmpl) }
  else { s[0] != q && !(tmpl && s[0] == '$' && s.len() > 1 && s[1] == '{') && closed(s.drop_first(), q, tmpl) }
}
spec fn line_end(c: char) -> bool { c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}' }
// ---- end lib/strlit.rs ----
