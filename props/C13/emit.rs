use vstd::prelude::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::string::*;
verus! {
/*@include text.rs@*/
/*@include strlit.rs@*/

// ---- standard library, assumed -------------------------------------------------
// a vector never spans more than the address space
pub axiom fn vec_len(v: &Vec<u8>)
  ensures v@.len() <= isize::MAX;
// `ch.encode_utf8(&mut buf)`
#[verifier::external_body]
fn utf8_of<'a>(ch: char, buf: &'a mut [u8; 4]) -> (r: &'a str) ensures r@ == seq![ch] { ch.encode_utf8(buf) }
// `format!("\\x{:02X}", ch as u32)`
#[verifier::external_body]
fn hex_escape(n: u32) -> (r: String) requires n < 0x100 ensures r@ == seq!['\\', 'x', upper(n as int / 16), upper(n as int % 16)] { format!("\\x{:02X}", n) }
pub assume_specification [ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
// `value.chars().peekable()`
struct Peekable { v: Vec<char>, i: usize }
#[verifier::external_body]
fn peekable(s: &str) -> (r: Peekable) ensures r.v@ == s@, r.i == 0 { Peekable { v: s.chars().collect(), i: 0 } }
impl Peekable {
  fn next(&mut self) -> (r: Option<char>)
    ensures final(self).v == old(self).v, match r { Some(c) => old(self).i < old(self).v@.len() && c == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i >= old(self).v@.len() && final(self).i == old(self).i },
  { if self.i < self.v.len() { let c = self.v[self.i]; self.i = self.i + 1; Some(c) } else { None } }
  // `.peek().map(|c| c.is_ascii_digit()).unwrap_or(false)`
  fn peek_digit(&self) -> (r: bool) ensures r == (self.i < self.v@.len() && is_dec(self.v@[self.i as int])),
  { if self.i < self.v.len() { let c = self.v[self.i]; '0' <= c && c <= '9' } else { false } }
}

/*@type emit-js/src/emitter.rs :: QuoteStyle
#derive Clone, Copy
@*/

// ---- specification ------------------------------------------------------------------
spec fn upper(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
spec fn hexesc(c: char) -> Seq<char> { seq!['\\', 'x', upper(c as u32 as int / 16), upper(c as u32 as int % 16)] }
spec fn u4(c: char) -> Seq<char> { seq!['\\', 'u', '2', '0', '2', if c == '\u{2028}' { '8' } else { '9' }] }
/// how the i-th character is written inside quotes q
spec fn schar(s: Seq<char>, i: int, q: char) -> Seq<char> {
  let c = s[i];
  if c == '\\' || c == q { seq!['\\', c] }
  else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
  else if c == '\0' { if i + 1 < s.len() && is_dec(s[i + 1]) { seq!['\\', 'x', '0', '0'] } else { seq!['\\', '0'] } }
  else if c == '\u{2028}' || c == '\u{2029}' { u4(c) }
  else if c < '\u{20}' { hexesc(c) }
  else { seq![c] }
}
/// how a character is written inside a template
spec fn tchar(c: char) -> Seq<char> {
  if c == '\\' || c == '`' || c == '$' { seq!['\\', c] }
  else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] }
  else if c == '\u{2028}' || c == '\u{2029}' { u4(c) }
  else if c < '\u{20}' { hexesc(c) }
  else { seq![c] }
}
spec fn rawchar(c: char) -> Seq<char> { if c == '\\' || c == '`' || c == '$' { seq!['\\', c] } else { seq![c] } }
spec fn rechar(c: char) -> Seq<char> {
  if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\u{2028}' || c == '\u{2029}' { u4(c) } else { seq![c] }
}
/// what the first n characters become
spec fn supto(s: Seq<char>, n: int, q: char) -> Seq<char>
  decreases n
{ if n <= 0 { Seq::empty() } else { supto(s, n - 1, q) + schar(s, n - 1, q) } }
spec fn tupto(s: Seq<char>, n: int) -> Seq<char>
  decreases n
{ if n <= 0 { Seq::empty() } else { tupto(s, n - 1) + tchar(s[n - 1]) } }
spec fn rawupto(s: Seq<char>, n: int) -> Seq<char>
  decreases n
{ if n <= 0 { Seq::empty() } else { rawupto(s, n - 1) + rawchar(s[n - 1]) } }
spec fn reupto(s: Seq<char>, n: int) -> Seq<char>
  decreases n
{ if n <= 0 { Seq::empty() } else { reupto(s, n - 1) + rechar(s[n - 1]) } }
/// the body of the literal for s in quotes q
spec fn sbody(s: Seq<char>, q: char) -> Seq<char> { supto(s, s.len() as int, q) }
spec fn tbody(s: Seq<char>) -> Seq<char> { tupto(s, s.len() as int) }
spec fn quoted(s: Seq<char>, q: char) -> Seq<char> { seq![q] + sbody(s, q) + seq![q] }

proof fn enc_push(a: Seq<u8>, t: Seq<char>, x: Seq<char>)
  ensures a + encode_utf8(t) + encode_utf8(x) == a + encode_utf8(t + x),
{ encode_utf8_concat(t, x); assert(a + encode_utf8(t) + encode_utf8(x) =~= a + (encode_utf8(t) + encode_utf8(x))); }
/// ASCII text encodes byte for byte
proof fn ascii(x: Seq<char>)
  requires forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i] as u32) < 0x80,
  ensures encode_utf8(x).len() == x.len(), forall|i: int| 0 <= i < x.len() ==> #[trigger] encode_utf8(x)[i] == x[i] as u8,
  decreases x.len()
{
  if x.len() == 0 { assert(x =~= Seq::<char>::empty()); assert(encode_utf8(x) =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 1); } }
  else {
    let y = x.drop_last(); let z = seq![x.last()];
    assert(x =~= y + z); encode_utf8_concat(y, z); one_char(x.last());
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i] as u32) < 0x80 by { assert(y[i] == x[i]); }
    ascii(y);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] encode_utf8(x)[i] == x[i] as u8 by { if i < y.len() { assert(encode_utf8(y)[i] == y[i] as u8); } }
  }
}

proof fn plain(x: Seq<char>)
  ensures (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i] as u32) < 0x80) ==> encode_utf8(x).len() == x.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] encode_utf8(x)[i] == x[i] as u8),
{ if forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i] as u32) < 0x80 { ascii(x); } }
proof fn quoted_enc(s: Seq<char>, q: char)
  requires (q as u32) < 0x80,
  ensures encode_utf8(quoted(s, q)) == seq![q as u8] + encode_utf8(sbody(s, q)) + seq![q as u8],
    encode_utf8(quoted(s, q)).len() == encode_utf8(sbody(s, q)).len() + 2,
{ one_char(q); encode_utf8_concat(seq![q], sbody(s, q)); encode_utf8_concat(seq![q] + sbody(s, q), seq![q]); }
/*@fn emit-js/src/escape.rs :: escape_string_into
#post bytes
#rewrite `value . chars ( ) . peekable ( )` => `peekable(value)`
#rewrite `chars . peek ( ) . map ( | c | c . is_ascii_digit ( ) ) . unwrap_or ( false )` => `chars.peek_digit()`
#rewrite `format ! ( "\\x{:02X}" , ch as u32 )` => `hex_escape(ch as u32)`
#rewrite `ch . encode_utf8 ( & mut buf )` => `utf8_of(ch, &mut buf)`
#spec
  requires quote == 34 || quote == 39,
  ensures final(out)@ == encode_utf8(sbody(value@, quote as char)),
#loop 0
  invariant quote == 34 || quote == 39, chars.v@ == value@, chars.i <= value@.len(), out@ == encode_utf8(supto(value@, chars.i as int, quote as char)),
  ensures out@ == encode_utf8(sbody(value@, quote as char)),
  decreases value@.len() - chars.i,
#at before `match ch`
    let ghost k = chars.i - 1;
    let ghost q = quote as char;
    let ghost before = out@;
    proof {
      let x = schar(value@, k, q);
      enc_push(Seq::empty(), supto(value@, k, q), x); assert(Seq::<u8>::empty() + encode_utf8(supto(value@, k, q)) =~= before);
      assert(Seq::<u8>::empty() + encode_utf8(supto(value@, k, q) + x) =~= encode_utf8(supto(value@, k, q) + x));
      plain(x);
    }
#at afterblock `match ch`
    proof { assert(out@ =~= before + encode_utf8(schar(value@, k, q))); }
@*/

/*@fn emit-js/src/escape.rs :: emit_template_literal_segment
#post bytes
#rewrite `format ! ( "\\x{:02X}" , ch as u32 )` => `hex_escape(ch as u32)`
#rewrite `ch . encode_utf8 ( & mut buf )` => `utf8_of(ch, &mut buf)`
#spec
  ensures final(out)@ == old(out)@ + encode_utf8(tupto(cooked@, cooked@.len() as int)),
#entry
  let ghost first = out@;
  proof { plain(Seq::empty()); assert(first + encode_utf8(Seq::<char>::empty()) =~= first); }
#loop 0 it=it
  invariant out@ == first + encode_utf8(tupto(cooked@, it.index@ as int)),
#at before `match ch`
    let ghost k = it.index@ as int;
    let ghost before = out@;
    proof {
      let x = tchar(cooked@[k]);
      enc_push(first, tupto(cooked@, k), x); plain(x);
    }
#at afterblock `match ch`
    proof { assert(out@ =~= before + encode_utf8(tchar(cooked@[k]))); }
@*/

/*@fn emit-js/src/escape.rs :: emit_template_raw_segment
#post bytes
#note
#rewrite `ch . encode_utf8 ( & mut buf )` => `utf8_of(ch, &mut buf)`
#spec
  ensures final(out)@ == old(out)@ + encode_utf8(rawupto(raw@, raw@.len() as int)),
#entry
  let ghost first = out@;
  proof { plain(Seq::empty()); assert(first + encode_utf8(Seq::<char>::empty()) =~= first); }
#loop 0 it=it
  invariant out@ == first + encode_utf8(rawupto(raw@, it.index@ as int)),
#at before `match ch`
    let ghost k = it.index@ as int;
    let ghost before = out@;
    proof {
      let x = rawchar(raw@[k]);
      enc_push(first, rawupto(raw@, k), x); plain(x);
    }
#at afterblock `match ch`
    proof { assert(out@ =~= before + encode_utf8(rawchar(raw@[k]))); }
@*/

/*@fn emit-js/src/escape.rs :: emit_regex_literal
#post bytes
#note
#rewrite `ch . encode_utf8 ( & mut buf )` => `utf8_of(ch, &mut buf)`
#spec
  ensures final(out)@ == encode_utf8(reupto(value@, value@.len() as int)),
#entry
  let ghost first = Seq::<u8>::empty();
  proof { plain(Seq::empty()); assert(first + encode_utf8(Seq::<char>::empty()) =~= first); }
#loop 0 it=it
  invariant out@ == first + encode_utf8(reupto(value@, it.index@ as int)),
#at before `match ch`
    let ghost k = it.index@ as int;
    let ghost before = out@;
    proof {
      let x = rechar(value@[k]);
      enc_push(first, reupto(value@, k), x); plain(x);
    }
#at afterblock `match ch`
    proof { assert(out@ =~= before + encode_utf8(rechar(value@[k]))); }
#at afterblock `for ch`
  proof { assert(first + encode_utf8(reupto(value@, value@.len() as int)) =~= encode_utf8(reupto(value@, value@.len() as int))); }
@*/

/*@fn emit-js/src/escape.rs :: emit_string_literal
#rewrite `| quote : u8 |` => `|quote: u8| -> (r: (u8, Vec<u8>)) requires quote == 34 || quote == 39 ensures r.0 == quote && r.1@ == encode_utf8(sbody(value@, quote as char))`
#spec
  ensures ({
    let d = encode_utf8(quoted(value@, '"')); let s = encode_utf8(quoted(value@, '\''));
    final(out)@ == old(out)@ + match quote_style {
      QuoteStyle::Double => d, QuoteStyle::Single => s,
      QuoteStyle::Auto => if minify && s.len() < d.len() { s } else { d },
    }
  }),
#entry
  proof { quoted_enc(value@, '"'); quoted_enc(value@, '\''); }
#at before `let double_len`
      proof { vec_len(&double_escaped); vec_len(&single_escaped); }
#at before `out . push ( quote ) ; out . extend_from_slice`
  let ghost first = out@;
  let ghost qc = quote as char;
  proof { assert(qc == '"' || qc == '\''); assert(escaped@ == encode_utf8(sbody(value@, qc)));
    assert(first.push(quote) + escaped@ =~= first + (seq![quote] + escaped@));
    assert((first.push(quote) + escaped@).push(quote) =~= first + (seq![quote] + escaped@ + seq![quote])); }
@*/

/*@fn emit-js/src/escape.rs :: emit_string_literal_double_quoted
#spec
  ensures final(out)@ == old(out)@ + encode_utf8(quoted(value@, '"')),
@*/

// ---- the literal means the value -------------------------------------------------------
spec fn sfrom(s: Seq<char>, i: int, q: char) -> Seq<char>
  decreases s.len() - i
{ if i < 0 || i >= s.len() { Seq::empty() } else { schar(s, i, q) + sfrom(s, i + 1, q) } }
proof fn s_split(s: Seq<char>, n: int, q: char)
  requires 0 <= n <= s.len(),
  ensures sbody(s, q) == supto(s, n, q) + sfrom(s, n, q),
  decreases s.len() - n
{
  if n < s.len() { s_split(s, n + 1, q); assert(supto(s, n, q) + sfrom(s, n, q) =~= supto(s, n + 1, q) + sfrom(s, n + 1, q)); }
  else { assert(supto(s, n, q) + Seq::<char>::empty() =~= supto(s, n, q)); }
}
proof fn hex_digits(c: char)
  requires c < '\u{20}',
  ensures ({ let h = upper(c as u32 as int / 16); let l = upper(c as u32 as int % 16); is_hex(h) && is_hex(l) && 16 * digit(h) + digit(l) == c as u32 && (h as u32) < 0x80 && (l as u32) < 0x80 && h != '"' && h != '\'' && l != '"' && l != '\'' && !line_end(h) && !line_end(l) }),
{ }
proof fn four(a: char, b: char)
  requires is_hex(a), is_hex(b),
  ensures hexval(seq!['2', '0', a, b]) == 0x2000 + 16 * digit(a) + digit(b), all_hex(seq!['2', '0', a, b]),
{
  let s = seq!['2', '0', a, b];
  assert(s.drop_last() =~= seq!['2', '0', a]); assert(s.drop_last().drop_last() =~= seq!['2', '0']);
  assert(seq!['2', '0'].drop_last() =~= seq!['2']); assert(seq!['2'].drop_last() =~= Seq::<char>::empty());
  reveal_with_fuel(hexval, 6);
}
/// one escaped or plain unit at the front
proof fn sv_step(c: char, x: Seq<char>, rest: Seq<char>, tmpl: bool)
  requires
    ({ ||| x == seq!['\\', c] && (c == '\\' || c == '"' || c == '\'' || c == '`' || c == '$')
       ||| x == seq!['\\', 'n'] && c == '\n' ||| x == seq!['\\', 'r'] && c == '\r' ||| x == seq!['\\', 't'] && c == '\t'
       ||| x == seq!['\\', '0'] && c == '\0' && (rest.len() == 0 || !is_dec(rest[0]))
       ||| x == seq!['\\', 'x', '0', '0'] && c == '\0'
       ||| x == u4(c) && (c == '\u{2028}' || c == '\u{2029}')
       ||| x == hexesc(c) && c < '\u{20}'
       ||| x == seq![c] && c != '\\' && c != '\n' && c != '\r' }),
  ensures sv(x + rest, tmpl) == cons(units(c), sv(rest, tmpl)),
    legacy(x + rest) == legacy(rest),
    x.len() > 1 ==> forall|q: char| (q == '"' || q == '\'' || q == '`') ==> #[trigger] closed(x + rest, q, tmpl) == closed(rest, q, tmpl),
{
  let t = x + rest; let d = t.drop_first();
  if x.len() > 1 {
    assert(t[0] == '\\');
    let n: int = x.len() - 1;
    assert(t.skip(1 + n) =~= rest);
    if x.len() == 6 { assert(d.subrange(1, 5) =~= seq!['2', '0', '2', x[5]]); four('2', x[5]); assert(digit('2') == 2 && digit('8') == 8 && digit('9') == 9); }
    if x == hexesc(c) && c < '\u{20}' { hex_digits(c); assert(d[1] == x[2] && d[2] == x[3]); }
    if x.len() == 2 { assert(d[0] == x[1]); assert(d.len() > 1 ==> d[1] == rest[0]); reveal_with_fuel(octval, 2);  }
    if x == seq!['\\', 'x', '0', '0'] { assert(d[1] == '0' && d[2] == '0'); }
    assert(esc(d) == Esc::Good { n, u: units(c) });
    assert(t.skip(2) =~= x.skip(2) + rest);
    skips(x.skip(2), rest, tmpl);
    if x.len() == 2 { assert(x.skip(2) =~= Seq::<char>::empty()); assert(t.skip(2) =~= rest); }
    assert forall|i: int| 0 <= i < x.skip(2).len() implies is_hex(#[trigger] x.skip(2)[i]) by { assert(x.skip(2)[i] == x[i + 2]); if x == hexesc(c) && c < '\u{20}' { hex_digits(c); } }
    assert forall|q: char| (q == '"' || q == '\'' || q == '`') implies #[trigger] closed(t, q, tmpl) == closed(rest, q, tmpl) by {
      assert(closed(t, q, tmpl) == closed(t.skip(2), q, tmpl)); assert(closed(x.skip(2) + rest, q, tmpl) == closed(rest, q, tmpl)); }
    assert(legacy(t) == legacy(t.skip(2)));
  } else { assert(d =~= rest); }
}
/// hexadecimal digits and the like are inert
proof fn skips(x: Seq<char>, rest: Seq<char>, tmpl: bool)
  ensures (forall|i: int| 0 <= i < x.len() ==> is_hex(#[trigger] x[i])) ==> legacy(x + rest) == legacy(rest)
    && forall|q: char| (q == '"' || q == '\'' || q == '`') ==> #[trigger] closed(x + rest, q, tmpl) == closed(rest, q, tmpl),
  decreases x.len()
{
  if x.len() == 0 { assert(x + rest =~= rest); }
  else if forall|i: int| 0 <= i < x.len() ==> is_hex(#[trigger] x[i]) {
    assert((x + rest).drop_first() =~= x.drop_first() + rest); assert(is_hex(x[0]));
    assert forall|i: int| 0 <= i < x.drop_first().len() implies is_hex(#[trigger] x.drop_first()[i]) by { assert(is_hex(x[i + 1])); }
    skips(x.drop_first(), rest, tmpl);
    let t = x + rest;
    assert(t[0] == x[0] && t.drop_first() == x.drop_first() + rest);
    legacy_short(x, rest);
    assert(legacy(t) == legacy(rest));
    assert forall|q: char| (q == '"' || q == '\'' || q == '`') implies #[trigger] closed(t, q, tmpl) == closed(rest, q, tmpl) by {
      assert(closed(x.drop_first() + rest, q, tmpl) == closed(rest, q, tmpl));
      assert(closed(t, q, tmpl) == closed(t.drop_first(), q, tmpl));
    }
  }
}
proof fn legacy_short(x: Seq<char>, rest: Seq<char>)
  requires x.len() > 0, is_hex(x[0]),
  ensures legacy(x + rest) == legacy(x.drop_first() + rest),
{
  assert((x + rest).drop_first() =~= x.drop_first() + rest);
  if (x + rest).len() < 2 { assert(!legacy(x.drop_first() + rest)); }
}
proof fn string_value(s: Seq<char>, i: int, q: char)
  requires q == '"' || q == '\'', 0 <= i <= s.len(),
  ensures
    sv(sfrom(s, i, q), false) == Some(utf16(s.skip(i))),
    closed(sfrom(s, i, q), q, false), !legacy(sfrom(s, i, q)),
    forall|k: int| 0 <= k < sfrom(s, i, q).len() ==> !line_end(#[trigger] sfrom(s, i, q)[k]),
    i < s.len() ==> sfrom(s, i, q).len() > 0 && (sfrom(s, i, q)[0] == '\\' || sfrom(s, i, q)[0] == s[i]),
  decreases s.len() - i
{
  if i < s.len() {
    string_value(s, i + 1, q);
    let x = schar(s, i, q); let rest = sfrom(s, i + 1, q); let c = s[i];
    if x.len() > 1 || x[0] != q { }
    sv_step(c, x, rest, false);
    assert(s.skip(i).drop_first() =~= s.skip(i + 1));
    if c < '\u{20}' { hex_digits(c); }
    if x.len() == 1 { assert((x + rest).drop_first() =~= rest); }
  } else { assert(s.skip(i) =~= Seq::<char>::empty()); }
}
/// every string literal emitted denotes the string, ends where it should and is valid in strict code
proof fn string_literal_ok(s: Seq<char>, q: char)
  requires q == '"' || q == '\'',
  ensures sv(sbody(s, q), false) == Some(utf16(s)), closed(sbody(s, q), q, false), !legacy(sbody(s, q)),
    forall|k: int| 0 <= k < sbody(s, q).len() ==> !line_end(#[trigger] sbody(s, q)[k]),
{ s_split(s, 0, q); assert(Seq::<char>::empty() + sfrom(s, 0, q) =~= sfrom(s, 0, q)); string_value(s, 0, q); assert(s.skip(0) =~= s); }

spec fn tfrom(s: Seq<char>, i: int) -> Seq<char>
  decreases s.len() - i
{ if i < 0 || i >= s.len() { Seq::empty() } else { tchar(s[i]) + tfrom(s, i + 1) } }
proof fn t_split(s: Seq<char>, n: int)
  requires 0 <= n <= s.len(),
  ensures tbody(s) == tupto(s, n) + tfrom(s, n),
  decreases s.len() - n
{
  if n < s.len() { t_split(s, n + 1); assert(tupto(s, n) + tfrom(s, n) =~= tupto(s, n + 1) + tfrom(s, n + 1)); }
  else { assert(tupto(s, n) + Seq::<char>::empty() =~= tupto(s, n)); }
}
proof fn template_value(s: Seq<char>, i: int)
  requires 0 <= i <= s.len(),
  ensures
    sv(tfrom(s, i), true) == Some(utf16(s.skip(i))), closed(tfrom(s, i), '`', true), !legacy(tfrom(s, i)),
    forall|k: int| 0 <= k < tfrom(s, i).len() ==> !line_end(#[trigger] tfrom(s, i)[k]),
  decreases s.len() - i
{
  if i < s.len() {
    template_value(s, i + 1);
    let x = tchar(s[i]); let rest = tfrom(s, i + 1); let c = s[i];
    sv_step(c, x, rest, true);
    assert(s.skip(i).drop_first() =~= s.skip(i + 1));
    if c < '\u{20}' { hex_digits(c); }
    if x.len() == 1 { assert((x + rest).drop_first() =~= rest); }
  } else { assert(s.skip(i) =~= Seq::<char>::empty()); }
}
/// every template segment emitted has the text as its cooked value and neither ends nor interpolates
proof fn template_segment_ok(s: Seq<char>)
  ensures sv(tbody(s), true) == Some(utf16(s)), closed(tbody(s), '`', true), !legacy(tbody(s)),
    forall|k: int| 0 <= k < tbody(s).len() ==> !line_end(#[trigger] tbody(s)[k]),
{ t_split(s, 0); assert(Seq::<char>::empty() + tfrom(s, 0) =~= tfrom(s, 0)); template_value(s, 0); assert(s.skip(0) =~= s); }
/// the text of a regular expression literal has no line terminator, and is unchanged if it had none
proof fn regex_ok(s: Seq<char>, n: int)
  requires 0 <= n <= s.len(),
  ensures forall|k: int| 0 <= k < reupto(s, n).len() ==> !line_end(#[trigger] reupto(s, n)[k]),
    (forall|k: int| 0 <= k < n ==> !line_end(#[trigger] s[k])) ==> reupto(s, n) == s.take(n),
  decreases n
{
  if n > 0 { regex_ok(s, n - 1); let x = rechar(s[n - 1]); assert(forall|k: int| 0 <= k < x.len() ==> !line_end(#[trigger] x[k]));
    assert forall|k: int| 0 <= k < reupto(s, n).len() implies !line_end(#[trigger] reupto(s, n)[k]) by { let m = reupto(s, n - 1).len(); if k >= m { assert(reupto(s, n)[k] == x[k - m]); } else { assert(reupto(s, n)[k] == reupto(s, n - 1)[k]); } }
 if !line_end(s[n - 1]) { assert(s.take(n) =~= s.take(n - 1) + seq![s[n - 1]]); } }
  else { assert(s.take(0) =~= Seq::<char>::empty()); }
}
fn main() {}
}
