use vstd::prelude::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::string::*;
verus! {
/*@include text.rs@*/
/*@include strlit.rs@*/

// ---- standard library, assumed -------------------------------------------------
// a `str` never spans more than the address space
pub axiom fn text_len(t: &str)
  ensures encode_utf8(t@).len() <= isize::MAX, t.spec_bytes() == encode_utf8(t@);
// `&s[a..b]`
#[verifier::external_body]
fn str_sub(s: &str, a: usize, b: usize) -> (r: &str)
  requires a <= b <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int), is_char_boundary(encode_utf8(s@), b as int),
  ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == a && #[trigger] off(s@, j) == b ==> r@ == s@.subrange(i, j),
{ &s[a..b] }
// `&s[a..]`
#[verifier::external_body]
fn str_from(s: &str, a: usize) -> (r: &str)
  requires a <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int),
  ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == a ==> r@ == s@.skip(i),
{ &s[a..] }
// `s.chars().take(n)`, as the text it covers
#[verifier::external_body]
fn first_chars(s: &str, n: usize) -> (r: &str)
  ensures r@ == s@.take(if n <= s@.len() { n as int } else { s@.len() as int }),
{ match s.char_indices().nth(n) { Some((i, _)) => &s[..i], None => s } }
// `s.starts_with(c)`
#[verifier::external_body]
fn starts_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
// `s.find(c)`
#[verifier::external_body]
fn find_char(s: &str, c: char) -> (r: Option<usize>)
  ensures match r { Some(p) => find_from(s@, c, 0) < s@.len() && p == off(s@, find_from(s@, c, 0)), None => find_from(s@, c, 0) == s@.len() },
{ s.find(c) }
// `s.chars().all(|c| c.is_ascii_hexdigit())`
#[verifier::external_body]
fn hex_only(s: &str) -> (r: bool) ensures r == all_hex(s@) { s.chars().all(|c| c.is_ascii_hexdigit()) }
// `u16::from_str_radix(s, 16).ok()`, `u32::..`
#[verifier::external_body]
fn hex_u16(s: &str) -> (r: Option<u16>) requires all_hex(s@), s@.len() > 0
  ensures match r { Some(v) => v == hexval(s@), None => hexval(s@) > u16::MAX } { u16::from_str_radix(s, 16).ok() }
#[verifier::external_body]
fn hex_u32(s: &str) -> (r: Option<u32>) requires all_hex(s@), s@.len() > 0
  ensures match r { Some(v) => v == hexval(s@), None => hexval(s@) > u32::MAX } { u32::from_str_radix(s, 16).ok() }
// `u16::from_str_radix(&format!("{a}{b}"), 16).unwrap()`
#[verifier::external_body]
fn hex_pair(a: char, b: char) -> (r: u16) requires is_hex(a), is_hex(b) ensures r == 16 * digit(a) + digit(b) { u16::from_str_radix(&format!("{a}{b}"), 16).unwrap() }
// `c.encode_utf16(&mut buf)`
#[verifier::external_body]
fn utf16_of<'a>(c: char, buf: &'a mut [u16; 2]) -> (r: &'a [u16]) ensures r@ == units(c) { c.encode_utf16(buf) }
/// `String::from_utf16_lossy`: the inverse of encoding where there is one
uninterp spec fn lossy(u: Seq<u16>) -> Seq<char>;
axiom fn lossy_utf16(s: Seq<char>) ensures lossy(utf16(s)) == s;
#[verifier::external_body]
fn from_utf16(u: &Vec<u16>) -> (r: String) ensures r@ == lossy(u@) { String::from_utf16_lossy(u) }
// `s.ends_with(t)`
#[verifier::external_body]
fn ends_text(s: &str, t: &str) -> (r: bool) ensures r == (s@.len() >= t@.len() && s@.skip(s@.len() - t@.len()) == t@) { s.ends_with(t) }
pub assume_specification [ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == is_hex(*c);
pub assume_specification [ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
  ensures radix == 8 ==> r == (if is_oct(c) { Some(digit(c) as u32) } else { None });
pub assume_specification [ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == (48 <= *c && *c <= 57);
pub assume_specification [ String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
// `s.char_indices()`, first step
#[verifier::external_body]
fn first_index(s: &str) -> (r: Option<(usize, char)>)
  ensures match r { Some(p) => s@.len() > 0 && p.0 == 0 && p.1 == s@[0], None => s@.len() == 0 },
{ s.char_indices().next() }

/*@type parse-js/src/parse/expr/lit.rs :: LiteralErrorKind
#derive Clone, Copy
@*/
/*@type parse-js/src/parse/expr/lit.rs :: LiteralError
#derive Clone, Copy
@*/
/*@type parse-js/src/parse/expr/lit.rs :: Utf16Escape
#derive Clone, Copy
@*/
spec fn esc_units(e: Utf16Escape) -> Seq<u16> { match e { Utf16Escape::None => Seq::empty(), Utf16Escape::One(a) => seq![a], Utf16Escape::Two(a, b) => seq![a, b] } }

proof fn bounds(s: Seq<char>)
  ensures forall|i: int| 0 <= i <= s.len() ==> is_char_boundary(encode_utf8(s), #[trigger] off(s, i)) && 0 <= off(s, i) <= encode_utf8(s).len(), off(s, 0) == 0, off(s, s.len() as int) == encode_utf8(s).len(),
{
  assert forall|i: int| 0 <= i <= s.len() implies is_char_boundary(encode_utf8(s), #[trigger] off(s, i)) && 0 <= off(s, i) <= encode_utf8(s).len() by { off_boundary(s, i); off_split(s, i, s.len() as int); }
  off_ends(s);
}
/// one character further
proof fn step(s: Seq<char>, i: int)
  requires 0 <= i < s.len(),
  ensures off(s, i + 1) == off(s, i) + s[i].len_utf8(), 1 <= s[i].len_utf8() <= 4, (s[i] as u32) < 0x80 ==> s[i].len_utf8() == 1,
{ off_split(s, i, i + 1); one_char(s[i]); assert(s.subrange(i, i + 1) =~= seq![s[i]]); }
proof fn ascii_off(s: Seq<char>, i: int, n: int)
  requires 0 <= i <= n <= s.len(), forall|k: int| i <= k < n ==> (#[trigger] s[k] as u32) < 0x80,
  ensures off(s, n) == off(s, i) + (n - i),
  decreases n - i
{ if i < n { step(s, i); ascii_off(s, i + 1, n); } }
/// every character takes at least a byte
proof fn off_min(s: Seq<char>, n: int)
  requires 0 <= n <= s.len(),
  ensures off(s, n) >= n, off(s, n) <= 4 * n,
  decreases n
{ if n > 0 { step(s, n - 1); off_min(s, n - 1); } else { off_ends(s); } }

spec fn octval_facts(s: Seq<char>, n: int, consumed: int, value: int) -> bool {
  &&& 1 <= n <= 3 && n <= s.len() && consumed == n && consumed == off(s, n) && value == octval(s, n)
  &&& forall|k: int| 0 <= k < n ==> is_oct(#[trigger] s[k])
}
proof fn octval_small(s: Seq<char>)
  ensures forall|n: int| 1 <= n <= 3 && n <= s.len() && (forall|k: int| 0 <= k < n ==> is_oct(#[trigger] s[k])) ==>
    0 <= #[trigger] octval(s, n) && octval(s, n) < (if n == 1 { 8int } else if n == 2 { 64 } else { 512 }),
{ reveal_with_fuel(octval, 4); }
proof fn hexval4(s: Seq<char>)
  requires all_hex(s), s.len() == 4,
  ensures 0 <= hexval(s) <= 0xFFFF,
{
  reveal_with_fuel(hexval, 5);
  assert(is_hex(s[0]) && is_hex(s[1]) && is_hex(s[2]) && is_hex(s[3]));
}
/// \u{...}: the closing brace, seen from the digits and from the whole
proof fn braces(s: Seq<char>)
  requires s.len() > 1, s[1] == '{',
  ensures ({ let a = s.skip(1); let e = find_from(s, '}', 2); let f = find_from(a, '}', 0);
    e == f + 1 && (e < s.len() ==> f >= 1 && off(a, 1) == 1 && off(a, f) >= 1 && off(s, e + 1) == off(a, f) + off(s, 1) + 1 && a.subrange(1, f) == s.subrange(2, e)) }),
{
  let a = s.skip(1); let e = find_from(s, '}', 2); let f = find_from(a, '}', 0);
  find_from_is(s, '}', 2); find_from_is(a, '}', 0);
  assert(forall|k: int| 0 <= k < a.len() ==> a[k] == s[k + 1]);
  if e < s.len() { assert(a[e - 1] == '}'); assert(f <= e - 1); }
  if f < a.len() { assert(s[f + 1] == '}'); assert(f != 0); assert(e <= f + 1); }
  if e < s.len() {
    off_ends(a); step(a, 0); step(s, e); off_split(s, 1, e); off_split(a, 1, f);
    assert(a.subrange(1, f) =~= s.subrange(2, e));
  }
}

proof fn off_strict(s: Seq<char>, i: int)
  requires 0 <= i < s.len(),
  ensures off(s, i) < encode_utf8(s).len(),
{ step(s, i); bounds(s); assert(off(s, i + 1) <= encode_utf8(s).len()); }
proof fn cons_cons(a: Seq<u16>, b: Seq<u16>, r: Option<Seq<u16>>)
  ensures cons(a, cons(b, r)) == cons(a + b, r),
{ if r is Some { assert(a + (b + r->0) =~= a + b + r->0); } }
proof fn sv_one(t: Seq<char>, a: Seq<u16>, m: bool)
  requires t.len() > 0,
  ensures
    t[0] == '\\' ==> match esc(t.drop_first()) { Esc::Bad => cons(a, sv(t, m)) is None, Esc::Good { n, u } => cons(a, sv(t, m)) == cons(a + u, sv(t.skip(1 + n), m)) },
    t[0] != '\\' && (t[0] == '\r' || t[0] == '\n') && !m ==> cons(a, sv(t, m)) is None,
    t[0] == '\n' && m ==> cons(a, sv(t, m)) == cons(a + seq![10u16], sv(t.drop_first(), m)),
    t[0] == '\r' && m ==> cons(a, sv(t, m)) == cons(a + seq![10u16], sv(t.skip(if t.len() > 1 && t[1] == '\n' { 2 } else { 1 }), m)),
    t[0] != '\\' && t[0] != '\r' && t[0] != '\n' ==> cons(a, sv(t, m)) == cons(a + units(t[0]), sv(t.drop_first(), m)),
    units('\n') == seq![10u16], t.skip(1) == t.drop_first(),
{
  assert(t.skip(1) =~= t.drop_first()); esc_len(t.drop_first());
  cons_cons(a, units(t[0]), sv(t.drop_first(), m)); cons_cons(a, seq![10u16], sv(t.drop_first(), m)); cons_cons(a, seq![10u16], sv(t.skip(2), m));
  if let Esc::Good { n, u } = esc(t.drop_first()) { cons_cons(a, u, sv(t.skip(1 + n), m)); }
}

/*@fn parse-js/src/parse/expr/lit.rs :: decode_escape_sequence_utf16
#ret r
#rewrite `raw [ first . len_utf8 ( ) .. ] . starts_with ( '\n' )` => `starts_char(str_from(raw, first.len_utf8()), '\n')`
#rewrite `raw [ consumed .. ] . chars ( ) . take ( max_more )` => `first_chars(str_from(raw, consumed), max_more).chars()`
#rewrite `( '0' ..= '7' ) . contains ( & ch )` => `('0' <= ch && ch <= '7')`
#rewrite `raw [ first . len_utf8 ( ) .. ] . chars ( )` => `str_from(raw, first.len_utf8()).chars()`
#rewrite `u16 :: from_str_radix ( & format ! ( "{h1}{h2}" ) , 16 ) . unwrap ( )` => `hex_pair(h1, h2)`
#rewrite `& raw [ first . len_utf8 ( ) .. ]` => `str_from(raw, first.len_utf8())`
#rewrite `after_u . starts_with ( '{' )` => `starts_char(after_u, '{')`
#rewrite `after_u . find ( '}' )` => `find_char(after_u, '}')`
#rewrite `& after_u [ 1 .. end ]` => `str_sub(after_u, 1, end)`
#rewrite `hex . chars ( ) . all ( | c | c . is_ascii_hexdigit ( ) )` => `hex_only(&hex)`
#rewrite `hex . is_empty ( )` => `(hex.len() == 0)`
#rewrite `u32 :: from_str_radix ( hex , 16 ) . ok ( )` => `hex_u32(hex)`
#rewrite `u16 :: from_str_radix ( & hex , 16 ) . ok ( )` => `hex_u16(&hex)`
#rewrite `after_u . chars ( ) . take ( 4 )` => `first_chars(after_u, 4).chars()`
#rewrite `c . encode_utf16 ( & mut buf )` => `utf16_of(c, &mut buf)`
#spec
  ensures match r {
    Ok((consumed, add)) => esc(raw@) is Good && consumed == off(raw@, esc(raw@)->n) && esc_units(add) == esc(raw@)->u,
    Err(e) => esc(raw@) is Bad && e.offset == escape_start,
  },
#entry
  proof {
    bounds(raw@); text_len(raw);
    if raw@.len() > 0 { step(raw@, 0); }
    if raw@.len() > 1 { step(raw@, 1); }
    if raw@.len() > 2 { step(raw@, 2); }
    if raw@.len() > 1 && raw@[1] == '{' { braces(raw@); }
    octval_small(raw@);
    assert(forall|v: u16| v < 64 ==> #[trigger] (v << 3u16) == v * 8) by (bit_vector);
    assert(forall|v: u32| v < 0x100000 ==> #[trigger] (v >> 10u32) == v / 1024 && v / 1024 < 1024) by (bit_vector);
    assert(forall|v: u32| v < 0x100000 ==> #[trigger] (v & 0x3FFu32) == v % 1024) by (bit_vector);
  }
#loop 0 it=it
  invariant_except_break
    0 <= it.index@ <= max_more, max_more == (if raw@[0] <= '3' { 2int } else { 1 }), raw@.len() > 0,
    octval_facts(raw@, 1 + it.index@, consumed as int, value as int),
    forall|v: u16| v < 64 ==> #[trigger] (v << 3u16) == v * 8,
    it.seq() == raw@.skip(1).take(if max_more <= raw@.len() - 1 { max_more as int } else { raw@.len() - 1 }),
  ensures octval_facts(raw@, octal_run(raw@), consumed as int, value as int),
#at before `consumed += ch . len_utf8 ( ) ; value`
          proof { let k = 1 + it.index@; assert(ch == raw@[k]); step(raw@, k); assert(octval(raw@, k + 1) == 8 * octval(raw@, k) + digit(raw@[k])); octval_small(raw@); assert(0 <= octval(raw@, k) < 64); }
#at after `let after_u =`
      proof { assert(after_u@ == raw@.skip(1)); bounds(after_u@); text_len(after_u); }
#at after `let hex =`
        proof {
          let e = find_from(raw@, '}', 2);
          assert(hex@ =~= raw@.subrange(2, e)); off_min(hex@, hex@.len() as int); bounds(hex@); text_len(hex);
        }
#at before `let mut hex`
        let ghost n4 = if after_u@.len() < 4 { after_u@.len() as int } else { 4int };
        proof { off_ends(raw@); }
#loop 1 it=it
  invariant
    it.seq() == after_u@.take(n4), n4 <= 4, n4 <= after_u@.len(), after_u@ == raw@.skip(1), raw@.len() > 0,
    hex@ == after_u@.take(it.index@ as int), consumed == off(raw@, 1 + it.index@), consumed <= 1 + 4 * it.index@,
#at before `hex . push ( ch )`
          proof { step(raw@, 1 + it.index@); assert(ch == after_u@[it.index@ as int]); assert(after_u@.take(it.index@ + 1) =~= after_u@.take(it.index@ as int).push(ch)); }
#at before `if hex . len ( ) < 4`
        proof {
          assert(hex@ == after_u@.take(n4)); off_min(hex@, hex@.len() as int); bounds(hex@);
          if all_hex(hex@) { assert forall|k: int| 0 <= k < hex@.len() implies (#[trigger] hex@[k] as u32) < 0x80 by { assert(is_hex(hex@[k])); } ascii_off(hex@, 0, hex@.len() as int); }
          if raw@.len() >= 5 { assert(raw@.subrange(1, 5) =~= hex@); } if hex@.len() == 4 && all_hex(hex@) { hexval4(hex@); }
        }
@*/

/*@fn parse-js/src/parse/expr/lit.rs :: decode_literal_utf16
#ret r
#rewrite `let mut iter = raw [ offset .. ] . char_indices ( ) ;` => ``
#rewrite `iter . next ( ) . unwrap ( )` => `first_index(str_from(raw, offset)).unwrap()`
#rewrite `debug_assert_eq ! ( rel , 0 )` => `assert(rel == 0)`
#rewrite `& raw [ after_backslash .. ]` => `str_from(raw, after_backslash)`
#rewrite `raw [ offset .. ] . starts_with ( '\n' )` => `starts_char(str_from(raw, offset), '\n')`
#rewrite `matches ! ( ch , '\n' | '\r' )` => `(ch == '\n' || ch == '\r')`
#rewrite `ch . encode_utf16 ( & mut buf )` => `utf16_of(ch, &mut buf)`
#spec
  ensures match r { Ok(v) => sv(raw@, allow_line_terminators) == Some(v@), Err(_) => sv(raw@, allow_line_terminators) is None },
#entry
  let ghost mut i: int = 0;
  proof { bounds(raw@); text_len(raw); assert(raw@.skip(0) =~= raw@);
    assert(cons(Seq::empty(), sv(raw@, allow_line_terminators)) == sv(raw@, allow_line_terminators)) by { if sv(raw@, allow_line_terminators) is Some { assert(Seq::<u16>::empty() + sv(raw@, allow_line_terminators)->0 =~= sv(raw@, allow_line_terminators)->0); } } }
#loop 0
  invariant
    0 <= i <= raw@.len(), offset == off(raw@, i), encode_utf8(raw@).len() <= isize::MAX, raw.spec_bytes() == encode_utf8(raw@),
    cons(norm@, sv(raw@.skip(i), allow_line_terminators)) == sv(raw@, allow_line_terminators),
  decreases raw@.len() - i,
#at before `let mut iter`
    let ghost t = raw@.skip(i);
    let ghost before = norm@;
    proof {
      bounds(raw@);
      if i == raw@.len() { assert(false); }
      step(raw@, i); esc_len(t.drop_first());
      assert(t.drop_first() =~= raw@.skip(i + 1)); assert(t[0] == raw@[i]);
      if i + 1 < raw@.len() { step(raw@, i + 1); assert(t[1] == raw@[i + 1]); assert(t.skip(2) =~= raw@.skip(i + 2)); }
      sv_one(t, before, allow_line_terminators);
    }
#at before `offset = after_backslash + consumed`
      proof { off_split(raw@, i + 1, i + 1 + esc(t.drop_first())->n); }
#at after `offset = after_backslash + consumed`
      proof {
        let n = esc(t.drop_first())->n;
        assert(t.skip(1 + n) =~= raw@.skip(i + 1 + n));
        assert(norm@ =~= before + esc(t.drop_first())->u);
        i = i + 1 + n;
      }
#at after `offset += ch . len_utf8 ( )`
      proof { i = i + 1; }
#at before `norm . push ( 0x0a )`
        proof { if offset == off(raw@, i + 1) && i < raw@.len() && t.len() > 1 && t[1] == '\n' { i = i + 1; } }
#at before `continue`
        proof { assert(norm@ =~= before + seq![10u16]); }
#at after `norm . extend_from_slice ( encoded )`
      proof { assert(norm@ =~= before + units(ch)); }
#at before `Ok ( norm )`
  proof { if i < raw@.len() { off_strict(raw@, i); } assert(raw@.skip(i) =~= Seq::<char>::empty()); assert(norm@ + Seq::<u16>::empty() =~= norm@); }
@*/

/*@fn parse-js/src/parse/expr/lit.rs :: decode_literal
#ret r
#rewrite `String :: from_utf16_lossy ( & code_units )` => `from_utf16(&code_units)`
#spec
  ensures match r { Ok(v) => sv(raw@, allow_line_terminators) is Some && v@ == lossy(sv(raw@, allow_line_terminators)->0), Err(_) => sv(raw@, allow_line_terminators) is None },
@*/

/*@fn parse-js/src/parse/expr/lit.rs :: normalise_literal_string_or_template_inner
#ret r
#spec
  ensures match r { Some(v) => sv(raw@, true) is Some && v@ == lossy(sv(raw@, true)->0), None => sv(raw@, true) is None },
@*/

/*@fn parse-js/src/parse/expr/lit.rs :: normalise_literal_string
#ret r
#rewrite `& raw [ 1 .. raw . len ( ) - 1 ]` => `str_sub(raw, 1, raw.len() - 1)`
#spec
  requires raw@.len() >= 2 ==> (raw@[0] as u32) < 0x80 && (raw@.last() as u32) < 0x80, raw@.len() == 1 ==> (raw@[0] as u32) < 0x80,
  ensures
    raw@.len() < 2 ==> r is None,
    raw@.len() >= 2 ==> match r { Some(v) => sv(raw@.subrange(1, raw@.len() - 1), false) is Some && v@ == lossy(sv(raw@.subrange(1, raw@.len() - 1), false)->0), None => sv(raw@.subrange(1, raw@.len() - 1), false) is None },
#entry
  proof { bounds(raw@); text_len(raw); if raw@.len() > 0 { step(raw@, 0); step(raw@, raw@.len() - 1); }
    if raw@.len() >= 2 { off_min(raw@, raw@.len() as int); } }
@*/

/*@fn parse-js/src/parse/expr/lit.rs :: template_content
#ret r
#rewrite `raw . starts_with ( '@BT@' )` => `starts_char(raw, '@BT@')`
#rewrite `raw . ends_with ( '@BT@' )` => `ends_text(raw, "@BT@")`
#rewrite `raw . ends_with ( "${" )` => `ends_text(raw, "${")`
#rewrite `raw . get ( start .. end ) . map ( | body | ( start , body ) )` => `Some((start, str_sub(raw, start, end)))`
#rewrite `"${" . len ( )` => `2`
#spec
  ensures ({
    let s = raw@; let n = s.len() as int;
    let st: int = if n > 1 && s[0] == '`' { 1 } else { 0 };
    let tail: int = if is_end { 1 } else { 2 };
    let shut = if is_end { n >= 1 && s[n - 1] == '`' } else { n >= 2 && s[n - 2] == '$' && s[n - 1] == '{' };
    match r {
      Some((start, body)) => shut && start == st && st <= n - tail && body@ == s.subrange(st, n - tail),
      None => !(shut && st <= n - tail),
    }
  }),
#entry
  proof { reveal_strlit("`"); reveal_strlit("${"); bounds(raw@); text_len(raw);
    let n = raw@.len() as int;
    if n > 0 { step(raw@, 0); step(raw@, n - 1); } if n > 1 { step(raw@, 1); step(raw@, n - 2); off_min(raw@, n); }
    if n >= 1 { if raw@[n - 1] == '`' { assert(raw@.skip(n - 1) =~= "`"@); } else { assert(raw@.skip(n - 1)[0] == raw@[n - 1]); } }
    if n >= 2 { if raw@[n - 2] == '$' && raw@[n - 1] == '{' { assert(raw@.skip(n - 2) =~= "${"@); } else { assert(raw@.skip(n - 2)[0] == raw@[n - 2]); assert(raw@.skip(n - 2)[1] == raw@[n - 1]); } }
    assert('`'.len_utf8() == 1) by { one_char('`'); }
  }
@*/

/// the same on bytes
spec fn legacy_b(b: Seq<u8>) -> bool
  decreases b.len()
{
  if b.len() < 2 { false }
  else if b[0] != 92 { legacy_b(b.drop_first()) }
  else if 48 <= b[1] <= 57 && !(b[1] == 48 && (b.len() < 3 || !(48 <= b[2] <= 57))) { true }
  else { legacy_b(b.skip(2)) }
}
proof fn noise(b: Seq<u8>, k: int)
  requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] b[i] != 92,
  ensures legacy_b(b) == legacy_b(b.skip(k)),
  decreases k
{
  if k == 0 { assert(b.skip(0) =~= b); }
  else {
    let d = b.drop_first();
    assert forall|i: int| 0 <= i < k - 1 implies #[trigger] d[i] != 92 by { assert(d[i] == b[i + 1]); }
    noise(d, k - 1); assert(d.skip(k - 1) =~= b.skip(k));
  }
}
proof fn legacy_bytes(s: Seq<char>)
  ensures legacy_b(encode_utf8(s)) == legacy(s),
  decreases s.len()
{
  let b = encode_utf8(s);
  if s.len() == 0 { off_ends(s); assert(s =~= Seq::<char>::empty()); assert(s.take(0) =~= s); }
  else {
    let c = s[0]; let r = s.drop_first(); let w = c.len_utf8() as int;
    let x = encode_utf8(seq![c]); let y = encode_utf8(r);
    assert(s =~= seq![c] + r); encode_utf8_concat(seq![c], r); one_char(c);
    assert(b =~= x + y); legacy_bytes(r);
    if c != '\\' {
      assert forall|i: int| 0 <= i < w implies #[trigger] b[i] != 92 by { assert(b[i] == x[i]); }
      noise(b, w); assert(b.skip(w) =~= y);
      if s.len() == 1 { assert(r =~= Seq::<char>::empty()); }
    } else if s.len() == 1 {
      assert(r =~= Seq::<char>::empty()); off_ends(r); assert(r.take(0) =~= r); assert(y.len() == 0);
    } else {
      let e = r[0]; let q = r.drop_first(); let v = e.len_utf8() as int;
      let x2 = encode_utf8(seq![e]); let y2 = encode_utf8(q);
      assert(r =~= seq![e] + q); encode_utf8_concat(seq![e], q); one_char(e); legacy_bytes(q);
      assert(s.skip(2) =~= q);
      assert(b[0] == 92); assert(b[1] == x2[0]); assert(y =~= x2 + y2);
      assert(v > 1 ==> (e as u32) >= 0x80);
      assert forall|i: int| 0 <= i < v - 1 implies #[trigger] b.skip(2)[i] != 92 by { assert(b.skip(2)[i] == x2[i + 1]); }
      noise(b.skip(2), v - 1); assert(b.skip(2).skip(v - 1) =~= y2);
      assert(is_dec(e) <==> 48 <= b[1] <= 57);
      if q.len() > 0 {
        one_char(q[0]); assert(q =~= seq![q[0]] + q.drop_first()); encode_utf8_concat(seq![q[0]], q.drop_first());
        if is_dec(e) { assert(b[2] == y2[0]); assert(y2[0] == encode_utf8(seq![q[0]])[0]); assert(is_dec(q[0]) <==> 48 <= b[2] <= 57); }
      } else { off_ends(q); assert(q =~= Seq::<char>::empty()); assert(q.take(0) =~= q); assert(y2.len() == 0); }
    }
  }
}

/*@fn parse-js/src/parse/expr/lit.rs :: find_legacy_escape_sequence
#ret r
#rewrite `( b'0' ..= b'7' ) . contains ( & c )` => `(48 <= c && c <= 55)`
#spec
  ensures r is Some <==> legacy(raw@),
    r is Some ==> (r->0).0 + (r->0).1 <= encode_utf8(raw@).len() && encode_utf8(raw@)[(r->0).0 as int] == 92,
#entry
  proof { text_len(raw); legacy_bytes(raw@); }
#at before `while i < bytes . len ( )`
  let ghost b = bytes@;
  proof { assert(b == encode_utf8(raw@)); assert(b.skip(0) =~= b); }
#loop 0
  invariant bytes@ == b, b.len() <= isize::MAX, i <= b.len() + 1, legacy_b(b) == (i < b.len() && legacy_b(b.skip(i as int))), b == encode_utf8(raw@), legacy_b(b) == legacy(raw@),
  ensures !legacy_b(b),
  decreases b.len() - i + 1,
#at before `if bytes [ i ] != b'\\'`
    proof { let t = b.skip(i as int); assert(t.drop_first() =~= b.skip(i + 1)); if i + 2 <= b.len() { assert(t.skip(2) =~= b.skip(i + 2)); } assert(t[0] == b[i as int]);
      if t.len() > 1 { assert(t[1] == b[i + 1]); let x = legacy_b(t.skip(2)); if t.len() > 2 { assert(t[2] == b[i + 2]); } } let y = legacy_b(t.drop_first()); }
#loop 1
  invariant bytes@ == b, j <= b.len(), len == j - i, i + 2 <= j,
  decreases b.len() - j,
#loop 2
  invariant bytes@ == b, j <= b.len(), len == j - i, i + 2 <= j,
  decreases b.len() - j,
@*/

// ---- what the emitter writes, the parser reads back --------------------------------------
/// a body that denotes the units of a text is read as that text
proof fn round_trip(body: Seq<char>, s: Seq<char>, tmpl: bool)
  requires sv(body, tmpl) == Some(utf16(s)),
  ensures lossy(sv(body, tmpl)->0) == s,
{ lossy_utf16(s); }

fn main() {}
}
