use vstd::prelude::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::string::*;
verus! {
/*@include text.rs@*/

// ---- standard library and other modules, assumed ------------------------------------
pub assume_specification [ u8::is_ascii_whitespace ](b: &u8) -> (r: bool) ensures r == ws(*b);
// `std::str::from_utf8(&buf).expect(..)`, of what emit_string_literal wrote
#[verifier::external_body]
fn text_of(buf: &Vec<u8>) -> (r: &str)
  requires exists|s: Seq<char>| buf@ == #[trigger] encode_utf8(s),
  ensures encode_utf8(r@) == buf@,
{ std::str::from_utf8(buf).unwrap() }
// `c.encode_utf8(&mut buf)`
#[verifier::external_body]
fn utf8_of<'a>(c: char, buf: &'a mut [u8; 4]) -> (r: &'a str) ensures r@ == seq![c] { c.encode_utf8(buf) }
struct FmtError;
// emit_js::emit_string_literal (its contract is proved under C13)
pub uninterp spec fn literal(value: Seq<char>, quote: QuoteStyle, minify: bool) -> Seq<char>;
#[verifier::external_body]
fn emit_string_literal(out: &mut Vec<u8>, value: &str, quote: QuoteStyle, minify: bool)
  ensures final(out)@ == old(out)@ + encode_utf8(literal(value@, quote, minify)),
    encode_utf8(literal(value@, quote, minify)).len() >= 2,
    is_quote(encode_utf8(literal(value@, quote, minify))[0]), is_quote(encode_utf8(literal(value@, quote, minify)).last()),
{ unimplemented!() }

// a match on the text of a string: "+", "++", "-", "--" or another
enum Operator { Plus, PlusPlus, Minus, MinusMinus, Other }
#[verifier::external_body]
fn operator(p: &str) -> (r: Operator)
  ensures r == (if p@ == "+"@ { Operator::Plus } else if p@ == "++"@ { Operator::PlusPlus } else if p@ == "-"@ { Operator::Minus } else if p@ == "--"@ { Operator::MinusMinus } else { Operator::Other }),
{ match p { "+" => Operator::Plus, "++" => Operator::PlusPlus, "-" => Operator::Minus, "--" => Operator::MinusMinus, _ => Operator::Other } }

/*@type emit-js/src/emitter.rs :: StmtSepStyle
#derive Clone, Copy
@*/
/*@type emit-js/src/emitter.rs :: QuoteStyle
#derive Clone, Copy
@*/
/*@type emit-js/src/emitter.rs :: EmitOptions
#derive Clone, Copy
@*/
/*@type emit-js/src/emitter.rs :: Boundary
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/emitter.rs :: Leading
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/emitter.rs :: TokenKind
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/emitter.rs :: HtmlStart
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/emitter.rs :: FragmentBoundary
#derive Clone, Copy
@*/
/*@type emit-js/src/emitter.rs :: State
#derive Clone, Copy
@*/
/*@type emit-js/src/emitter.rs :: Emitter
#derive Clone
@*/

// ---- specification: characters -------------------------------------------------------
pub open spec fn ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn is_quote(b: u8) -> bool { b == 34 || b == 39 }
spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
/// may start an identifier (an escape or a non-ASCII character included)
spec fn letter(b: u8) -> bool { 97 <= b <= 122 || 65 <= b <= 90 || b == 95 || b == 36 || b >= 128 }
spec fn plus() -> u8 { 43 }
spec fn minus() -> u8 { 45 }
spec fn slash() -> u8 { 47 }
spec fn star() -> u8 { 42 }

// ---- specification: HTML-like comments -------------------------------------------------
/// the text ends with a `<` that starts a token (`<<` is one token)
spec fn lt(s: Seq<u8>) -> bool
  decreases s.len()
{ s.len() > 0 && s.last() == 60 && !lt(s.drop_last()) }
/// the first k characters of `<!--` have been written
spec fn opened(s: Seq<u8>, k: int) -> bool {
  if k == 1 { lt(s) }
  else if k == 2 { s.len() > 0 && s.last() == 33 && lt(s.drop_last()) }
  else if k == 3 { s.len() > 1 && s.last() == 45 && s[s.len() - 2] == 33 && lt(s.drop_last().drop_last()) }
  else { s.len() > 2 && s.last() == 45 && s[s.len() - 2] == 45 && s[s.len() - 3] == 33 && lt(s.drop_last().drop_last().drop_last()) }
}
/// only white space since the line began
spec fn blank(s: Seq<u8>) -> bool
  decreases s.len()
{ s.len() == 0 || s.last() == 10 || s.last() == 13 || (ws(s.last()) && blank(s.drop_last())) }
/// the first k characters of `-->` have been written at the start of a line
spec fn closed(s: Seq<u8>, k: int) -> bool {
  if k == 1 { s.len() > 0 && s.last() == 45 && blank(s.drop_last()) }
  else if k == 2 { s.len() > 1 && s.last() == 45 && s[s.len() - 2] == 45 && blank(s.drop_last().drop_last()) }
  else { s.len() > 2 && s.last() == 62 && s[s.len() - 2] == 45 && s[s.len() - 3] == 45 && blank(s.drop_last().drop_last().drop_last()) }
}
spec fn starts(t: Seq<u8>, p: Seq<u8>) -> bool { t.len() >= p.len() && t.take(p.len() as int) == p }
/// writing t after s would complete a comment opener begun in s
spec fn straddles(s: Seq<u8>, t: Seq<u8>) -> bool {
  (opened(s, 1) && t.len() >= 3 && t[0] == 33 && t[1] == 45 && t[2] == 45) || (opened(s, 2) && t.len() >= 2 && t[0] == 45 && t[1] == 45) || (opened(s, 3) && t.len() >= 1 && t[0] == 45)
  || (closed(s, 1) && t.len() >= 2 && t[0] == 45 && t[1] == 62) || (closed(s, 2) && t.len() >= 1 && t[0] == 62)
}
/// what the emitter remembers of the text s
spec fn html(s: Seq<u8>) -> HtmlStart {
  if opened(s, 1) { HtmlStart::Lt } else if opened(s, 2) { HtmlStart::LtBang } else if opened(s, 3) { HtmlStart::LtBangDash }
  else if closed(s, 1) { HtmlStart::Dash } else if closed(s, 2) { HtmlStart::DashDash }
  else if blank(s) { HtmlStart::Start } else { HtmlStart::Other }
}

// ---- specification: fragments ----------------------------------------------------------
spec fn lead_char(b: u8) -> Leading {
  if digit(b) { Leading::Number } else if letter(b) || b == 92 { Leading::Word }
  else if b == plus() { Leading::Plus } else if b == minus() { Leading::Minus } else if b == slash() { Leading::Slash } else if b == star() { Leading::Star }
  else { Leading::Other }
}
spec fn trail_char(t: Seq<u8>) -> Boundary {
  let b = t.last(); let double = t.len() > 1 && t[t.len() - 2] == b;
  if digit(b) { Boundary::Number } else if letter(b) { Boundary::Word }
  else if b == plus() { if double { Boundary::PlusPlus } else { Boundary::Plus } }
  else if b == minus() { if double { Boundary::MinusMinus } else { Boundary::Minus } }
  else if b == slash() { if t.len() > 1 && t[0] == slash() { Boundary::Regex } else { Boundary::Slash } }
  else { Boundary::None }
}
/// the fragments the interface takes
ghost enum Frag { Free(Seq<u8>), Tok(TokenKind, Seq<u8>), BigInt(Seq<u8>), Space, Raw(Seq<u8>) }
spec fn tok_lead(k: TokenKind, b: u8) -> Leading {
  match k {
    TokenKind::Word => Leading::Word, TokenKind::Number => if b == minus() { Leading::Minus } else { Leading::Number },
    TokenKind::Plus | TokenKind::PlusPlus => Leading::Plus, TokenKind::Minus | TokenKind::MinusMinus => Leading::Minus,
    TokenKind::Other => if b == slash() { Leading::Slash } else if b == star() { Leading::Star } else { Leading::Other },
  }
}
spec fn tok_trail(k: TokenKind, t: Seq<u8>) -> Boundary {
  match k {
    TokenKind::Word => Boundary::Word, TokenKind::Number => Boundary::Number, TokenKind::Plus => Boundary::Plus, TokenKind::PlusPlus => Boundary::PlusPlus,
    TokenKind::Minus => Boundary::Minus, TokenKind::MinusMinus => Boundary::MinusMinus, TokenKind::Other => trail_char(t),
  }
}
spec fn ftext(f: Frag) -> Seq<u8> { match f { Frag::Free(t) => t, Frag::Tok(_, t) => t, Frag::BigInt(d) => if d.len() == 0 { d } else { d + seq![110u8] }, Frag::Space => seq![32u8], Frag::Raw(t) => t } }
spec fn flead(f: Frag) -> Leading {
  match f {
    Frag::Free(t) => if ws(t[0]) { Leading::None } else { lead_char(t[0]) },
    Frag::Tok(k, t) => if ws(t[0]) { Leading::None } else { tok_lead(k, t[0]) },
    Frag::BigInt(t) => if ws(t[0]) { Leading::None } else { tok_lead(TokenKind::Number, t[0]) },
    _ => Leading::None,
  }
}
spec fn ftrail(f: Frag) -> Boundary {
  match f {
    Frag::Free(t) => if ws(t.last()) { Boundary::None } else { trail_char(t) },
    Frag::Tok(k, t) => if ws(t.last()) { Boundary::None } else { tok_trail(k, t) },
    Frag::BigInt(t) => Boundary::Word,
    _ => Boundary::None,
  }
}
/// would the two merge into something else, were nothing put between them
spec fn merges(a: Boundary, b: Leading) -> bool {
  ((a == Boundary::Word || a == Boundary::Number || a == Boundary::Regex) && (b == Leading::Word || b == Leading::Number))
  || ((a == Boundary::Plus || a == Boundary::PlusPlus) && b == Leading::Plus)
  || ((a == Boundary::Minus || a == Boundary::MinusMinus) && b == Leading::Minus)
  || ((a == Boundary::Slash || a == Boundary::Regex) && (b == Leading::Slash || b == Leading::Star))
}
/// the text after the fragments fs, and the end of the last of them
spec fn render(fs: Seq<Frag>) -> (Seq<u8>, Boundary)
  decreases fs.len()
{ if fs.len() == 0 { (Seq::empty(), Boundary::None) } else { put(render(fs.drop_last()), fs.last()) } }
spec fn punct_kind(p: Seq<char>) -> TokenKind {
  if p == "+"@ { TokenKind::Plus } else if p == "++"@ { TokenKind::PlusPlus } else if p == "-"@ { TokenKind::Minus } else if p == "--"@ { TokenKind::MinusMinus } else { TokenKind::Other }
}
spec fn raw(f: Frag) -> bool { f is Raw || f is Space }
spec fn put(p: (Seq<u8>, Boundary), f: Frag) -> (Seq<u8>, Boundary) {
  if raw(f) { (p.0 + ftext(f), Boundary::None) }
  else if ftext(f).len() == 0 { p }
  else if merges(p.1, flead(f)) || straddles(p.0, glued(f)) { (p.0 + seq![32u8] + ftext(f), ftrail(f)) }
  else { (p.0 + ftext(f), ftrail(f)) }
}
/// the part of the fragment that is compared with the text before it
spec fn glued(f: Frag) -> Seq<u8> { match f { Frag::BigInt(d) => d, _ => ftext(f) } }

impl Emitter {
  spec fn at(&self) -> (Seq<u8>, Boundary) { (self.out@, self.state.trailing) }
  spec fn inv(&self) -> bool { self.state.html_start == html(self.out@) }
}
spec fn wrote(a: &Emitter, b: &Emitter, f: Frag) -> bool { b.inv() && b.opts == a.opts && b.at() == put(a.at(), f) }

// ---- lemmas ------------------------------------------------------------------------------
proof fn last_push(s: Seq<u8>, b: u8)
  ensures s.push(b).drop_last() == s, s.push(b).last() == b, s.len() > 0 ==> s.push(b)[s.len() - 1] == s.last(),
{ assert(s.push(b).drop_last() =~= s); }
spec fn step(h: HtmlStart, b: u8) -> HtmlStart {
  if b == 10 || b == 13 { HtmlStart::Start }
  else if ws(b) { if h == HtmlStart::Start { HtmlStart::Start } else { HtmlStart::Other } }
  else if b == 60 { if h == HtmlStart::Lt { HtmlStart::Other } else { HtmlStart::Lt } }
  else if b == 33 && h == HtmlStart::Lt { HtmlStart::LtBang }
  else if b == 45 { if h == HtmlStart::LtBang { HtmlStart::LtBangDash } else if h == HtmlStart::Start { HtmlStart::Dash } else if h == HtmlStart::Dash { HtmlStart::DashDash } else { HtmlStart::Other } }
  else { HtmlStart::Other }
}
proof fn html_step(s: Seq<u8>, b: u8)
  ensures html(s.push(b)) == step(html(s), b),
{
  last_push(s, b);
  reveal_with_fuel(lt, 2); reveal_with_fuel(blank, 2);
  let p = s.push(b);
  if s.len() > 0 { assert(p.drop_last().drop_last() == s.drop_last()); assert(p[p.len() - 2] == s.last()); }
  if s.len() > 1 { assert(p.drop_last().drop_last().drop_last() == s.drop_last().drop_last()); assert(p[p.len() - 3] == s[s.len() - 2]); }
}
proof fn cat_step(s: Seq<u8>, t: Seq<u8>, i: int)
  requires 0 <= i < t.len(),
  ensures s + t.take(i + 1) == (s + t.take(i)).push(t[i]),
{ assert(s + t.take(i + 1) =~= (s + t.take(i)).push(t[i])); }
proof fn after_space(s: Seq<u8>, t: Seq<u8>)
  ensures !straddles(s.push(32), t), html(s.push(32)) == HtmlStart::Start || html(s.push(32)) == HtmlStart::Other,
{ last_push(s, 32); html_step(s, 32); }

spec fn run(h: HtmlStart, t: Seq<u8>) -> HtmlStart
  decreases t.len()
{ if t.len() == 0 { h } else { step(run(h, t.drop_last()), t.last()) } }
proof fn run_step(h: HtmlStart, t: Seq<u8>, i: int)
  requires 0 <= i < t.len(),
  ensures run(h, t.take(i + 1)) == step(run(h, t.take(i)), t[i]),
{ assert(t.take(i + 1).drop_last() =~= t.take(i)); }
proof fn html_run(s: Seq<u8>, t: Seq<u8>)
  ensures html(s + t) == run(html(s), t),
  decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); }
  else { html_run(s, t.drop_last()); html_step(s + t.drop_last(), t.last()); assert(s + t =~= (s + t.drop_last()).push(t.last())); }
}
/// does t complete an opener of which h remembers the beginning
spec fn may(h: HtmlStart, t: Seq<u8>) -> bool
  decreases t.len()
{
  if t.len() == 0 || h == HtmlStart::Start || h == HtmlStart::Other { false }
  else if (h == HtmlStart::LtBangDash && t[0] == 45) || (h == HtmlStart::DashDash && t[0] == 62) { true }
  else if step(h, t[0]) == HtmlStart::Lt { false }
  else { may(step(h, t[0]), t.skip(1)) }
}
proof fn may_straddle(s: Seq<u8>, t: Seq<u8>)
  ensures may(html(s), t) == straddles(s, t),
{
  reveal_with_fuel(may, 4); reveal_with_fuel(lt, 3); reveal_with_fuel(blank, 3);
  if t.len() > 0 { let a = t.skip(1); if t.len() > 1 { assert(a[0] == t[1]); let b = a.skip(1); if t.len() > 2 { assert(b[0] == t[2]); } } }
}

/// after the space that separates f, nothing else is needed
proof fn glue(s: Seq<u8>, f: Frag)
  ensures !straddles(s + seq![32u8], glued(f)), s + seq![32u8] + ftext(f) == s + (seq![32u8] + ftext(f)),
{ assert(s + seq![32u8] =~= s.push(32)); after_space(s, glued(f)); assert(s + seq![32u8] + ftext(f) =~= s + (seq![32u8] + ftext(f))); }

// ---- code ----------------------------------------------------------------------------------
// the first, last byte that is not white space, with its index
fn first_text(bytes: &[u8]) -> (r: Option<(usize, u8)>)
  ensures match r { Some((i, b)) => i < bytes@.len() && bytes@[i as int] == b && !ws(b) && forall|k: int| 0 <= k < i ==> ws(#[trigger] bytes@[k]), None => forall|k: int| 0 <= k < bytes@.len() ==> ws(#[trigger] bytes@[k]) },
{
  let mut i: usize = 0;
  while i < bytes.len()
    invariant i <= bytes@.len(), forall|k: int| 0 <= k < i ==> ws(#[trigger] bytes@[k]),
    decreases bytes@.len() - i,
  { if !bytes[i].is_ascii_whitespace() { return Some((i, bytes[i])); } i = i + 1; }
  None
}
fn last_text(bytes: &[u8]) -> (r: Option<(usize, u8)>)
  ensures match r { Some((i, b)) => i < bytes@.len() && bytes@[i as int] == b && !ws(b) && forall|k: int| i < k < bytes@.len() ==> ws(#[trigger] bytes@[k]), None => forall|k: int| 0 <= k < bytes@.len() ==> ws(#[trigger] bytes@[k]) },
    bytes@.len() <= usize::MAX,
{
  let mut i: usize = bytes.len();
  while i > 0
    invariant i <= bytes@.len(), forall|k: int| i <= k < bytes@.len() ==> ws(#[trigger] bytes@[k]),
    decreases i,
  { i = i - 1; if !bytes[i].is_ascii_whitespace() { return Some((i, bytes[i])); } }
  None
}

/*@fn emit-js/src/emitter.rs :: needs_space
#spec
  ensures r == merges(prev, next),
#ret r
@*/
/*@fn emit-js/src/emitter.rs :: classify_leading_char
#ret r
#spec
  ensures r == lead_char(ch),
@*/
/*@fn emit-js/src/emitter.rs :: classify_trailing_char
#ret r
#spec
  requires idx < bytes@.len(),
  ensures r == trail_char(bytes@.take(idx + 1)),
@*/
impl TokenKind {
/*@fn emit-js/src/emitter.rs :: TokenKind::leading
#ret r
#spec
  ensures r == (match self { TokenKind::Other => Leading::Other, _ => tok_lead(self, 0) }),
@*/
/*@fn emit-js/src/emitter.rs :: TokenKind::trailing
#ret r
#spec
  requires trailing_idx < bytes@.len(),
  ensures r == tok_trail(self, bytes@.take(trailing_idx + 1)),
@*/
}
/*@fn emit-js/src/emitter.rs :: classify_fragment
#ret r
#rewrite `bytes . iter ( ) . enumerate ( ) . find ( | ( _ , b ) | ! b . is_ascii_whitespace ( ) )` => `first_text(bytes)`
#rewrite `bytes . iter ( ) . enumerate ( ) . rev ( ) . find ( | ( _ , b ) | ! b . is_ascii_whitespace ( ) )` => `last_text(bytes)`
#rewrite `& leading_char )` => `leading_char)`
#spec
  requires bytes@.len() > 0,
  ensures r.leading == flead(Frag::Free(bytes@)), r.trailing == ftrail(Frag::Free(bytes@)),
#entry
  proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@*/
/*@fn emit-js/src/emitter.rs :: classify_fragment_with_kind
#ret r
#rewrite `bytes . iter ( ) . enumerate ( ) . find ( | ( _ , b ) | ! b . is_ascii_whitespace ( ) )` => `first_text(bytes)`
#rewrite `bytes . iter ( ) . enumerate ( ) . rev ( ) . find ( | ( _ , b ) | ! b . is_ascii_whitespace ( ) )` => `last_text(bytes)`
#spec
  requires bytes@.len() > 0,
  ensures r.leading == flead(Frag::Tok(kind, bytes@)), r.trailing == ftrail(Frag::Tok(kind, bytes@)),
#entry
  proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@*/
/*@fn emit-js/src/emitter.rs :: classify_byte
#ret r
#spec
  ensures r.leading == flead(Frag::Free(seq![byte])), r.trailing == ftrail(Frag::Free(seq![byte])),
@*/
/*@fn emit-js/src/emitter.rs :: next_html_start
#ret r
#spec
  ensures r.0 == step(state, byte),
    r.1 == ((state == HtmlStart::LtBangDash && byte == 45) || (state == HtmlStart::DashDash && byte == 62)),
@*/
/*@fn emit-js/src/emitter.rs :: advance_html_start
#ret r
#spec
  ensures r == run(state, bytes@),
#entry
  let ghost first = state;
#loop 0 while=i
  invariant i_s@ == bytes@, 0 <= i <= bytes@.len(), state == run(first, bytes@.take(i as int)),
  decreases bytes@.len() - i,
#at before `state = next_html_start`
    proof { run_step(first, bytes@, i - 1); }
#tail r
  proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@*/
/*@fn emit-js/src/emitter.rs :: would_start_html_comment
#attr #[verifier::loop_isolation(false)]
#ret r
#spec
  ensures r == may(state, bytes@),
#entry
  let ghost first = state;
  proof { assert(bytes@.skip(0) =~= bytes@); }
#loop 0 while=i
  invariant i_s@ == bytes@, 0 <= i <= bytes@.len(), may(first, bytes@) == may(state, bytes@.skip(i as int)),
  decreases bytes@.len() - i,
#at before `if matches ! ( state`
    proof { let t = bytes@.skip(i - 1); assert(t[0] == byte); assert(t.skip(1) =~= bytes@.skip(i as int)); }
@*/

impl State {
/*@fn emit-js/src/emitter.rs :: Default for State::default
#ret r
#spec
  ensures r.trailing == Boundary::None, r.html_start == HtmlStart::Start,
@*/
}
impl Emitter {
/*@fn emit-js/src/emitter.rs :: Emitter::new
#ret r
#spec
  ensures r.inv(), r.at() == render(Seq::empty()), r.opts == opts,
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::push_bytes
#spec
  requires old(self).inv(),
  ensures final(self).inv(), final(self).out@ == old(self).out@ + bytes@, final(self).state.trailing == old(self).state.trailing, final(self).opts == old(self).opts,
#entry
  proof { html_run(self.out@, bytes@); }
#at after `self . out . extend_from_slice`
  proof { assert(self.out@ =~= old(self).out@ + bytes@); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::insert_boundary
#spec
  requires old(self).inv(),
  ensures final(self).inv(), final(self).opts == old(self).opts,
    final(self).at() == (if merges(old(self).state.trailing, next) { (old(self).out@ + seq![32u8], Boundary::None) } else { old(self).at() }),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::insert_html_comment_break
#spec
  requires old(self).inv(),
  ensures final(self).inv(), final(self).opts == old(self).opts,
    final(self).at() == (if straddles(old(self).out@, bytes@) { (old(self).out@ + seq![32u8], Boundary::None) } else { old(self).at() }),
#entry
  proof { may_straddle(self.out@, bytes@); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::with_capacity
#ret r
#spec
  ensures r.inv(), r.at() == render(Seq::empty()), r.opts == opts,
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::clear
#spec
  ensures final(self).inv(), final(self).at() == render(Seq::empty()), final(self).opts == old(self).opts,
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::as_bytes
#ret r
#spec
  ensures r@ == self.out@,
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::into_bytes
#ret r
#spec
  ensures r@ == self.out@,
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_byte
#entry
  proof { glue(self.out@, Frag::Free(seq![byte])); assert([byte]@ =~= seq![byte]); }
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Free(seq![byte])),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_str
#entry
  proof { glue(self.out@, Frag::Free(encode_utf8(text@))); }
#rewrite `text . is_empty ( )` => `text.as_bytes().is_empty()`
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Free(encode_utf8(text@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_with_kind
#entry
  proof { glue(self.out@, Frag::Tok(kind, encode_utf8(text@))); }
#rewrite `text . is_empty ( )` => `text.as_bytes().is_empty()`
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(kind, encode_utf8(text@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_keyword
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(TokenKind::Word, encode_utf8(keyword@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_identifier
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(TokenKind::Word, encode_utf8(identifier@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_number
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(TokenKind::Number, encode_utf8(number@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_bigint_literal
#post bytes
#entry
  proof { let d = encode_utf8(digits@); glue(self.out@, Frag::BigInt(d)); assert([110u8]@ =~= seq![110u8]);
    assert(self.out@ + d + seq![110u8] =~= self.out@ + (d + seq![110u8])); assert(self.out@ + seq![32u8] + d + seq![110u8] =~= self.out@ + seq![32u8] + (d + seq![110u8])); }
#rewrite `digits . is_empty ( )` => `digits.as_bytes().is_empty()`
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::BigInt(encode_utf8(digits@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_punct
#rewrite `match punct` => `match operator(punct)`
#rewrite `"+" =>` => `Operator::Plus =>`
#rewrite `"++" =>` => `Operator::PlusPlus =>`
#rewrite `"-" =>` => `Operator::Minus =>`
#rewrite `"--" =>` => `Operator::MinusMinus =>`
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(punct_kind(punct@), encode_utf8(punct@))),
#entry
  proof { reveal_strlit("+"); reveal_strlit("++"); reveal_strlit("-"); reveal_strlit("--"); reveal_strlit(","); reveal_strlit(";"); assert("+"@[0] == '+'); assert("-"@[0] == '-'); assert(","@[0] == ','); assert(";"@[0] == ';'); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_comma
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(TokenKind::Other, encode_utf8(","@))),
#entry
  proof { reveal_strlit("+"); reveal_strlit("++"); reveal_strlit("-"); reveal_strlit("--"); reveal_strlit(","); reveal_strlit(";"); assert("+"@[0] == '+'); assert("-"@[0] == '-'); assert(","@[0] == ','); assert(";"@[0] == ';'); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_semicolon
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Tok(TokenKind::Other, encode_utf8(";"@))),
#entry
  proof { reveal_strlit("+"); reveal_strlit("++"); reveal_strlit("-"); reveal_strlit("--"); reveal_strlit(","); reveal_strlit(";"); assert("+"@[0] == '+'); assert("-"@[0] == '-'); assert(","@[0] == ','); assert(";"@[0] == ';'); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_space
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Space),
#entry
  proof { assert([32u8]@ =~= seq![32u8]); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_newline
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Free(seq![10u8])),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_raw_str
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Raw(encode_utf8(text@))),
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_raw_byte
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Raw(seq![byte])),
#entry
  proof { assert([byte]@ =~= seq![byte]); }
@*/
/*@fn emit-js/src/emitter.rs :: Emitter::write_string_literal
#rewrite `std :: str :: from_utf8 ( & buf ) . expect ( "string literal escape output is UTF-8" )` => `text_of(&buf)`
#spec
  requires old(self).inv(),
  ensures wrote(old(self), final(self), Frag::Free(encode_utf8(literal(value@, old(self).opts.quote_style, old(self).opts.minify)))),
@*/
/*@fn emit-js/src/emitter.rs :: Write for Emitter::write_str
#sig `fn write_str` => `fn fmt_write_str`
#sig `std :: fmt :: Result` => `Result<(), FmtError>`
#ret r
#spec
  requires old(self).inv(),
  ensures r is Ok, wrote(old(self), final(self), Frag::Free(encode_utf8(s@))),
@*/
/*@fn emit-js/src/emitter.rs :: Write for Emitter::write_char
#sig `fn write_char` => `fn fmt_write_char`
#sig `std :: fmt :: Result` => `Result<(), FmtError>`
#rewrite `c . encode_utf8 ( & mut buf )` => `utf8_of(c, &mut buf)`
#ret r
#spec
  requires old(self).inv(),
  ensures r is Ok, wrote(old(self), final(self), Frag::Free(encode_utf8(seq![c]))),
@*/
}

// a member of a number: 1 .a is written 1..a
#[verifier::external_body]
fn minus_first(b: &[u8]) -> (r: bool) ensures r == (b@.len() > 0 && b@[0] == 45) { b.starts_with(b"-") }
#[verifier::external_body]
fn after_first(b: &[u8]) -> (r: &[u8]) requires b@.len() > 0 ensures r@ == b@.skip(1) { &b[1..] }
fn all_digits(b: &[u8]) -> (r: bool) ensures r == digits(b@)
{
  let mut i: usize = 0;
  while i < b.len()
    invariant i <= b@.len(), forall|k: int| 0 <= k < i ==> digit(#[trigger] b@[k]),
    decreases b@.len() - i,
  { if b[i] < 48 || b[i] > 57 { assert(!digit(b@[i as int])); return false; } i = i + 1; }
  true
}
spec fn digits(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> digit(#[trigger] b[k]) }
/// a decimal integer: a dot right after it would be its decimal point
spec fn decimal_integer(b: Seq<u8>) -> bool { if b.len() > 0 && b[0] == 45 { digits(b.skip(1)) } else { digits(b) } }
/*@fn emit-js/src/js_expr.rs :: requires_trailing_dot
#sig `fn requires_trailing_dot` => `fn dot_js_expr`
#rewrite `bytes . starts_with ( b"-" )` => `minus_first(bytes)`
#rewrite `& bytes [ 1 .. ]` => `after_first(bytes)`
#rewrite `bytes . iter ( ) . all ( | b | b . is_ascii_digit ( ) )` => `all_digits(bytes)`
#ret r
#spec
  ensures r == decimal_integer(encode_utf8(rendered@)),
@*/
/*@fn emit-js/src/expr.rs :: requires_trailing_dot
#sig `fn requires_trailing_dot` => `fn dot_expr`
#rewrite `bytes . starts_with ( b"-" )` => `minus_first(bytes)`
#rewrite `& bytes [ 1 .. ]` => `after_first(bytes)`
#rewrite `bytes . iter ( ) . all ( | b | b . is_ascii_digit ( ) )` => `all_digits(bytes)`
#ret r
#spec
  ensures r == decimal_integer(encode_utf8(rendered@)),
@*/
/*@fn emit-js/src/expr_js.rs :: requires_trailing_dot
#sig `fn requires_trailing_dot` => `fn dot_expr_js`
#rewrite `bytes . starts_with ( b"-" )` => `minus_first(bytes)`
#rewrite `& bytes [ 1 .. ]` => `after_first(bytes)`
#rewrite `bytes . iter ( ) . all ( | b | b . is_ascii_digit ( ) )` => `all_digits(bytes)`
#ret r
#spec
  ensures r == decimal_integer(encode_utf8(rendered@)),
@*/
// ---- what follows for every history of calls ------------------------------------------------
/// the calls made so far
proof fn history(a: &Emitter, b: &Emitter, fs: Seq<Frag>, f: Frag)
  requires a.at() == render(fs), wrote(a, b, f),
  ensures b.at() == render(fs.push(f)),
{ assert(fs.push(f).drop_last() =~= fs); assert(fs.push(f).last() == f); }
/// the text is the fragments in order, with at most a space in front of each, and only where needed
proof fn nothing_else(fs: Seq<Frag>, f: Frag)
  ensures
    render(fs.push(f)).0 == render(fs).0 + ftext(f) || render(fs.push(f)).0 == render(fs).0 + seq![32u8] + ftext(f),
    render(fs.push(f)).0 != render(fs).0 + ftext(f) ==> !raw(f) && (merges(render(fs).1, flead(f)) || straddles(render(fs).0, ftext(f))),
{
  assert(fs.push(f).drop_last() =~= fs); assert(fs.push(f).last() == f);
  if ftext(f).len() == 0 { assert(render(fs).0 + ftext(f) =~= render(fs).0); }
}
spec fn opener(t: Seq<u8>, n: int) -> bool {
  (n >= 4 && t[n - 4] == 60 && t[n - 3] == 33 && t[n - 2] == 45 && t[n - 1] == 45) || (n >= 3 && t[n - 3] == 45 && t[n - 2] == 45 && t[n - 1] == 62)
}
/// neither <!-- nor --> within the fragment
spec fn clean(f: Frag) -> bool { !(f is Raw) && forall|n: int| 0 < n <= ftext(f).len() ==> !#[trigger] opener(ftext(f), n) }
spec fn comment(s: Seq<u8>) -> bool { opened(s, 4) || closed(s, 3) }
proof fn no_comment_step(s: Seq<u8>, t: Seq<u8>, m: int)
  requires 0 < m <= t.len(), comment(s + t.take(m)), !opener(t, m),
  ensures straddles(s, t),
{
  let p = s + t.take(m);
  reveal_with_fuel(lt, 2); reveal_with_fuel(blank, 2);
  assert(p.last() == t[m - 1]);
  if m == 1 { assert(p.drop_last() =~= s); }
  else if m == 2 { assert(p.drop_last().drop_last() =~= s); assert(p[p.len() - 2] == t[0]); }
  else {
    assert(p[p.len() - 2] == t[m - 2]); assert(p[p.len() - 3] == t[m - 3]);
    if m == 3 { assert(p.drop_last().drop_last().drop_last() =~= s); }
    else { assert(p.drop_last().drop_last().drop_last() =~= s + t.take(m - 3)); assert((s + t.take(m - 3)).last() == t[m - 4]); }
  }
}
/// no sequence of calls writes an HTML-like comment opener that is not inside one of its fragments
proof fn no_comment(fs: Seq<Frag>, n: int)
  requires forall|i: int| 0 <= i < fs.len() ==> clean(#[trigger] fs[i]), 0 <= n <= render(fs).0.len(),
  ensures !comment(render(fs).0.take(n)),
  decreases fs.len()
{
  if fs.len() > 0 {
    let f = fs.last(); let p = render(fs.drop_last()).0; let q = render(fs).0; let t = ftext(f);
    assert(clean(f));
    assert forall|i: int| 0 <= i < fs.drop_last().len() implies clean(#[trigger] fs.drop_last()[i]) by { assert(fs.drop_last()[i] == fs[i]); }
    let sp = if q.len() == p.len() + t.len() { Seq::<u8>::empty() } else { seq![32u8] };
    let b = p + sp;
    assert(q =~= b + t);
    if n <= p.len() { no_comment(fs.drop_last(), n); assert(q.take(n) =~= p.take(n)); }
    else if n == p.len() + 1 && sp.len() == 1 { assert(q.take(n).last() == 32); }
    else if comment(q.take(n)) {
      let m = n - b.len();
      assert(q.take(n) =~= b + t.take(m));
      no_comment_step(b, t, m);
      if sp.len() == 1 { assert(b =~= p.push(32)); after_space(p, t); }
      else { assert(b =~= p); if f is BigInt { assert(t.last() == 110); } }
      assert(straddles(p, t));
      assert(false);
    }
  }
}
/// the two bytes cannot end one token and begin the next
spec fn join(a: u8, b: u8) -> bool {
  ((digit(a) || letter(a)) && (digit(b) || letter(b) || b == 92)) || (a == plus() && b == plus()) || (a == minus() && b == minus()) || (a == slash() && (b == slash() || b == star()))
}
/// a call with one token: words, numbers, operators, literals
spec fn token(f: Frag) -> bool {
  match f {
    Frag::Free(t) => t.len() > 0,
    Frag::Tok(k, t) => t.len() > 0 && match k {
      // `#x` and escapes included
      TokenKind::Word => (letter(t[0]) || t[0] == 92 || t[0] == 35) && (letter(t.last()) || digit(t.last()) || t.last() == 125),
      TokenKind::Number => (digit(t[0]) || t[0] == 45 || t[0] == 46) && (letter(t.last()) || digit(t.last()) || t.last() == 46),
      TokenKind::Plus => t == seq![43u8], TokenKind::PlusPlus => t == seq![43u8, 43u8], TokenKind::Minus => t == seq![45u8], TokenKind::MinusMinus => t == seq![45u8, 45u8],
      // other operators; += and -= only ever follow an operand
      TokenKind::Other => !digit(t[0]) && !letter(t[0]) && t[0] != 92 && t[0] != plus() && t[0] != minus(),
    },
    Frag::BigInt(d) => d.len() > 0 && (digit(d[0]) || d[0] == 45),
    _ => false,
  }
}
/// tokens that would run into one another are kept apart
proof fn apart(fs: Seq<Frag>, f: Frag)
  requires fs.len() > 0, token(fs.last()), token(f), join(ftext(fs.last()).last(), ftext(f)[0]),
  ensures render(fs.push(f)).0 == render(fs).0 + seq![32u8] + ftext(f),
{
  let e = fs.last();
  assert(fs.push(f).drop_last() =~= fs); assert(fs.push(f).last() == f);
  assert(render(fs).1 == ftrail(e));
  assert(merges(ftrail(e), flead(f)));
}
/// a regular expression is kept apart from a following word, which would be its flags
proof fn regex_apart(fs: Seq<Frag>, t: Seq<u8>, f: Frag)
  requires fs.len() > 0, fs.last() == Frag::Free(t), t.len() > 1, t[0] == slash(), t.last() == slash(), token(f), digit(ftext(f)[0]) || letter(ftext(f)[0]) || ftext(f)[0] == 92,
  ensures render(fs.push(f)).0 == render(fs).0 + seq![32u8] + ftext(f),
{ assert(fs.push(f).drop_last() =~= fs); assert(fs.push(f).last() == f); assert(render(fs).1 == Boundary::Regex); }
fn main() {}
}
