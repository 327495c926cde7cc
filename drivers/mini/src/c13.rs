//! C13: string and template literals, written and read.
use crate::common::*;
use emit_js::{EmitOptions, Emitter, QuoteStyle};
use parse_js::ast::expr::lit::{LitRegexExpr, LitTemplatePart};
use parse_js::ast::expr::Expr;
use parse_js::ast::node::{literal_string_code_units, template_string_parts, Node};
use parse_js::ast::stmt::Stmt;
use parse_js::loc::Loc;

// ---- oracle: the value of a literal body, per ECMA-262 12.9.4 / 12.9.6 ----
fn utf16(s: &str) -> Vec<u16> {
  s.encode_utf16().collect()
}
fn put(c: char, out: &mut Vec<u16>) {
  let mut b = [0u16; 2];
  out.extend_from_slice(c.encode_utf16(&mut b));
}
fn oct(c: Option<&char>) -> Option<u32> {
  c.and_then(|c| c.to_digit(8))
}
/// (value, has a legacy escape); None: not a literal
fn value(b: &[char], tmpl: bool) -> Option<(Vec<u16>, bool)> {
  let (mut out, mut legacy, mut i) = (vec![], false, 0);
  while i < b.len() {
    let c = b[i];
    i += 1;
    if c == '\n' || c == '\r' {
      if !tmpl {
        return None;
      }
      if c == '\r' && b.get(i) == Some(&'\n') {
        i += 1;
      }
      out.push(10);
      continue;
    }
    if c != '\\' {
      put(c, &mut out);
      continue;
    }
    let e = *b.get(i)?;
    i += 1;
    match e {
      '\r' => {
        if b.get(i) == Some(&'\n') {
          i += 1;
        }
      }
      '\n' | '\u{2028}' | '\u{2029}' => {}
      'b' => out.push(8),
      't' => out.push(9),
      'n' => out.push(10),
      'v' => out.push(11),
      'f' => out.push(12),
      'r' => out.push(13),
      '8' | '9' => {
        legacy = true;
        out.push(e as u16);
      }
      '0'..='7' => {
        if !(e == '0' && !b.get(i).map_or(false, |c| c.is_ascii_digit())) {
          legacy = true;
        }
        let mut v = e as u32 - 48;
        if let Some(d) = oct(b.get(i)) {
          v = v * 8 + d;
          i += 1;
          if e <= '3' {
            if let Some(d) = oct(b.get(i)) {
              v = v * 8 + d;
              i += 1;
            }
          }
        }
        out.push(v as u16);
      }
      'x' => {
        let h = b.get(i)?.to_digit(16)?;
        let l = b.get(i + 1)?.to_digit(16)?;
        i += 2;
        out.push((h * 16 + l) as u16);
      }
      'u' if b.get(i) == Some(&'{') => {
        i += 1;
        let (mut v, mut n) = (0u64, 0);
        loop {
          let c = *b.get(i)?;
          i += 1;
          if c == '}' {
            break;
          }
          v = (v * 16 + c.to_digit(16)? as u64).min(1 << 40);
          n += 1;
        }
        if n == 0 || v > 0x10ffff {
          return None;
        }
        if v < 0x10000 {
          out.push(v as u16);
        } else {
          out.push((0xd800 + (v - 0x10000) / 0x400) as u16);
          out.push((0xdc00 + (v - 0x10000) % 0x400) as u16);
        }
      }
      'u' => {
        let mut v = 0;
        for k in 0..4 {
          v = v * 16 + b.get(i + k)?.to_digit(16)?;
        }
        i += 4;
        out.push(v as u16);
      }
      c => put(c, &mut out),
    }
  }
  Some((out, legacy))
}
/// ends only where it should
fn shut(b: &[char], q: char, tmpl: bool) -> bool {
  let mut i = 0;
  while i < b.len() {
    if b[i] == '\\' {
      if i + 1 >= b.len() {
        return false;
      }
      i += 2;
      continue;
    }
    if b[i] == q || (tmpl && b[i] == '$' && b.get(i + 1) == Some(&'{')) {
      return false;
    }
    i += 1;
  }
  true
}
fn line_end(c: char) -> bool {
  matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

// ---- the real code ----
fn first_expr(src: &str) -> Result<Node<Expr>, String> {
  let mut top = parse_js::parse(src).map_err(|e| format!("{src:?} is rejected: {e:?}"))?;
  ensure!(top.stx.body.len() == 1, "{src:?}: {} statements", top.stx.body.len());
  match *top.stx.body.pop().unwrap().stx {
    Stmt::Expr(e) => Ok(e.stx.expr),
    o => Err(format!("{src:?}: {o:?}")),
  }
}
fn rhs(src: &str) -> Result<Node<Expr>, String> {
  match *first_expr(src)?.stx {
    Expr::Binary(b) => Ok(b.stx.right),
    o => Err(format!("{src:?}: {o:?}")),
  }
}
/// value and code units of the string literal in `x=<lit>`
fn read_string(lit: &str) -> Result<(String, Vec<u16>), String> {
  match *rhs(&format!("x={lit}"))?.stx {
    Expr::LitStr(l) => {
      let u = literal_string_code_units(&l.assoc).map(|u| u.to_vec()).ok_or("no code units")?;
      Ok((l.stx.value.clone(), u))
    }
    o => Err(format!("{lit:?} parses as {o:?}")),
  }
}
/// the expression emitter, and the statement emitter
fn emit(e: &Node<Expr>, minified: bool) -> Result<String, String> {
  let mut em = Emitter::new(if minified { EmitOptions::minified() } else { EmitOptions::canonical() });
  emit_js::emit_expr(&mut em, e, |_, _| Ok(())).map_err(|e| format!("{e:?}"))?;
  String::from_utf8(em.into_bytes()).map_err(|e| e.to_string())
}
fn emit_program(src: &str, minified: bool) -> Result<String, String> {
  let top = parse_js::parse(src).map_err(|e| format!("{src:?} is rejected: {e:?}"))?;
  let mut em = Emitter::new(if minified { EmitOptions::minified() } else { EmitOptions::canonical() });
  emit_js::emit_top_level_stmt(&mut em, &top.stx).map_err(|e| format!("{e:?}"))?;
  String::from_utf8(em.into_bytes()).map_err(|e| e.to_string())
}
fn expected(s: &str, q: char) -> String {
  let cs: Vec<char> = s.chars().collect();
  let mut o = String::new();
  o.push(q);
  for (i, &c) in cs.iter().enumerate() {
    match c {
      '\\' => o.push_str("\\\\"),
      c if c == q => {
        o.push('\\');
        o.push(c);
      }
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      '\0' if cs.get(i + 1).map_or(false, |c| c.is_ascii_digit()) => o.push_str("\\x00"),
      '\0' => o.push_str("\\0"),
      '\u{2028}' => o.push_str("\\u2028"),
      '\u{2029}' => o.push_str("\\u2029"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\x{:02X}", c as u32)),
      c => o.push(c),
    }
  }
  o.push(q);
  o
}

fn check_string(s: &str) -> Result<(), String> {
  let (d, sq) = (expected(s, '"'), expected(s, '\''));
  for (style, minify, want) in [
    (QuoteStyle::Double, false, &d),
    (QuoteStyle::Double, true, &d),
    (QuoteStyle::Single, false, &sq),
    (QuoteStyle::Single, true, &sq),
    (QuoteStyle::Auto, false, &d),
    (QuoteStyle::Auto, true, if sq.len() < d.len() { &sq } else { &d }),
  ] {
    let mut out = b"pre".to_vec();
    emit_js::emit_string_literal(&mut out, s, style, minify);
    let got = String::from_utf8(out).map_err(|e| e.to_string())?;
    let got = got.strip_prefix("pre").ok_or("what was there is gone")?;
    let cs: Vec<char> = got.chars().collect();
    ensure!(cs.len() >= 2, "{got:?}");
    let q = cs[0];
    let body = &cs[1..cs.len() - 1];
    ensure!(cs[cs.len() - 1] == q && (q == '"' || q == '\''), "{s:?} is written {got:?}");
    ensure!(shut(body, q, false), "{s:?} is written {got:?}, which ends early");
    ensure!(!body.iter().any(|c| line_end(*c)), "{s:?} is written {got:?} with a line terminator");
    ensure!(value(body, false) == Some((utf16(s), false)), "{s:?} is written {got:?}, which means {:?}", value(body, false));
    ensure!(got == want, "{s:?} ({style:?}, minify {minify}) is written {got:?}, not {want:?}");
    let (v, u) = read_string(got)?;
    ensure!(v == s && u == utf16(s), "{s:?} is written {got:?} and read back {v:?} {u:?}");
  }
  let mut out = vec![];
  emit_js::emit_string_literal_double_quoted(&mut out, s);
  ensure!(out == d.as_bytes(), "double quoted {:?}", String::from_utf8_lossy(&out));
  Ok(())
}

fn check_template(s: &str) -> Result<(), String> {
  let mut out = b"pre".to_vec();
  emit_js::emit_template_literal_segment(&mut out, s);
  let got = String::from_utf8(out).map_err(|e| e.to_string())?;
  let got = got.strip_prefix("pre").ok_or("what was there is gone")?;
  let body: Vec<char> = got.chars().collect();
  ensure!(shut(&body, '`', true), "{s:?} is written {got:?}, which ends early");
  ensure!(!body.iter().any(|c| line_end(*c)), "{s:?} is written {got:?} with a line terminator");
  ensure!(value(&body, true) == Some((utf16(s), false)), "{s:?} is written {got:?}, which means {:?}", value(&body, true));
  let mut raw = vec![];
  emit_js::emit_template_raw_segment(&mut raw, s);
  let raw = String::from_utf8(raw).map_err(|e| e.to_string())?;
  let rb: Vec<char> = raw.chars().collect();
  ensure!(shut(&rb, '`', true), "raw {s:?} is written {raw:?}, which ends early");
  if !s.contains('\r') {
    ensure!(value(&rb, true) == Some((utf16(s), false)), "raw {s:?} is written {raw:?}, which means {:?}", value(&rb, true));
  }
  // through the parser and the emitters: whole template, and around a substitution
  for (src, want) in [(format!("x=`{got}`"), vec![s.to_string()]), (format!("x=`{got}${{y}}{got}${{z}}`"), vec![s.to_string(), s.to_string(), String::new()])] {
    let mut src = src;
    for round in 0..4 {
      let e = first_expr(&src)?;
      let Expr::Binary(b) = e.stx.as_ref() else { return Err(format!("{src:?}")) };
      let Expr::LitTemplate(t) = b.stx.right.stx.as_ref() else { return Err(format!("{src:?} is not a template")) };
      let strs: Vec<String> = t.stx.parts.iter().filter_map(|p| if let LitTemplatePart::String(s) = p { Some(s.clone()) } else { None }).collect();
      ensure!(strs == want, "{src:?} reads {strs:?}, not {want:?} (round {round})");
      let td = template_string_parts(&t.assoc).ok_or("no template data")?;
      for (k, c) in td.cooked.iter().enumerate() {
        ensure!(c.as_deref() == Some(&utf16(&want[k])[..]), "{src:?} cooked {c:?}");
      }
      src = if round == 0 { emit(&e, true)? } else { emit_program(&src, round == 1)? };
    }
  }
  Ok(())
}

fn check_body(body: &str) -> Result<(), String> {
  let b: Vec<char> = body.chars().collect();
  for q in ['"', '\''] {
    if !shut(&b, q, false) {
      continue;
    }
    let lit = format!("{q}{body}{q}");
    let want = value(&b, false);
    match (read_string(&lit), &want) {
      (Ok((v, u)), Some((w, _))) => {
        ensure!(u == *w, "{lit:?} reads {u:?}, not {w:?}");
        ensure!(v == String::from_utf16_lossy(w), "{lit:?} reads {v:?}");
      }
      (Err(_), None) => {}
      (Ok(r), None) => return Err(format!("{lit:?} is no literal, but reads {r:?}")),
      (Err(e), Some(w)) => return Err(format!("{lit:?} means {w:?}, but: {e}")),
    }
  }
  if shut(&b, '`', true) {
    let src = format!("x=`{body}`");
    let want = value(&b, true);
    match (rhs(&src).map(|e| e.stx), &want) {
      (Ok(e), Some((w, legacy))) => {
        let Expr::LitTemplate(t) = *e else { return Err(format!("{src:?} is not a template")) };
        ensure!(matches!(&t.stx.parts[..], [LitTemplatePart::String(v)] if *v == String::from_utf16_lossy(w)), "{src:?} reads {:?}, not {w:?}", t.stx.parts);
        let td = template_string_parts(&t.assoc).ok_or("no template data")?;
        let raw: Vec<u16> = utf16(&body.replace("\r\n", "\n").replace('\r', "\n"));
        ensure!(td.raw.len() == 1 && td.raw[0][..] == raw[..], "{src:?} raw {:?}", td.raw);
        let _ = legacy;
      }
      (Err(_), None) => {}
      (Ok(e), None) => return Err(format!("{src:?} is no template, but reads {e:?}")),
      (Err(e), Some(_)) => return Err(format!("{src:?}: {e}")),
    }
    // tagged: an invalid or legacy escape has no cooked value
    let src = format!("f`{body}`");
    let e = first_expr(&src)?;
    let Expr::TaggedTemplate(t) = *e.stx else { return Err(format!("{src:?} is not tagged")) };
    let td = template_string_parts(&t.assoc).ok_or("no template data")?;
    let cooked = want.clone().and_then(|(w, legacy)| if legacy { None } else { Some(w) });
    ensure!(td.cooked.len() == 1 && td.cooked[0].as_deref() == cooked.as_deref(), "{src:?} cooked {:?}, not {cooked:?}", td.cooked);
    // a template literal type
    let src = format!("type T=`{body}${{X}}`");
    let r = parse_js::parse(&src);
    ensure!(r.is_ok(), "{src:?} is rejected");
    let w = want.map(|w| String::from_utf16_lossy(&w.0)).unwrap_or_else(|| body.to_string());
    let dump = format!("{:?}", r.unwrap().stx);
    ensure!(dump.contains(&format!("head: {w:?}")), "{src:?}: head is not {w:?} in {dump}");
  }
  let _ = parse_js::parse::expr::lit::normalise_literal_string_or_template_inner(body);
  ensure!(
    parse_js::parse::expr::lit::normalise_literal_string_or_template_inner(body) == value(&b, true).map(|w| String::from_utf16_lossy(&w.0)),
    "template text {body:?} normalises to {:?}",
    parse_js::parse::expr::lit::normalise_literal_string_or_template_inner(body)
  );
  ensure!(
    parse_js::parse::expr::lit::normalise_literal_string(&format!("'{body}'")) == value(&b, false).map(|w| String::from_utf16_lossy(&w.0)),
    "string text {body:?} normalises to {:?}",
    parse_js::parse::expr::lit::normalise_literal_string(&format!("'{body}'"))
  );
  Ok(())
}

fn check_regex(s: &str) -> Result<(), String> {
  let node = Node::new(Loc(0, 0), Expr::LitRegex(Node::new(Loc(0, 0), LitRegexExpr { value: s.to_string() })));
  let got = emit(&node, true)?;
  ensure!(!got.chars().any(line_end), "{s:?} is written {got:?}");
  let mut want = String::new();
  for c in s.chars() {
    match c {
      '\n' => want.push_str("\\n"),
      '\r' => want.push_str("\\r"),
      '\u{2028}' => want.push_str("\\u2028"),
      '\u{2029}' => want.push_str("\\u2029"),
      c => want.push(c),
    }
  }
  ensure!(got == want, "{s:?} is written {got:?}, not {want:?}");
  Ok(())
}

fn words(alphabet: &[&str], len: usize, f: &mut dyn FnMut(&str)) {
  fn go(alphabet: &[&str], len: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
    f(cur);
    if len == 0 {
      return;
    }
    for a in alphabet {
      let n = cur.len();
      cur.push_str(a);
      go(alphabet, len - 1, cur, f);
      cur.truncate(n);
    }
  }
  go(alphabet, len, &mut String::new(), f)
}

const TEXT: &[&str] = &[
  "\\", "\"", "'", "`", "$", "{", "}", "\n", "\r", "\t", "\0", "0", "7", "9", "\u{2028}", "\u{2029}", "\u{1}", "\u{1f}", "\u{b}", " ", "a", "x", "u", "n", "\u{7f}", "\u{80}", "é", "\u{ffff}", "😀", "/",
];
const BODY: &[&str] = &[
  "\\", "0", "1", "3", "4", "7", "8", "x", "u", "{", "}", "a", "F", "g", "\n", "\r", "\u{2028}", "é", "😀", "'", "`", "$", "n", "b",
];
const PIECES: &[&str] = &[
  "\\uD83D", "\\uDE00", "\\uD83D\\uDE00", "\\u{D83D}", "\\u{DE00}", "\\u{1F600}", "\\u{10FFFF}", "\\u{110000}", "\\u{0000000041}", "\\u{FFFFFFFFFFFFFFFFF}", "\\u{}", "\\u{g}", "\\u{41", "\\u12é", "\\u123é", "\\u00é9", "\\uD83D\\u12é", "\\x4", "\\x41", "\\xé", "\\x7g", "\\400", "\\377", "\\777", "\\08", "\\00", "\\0", "\\8", "\\9",
  "\\\r\n", "\\\n", "\\\r", "\\\u{2029}", "\r\n", "\r", "\n", "\\v", "\\f", "\\b", "\\t", "\\r", "\\n", "\\é", "\\😀", "\\\\", "\\'", "\\\"", "\\`", "\\$", "\\${", "$", "a", "1", "0", "{", "😀", "é",
];

pub fn run(cx: &mut Ctx) {
  let (n, m) = if cx.thorough { (3, 4) } else { (2, 3) };
  cx.rule = format!(
    "values: every word of length <= {n} over {} characters; literal bodies: every word of length <= {m} over {} characters, and pairs of {} escapes, as string, template, tagged template and template type; plus random longer ones",
    TEXT.len(), BODY.len(), PIECES.len()
  );
  cx.exhaustive = true;
  words(TEXT, n, &mut |w| {
    let w = w.to_string();
    cx.case(!w.is_empty(), format!("string value {w:?}"), || check_string(&w));
    cx.case(!w.is_empty(), format!("template value {w:?}"), || check_template(&w));
    cx.case(!w.is_empty(), format!("regex text {w:?}"), || check_regex(&format!("/a{w}/")));
  });
  words(BODY, m, &mut |w| {
    let w = w.to_string();
    cx.case(!w.is_empty(), format!("body {w:?}"), || check_body(&w));
  });
  words(PIECES, 2, &mut |w| {
    let w = w.to_string();
    cx.case(true, format!("body {w:?}"), || check_body(&w));
  });
  // every edge of the ranges a value or an escape can fall in
  for e in [0x7fu32, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x0fff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffff_ffff] {
    for code in [e.saturating_sub(1), e, e.saturating_add(1)] {
      for s in [format!("\\u{{{code:x}}}"), format!("\\u{{0{code:X}}}1"), format!("\\u{code:04x}"), format!("\\u{code:04x}\\udc00"), format!("\\ud83d\\u{code:04x}"), format!("\\u{{{code:x}}}\\u{{dfff}}")] {
        cx.case(true, format!("body {s:?}"), || check_body(&s));
      }
      if let Some(c) = char::from_u32(code) {
        let s = format!("{c}1");
        cx.case(true, format!("string value {s:?}"), || check_string(&s));
        cx.case(true, format!("template value {s:?}"), || check_template(&s));
      }
    }
  }
  for code in 0..if cx.thorough { 0x3000u32 } else { 0x180 } {
    if let Some(c) = char::from_u32(code) {
      for s in [format!("{c}"), format!("{c}0"), format!("a{c}b")] {
        cx.case(true, format!("string value {s:?}"), || check_string(&s));
        cx.case(true, format!("template value {s:?}"), || check_template(&s));
      }
      for s in [format!("\\{c}"), format!("\\{c}0"), format!("\\u{{{code:x}}}"), format!("\\u{code:04X}"), format!("{c}")] {
        cx.case(true, format!("body {s:?}"), || check_body(&s));
      }
      if code < 0x100 {
        let s = format!("\\x{code:02x}1");
        cx.case(true, format!("body {s:?}"), || check_body(&s));
        for s in [format!("\\{code:o}"), format!("\\{code:03o}7"), format!("\\{code:o}8")] {
          cx.case(true, format!("body {s:?}"), || check_body(&s));
        }
      }
    }
  }
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 20000 } else { 1500 } {
    let s: String = (0..3 + r.below(10)).map(|_| *r.pick(TEXT)).collect();
    cx.case(true, format!("string value {s:?}"), || check_string(&s));
    cx.case(true, format!("template value {s:?}"), || check_template(&s));
    let s: String = (0..3 + r.below(4)).map(|_| *r.pick(PIECES)).collect();
    cx.case(true, format!("body {s:?}"), || check_body(&s));
    let s: String = (0..4 + r.below(6)).map(|_| *r.pick(BODY)).collect();
    cx.case(true, format!("body {s:?}"), || check_body(&s));
  }
}
