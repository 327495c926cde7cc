//! C14: the emitter keeps tokens apart, and only where it must.
use crate::common::*;
use diagnostics::FileId;
use emit_js::{emit_string_literal, EmitOptions, Emitter};
use hir_js::{lower_file, FileKind};
use std::fmt::Write as _;

// ---- one call of the interface ----
#[derive(Clone, Copy, Debug)]
enum F {
  Word(&'static str),
  Key(&'static str),
  Num(&'static str),
  Big(&'static str),
  Punct(&'static str),
  Free(&'static str),
  Fmt(&'static str),
  Chr(char),
  Byte(u8),
  Lit(&'static str),
  Raw(&'static str),
  RawByte(u8),
  Space,
  Newline,
  Comma,
  Semi,
}
use F::*;

fn call(em: &mut Emitter, f: F) {
  match f {
    Word(s) => em.write_identifier(s),
    Key(s) => em.write_keyword(s),
    Num(s) => em.write_number(s),
    Big(s) => em.write_bigint_literal(s),
    Punct(s) => em.write_punct(s),
    Free(s) => em.write_str(s),
    Fmt(s) => write!(em, "{s}").unwrap(),
    Chr(c) => std::fmt::Write::write_char(em, c).unwrap(),
    Byte(b) => em.write_byte(b),
    Lit(s) => em.write_string_literal(s),
    Raw(s) => em.write_raw_str(s),
    RawByte(b) => em.write_raw_byte(b),
    Space => em.write_space(),
    Newline => em.write_newline(),
    Comma => em.write_comma(),
    Semi => em.write_semicolon(),
  }
}
fn text(f: F, opts: EmitOptions) -> String {
  match f {
    Word(s) | Key(s) | Num(s) | Punct(s) | Free(s) | Fmt(s) | Raw(s) => s.into(),
    Big(s) if s.is_empty() => String::new(),
    Big(s) => format!("{s}n"),
    Chr(c) => c.into(),
    Byte(b) | RawByte(b) => (b as char).into(),
    Lit(s) => {
      let mut v = vec![];
      emit_string_literal(&mut v, s, opts.quote_style, opts.minify);
      String::from_utf8(v).unwrap()
    }
    Space => " ".into(),
    Newline => "\n".into(),
    Comma => ",".into(),
    Semi => ";".into(),
  }
}
fn wordy(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_' || c == '$' || !c.is_ascii()
}
fn blank(c: char) -> bool {
  matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}
/// must f be kept apart from e, the call before it?
fn merge(e: F, et: &str, f: F, ft: &str) -> bool {
  let (z, a) = (et.chars().last().unwrap(), ft.chars().next().unwrap());
  if matches!(e, Raw(_) | RawByte(_) | Space) || matches!(f, Raw(_) | RawByte(_) | Space) || blank(z) || blank(a) {
    return false;
  }
  let free = |f: F| matches!(f, Free(_) | Fmt(_) | Chr(_) | Byte(_) | Lit(_));
  let regex = free(e) && et.len() > 1 && et.starts_with('/') && z == '/';
  let ends = matches!(e, Word(_) | Key(_) | Num(_) | Big(_)) || wordy(z) || regex;
  let begins = match f {
    Word(_) | Key(_) => true,
    Num(_) | Big(_) => a != '-',
    Punct(_) | Comma | Semi => false,
    _ => wordy(a) || a == '\\',
  };
  if ends && begins {
    return true;
  }
  // an operator that begins with a sign only follows a sign as a unary operator
  let sign = |f: F, t: &str, c: char| match f {
    Punct(_) => t == c.to_string() || t == format!("{c}{c}"),
    Num(_) | Big(_) => t.starts_with(c) && c == '-',
    _ => free(f) && t.starts_with(c),
  };
  let signed = |f: F, t: &str, c: char| t.ends_with(c) && (free(f) || matches!(f, Punct(_)));
  for c in ['+', '-'] {
    if signed(e, et, c) && sign(f, ft, c) {
      return true;
    }
  }
  (free(e) || matches!(e, Punct(_))) && z == '/' && (free(f) || matches!(f, Punct(_))) && (a == '/' || a == '*')
}
/// does a comment opener begin in `out` and end in `t`?
fn opens(out: &str, t: &str) -> bool {
  let (o, all) = (out.as_bytes(), format!("{out}{t}"));
  let s = all.as_bytes();
  for i in o.len().saturating_sub(3)..o.len() {
    if s[i..].starts_with(b"<!--") && i + 4 > o.len() {
      let run = s[..=i].iter().rev().take_while(|b| **b == b'<').count();
      if run % 2 == 1 {
        return true;
      }
    }
    if s[i..].starts_with(b"-->") && i + 3 > o.len() {
      let line = s[..i].iter().rposition(|b| *b == b'\n' || *b == b'\r').map_or(0, |p| p + 1);
      if s[line..i].iter().all(|b| blank(*b as char)) {
        return true;
      }
    }
  }
  false
}
fn check_calls(fs: &[F]) -> Result<(), String> {
  for opts in [EmitOptions::minified(), EmitOptions::canonical()] {
    let mut em = Emitter::new(opts);
    em.write_str("<");
    em.clear();
    let mut want = String::new();
    let mut last: Option<(F, String)> = None;
    for &f in fs {
      let t = text(f, opts);
      call(&mut em, f);
      if !t.is_empty() {
        let raw = matches!(f, Raw(_) | RawByte(_) | Space);
        let apart = last.as_ref().is_some_and(|(e, et)| merge(*e, et, f, &t));
        if !raw && (apart || opens(&want, &t)) {
          want.push(' ');
        }
        want.push_str(&t);
        last = Some((f, t));
      }
      let got = std::str::from_utf8(em.as_bytes()).map_err(|e| e.to_string())?;
      ensure!(got == want, "calls {fs:?}: wrote {got:?}, not {want:?}");
    }
    ensure!(em.into_bytes() == want.as_bytes(), "into_bytes differs");
  }
  Ok(())
}

// ---- whole expressions ----
const KEYWORDS: &[&str] = &["in", "instanceof", "typeof", "void", "delete", "return"];
/// the tokens of a line of JavaScript, without parentheses, semicolons
fn tokens(s: &str) -> Result<Vec<String>, String> {
  let c: Vec<char> = s.chars().collect();
  let mut out: Vec<String> = vec![];
  let mut i = 0;
  let mut value = false; // does a value end here
  let starts = |i: usize, p: &str| c[i..].iter().take(p.chars().count()).copied().eq(p.chars());
  while i < c.len() {
    if blank(c[i]) {
      i += 1;
      continue;
    }
    let bol = c[..i].iter().rev().take_while(|c| **c != '\n').all(|c| blank(*c));
    if starts(i, "<!--") || starts(i, "//") || starts(i, "/*") || (bol && starts(i, "-->")) {
      return Err(format!("a comment in {s:?}"));
    }
    let j = i;
    if c[i].is_ascii_digit() {
      while i < c.len() && c[i].is_ascii_digit() {
        i += 1;
      }
      if i < c.len() && c[i] == '.' {
        i += 1;
        while i < c.len() && c[i].is_ascii_digit() {
          i += 1;
        }
      }
      if i < c.len() && c[i] == 'e' {
        i += 1;
        if matches!(c.get(i), Some('+' | '-')) {
          i += 1;
        }
        while i < c.len() && c[i].is_ascii_digit() {
          i += 1;
        }
      }
      if i < c.len() && c[i] == 'n' {
        i += 1;
      }
      if i < c.len() && (wordy(c[i]) || c[i] == '\\') {
        return Err(format!("a number runs into a word in {s:?}"));
      }
      out.push(c[j..i].iter().collect::<String>().trim_end_matches('.').into());
      value = true;
    } else if wordy(c[i]) || c[i] == '\\' {
      while i < c.len() && (wordy(c[i]) || c[i] == '\\') {
        i += 1;
      }
      let w: String = c[j..i].iter().collect();
      value = !KEYWORDS.contains(&w.as_str()) || out.last().is_some_and(|t| t == ".");
      out.push(w);
    } else if c[i] == '\'' || c[i] == '"' {
      i += 1;
      while i < c.len() && c[i] != c[j] {
        i += 1;
      }
      i += 1;
      out.push(format!("'{}'", c[j + 1..i - 1].iter().collect::<String>()));
      value = true;
    } else if c[i] == '/' && !value {
      i += 1;
      while i < c.len() && c[i] != '/' {
        i += 1;
      }
      i += 1;
      while i < c.len() && (wordy(c[i]) || c[i] == '\\') {
        i += 1;
      }
      out.push(c[j..i.min(c.len())].iter().collect());
      value = true;
    } else {
      let op = [">>>=", "===", "!==", ">>>", "<<=", ">>=", "**=", "...", "&&=", "||=", "??=", "=>", "==", "!=", "<<", ">>", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "**"].iter().find(|p| starts(i, p) && !(**p == "?." && c.get(i + 2).is_some_and(|c| c.is_ascii_digit())));
      let n = op.map_or(1, |p| p.len());
      i += n;
      let t: String = c[j..i].iter().collect();
      // after ++ and -- a value has ended if one had before
      value = match t.as_str() {
        "++" | "--" => value,
        ")" | "]" | "}" => true,
        _ => false,
      };
      if !matches!(t.as_str(), "(" | ")" | ";") {
        out.push(t);
      }
    }
  }
  Ok(out)
}
/// an expression of precedence at least p that needs no parentheses, as tokens
fn expr(r: &mut Rng, p: usize, d: usize, out: &mut Vec<&'static str>) {
  const BIN: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!=", "===", "!=="], &["<", ">", "<=", ">=", "in", "instanceof", "<"], &["<<", ">>", ">>>"], &["+", "-"], &["*", "/", "%", "/"]];
  if d == 0 {
    return primary(r, out);
  }
  if p == 0 && r.below(5) == 0 {
    expr(r, 1, d - 1, out);
    out.push("?");
    expr(r, 1, d - 1, out);
    out.push(":");
    return expr(r, 1, d - 1, out);
  }
  let k = p.max(1) + r.below(12 - p.max(1));
  if k <= 10 {
    expr(r, k, d - 1, out);
    out.push(*r.pick(BIN[k - 1]));
    return expr(r, k + 1, d - 1, out);
  }
  unary(r, d, out);
}
const UNARY: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete", "-", "+"];
const IDS: &[&str] = &["a", "é", "$b", "_", "x1"];
fn unary(r: &mut Rng, d: usize, out: &mut Vec<&'static str>) {
  match r.below(6) {
    0 | 1 if d > 0 => {
      out.push(*r.pick(UNARY));
      unary(r, d - 1, out);
    }
    2 => out.extend([*r.pick(&["++", "--"]), *r.pick(IDS)]),
    3 => out.extend([*r.pick(IDS), *r.pick(&["++", "--"])]),
    _ => primary(r, out),
  }
}
const LITS: &[&str] = &["1", "0", "12", "0.5", "1e21", "1e-7", "10n", "'s'", "/a/", "/a/g", "/</", "/!--/", "this", "null", "true"];
fn primary(r: &mut Rng, out: &mut Vec<&'static str>) {
  let id = r.bool();
  out.push(if id { *r.pick(IDS) } else { *r.pick(LITS) });
  for _ in 0..if r.below(3) == 0 { 1 + r.below(2) } else { 0 } {
    match r.below(3) {
      0 => out.extend(["[", *r.pick(IDS), "]"]),
      _ => out.extend([".", *r.pick(&["p", "in", "e1", "é"])]),
    }
  }
}
const JS: parse_js::ParseOptions = parse_js::ParseOptions { dialect: parse_js::Dialect::Ecma, source_type: parse_js::SourceType::Script };
fn check_source(src: &str, want: &[&str]) -> Result<(), String> {
  let top = parse_js::parse_with_options(src, JS).map_err(|e| format!("{src:?} does not parse: {e:?}"))?;
  for opts in [EmitOptions::minified(), EmitOptions::canonical()] {
    let lowered = lower_file(FileId(0), FileKind::Js, &top);
    let hir = emit_js::emit_hir_file_diagnostic(&lowered, opts).map_err(|d| d.message)?;
    let ast = emit_js::emit_top_level_diagnostic(FileId(0), &top, opts).map_err(|d| d.message)?;
    for (how, out) in [("hir", hir), ("ast", ast)] {
      let got = tokens(&out).map_err(|e| format!("{how}: {src:?} is emitted as {out:?}: {e}"))?;
      ensure!(got == want, "{how}: {src:?} is emitted as {out:?}, tokens {got:?}");
      parse_js::parse_with_options(&out, JS).map_err(|e| format!("{how}: {src:?} is emitted as {out:?}, which does not parse: {e:?}"))?;
    }
    // the two expression printers
    use parse_js::ast::{expr::Expr, stmt::Stmt};
    if let Some(Stmt::Expr(e)) = top.stx.body.first().map(|s| s.stx.as_ref()) {
      if let Expr::Binary(b) = e.stx.expr.stx.as_ref() {
        let mut em = Emitter::new(opts);
        if emit_js::emit_js_expr(&mut em, &b.stx.right).is_ok() {
          let out = format!("x={}", String::from_utf8_lossy(em.as_bytes()));
          let got = tokens(&out).map_err(|e| format!("js_expr: {src:?} is emitted as {out:?}: {e}"))?;
          ensure!(got == want, "js_expr: {src:?} is emitted as {out:?}, tokens {got:?}");
        }
        let mut em = Emitter::new(opts);
        emit_js::emit_expr(&mut em, &b.stx.right, |_: &mut Emitter, _| Ok(())).map_err(|e| format!("{e:?}"))?;
        let out = format!("x={}", String::from_utf8_lossy(em.as_bytes()));
        let got = tokens(&out).map_err(|e| format!("expr: {src:?} is emitted as {out:?}: {e}"))?;
        ensure!(got == want, "expr: {src:?} is emitted as {out:?}, tokens {got:?}");
      }
    }
  }
  Ok(())
}
fn check_expr(toks: &[&str]) -> Result<(), String> {
  let mut want = vec!["x", "="];
  want.extend(toks);
  check_source(&want.join(" "), &want)
}

const ALL: &[F] = &[
  Word("a"), Word("é"), Word("\\u0061"), Word("$"), Word("#p"), Key("in"), Num("1"), Num("0.5"), Num("-1"), Num("1."), Big("10"), Big("-1"), Big(""), Punct("+"), Punct("++"), Punct("-"), Punct("--"), Punct("/"), Punct("*"), Punct("<"), Punct("!"), Punct(">"),
  Punct("<<"), Punct("."), Punct("("), Punct("+="), Punct("=>"), Free("/a/"), Free("/a/g"), Free("a1"), Free("1e4"), Free("é"), Free("\\u0061"), Free("'s'"), Free("+"), Free("--"), Free("/"), Free("*"), Free(" "), Free("  x"), Free("x "), Free(""), Fmt("é"), Fmt("x"), Chr('-'), Chr('é'), Chr('_'), Byte(b'+'), Byte(b'Z'),
  Byte(b'9'), Byte(b'\t'), Lit("s"), Lit(""), Raw("x"), RawByte(b'`'), Space, Newline, Comma, Semi,
];
const HTML: &[F] = &[Punct("<"), Punct("<<"), Punct("!"), Punct("--"), Punct("-"), Punct(">"), Newline, Space, Word("a"), Free("-->"), Free("!--"), Raw("<!"), Free("\r"), Num("-1"), RawByte(b'-'), Byte(b'<'), Free("\x0c")];

fn each(alphabet: &[F], len: usize, f: &mut dyn FnMut(&[F])) {
  fn go(alphabet: &[F], len: usize, cur: &mut Vec<F>, f: &mut dyn FnMut(&[F])) {
    if len == 0 {
      return f(cur);
    }
    for &a in alphabet {
      cur.push(a);
      go(alphabet, len - 1, cur, f);
      cur.pop();
    }
  }
  go(alphabet, len, &mut vec![], f)
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "every sequence of two calls from 59 (every pair of fragment kinds), every sequence of 4 (thorough: 5) calls around HTML-like comments, seeded longer ones, whole expressions of seeded tokens through the four printers; non-trivial when a space is due".into();
  let n = if cx.thorough { 3 } else { 2 };
  let due = |fs: &[F]| {
    let o = EmitOptions::minified();
    fs.windows(2).any(|w| { let (a, b) = (text(w[0], o), text(w[1], o)); !a.is_empty() && !b.is_empty() && merge(w[0], &a, w[1], &b) })
  };
  each(ALL, n, &mut |fs| {
    let fs = fs.to_vec();
    cx.case(due(&fs), format!("calls {fs:?}"), || check_calls(&fs));
  });
  each(HTML, if cx.thorough { 5 } else { 4 }, &mut |fs| {
    let fs = fs.to_vec();
    cx.case(true, format!("calls {fs:?}"), || check_calls(&fs));
  });
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 30000 } else { 6000 } {
    let fs: Vec<F> = (0..3 + r.below(6)).map(|_| if r.below(3) == 0 { *r.pick(HTML) } else { *r.pick(ALL) }).collect();
    cx.case(due(&fs), format!("calls {fs:?}"), || check_calls(&fs));
  }
  // every operand beside every operator
  for l in IDS.iter().chain(LITS) {
    for op in ["+", "-", "*", "/", "<", ">", "in", "instanceof", "<<", "?"] {
      for u in ["", "-", "+", "++", "--", "!", "typeof", "~", "void"] {
        for rr in if u == "++" || u == "--" { IDS } else { LITS } {
          let mut t = vec![*l, op];
          if !u.is_empty() {
            t.push(u);
          }
          t.push(*rr);
          if op == "?" {
            t.extend([":", *l]);
          }
          cx.case(true, format!("expression {}", t.join(" ")), || check_expr(&t));
        }
      }
    }
    for m in ["p", "in", "é"] {
      let t = [*l, ".", m];
      cx.case(true, format!("expression {}", t.join(" ")), || check_expr(&t));
      let t = ["-", *l, ".", m];
      cx.case(true, format!("expression {}", t.join(" ")), || check_expr(&t));
    }
  }
  for t in ["a < ! -- a", "a << ! -- a", "a < ! - - a", "! a -- > a", "a -- > a", "a < ! -- a . p < ! -- é"] {
    let t: Vec<&str> = t.split(' ').collect();
    cx.case(true, format!("expression {}", t.join(" ")), || check_expr(&t));
  }
  for _ in 0..if cx.thorough { 20000 } else { 3000 } {
    let mut t = vec![];
    let d = 1 + r.below(3);
    expr(&mut r, 0, d, &mut t);
    cx.case(t.len() > 2, format!("expression {}", t.join(" ")), || check_expr(&t));
  }
}
