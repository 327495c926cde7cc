//! C15: folding a constant expression gives the value the language gives it, and the
//! minifier's folds keep what a program does.
use crate::common::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{Signed, ToPrimitive, Zero};
use optimize_js::eval::consteval as ce;
use optimize_js::il::inst::{BinOp, Const, UnOp};
use parse_js::ast::expr::lit::LitTemplatePart;
use parse_js::ast::expr::Expr;
use parse_js::ast::node::{literal_string_code_units, Node, ParenthesizedExpr};
use parse_js::ast::stmt::Stmt;
use parse_js::num::{number_to_string, JsNumber};
use parse_js::operator::OperatorName as Op;
use std::collections::HashMap;

// ---- values and operators of the language, written from the standard ----
#[derive(Clone, Debug, PartialEq)]
enum V {
  Undef,
  Null,
  Bool(bool),
  Num(f64),
  Str(Vec<u16>),
  Big(BigInt),
  Obj(String),
}
/// an exception, by kind; `Huge` stands for a value too large to compute here
#[derive(Clone, Debug, PartialEq)]
enum Thrown {
  Ref,
  Type,
  Range,
  Huge,
}
fn s16(s: &str) -> Vec<u16> {
  s.encode_utf16().collect()
}
fn same(a: &V, b: &V) -> bool {
  match (a, b) {
    (V::Num(a), V::Num(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
    _ => a == b,
  }
}
fn space(u: u16) -> bool {
  matches!(u, 0x9..=0xd | 0x20 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000 | 0xfeff)
}
fn trim(s: &[u16]) -> Option<String> {
  let a = s.iter().position(|u| !space(*u)).unwrap_or(s.len());
  let b = s.iter().rposition(|u| !space(*u)).map_or(a, |p| p + 1);
  s[a..b].iter().map(|u| if *u < 128 { Some(*u as u8 as char) } else { None }).collect()
}
fn radix_digits(t: &str) -> Option<(u32, &str)> {
  let r = match t.as_bytes() {
    [b'0', b'x' | b'X', ..] => 16,
    [b'0', b'o' | b'O', ..] => 8,
    [b'0', b'b' | b'B', ..] => 2,
    _ => return None,
  };
  Some((r, &t[2..]))
}
fn digits(t: &str, r: u32) -> Option<BigUint> {
  let mut v = BigUint::zero();
  if t.is_empty() {
    return None;
  }
  for c in t.chars() {
    v = v * r + c.to_digit(r)?;
  }
  Some(v)
}
fn exact(v: &BigUint) -> f64 {
  v.to_str_radix(10).parse().unwrap()
}
fn str_to_num(s: &[u16]) -> f64 {
  let Some(t) = trim(s) else { return f64::NAN };
  if t.is_empty() {
    return 0.0;
  }
  if let Some((r, d)) = radix_digits(&t) {
    return digits(d, r).map_or(f64::NAN, |v| exact(&v));
  }
  let (neg, u) = match t.as_bytes()[0] {
    b'-' => (true, &t[1..]),
    b'+' => (false, &t[1..]),
    _ => (false, &t[..]),
  };
  let v = if u == "Infinity" {
    f64::INFINITY
  } else {
    let (m, e) = match u.find(['e', 'E']) {
      Some(i) => (&u[..i], Some(&u[i + 1..])),
      None => (u, None),
    };
    let num = |t: &str| t.bytes().all(|b| b.is_ascii_digit());
    let ok = match m.split_once('.') {
      Some((a, b)) => num(a) && num(b) && !(a.is_empty() && b.is_empty()),
      None => num(m) && !m.is_empty(),
    } && e.map_or(true, |e| {
      let d = e.strip_prefix(['+', '-']).unwrap_or(e);
      num(d) && !d.is_empty()
    });
    if !ok {
      return f64::NAN;
    }
    u.parse().unwrap()
  };
  if neg {
    -v
  } else {
    v
  }
}
fn str_to_big(s: &[u16]) -> Option<BigInt> {
  let t = trim(s)?;
  if t.is_empty() {
    return Some(BigInt::zero());
  }
  if let Some((r, d)) = radix_digits(&t) {
    return digits(d, r).map(BigInt::from);
  }
  match t.as_bytes()[0] {
    b'-' => digits(&t[1..], 10).map(|v| -BigInt::from(v)),
    b'+' => digits(&t[1..], 10).map(BigInt::from),
    _ => digits(&t, 10).map(BigInt::from),
  }
}
fn num_to_str(x: f64) -> String {
  if x.is_nan() {
    return "NaN".into();
  }
  if x == 0.0 {
    return "0".into();
  }
  if x < 0.0 {
    return format!("-{}", num_to_str(-x));
  }
  if x.is_infinite() {
    return "Infinity".into();
  }
  let e = format!("{x:e}");
  let (m, p) = e.split_once('e').unwrap();
  let s: String = m.chars().filter(|c| *c != '.').collect();
  let (k, n) = (s.len() as i64, p.parse::<i64>().unwrap() + 1);
  if k <= n && n <= 21 {
    return s + &"0".repeat((n - k) as usize);
  }
  if 0 < n && n <= 21 {
    return format!("{}.{}", &s[..n as usize], &s[n as usize..]);
  }
  if -6 < n && n <= 0 {
    return format!("0.{}{s}", "0".repeat(-n as usize));
  }
  let exp = if n - 1 < 0 { format!("-{}", 1 - n) } else { format!("+{}", n - 1) };
  if k == 1 {
    format!("{s}e{exp}")
  } else {
    format!("{}.{}e{exp}", &s[..1], &s[1..])
  }
}
fn to_str(v: &V) -> Vec<u16> {
  match v {
    V::Undef => s16("undefined"),
    V::Null => s16("null"),
    V::Bool(b) => s16(if *b { "true" } else { "false" }),
    V::Num(n) => s16(&num_to_str(*n)),
    V::Str(s) => s.clone(),
    V::Big(b) => s16(&b.to_string()),
    V::Obj(_) => unreachable!(),
  }
}
fn truthy(v: &V) -> bool {
  match v {
    V::Undef | V::Null => false,
    V::Bool(b) => *b,
    V::Num(n) => *n != 0.0 && !n.is_nan(),
    V::Str(s) => !s.is_empty(),
    V::Big(b) => !b.is_zero(),
    V::Obj(_) => true,
  }
}
fn to_num(v: &V) -> Result<f64, Thrown> {
  Ok(match v {
    V::Undef => f64::NAN,
    V::Null => 0.0,
    V::Bool(b) => *b as u8 as f64,
    V::Num(n) => *n,
    V::Str(s) => str_to_num(s),
    V::Big(_) => return Err(Thrown::Type),
    V::Obj(_) => unreachable!(),
  })
}
fn numeric(v: &V) -> Result<V, Thrown> {
  match v {
    V::Big(_) => Ok(v.clone()),
    _ => Ok(V::Num(to_num(v)?)),
  }
}
/// the mathematical value of a finite number as m * 2^e
fn parts(n: f64) -> (BigInt, i64) {
  let b = n.to_bits();
  let (f, e) = (b & ((1 << 52) - 1), (b >> 52 & 0x7ff) as i64);
  let (m, e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
  (if n < 0.0 { -BigInt::from(m) } else { BigInt::from(m) }, e)
}
fn big_num(a: &BigInt, n: f64) -> Option<std::cmp::Ordering> {
  use std::cmp::Ordering::*;
  if n.is_nan() {
    return None;
  }
  if n.is_infinite() {
    return Some(if n > 0.0 { Less } else { Greater });
  }
  let (m, e) = parts(n);
  Some(if e >= 0 { a.cmp(&(m << e)) } else { (a << -e).cmp(&m) })
}
/// how two primitives compare; None where every comparison is false
fn order(a: &V, b: &V) -> Option<std::cmp::Ordering> {
  match (a, b) {
    (V::Str(a), V::Str(b)) => Some(a.cmp(b)),
    (V::Big(a), V::Str(b)) => Some(a.cmp(&str_to_big(b)?)),
    (V::Str(a), V::Big(b)) => Some(str_to_big(a)?.cmp(b)),
    (V::Big(a), V::Big(b)) => Some(a.cmp(b)),
    (V::Big(a), b) => big_num(a, to_num(b).unwrap()),
    (a, V::Big(b)) => big_num(b, to_num(a).unwrap()).map(|o| o.reverse()),
    (a, b) => to_num(a).unwrap().partial_cmp(&to_num(b).unwrap()),
  }
}
fn strict(a: &V, b: &V) -> bool {
  match (a, b) {
    (V::Num(a), V::Num(b)) => a == b,
    _ => a == b,
  }
}
fn loose(a: &V, b: &V) -> bool {
  use V::*;
  match (a, b) {
    (Undef | Null, Undef | Null) => true,
    (Undef | Null, _) | (_, Undef | Null) => false,
    (Bool(_), Bool(_)) | (Num(_), Num(_)) | (Str(_), Str(_)) | (Big(_), Big(_)) | (Obj(_), Obj(_)) => strict(a, b),
    (Num(a), Str(b)) => *a == str_to_num(b),
    (Str(a), Num(b)) => str_to_num(a) == *b,
    (Big(a), Str(b)) => str_to_big(b).as_ref() == Some(a),
    (Str(a), Big(b)) => str_to_big(a).as_ref() == Some(b),
    (Bool(a), b) => loose(&Num(*a as u8 as f64), b),
    (a, Bool(b)) => loose(a, &Num(*b as u8 as f64)),
    (Big(a), Num(b)) => big_num(a, *b).is_some_and(|o| o.is_eq()),
    (Num(a), Big(b)) => big_num(b, *a).is_some_and(|o| o.is_eq()),
    (Obj(_), _) | (_, Obj(_)) => unreachable!(),
  }
}
/// the number modulo 2^32
fn uint32(n: f64) -> u32 {
  if !n.is_finite() {
    return 0;
  }
  let (m, e) = parts(n);
  let int = if e >= 0 { m << e } else { let q: BigInt = m.abs() >> -e; if m.is_negative() { -q } else { q } };
  let md: BigInt = BigInt::from(1u64 << 32);
  (((int % &md) + &md) % &md).to_u32().unwrap()
}
fn pow(a: f64, b: f64) -> f64 {
  if b.is_nan() || (b.is_infinite() && a.abs() == 1.0) {
    f64::NAN
  } else if b == 0.0 {
    1.0
  } else {
    a.powf(b)
  }
}
fn typ(v: &V) -> &'static str {
  match v {
    V::Undef => "undefined",
    V::Null => "object",
    V::Bool(_) => "boolean",
    V::Num(_) => "number",
    V::Str(_) => "string",
    V::Big(_) => "bigint",
    V::Obj(_) => "function",
  }
}
/// a binary operator on primitives
fn bin(op: Op, a: &V, b: &V) -> Result<V, Thrown> {
  use V::*;
  let cmp = |f: fn(std::cmp::Ordering) -> bool| Ok(Bool(order(a, b).is_some_and(f)));
  match op {
    Op::LessThan => return cmp(|o| o.is_lt()),
    Op::LessThanOrEqual => return cmp(|o| o.is_le()),
    Op::GreaterThan => return cmp(|o| o.is_gt()),
    Op::GreaterThanOrEqual => return cmp(|o| o.is_ge()),
    Op::Equality => return Ok(Bool(loose(a, b))),
    Op::Inequality => return Ok(Bool(!loose(a, b))),
    Op::StrictEquality => return Ok(Bool(strict(a, b))),
    Op::StrictInequality => return Ok(Bool(!strict(a, b))),
    Op::Addition if matches!(a, Str(_)) || matches!(b, Str(_)) => {
      let mut s = to_str(a);
      s.extend(to_str(b));
      return Ok(Str(s));
    }
    _ => {}
  }
  Ok(match (numeric(a)?, numeric(b)?) {
    (Num(l), Num(r)) => {
      let sh = uint32(r) & 31;
      let i = |v: f64| uint32(v) as i32;
      Num(match op {
        Op::Addition => l + r,
        Op::Subtraction => l - r,
        Op::Multiplication => l * r,
        Op::Division => l / r,
        Op::Remainder => {
          if l.is_nan() || r.is_nan() || l.is_infinite() || r == 0.0 {
            f64::NAN
          } else if r.is_infinite() || l == 0.0 {
            l
          } else {
            (l.abs() % r.abs()).copysign(l)
          }
        }
        Op::Exponentiation => pow(l, r),
        Op::BitwiseAnd => (i(l) & i(r)) as f64,
        Op::BitwiseOr => (i(l) | i(r)) as f64,
        Op::BitwiseXor => (i(l) ^ i(r)) as f64,
        Op::BitwiseLeftShift => ((uint32(l) as u64) << sh) as u32 as i32 as f64,
        Op::BitwiseRightShift => (i(l) >> sh) as f64,
        Op::BitwiseUnsignedRightShift => (uint32(l) >> sh) as f64,
        o => unreachable!("{o:?}"),
      })
    }
    (Big(l), Big(r)) => Big(match op {
      Op::Addition => l + r,
      Op::Subtraction => l - r,
      Op::Multiplication => l * r,
      Op::Division | Op::Remainder if r.is_zero() => return Err(Thrown::Range),
      Op::Division => l / r,
      Op::Remainder => l % r,
      Op::Exponentiation if r.sign() == Sign::Minus => return Err(Thrown::Range),
      Op::Exponentiation if l.abs() < BigInt::from(2) => {
        if r.is_zero() || (l.is_negative() && !r.bit(0)) {
          BigInt::from(1)
        } else {
          l
        }
      }
      Op::Exponentiation => match r.to_u32() {
        Some(n) if n < 5000 => l.pow(n),
        _ => return Err(Thrown::Huge),
      },
      Op::BitwiseAnd => l & r,
      Op::BitwiseOr => l | r,
      Op::BitwiseXor => l ^ r,
      Op::BitwiseLeftShift | Op::BitwiseRightShift => {
        let n = if op == Op::BitwiseLeftShift { r } else { -r };
        match n.to_i64() {
          _ if l.is_zero() => l,
          Some(n) if (0..5000).contains(&n) => l << n,
          Some(n) if n < 0 && n > -5000 => l >> -n,
          _ => return Err(Thrown::Huge),
        }
      }
      _ => return Err(Thrown::Type),
    }),
    _ => return Err(Thrown::Type),
  })
}
fn un(op: Op, a: &V) -> Result<V, Thrown> {
  Ok(match (op, a) {
    (Op::LogicalNot, a) => V::Bool(!truthy(a)),
    (Op::Typeof, a) => V::Str(s16(typ(a))),
    (Op::Void, _) => V::Undef,
    (Op::UnaryPlus, a) => V::Num(to_num(a)?),
    (Op::UnaryNegation, V::Big(b)) => V::Big(-b),
    (Op::UnaryNegation, a) => V::Num(-to_num(a)?),
    (Op::BitwiseNot, V::Big(b)) => V::Big(-b - 1),
    (Op::BitwiseNot, a) => V::Num(!(uint32(to_num(a)?) as i32) as f64),
    o => unreachable!("{o:?}"),
  })
}

// ---- the optimizer's constants ----
fn of_const(c: &Const) -> V {
  match c {
    Const::Undefined => V::Undef,
    Const::Null => V::Null,
    Const::Bool(b) => V::Bool(*b),
    Const::Num(n) => V::Num(n.0),
    Const::Str(s) => V::Str(s16(s)),
    Const::BigInt(b) => V::Big(b.clone()),
  }
}
fn c_num(n: f64) -> Const {
  Const::Num(JsNumber(n))
}
fn c_str(s: &str) -> Const {
  Const::Str(s.into())
}
const NUMS: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 32.0, 33.0, 2147483648.0, 4294967295.0, 4294967297.0, -2147483649.0, 9007199254740991.0, 9007199254740993.0, 1e21, 1e-7, 1.7976931348623157e308, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, -7.0];
const STRS: &[&str] = &[
  "", " ", "0", "-0", "1", "+1", " 12 \n", "0x10", "-0x10", "+0x1", "0X1f", "0b11", "0o17", "0b", "0xg", "1e3", "1e", "1e+", ".5", "5.", ".", "e5", "Infinity", "-Infinity", "+Infinity", "infinity", "inf", "nan", "NaN", "1_0", "1n", "\u{feff}7\u{2028}", "\u{85}1", "\u{180e}1", "1 2",
  "a", "b", "ab", "\u{ff5e}", "\u{1f600}", "\u{e000}", "9007199254740993", "18446744073709551617", "true", "null", "undefined", "1.5", "1e1000", "-1e1000", "--1", "+-1", "0e0", "00", "010", "0x1p3", "1\u{0}",
];
fn bigs() -> Vec<BigInt> {
  ["0", "1", "-1", "2", "10", "9007199254740993", "-9007199254740993", "18446744073709551617", "-3", "4294967296"].iter().map(|s| s.parse().unwrap()).chain([BigInt::from(1) << 1100]).collect()
}
fn pool() -> Vec<Const> {
  let mut v = vec![Const::Undefined, Const::Null, Const::Bool(false), Const::Bool(true)];
  v.extend(NUMS.iter().map(|n| c_num(*n)));
  v.extend(STRS.iter().map(|s| c_str(s)));
  v.extend(bigs().into_iter().map(Const::BigInt));
  v
}
const BINOPS: &[(BinOp, Option<Op>)] = &[
  (BinOp::Add, Some(Op::Addition)),
  (BinOp::Sub, Some(Op::Subtraction)),
  (BinOp::Mul, Some(Op::Multiplication)),
  (BinOp::Div, Some(Op::Division)),
  (BinOp::Mod, Some(Op::Remainder)),
  (BinOp::Exp, Some(Op::Exponentiation)),
  (BinOp::BitAnd, Some(Op::BitwiseAnd)),
  (BinOp::BitOr, Some(Op::BitwiseOr)),
  (BinOp::BitXor, Some(Op::BitwiseXor)),
  (BinOp::Shl, Some(Op::BitwiseLeftShift)),
  (BinOp::Shr, Some(Op::BitwiseRightShift)),
  (BinOp::UShr, Some(Op::BitwiseUnsignedRightShift)),
  (BinOp::Lt, Some(Op::LessThan)),
  (BinOp::Leq, Some(Op::LessThanOrEqual)),
  (BinOp::Gt, Some(Op::GreaterThan)),
  (BinOp::Geq, Some(Op::GreaterThanOrEqual)),
  (BinOp::LooseEq, Some(Op::Equality)),
  (BinOp::NotLooseEq, Some(Op::Inequality)),
  (BinOp::StrictEq, Some(Op::StrictEquality)),
  (BinOp::NotStrictEq, Some(Op::StrictInequality)),
  (BinOp::GetProp, None),
];
fn folded(what: &str, got: Option<Const>, want: Result<V, Thrown>) -> Result<(), String> {
  if let Some(c) = got {
    let g = of_const(&c);
    match want {
      Ok(w) => ensure!(same(&g, &w), "{what} folds to {g:?}, but is {w:?}"),
      Err(Thrown::Huge) => {}
      Err(t) => return Err(format!("{what} folds to {g:?}, but throws {t:?}")),
    }
  }
  Ok(())
}
fn check_pair(a: &Const, b: &Const) -> Result<(), String> {
  let (va, vb) = (of_const(a), of_const(b));
  for (op, o) in BINOPS {
    let got = ce::maybe_eval_const_bin_expr(*op, a, b);
    match o {
      Some(o) => folded(&format!("{va:?} {o:?} {vb:?}"), got, bin(*o, &va, &vb))?,
      None => ensure!(got.is_none(), "a property of {va:?} folds to {got:?}"),
    }
  }
  let got = ce::js_cmp(a, b);
  ensure!(got == order(&va, &vb), "js_cmp({va:?}, {vb:?}) is {got:?}");
  ensure!(ce::js_loose_eq(a, b) == loose(&va, &vb), "js_loose_eq({va:?}, {vb:?}) is wrong");
  ensure!(ce::js_strict_eq(a, b) == strict(&va, &vb), "js_strict_eq({va:?}, {vb:?}) is wrong");
  ensure!((a == b) == same(&va, &vb), "the constants {va:?} and {vb:?}: equal is {}", a == b);
  ensure!((a == b) == a.cmp(b).is_eq(), "the constants {va:?} and {vb:?}: == is {}, cmp is {:?}", a == b, a.cmp(b));
  ensure!(a.cmp(b) == b.cmp(a).reverse(), "the order of the constants {va:?} and {vb:?}");
  let hash = |c: &Const| {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
  };
  ensure!(a != b || hash(a) == hash(b), "{va:?} equals {vb:?} but hashes differently");
  if let (Const::Num(a), Const::Num(b)) = (a, b) {
    for (n, g, o) in [("js_div", ce::js_div(a.0, b.0), Op::Division), ("js_mod", ce::js_mod(a.0, b.0), Op::Remainder), ("js_pow", ce::js_pow(a.0, b.0), Op::Exponentiation)] {
      let w = bin(o, &va, &vb).unwrap();
      ensure!(same(&V::Num(g), &w), "{n}({a}, {b}) is {g}, not {w:?}");
    }
  }
  Ok(())
}
fn round(n: f64) -> f64 {
  if !n.is_finite() || n.fract() == 0.0 {
    return n;
  }
  let f = n.floor();
  let r = if n - f >= 0.5 { f + 1.0 } else { f };
  r.abs().copysign(n)
}
fn check_one(a: &Const) -> Result<(), String> {
  let v = of_const(a);
  for (op, o) in [(UnOp::BitNot, Op::BitwiseNot), (UnOp::Neg, Op::UnaryNegation), (UnOp::Not, Op::LogicalNot), (UnOp::Plus, Op::UnaryPlus), (UnOp::Typeof, Op::Typeof), (UnOp::Void, Op::Void)] {
    folded(&format!("{o:?} {v:?}"), ce::maybe_eval_const_un_expr(op, a), un(o, &v))?;
  }
  ensure!(ce::coerce_to_bool(a) == truthy(&v), "coerce_to_bool({v:?})");
  if let Ok(n) = to_num(&v) {
    let g = ce::coerce_to_num(a);
    ensure!(same(&V::Num(g), &V::Num(n)), "coerce_to_num({v:?}) is {g}, not {n}");
  }
  if let Const::Str(s) = a {
    let g = ce::coerce_str_to_num(s);
    let w = str_to_num(&s16(s));
    ensure!(same(&V::Num(g), &V::Num(w)), "coerce_str_to_num({s:?}) is {g}, not {w}");
    let (g, w) = (ce::parse_bigint(s), str_to_big(&s16(s)));
    ensure!(g == w, "parse_bigint({s:?}) is {g:?}, not {w:?}");
  }
  if let Const::BigInt(b) = a {
    let (g, m) = (ce::coerce_bigint_to_num(b), b.magnitude());
    let w = if b.is_negative() { -exact(m) } else { exact(m) };
    ensure!(g == w, "coerce_bigint_to_num({b}) is {g}, not {w}");
  }
  if let Const::Num(n) = a {
    let (g, w) = (number_to_string(n.0), num_to_str(n.0));
    ensure!(g == w, "number_to_string({:?}) is {g:?}, not {w:?}", n.0);
    let (g, w) = (ce::js_round(n.0), round(n.0));
    ensure!(same(&V::Num(g), &V::Num(w)), "js_round({:?}) is {g}, not {w}", n.0);
  }
  check_call("x", &[a.clone()])?;
  for (f, g) in MATH {
    let got = ce::maybe_eval_const_builtin_call(f, &[a.clone()]);
    folded(&format!("{f}({v:?})"), got, to_num(&v).map(|n| V::Num(g(n))))?;
  }
  let got = ce::maybe_eval_const_builtin_call("Number", &[a.clone()]);
  let want = match (to_num(&v), &v) {
    (Ok(n), _) => n,
    (_, V::Big(b)) => ce::coerce_bigint_to_num(b),
    _ => unreachable!(),
  };
  folded(&format!("Number({v:?})"), got, Ok(V::Num(want)))
}
const MATH: &[(&str, fn(f64) -> f64)] = &[
  ("Math.abs", f64::abs),
  ("Math.acos", f64::acos),
  ("Math.asin", f64::asin),
  ("Math.atan", f64::atan),
  ("Math.ceil", f64::ceil),
  ("Math.cos", f64::cos),
  ("Math.floor", f64::floor),
  ("Math.log", f64::ln),
  ("Math.log10", f64::log10),
  ("Math.log1p", f64::ln_1p),
  ("Math.log2", f64::log2),
  ("Math.round", round),
  ("Math.sin", f64::sin),
  ("Math.sqrt", f64::sqrt),
  ("Math.tan", f64::tan),
  ("Math.trunc", f64::trunc),
  ("Math.sinh", f64::sinh),
  ("Math.cosh", f64::cosh),
  ("Math.exp", f64::exp),
  ("Math.cbrt", f64::cbrt),
];
/// nothing is known of other functions, and of no call with other arguments
fn check_call(f: &str, args: &[Const]) -> Result<(), String> {
  let g = ce::maybe_eval_const_builtin_call(f, args);
  ensure!(g.is_none(), "{f}({args:?}) folds to {g:?}");
  Ok(())
}
fn check_names() -> Result<(), String> {
  let known: &[(&str, f64)] = &[
    ("Math.E", std::f64::consts::E),
    ("Math.PI", std::f64::consts::PI),
    ("Math.LN2", std::f64::consts::LN_2),
    ("Math.LN10", std::f64::consts::LN_10),
    ("Math.LOG2E", std::f64::consts::LOG2_E),
    ("Math.LOG10E", std::f64::consts::LOG10_E),
    ("Math.SQRT2", std::f64::consts::SQRT_2),
    ("Math.SQRT1_2", std::f64::consts::FRAC_1_SQRT_2),
    ("NaN", f64::NAN),
    ("Infinity", f64::INFINITY),
    ("Number.NaN", f64::NAN),
    ("Number.EPSILON", 2f64.powi(-52)),
    ("Number.MAX_SAFE_INTEGER", 9007199254740991.0),
    ("Number.MIN_SAFE_INTEGER", -9007199254740991.0),
    ("Number.NEGATIVE_INFINITY", f64::NEG_INFINITY),
    ("Number.POSITIVE_INFINITY", f64::INFINITY),
    ("Number.MAX_VALUE", f64::MAX),
    ("Number.MIN_VALUE", 5e-324),
  ];
  for (n, v) in known {
    folded(n, ce::maybe_eval_const_builtin_val(n), Ok(V::Num(*v)))?;
  }
  folded("undefined", ce::maybe_eval_const_builtin_val("undefined"), Ok(V::Undef))?;
  for n in ["", "Math", "Math.abs", "Number", "Math.Pi", "E", "Number.nan", "Math.E.x"] {
    let g = ce::maybe_eval_const_builtin_val(n);
    ensure!(g.is_none(), "{n} folds to {g:?}");
  }
  Ok(())
}

// ---- programs ----
/// what a program is seen to do
struct World {
  seed: u64,
  vars: HashMap<String, V>,
  log: Vec<String>,
  steps: usize,
}
enum Stop {
  Throw(Thrown),
  Skip(String),
}
impl From<Thrown> for Stop {
  fn from(t: Thrown) -> Self {
    if t == Thrown::Huge {
      Stop::Skip("huge".into())
    } else {
      Stop::Throw(t)
    }
  }
}
type R<T> = Result<T, Stop>;
fn skip<T>(what: impl std::fmt::Debug) -> R<T> {
  Err(Stop::Skip(format!("{what:?}").chars().take(60).collect()))
}
const MISSING: &[&str] = &["u", "w"];
impl World {
  fn new(seed: u64) -> Self {
    World { seed, vars: HashMap::new(), log: vec![], steps: 0 }
  }
  /// an unknown but fixed value
  fn some(&self, what: &str) -> V {
    let mut h = self.seed;
    for b in what.bytes() {
      h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    match r.below(14) {
      0 => V::Undef,
      1 => V::Null,
      2 => V::Bool(false),
      3 => V::Bool(true),
      4 => V::Num(0.0),
      5 => V::Num(-0.0),
      6 => V::Num(f64::NAN),
      7 => V::Num(r.below(9) as f64 + 0.5),
      8 => V::Str(vec![]),
      9 => V::Str(s16(["a", "1", "0", "eval"][r.below(4)])),
      10 => V::Big(BigInt::from(r.below(3))),
      _ => V::Obj(format!("<{what}>")),
    }
  }
  fn prim(&mut self, v: &V, hint: &str) -> V {
    match v {
      V::Obj(l) => {
        self.log.push(format!("{l} as {hint}"));
        V::Str(s16(l))
      }
      _ => v.clone(),
    }
  }
  fn read(&mut self, name: &str) -> R<V> {
    match name {
      "undefined" => return Ok(V::Undef),
      "NaN" => return Ok(V::Num(f64::NAN)),
      "Infinity" => return Ok(V::Num(f64::INFINITY)),
      _ => {}
    }
    self.log.push(format!("read {name}"));
    if MISSING.contains(&name) {
      return Err(Stop::Throw(Thrown::Ref));
    }
    if matches!(name, "f" | "eval") {
      return Ok(V::Obj(name.into()));
    }
    let v = self.some(name);
    Ok(self.vars.entry(name.into()).or_insert(v).clone())
  }
  fn get(&mut self, o: &V, key: &[u16]) -> R<V> {
    let k = String::from_utf16_lossy(key);
    if matches!(o, V::Undef | V::Null) {
      return Err(Stop::Throw(Thrown::Type));
    }
    self.log.push(format!("get {o:?} . {k}"));
    Ok(self.some(&format!("{o:?}.{k}")))
  }
  fn key(&mut self, e: &Node<Expr>) -> R<(V, V)> {
    let Expr::ComputedMember(m) = e.stx.as_ref() else { unreachable!() };
    let o = self.eval(&m.stx.object)?;
    let k = self.eval(&m.stx.member)?;
    Ok((o, k))
  }
  /// the value of a member or optional chain and its base; None where the chain ends early
  fn chain(&mut self, e: &Node<Expr>, inner: bool) -> R<Option<(V, Option<V>)>> {
    if inner && e.assoc.get::<ParenthesizedExpr>().is_some() {
      // the reference survives, the chain does not
      return Ok(Some(self.chain(e, false)?.unwrap_or((V::Undef, None))));
    }
    Ok(Some(match e.stx.as_ref() {
      Expr::Member(m) => {
        let Some((o, _)) = self.chain(&m.stx.left, true)? else { return Ok(None) };
        if m.stx.optional_chaining && matches!(o, V::Undef | V::Null) {
          return Ok(None);
        }
        (self.get(&o, &s16(&m.stx.right))?, Some(o))
      }
      Expr::ComputedMember(m) => {
        let Some((o, _)) = self.chain(&m.stx.object, true)? else { return Ok(None) };
        if m.stx.optional_chaining && matches!(o, V::Undef | V::Null) {
          return Ok(None);
        }
        let k = self.eval(&m.stx.member)?;
        if matches!(o, V::Undef | V::Null) {
          return Err(Stop::Throw(Thrown::Type));
        }
        let k = to_str(&self.prim(&k, "string"));
        (self.get(&o, &k)?, Some(o))
      }
      Expr::Call(c) => {
        let Some((f, this)) = self.chain(&c.stx.callee, true)? else { return Ok(None) };
        if c.stx.optional_chaining && matches!(f, V::Undef | V::Null) {
          return Ok(None);
        }
        let direct = matches!(c.stx.callee.stx.as_ref(), Expr::Id(i) if i.stx.name == "eval") && !c.stx.optional_chaining;
        (self.call(if direct { "eval directly" } else { "call" }, f, this, &c.stx.arguments)?, None)
      }
      _ => (self.eval(e)?, None),
    }))
  }
  fn call(&mut self, how: &str, f: V, this: Option<V>, args: &[Node<parse_js::ast::expr::CallArg>]) -> R<V> {
    let mut vs = vec![];
    for a in args {
      if a.stx.spread {
        return skip("spread");
      }
      vs.push(self.eval(&a.stx.value)?);
    }
    if !matches!(f, V::Obj(_)) {
      return Err(Stop::Throw(Thrown::Type));
    }
    self.log.push(format!("{how} {f:?} this {this:?} with {vs:?}"));
    let n = self.log.len();
    Ok(self.some(&format!("{n} {f:?}")))
  }
  fn eval(&mut self, e: &Node<Expr>) -> R<V> {
    self.steps += 1;
    Ok(match e.stx.as_ref() {
      Expr::LitNull(_) => V::Null,
      Expr::LitBool(b) => V::Bool(b.stx.value),
      Expr::LitNum(n) => V::Num(n.stx.value.0),
      Expr::LitStr(s) => V::Str(literal_string_code_units(&s.assoc).map_or_else(|| s16(&s.stx.value), |u| u.to_vec())),
      Expr::LitBigInt(b) => match b.stx.value.parse() {
        Ok(b) => V::Big(b),
        Err(_) => return skip(&b.stx.value),
      },
      Expr::Id(i) => self.read(&i.stx.name)?,
      Expr::This(_) => V::Obj("global".into()),
      Expr::LitTemplate(t) => {
        let mut s = vec![];
        for p in &t.stx.parts {
          match p {
            LitTemplatePart::String(p) => s.extend(p.encode_utf16()),
            LitTemplatePart::Substitution(e) => {
              let v = self.eval(e)?;
              s.extend(to_str(&self.prim(&v, "string")));
            }
          }
        }
        V::Str(s)
      }
      Expr::TaggedTemplate(t) => {
        let (f, this) = self.chain(&t.stx.function, true)?.unwrap_or((V::Undef, None));
        let mut vs = vec![];
        for p in &t.stx.parts {
          if let LitTemplatePart::Substitution(e) = p {
            vs.push(self.eval(e)?);
          }
        }
        if !matches!(f, V::Obj(_)) {
          return Err(Stop::Throw(Thrown::Type));
        }
        self.log.push(format!("tag {f:?} this {this:?} with {vs:?}"));
        let n = self.log.len();
        self.some(&format!("{n} {f:?}"))
      }
      Expr::Cond(c) => {
        let t = self.eval(&c.stx.test)?;
        self.eval(if truthy(&t) { &c.stx.consequent } else { &c.stx.alternate })?
      }
      Expr::Member(_) | Expr::ComputedMember(_) | Expr::Call(_) => self.chain(e, false)?.map_or(V::Undef, |v| v.0),
      Expr::Unary(u) => self.unary(u.stx.operator, &u.stx.argument)?,
      Expr::Binary(b) => self.binary(b.stx.operator, &b.stx.left, &b.stx.right)?,
      e => return skip(e),
    })
  }
  fn unary(&mut self, op: Op, a: &Node<Expr>) -> R<V> {
    match op {
      Op::Typeof => {
        if let Expr::Id(i) = a.stx.as_ref() {
          if MISSING.contains(&i.stx.name.as_str()) {
            return Ok(V::Str(s16("undefined")));
          }
        }
        let v = self.eval(a)?;
        Ok(V::Str(s16(typ(&v))))
      }
      Op::Delete => match a.stx.as_ref() {
        Expr::Id(i) => {
          self.log.push(format!("delete {}", i.stx.name));
          Ok(V::Bool(MISSING.contains(&i.stx.name.as_str())))
        }
        Expr::Member(m) if !m.stx.optional_chaining => {
          let o = self.chain(&m.stx.left, true)?;
          self.delete(o, s16(&m.stx.right))
        }
        Expr::ComputedMember(m) if !m.stx.optional_chaining => {
          let o = self.chain(&m.stx.object, true)?;
          if o.is_none() {
            return Ok(V::Bool(true));
          }
          let k = self.eval(&m.stx.member)?;
          let k = to_str(&self.prim(&k, "string"));
          self.delete(o, k)
        }
        Expr::Member(_) | Expr::ComputedMember(_) => skip("delete of a chain"),
        _ => {
          self.eval(a)?;
          Ok(V::Bool(true))
        }
      },
      Op::New => {
        let Expr::Call(c) = a.stx.as_ref() else { return skip("new") };
        let f = self.eval(&c.stx.callee)?;
        self.call("construct", f, None, &c.stx.arguments)
      }
      Op::UnaryPlus | Op::UnaryNegation | Op::BitwiseNot => {
        let v = self.eval(a)?;
        let v = self.prim(&v, "number");
        Ok(un(op, &v)?)
      }
      Op::LogicalNot | Op::Void => {
        let v = self.eval(a)?;
        Ok(un(op, &v)?)
      }
      o => skip(o),
    }
  }
  fn delete(&mut self, o: Option<(V, Option<V>)>, k: Vec<u16>) -> R<V> {
    let Some((o, _)) = o else { return Ok(V::Bool(true)) };
    self.log.push(format!("delete {o:?} . {}", String::from_utf16_lossy(&k)));
    match o {
      V::Undef | V::Null => Err(Stop::Throw(Thrown::Type)),
      _ => Ok(V::Bool(true)),
    }
  }
  fn binary(&mut self, op: Op, l: &Node<Expr>, r: &Node<Expr>) -> R<V> {
    match op {
      Op::Comma => {
        self.eval(l)?;
        return self.eval(r);
      }
      Op::LogicalAnd | Op::LogicalOr | Op::NullishCoalescing => {
        let v = self.eval(l)?;
        let stop = match op {
          Op::LogicalAnd => !truthy(&v),
          Op::LogicalOr => truthy(&v),
          _ => !matches!(v, V::Undef | V::Null),
        };
        return if stop { Ok(v) } else { self.eval(r) };
      }
      Op::Assignment => {
        let (name, key) = match l.stx.as_ref() {
          Expr::Id(i) => (i.stx.name.clone(), None),
          Expr::IdPat(i) => (i.stx.name.clone(), None),
          Expr::Member(m) if !m.stx.optional_chaining => {
            let o = self.eval(&m.stx.left)?;
            (format!("{o:?}.{}", m.stx.right), Some(o))
          }
          Expr::ComputedMember(m) if !m.stx.optional_chaining => {
            let (o, k) = self.key(l)?;
            (format!("{o:?}.{k:?}"), Some(o))
          }
          e => return skip(e),
        };
        let v = self.eval(r)?;
        self.log.push(format!("{name} = {v:?}"));
        if matches!(key, Some(V::Undef | V::Null)) {
          return Err(Stop::Throw(Thrown::Type));
        }
        if key.is_none() {
          self.vars.insert(name, v.clone());
        }
        return Ok(v);
      }
      _ => {}
    }
    let (a, b) = (self.eval(l)?, self.eval(r)?);
    match op {
      Op::In | Op::Instanceof => {
        self.log.push(format!("{a:?} {op:?} {b:?}"));
        if !matches!(b, V::Obj(_)) {
          return Err(Stop::Throw(Thrown::Type));
        }
        let v = truthy(&self.some(&format!("{a:?} {op:?} {b:?}")));
        return Ok(V::Bool(v));
      }
      Op::StrictEquality | Op::StrictInequality => return Ok(bin(op, &a, &b)?),
      Op::Equality | Op::Inequality => {
        let ne = op == Op::Inequality;
        if matches!((&a, &b), (V::Obj(_), V::Obj(_))) {
          return Ok(V::Bool((a == b) != ne));
        }
        if matches!(a, V::Undef | V::Null) || matches!(b, V::Undef | V::Null) {
          return Ok(V::Bool(loose(&a, &b) != ne));
        }
        let (a, b) = (self.prim(&a, "default"), self.prim(&b, "default"));
        return Ok(bin(op, &a, &b)?);
      }
      Op::Addition => {
        let (a, b) = (self.prim(&a, "default"), self.prim(&b, "default"));
        Ok(bin(op, &a, &b)?)
      }
      Op::Subtraction | Op::Multiplication | Op::Division | Op::Remainder | Op::Exponentiation | Op::BitwiseAnd | Op::BitwiseOr | Op::BitwiseXor | Op::BitwiseLeftShift | Op::BitwiseRightShift | Op::BitwiseUnsignedRightShift => {
        // unlike addition and comparison, the left operand becomes a number first
        let a = self.prim(&a, "number");
        let a = numeric(&a)?;
        let b = self.prim(&b, "number");
        Ok(bin(op, &a, &b)?)
      }
      Op::LessThan | Op::LessThanOrEqual | Op::GreaterThan | Op::GreaterThanOrEqual => {
        let (a, b) = (self.prim(&a, "number"), self.prim(&b, "number"));
        Ok(bin(op, &a, &b)?)
      }
      o => skip(o),
    }
  }
  fn stmt(&mut self, s: &Node<Stmt>) -> R<()> {
    match s.stx.as_ref() {
      Stmt::Expr(e) => self.eval(&e.stx.expr).map(|_| ()),
      Stmt::Empty(_) => Ok(()),
      Stmt::Block(b) => b.stx.body.iter().try_for_each(|s| self.stmt(s)),
      Stmt::If(i) => {
        let t = self.eval(&i.stx.test)?;
        if truthy(&t) {
          return self.stmt(&i.stx.consequent);
        }
        i.stx.alternate.as_ref().map_or(Ok(()), |s| self.stmt(s))
      }
      Stmt::Throw(t) => {
        let v = self.eval(&t.stx.value)?;
        self.log.push(format!("throw {v:?}"));
        Err(Stop::Throw(Thrown::Huge))
      }
      s => skip(s),
    }
  }
}
const JS: parse_js::ParseOptions = parse_js::ParseOptions { dialect: parse_js::Dialect::Ecma, source_type: parse_js::SourceType::Script };
/// what a script does in the worlds of these seeds
fn observe(src: &str, seeds: &[u64]) -> Result<Result<Vec<Vec<String>>, String>, String> {
  let top = parse_js::parse_with_options(src, JS).map_err(|e| format!("{e:?}"))?;
  let mut out = vec![];
  for seed in seeds {
    let mut w = World::new(*seed);
    for s in &top.stx.body {
      match s.stx.as_ref() {
        Stmt::Expr(e) if e.stx.expr.assoc.get::<ParenthesizedExpr>().is_none() => match e.stx.expr.stx.as_ref() {
          Expr::LitStr(s) => w.log.push(format!("directive {:?}", s.stx.value)),
          _ => break,
        },
        _ => break,
      }
    }
    let mut end = None;
    for s in &top.stx.body {
      match w.stmt(s) {
        Ok(()) => {}
        Err(Stop::Throw(t)) => {
          end = Some(t);
          break;
        }
        Err(Stop::Skip(why)) => return Ok(Err(why)),
      }
    }
    w.log.push(format!("ends {end:?}"));
    out.push(w.log);
  }
  Ok(Ok(out))
}
fn check_program(src: &str, seeds: &[u64]) -> Result<(), String> {
  let Ok(Ok(want)) = observe(src, seeds) else { return Ok(()) };
  let mut out = vec![];
  let o = minify_js::MinifyOptions::new(minify_js::TopLevelMode::Global).with_dialect(minify_js::Dialect::Ecma);
  minify_js::minify_with_options(o, src, &mut out).map_err(|d| format!("not minified: {d:?}"))?;
  let out = String::from_utf8(out).map_err(|e| e.to_string())?;
  match observe(&out, seeds) {
    Err(e) => Err(format!("minified to {out:?}, which does not parse: {e}")),
    Ok(Err(_)) => Ok(()),
    Ok(Ok(got)) => {
      for (g, w) in got.iter().zip(&want) {
        ensure!(g == w, "minified to {out:?}, which does {g:?}, not {w:?}");
      }
      Ok(())
    }
  }
}
const LITS: &[&str] = &[
  "0", "-0", "1", "(-1)", "2", "0.5", "1e21", "4294967297", "9007199254740993", "(0/0)", "(1/0)", "(-1/0)", "''", "' '", "'a'", "'b'", "'1'", "'0'", "'-0x1'", "'\\ud800'", "'\\u{1f600}'", "'\\uff5e'", "true", "false", "null", "undefined", "void 0", "(void 'x')", "0n", "1n", "(-1n)", "9007199254740993n", "0x1Fn", "NaN", "Infinity", "'1e3'", "'Infinity'",
];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", ">>>", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "&&", "||", "??", ","];
const REFS: &[&str] = &["a", "b", "o.p", "o[a]", "eval", "u", "o.p.q", "f", "o?.p", "(o?.p).q", "this", "o['p']"];
fn operand(r: &mut Rng, d: usize) -> String {
  if d == 0 || r.below(6) == 0 {
    let l: &str = if r.below(3) == 0 { *r.pick(REFS) } else { *r.pick(LITS) };
    return if l.starts_with('-') || l.starts_with("void") { format!("({l})") } else { l.into() };
  }
  format!("({})", nested(r, d))
}
fn nested(r: &mut Rng, d: usize) -> String {
  let o = |r: &mut Rng| operand(r, d - 1);
  match r.below(20) {
    0 => format!("{}?{}:{}", o(r), o(r), o(r)),
    1 => format!("!{}", o(r)),
    2 => format!("{} {}", r.pick(&["typeof", "void", "delete", "typeof", "delete"]), o(r)),
    3 => format!("{}{}", r.pick(&["-", "+", "~"]), o(r)),
    4 => format!("{}({})", o(r), o(r)),
    5 => format!("{}.p", o(r)),
    6 => format!("`x${{{}}}`", o(r)),
    7 => format!("{}[{}]", o(r), o(r)),
    8 => format!("{}`{}`", o(r), r.pick(&["", "${a}"])),
    9 => format!("a={}", o(r)),
    10 => format!("{}?.p", o(r)),
    11 => format!("new ({})({})", o(r), o(r)),
    12..=15 => format!("{}{}{}", o(r), r.pick(&["&&", "||", "??", ","]), o(r)),
    _ => {
      let (l, op, rr) = (o(r), *r.pick(OPS), o(r));
      format!("{l} {op} {rr}")
    }
  }
}

fn wild(r: &mut Rng) -> f64 {
  match r.below(6) {
    0 => f64::from_bits(r.next()),
    1 => r.below(1 << 40) as f64 * *r.pick(&[1.0, 0.5, -1.0, -0.5, 0.25]),
    2 => format!("{}e{}", r.below(100000), r.below(60) as i64 - 30).parse().unwrap(),
    3 => (r.next() as i64) as f64,
    4 => f64::from_bits((1.0f64 * (r.below(1000) as f64)).to_bits() + r.below(3) as u64),
    _ => 4294967296.0 * r.below(1 << 20) as f64 + r.below(5) as f64 - 2.0,
  }
}
fn text(r: &mut Rng) -> String {
  const T: &[&str] = &["0", "1", "9", ".", "e", "E", "+", "-", "x", "0x", "0b1", "f", "_", "n", " ", "\n", "\u{2029}", "\u{85}", "Infinity", "12", "00", "\u{1f600}", "\u{e000}", "a"];
  (0..r.below(5)).map(|_| *r.pick(T)).collect()
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "every pair of 95 constants under every operator, comparison and equality; every builtin on them; seeded numbers and strings; every pair of 37 literals under 24 operators as a minified program, as a condition and as a first statement; every two nested operators with a constant as a condition; seeded nested expressions run before and after minification in seeded worlds; non-trivial unless the program is one literal".into();
  let pool = pool();
  for a in &pool {
    for b in &pool {
      cx.case(true, format!("constants {:?} and {:?}", of_const(a), of_const(b)), || check_pair(a, b));
    }
    cx.case(true, format!("constant {:?}", of_const(a)), || check_one(a));
  }
  cx.case(true, "builtin names", || {
    check_names()?;
    for f in ["Math.abs", "Math.max", "Number", "Math.pow"] {
      check_call(f, &[])?;
      if f != "Math.pow" && f != "Math.max" {
        let r = ce::maybe_eval_const_builtin_call(f, &[c_num(1.0), c_num(2.0)]);
        ensure!(r.is_none() || r == Some(c_num(1.0)), "{f}(1, 2) folds to {r:?}");
      }
    }
    for (a, b) in [(1.0, f64::INFINITY), (2.0, 10.0), (f64::NAN, 0.0)] {
      folded("Math.pow", ce::maybe_eval_const_builtin_call("Math.pow", &[c_num(a), c_num(b)]), Ok(V::Num(pow(a, b))))?;
    }
    Ok(())
  });
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 60000 } else { 8000 } {
    let (a, b) = (wild(&mut r), wild(&mut r));
    let (s, t) = (text(&mut r), text(&mut r));
    let big = BigInt::from(r.next() as i64) * *r.pick(&[0, 1, 1 << 10, -1]);
    let (ca, cb, cs, ct, cg) = (c_num(a), c_num(b), c_str(&s), c_str(&t), Const::BigInt(big));
    cx.case(true, format!("numbers {a:e} and {b:e}, strings {s:?} and {t:?}, {cg:?}"), || {
      for x in [&ca, &cs, &cg] {
        check_one(x)?;
      }
      for (x, y) in [(&ca, &cb), (&ca, &cs), (&cs, &ct), (&cg, &ca), (&cs, &cg), (&cg, &cg)] {
        check_pair(x, y)?;
      }
      Ok(())
    });
  }
  let seeds: Vec<u64> = (0..3).map(|_| cx.rng.next()).collect();
  for (src, big) in [("0x1Fn", "31"), ("0b101n", "5"), ("0o17n", "15"), ("1_000n", "1000"), ("0n", "0"), ("0x0n", "0"), ("0XffffffffffffffffFn", "295147905179352825855")] {
    cx.case(true, format!("literal {src}"), || {
      let top = parse_js::parse_with_options(src, JS).map_err(|e| format!("{e:?}"))?;
      let Some(Stmt::Expr(e)) = top.stx.body.first().map(|s| s.stx.as_ref()) else { return Err("no expression".into()) };
      let Expr::LitBigInt(b) = e.stx.expr.stx.as_ref() else { return Err("no BigInt".into()) };
      ensure!(b.stx.value == big, "{src} is {:?}", b.stx.value);
      Ok(())
    });
  }
  for a in LITS.iter().chain(REFS) {
    for u in ["", "!", "typeof ", "void ", "delete ", "~"] {
      for src in [format!("f({u}({a}))"), format!("if({u}({a}))f(1);else f(2)"), format!("{u}({a})"), format!("({u}({a}))();f({u}({a}),1)")] {
        cx.case(true, format!("program {src}"), || check_program(&src, &seeds));
      }
    }
  }
  for op in OPS {
    for a in LITS {
      for b in LITS {
        let src = if *op == "**" { format!("f(({a}) {op} {b})") } else { format!("f({a} {op} {b})") };
        cx.case(true, format!("program {src}"), || check_program(&src, &seeds[..1]));
      }
      for b in REFS {
        for e in [format!("({a}) {op} ({b})"), format!("({b}) {op} ({a})")] {
          for src in [format!("f({e})"), format!("if({e})f(1);else f(2)"), format!("({e})(1)"), format!("typeof({e});delete({e});{e}"), format!("f(!!({e}),({e})?1:2,!({e}))")] {
            cx.case(true, format!("program {src}"), || check_program(&src, &seeds));
          }
        }
      }
    }
  }
  let first: &[&str] = &["'use strict'", "'a'", "'use '+'strict'", "true?'use strict':0", "null??'use strict'", "'x'&&'use strict'", "('use strict')", "typeof 1", "''||'use strict'", "'a'+1", "void 0"];
  for a in first {
    for b in first {
      for src in [format!("{a};{b};f(a)"), format!("{a};f({b})"), format!("f(1);{a};{b}")] {
        cx.case(true, format!("program {src}"), || check_program(&src, &seeds));
      }
    }
  }
  // what is evaluated for its truthiness alone, two operators deep
  let many: Vec<u64> = (0..40).map(|_| cx.rng.next()).collect();
  for (l, c) in ["&&", "||", "??", ","].iter().flat_map(|l| ["true", "false", "null", "0", "1", "''", "b"].map(|c| (l, c))) {
    for o in ["&&", "||", "??", ",", "==", "===", "+", "<"] {
      for e in [format!("(p {l} {c}) {o} a"), format!("a {o} (b {l} {c})"), format!("({c} {l} a) {o} b"), format!("a {o} ({c} {l} p)"), format!("a ? (p {l} {c}) {o} b : b"), format!("(a ? p {l} {c} : b) {o} a")] {
        let src = format!("if({e})f(1);else f(2);f(({e})?1:2,!({e}));f({e})");
        cx.case(true, format!("program {src}"), || check_program(&src, &many));
      }
    }
  }
  for _ in 0..if cx.thorough { 150000 } else { 25000 } {
    let d = 1 + r.below(4);
    let e = nested(&mut r, d);
    let src = match r.below(5) {
      0 => format!("if({e})f(1);else f(2)"),
      1 => format!("{e};f(a)"),
      2 => format!("f(({e})?1:2)"),
      _ => format!("f({e})"),
    };
    let s = [r.next(), r.next()];
    cx.case(true, format!("program {src}"), || check_program(&src, &s));
  }
}
