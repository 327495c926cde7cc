//! C17: what the minifier drops would have done nothing.
use crate::common::*;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};

// ---- expressions, and what evaluating them does by the standard ----
#[derive(Clone, Debug)]
enum E {
  Leaf(&'static str, fn() -> R),
  Un(&'static str, Box<E>),
  Bin(&'static str, Box<E>, Box<E>),
  Cond(Box<E>, Box<E>, Box<E>),
  Arr(Vec<E>, bool),
  Obj(&'static str, Box<E>),
  Class(&'static str, Box<E>),
  Tpl(Box<E>, bool),
}
#[derive(Clone, Debug, PartialEq)]
enum V {
  Undef,
  Null,
  Bool(bool),
  Num(f64),
  Str(String),
  Big(BigInt),
  /// an object: whether the program has given it a valueOf, a toString; the text it has if not
  Obj(bool, bool, String),
}
/// Err: evaluation runs the program's code or throws
type R = Result<V, ()>;
fn obj(s: &str) -> R {
  Ok(V::Obj(false, false, s.into()))
}
const LEAVES: &[(&str, fn() -> R)] = &[
  ("1", || Ok(V::Num(1.0))),
  ("0", || Ok(V::Num(0.0))),
  ("''", || Ok(V::Str("".into()))),
  ("'1'", || Ok(V::Str("1".into()))),
  ("`a`", || Ok(V::Str("a".into()))),
  ("true", || Ok(V::Bool(true))),
  ("false", || Ok(V::Bool(false))),
  ("null", || Ok(V::Null)),
  ("void 0", || Ok(V::Undef)),
  ("0n", || Ok(V::Big(0.into()))),
  ("1n", || Ok(V::Big(1.into()))),
  ("-1n", || Ok(V::Big((-1).into()))),
  ("- -2n", || Ok(V::Big(2.into()))),
  ("-0n", || Ok(V::Big(0.into()))),
  ("0x0n", || Ok(V::Big(0.into()))),
  ("99999999999999999999n", || Ok(V::Big(BigInt::from(10).pow(20) - 1))),
  ("~0n", || Ok(V::Big((-1).into()))),
  ("/a/", || obj("/a/")),
  ("[]", || obj("")),
  ("[1]", || obj("1")),
  ("({})", || obj("[object Object]")),
  ("function(){g()}", || obj("f")),
  ("()=>g()", || obj("f")),
  ("class{}", || obj("c")),
  ("({toString(){g()}})", || Ok(V::Obj(false, true, String::new()))),
  ("({valueOf(){g()}})", || Ok(V::Obj(true, false, "[object Object]".into()))),
  ("({toString:()=>g()})", || Ok(V::Obj(false, true, String::new()))),
  ("({get valueOf(){g()}})", || Ok(V::Obj(true, false, "[object Object]".into()))),
  ("({__proto__:null})", || Ok(V::Obj(true, true, String::new()))),
  ("[{toString(){g()}}]", || Ok(V::Obj(false, true, String::new()))),
  ("class{static toString(){g()}}", || Ok(V::Obj(false, true, String::new()))),
  ("class{static valueOf=()=>g()}", || Ok(V::Obj(true, false, "c".into()))),
  ("class{a=g();[`b`](){g()}}", || obj("c")),
  ("class{static{g()}}", || Err(())),
  ("class extends null{}", || obj("c")),
  ("class extends 1{}", || Err(())),
  ("({[g()]:1})", || Err(())),
  ("({[{toString(){g()}}]:1})", || Err(())),
  ("({...g()})", || Err(())),
  ("[...g()]", || Err(())),
  ("[...1]", || Err(())),
  ("({u})", || Err(())),
  ("g()", || Err(())),
  ("u", || Err(())),
  ("new g", || Err(())),
  ("g.a", || Err(())),
  ("g``", || Err(())),
  ("(u=1)", || Err(())),
  ("u++", || Err(())),
  ("delete g.a", || Err(())),
  ("(null).a", || Err(())),
  ("(null)()", || Err(())),
  ("`${g()}`", || Err(())),
  ("(1,g())", || Err(())),
  ("import('a')", || Err(())),
  ("1 in 1", || Err(())),
  ("1 instanceof 1", || Err(())),
  ("'a' in {}", || Ok(V::Bool(false))),
];
const UN: &[&str] = &["+", "-", "~", "!", "void ", "typeof "];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", ">>>", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "&&", "||", "??", ",", "in", "instanceof"];
const PROPS: &[&str] = &["a:#", "'a':#", "__proto__:#", "a:1,b:#", "a(){#}", "get a(){return #}", "[#]:1", "...#", "valueOf:#", "a:[#]", "a:{b:#}", "a:1,[#](){}"];
const MEMBERS: &[&str] = &["static a=#", "a=#", "static a(){#}", "a(){return #}", "static{#}", "static [#]=1", "[#](){}", "static a;static b=#", "get [#](){return 1}", "static #p=@", "static accessor=#", "static a=()=>#", "static get a(){return #}", "[#]=1"];

impl E {
  fn text(&self) -> String {
    match self {
      E::Leaf(s, _) => s.to_string(),
      E::Un(o, e) => format!("{o}({})", e.text()),
      E::Bin(o, l, r) => format!("({}) {o} ({})", l.text(), r.text()),
      E::Cond(a, b, c) => format!("({})?({}):({})", a.text(), b.text(), c.text()),
      E::Arr(v, hole) => format!("[{}{}]", if *hole { "," } else { "" }, v.iter().map(|e| format!("({})", e.text())).collect::<Vec<_>>().join(",")),
      E::Obj(p, e) => format!("{{{}}}", p.replace('#', &format!("({})", e.text()))),
      E::Class(p, e) => format!("class{{{}}}", if p.contains('@') { p.replace('@', &format!("({})", e.text())) } else { p.replace('#', &format!("({})", e.text())) }),
      E::Tpl(e, two) => format!("`x${{{}}}{}`", e.text(), if *two { "${1}" } else { "" }),
    }
  }
  fn eval(&self) -> R {
    match self {
      E::Leaf(_, f) => f(),
      E::Un(o, e) => {
        let v = e.eval()?;
        Ok(match *o {
          "!" => V::Bool(!truthy(&v)),
          "void " => V::Undef,
          "typeof " => V::Str("t".into()),
          o => match (o, numeric(&v)?) {
            ("+", V::Big(_)) => return Err(()),
            ("-", V::Big(b)) => V::Big(-b),
            ("~", V::Big(b)) => V::Big(-b - 1),
            ("-", V::Num(n)) => V::Num(-n),
            (_, n) => n,
          },
        })
      }
      E::Cond(a, b, c) => if truthy(&a.eval()?) { b.eval() } else { c.eval() },
      E::Bin(o, l, r) => {
        let l = l.eval()?;
        match *o {
          "&&" => return if truthy(&l) { r.eval() } else { Ok(l) },
          "||" => return if truthy(&l) { Ok(l) } else { r.eval() },
          "??" => return if matches!(l, V::Undef | V::Null) { r.eval() } else { Ok(l) },
          _ => {}
        }
        binary(o, l, r.eval()?)
      }
      E::Arr(v, hole) => {
        let (mut own, mut parts) = (false, vec![String::new(); *hole as usize]);
        for e in v {
          match e.eval()? {
            V::Undef | V::Null => parts.push(String::new()),
            V::Obj(_, true, _) => own = true,
            v => parts.push(string(&v)?),
          }
        }
        Ok(V::Obj(false, own, parts.join(",")))
      }
      E::Obj(p, e) => {
        let run = || e.eval();
        let plain = obj("[object Object]");
        match *p {
          "a(){#}" | "get a(){return #}" => plain,
          "[#]:1" | "a:1,[#](){}" => string(&run()?).and(plain),
          "...#" => match run()? {
            V::Obj(vo, ts, _) => Ok(V::Obj(vo, ts, String::new())),
            _ => plain,
          },
          "__proto__:#" => match run()? {
            V::Null => Ok(V::Obj(true, true, String::new())),
            // converted as its prototype is
            V::Obj(..) => Ok(V::Obj(true, true, String::new())),
            _ => plain,
          },
          // may be a function
          "valueOf:#" => match run()? {
            V::Obj(..) => Ok(V::Obj(true, false, "[object Object]".into())),
            _ => plain,
          },
          _ => run().and(plain),
        }
      }
      E::Class(p, e) => match *p {
        "a=#" | "static a(){#}" | "a(){return #}" | "static a=()=>#" | "static get a(){return #}" => obj("c"),
        "static [#]=1" | "[#](){}" | "get [#](){return 1}" | "[#]=1" => string(&e.eval()?).and(obj("c")),
        _ => e.eval().and(obj("c")),
      },
      E::Tpl(e, _) => Ok(V::Str(format!("x{}", string(&e.eval()?)?))),
    }
  }
}
fn truthy(v: &V) -> bool {
  match v {
    V::Undef | V::Null => false,
    V::Bool(b) => *b,
    V::Num(n) => !(*n == 0.0 || n.is_nan()),
    V::Str(s) => !s.is_empty(),
    V::Big(b) => !b.is_zero(),
    V::Obj(..) => true,
  }
}
fn string(v: &V) -> Result<String, ()> {
  Ok(match v {
    V::Obj(_, true, _) => return Err(()),
    V::Obj(_, _, s) | V::Str(s) => s.clone(),
    V::Undef => "undefined".into(),
    V::Null => "null".into(),
    V::Bool(b) => b.to_string(),
    V::Num(n) => n.to_string(),
    V::Big(b) => b.to_string(),
  })
}
fn primitive(v: &V) -> R {
  match v {
    V::Obj(vo, ts, s) => if *vo || *ts { Err(()) } else { Ok(V::Str(s.clone())) },
    v => Ok(v.clone()),
  }
}
fn numeric(v: &V) -> R {
  Ok(match primitive(v)? {
    V::Big(b) => V::Big(b),
    V::Num(n) => V::Num(n),
    V::Undef => V::Num(f64::NAN),
    V::Null => V::Num(0.0),
    V::Bool(b) => V::Num(b as u8 as f64),
    V::Str(s) => V::Num(if s.is_empty() { 0.0 } else { s.parse().unwrap_or(f64::NAN) }),
    V::Obj(..) => unreachable!(),
  })
}
fn binary(o: &str, l: V, r: V) -> R {
  match o {
    "===" | "!==" => return Ok(V::Bool(true)),
    "," => return Ok(r),
    // (objects of the program's own only give false here)
    "in" => return if let V::Obj(..) = r { string(&l).and(Ok(V::Bool(false))) } else { Err(()) },
    "instanceof" => return if let V::Obj(_, _, s) = &r { if s == "f" || s == "c" { Ok(V::Bool(false)) } else { Err(()) } } else { Err(()) },
    "==" | "!=" => {
      let nullish = |v: &V| matches!(v, V::Undef | V::Null);
      let object = |v: &V| matches!(v, V::Obj(..));
      if !(nullish(&l) || nullish(&r) || (object(&l) && object(&r))) {
        primitive(&l)?;
        primitive(&r)?;
      }
      return Ok(V::Bool(true));
    }
    _ => {}
  }
  let (pl, pr) = (primitive(&l)?, primitive(&r)?);
  match o {
    "<" | "<=" | ">" | ">=" => return Ok(V::Bool(true)),
    "+" if matches!(pl, V::Str(_)) || matches!(pr, V::Str(_)) => return Ok(V::Str(string(&pl)? + &string(&pr)?)),
    _ => {}
  }
  let (a, b) = match (numeric(&pl)?, numeric(&pr)?) {
    (V::Big(a), V::Big(b)) => (a, b),
    // (of a number, only whether it is one is kept)
    (V::Num(_), V::Num(_)) => return Ok(V::Num(1.0)),
    _ => return Err(()),
  };
  let small = |b: &BigInt| b.abs().to_u32().filter(|n| *n < 1000);
  Ok(V::Big(match o {
    "+" => a + b,
    "-" => a - b,
    "*" => a * b,
    "/" | "%" if b.is_zero() => return Err(()),
    "/" => a / b,
    "%" => a % b,
    "&" => a & b,
    "|" => a | b,
    "^" => a ^ b,
    "**" if b.is_negative() => return Err(()),
    "**" => match small(&b) {
      Some(n) if a.bits() * (n as u64) < 100_000 => a.pow(n),
      _ if a.abs() <= BigInt::from(1) => a,
      _ => return Err(()),
    },
    "<<" | ">>" => match (small(&b), (o == "<<") == b.is_negative()) {
      (Some(n), true) => a >> n,
      (Some(n), false) => a << n,
      (None, true) => BigInt::from(0),
      (None, false) => if a.is_zero() { a } else { return Err(()) },
    },
    _ => return Err(()),
  }))
}
/// whether truthiness of e's value is known here: numbers computed are not
fn exact(e: &E) -> bool {
  fn clear(e: &E) -> bool {
    match e {
      E::Leaf(..) | E::Arr(..) | E::Obj(..) | E::Class(..) | E::Tpl(..) => true,
      E::Un(o, e) => matches!(*o, "void " | "typeof ") || (*o == "!" && clear(e)),
      E::Bin(o, l, r) => matches!(*o, "&&" | "||" | "??" | ",") && clear(l) && clear(r),
      E::Cond(a, b, c) => clear(a) && clear(b) && clear(c),
    }
  }
  match e {
    E::Leaf(..) => true,
    E::Un(_, e) | E::Obj(_, e) | E::Class(_, e) | E::Tpl(e, _) => exact(e),
    E::Bin(o, l, r) => exact(l) && exact(r) && (!matches!(*o, "&&" | "||") || clear(l)),
    E::Cond(a, b, c) => exact(a) && exact(b) && exact(c) && clear(a),
    E::Arr(v, _) => v.iter().all(exact),
  }
}

fn minify(src: &str) -> Result<Option<String>, String> {
  let mut out = vec![];
  let o = minify_js::MinifyOptions::new(minify_js::TopLevelMode::Global).with_dialect(minify_js::Dialect::Ecma);
  match minify_js::minify_with_options(o, src, &mut out) {
    Ok(_) => Ok(Some(String::from_utf8(out).map_err(|e| e.to_string())?)),
    Err(_) => Ok(None),
  }
}
/// one expression as an unused value
fn check(e: &E, which: usize, dropped: &mut u64) -> Result<(), String> {
  let effect = e.eval().is_err();
  let t = e.text();
  for (k, (src, module)) in [(format!("function f(){{let q={t}}}f()"), false), (format!("function f(){{var p=1,q={t};if(p)return p}}f()"), false), (format!("{{const q=({t})}}"), true)].into_iter().enumerate() {
    if which < 3 && k != which {
      continue;
    }
    let Some(out) = minify(&src)? else { continue };
    let squeezed = out.trim_end_matches(';');
    let gone = if module { matches!(squeezed, "" | "{}") } else { squeezed.starts_with("function f(){}") || (src.contains("return") && squeezed == without(&src)?) };
    *dropped += gone as u64;
    ensure!(!(gone && effect), "{src} was minified to {out}, though {t} has an effect");
  }
  Ok(())
}
fn without(_: &str) -> Result<String, String> {
  thread_local!(static NONE: String = minify("function f(){var p=1;if(p)return p}f()").ok().flatten().unwrap_or_default());
  NONE.with(|s| Ok(s.trim_end_matches(';').to_string()))
}
/// a class declared and not used
fn check_class(p: &'static str, e: &E) -> Result<(), String> {
  let c = E::Class(p, Box::new(e.clone()));
  let effect = c.eval().is_err();
  let src = format!("function f(){{class C{}}}f()", &c.text()[5..]);
  let Some(out) = minify(&src)? else { return Ok(()) };
  ensure!(!(out.starts_with("function f(){}") && effect), "{src} was minified to {out}, though declaring the class has an effect");
  Ok(())
}
/// programs with calls g(1), g(2), … that all happen, in this order
const ORDER: &[&str] = &[
  "function f(){let a=g(1),b=g(2),c=g(3);return b}f()",
  "function f(){let a=g(1),b,c=g(2);return c+b}f()",
  "function f(){var a=g(1),b,c=g(2);return c+b}f()",
  "function f(){const a=g(1),b=1,c=g(2);return g(3),b}f()",
  "function f(){let a=1,b=g(1),c=2,d=g(2);g(3)}f()",
  "function f(){var [a]=g(1),b=g(2),{c}=g(3);return 1}f()",
  "function f(){let {a=g(2)}=g(1),b=g(3)}f()",
  "function f(){if(g(1)){let a=g(2),b=g(3)}else{var c=g(4)}}f()",
  "function f(){for(let a=g(1),b=g(2);g(3);g(4)){let c=g(5)}}f()",
  "function f(){for(var a=g(1);;){var b=g(2);break}}f()",
  "function f(){for(let a of g(1)){let b=g(2)}}f()",
  "function f(){for(const a in g(1))var b=g(2)}f()",
  "function f(){try{let a=g(1)}catch(e){let b=g(2)}finally{var c=g(3)}}f()",
  "function f(){switch(g(1)){case g(2):let a=g(3);default:var b=g(4)}}f()",
  "function f(){l:{let a=g(1);break l}let b=g(2)}f()",
  "function f(){while(g(1)){let a=g(2)}do{let b=g(3)}while(g(4))}f()",
  "function f(){let a=class{static b=g(1);static c=g(2)},d=g(3)}f()",
  "function f(){class A{static b=g(1)}class B extends g(2){}let c=g(3)}f()",
  "function f(){class A{[g(1)](){}static{g(2)}}let c=g(3)}f()",
  "function f(){let a=[g(1),g(2)],b={c:g(3),[g(4)]:g(5)}}f()",
  "function f(){let a=g(1)&&g(2)||g(3)||1}f()",
  "function f(){let a=g(1)?g(2):g(3),b=`${g(4)}${g(5)}`}f()",
  "function f(){let a=!g(1),b=-g(2),c=void g(3),d=typeof g(4),e=delete g(5).x}f()",
  "function f(){let a;a=g(1);let b=a=g(2)}f()",
  "function f(){let a=0;a+=g(1);a++;let b=a,c=g(2)}f()",
  "function f(){let a=()=>g(9),b=g(1),c=function(){g(9)}}f();g(2)",
  "function f(){let a=new(g(1))(g(2)),b=g(3).x,c=g(4)[g(5)],d=g(6)`x`}f()",
  "{let a=g(1);{const b=g(2);{var c=g(3)}}}",
  "let a=g(1),b=g(2);var c=g(3);const d=g(4)",
  "(()=>{let a=g(1);let b=g(2)})();g(3)",
  "async function f(){let a=await g(1),b=g(2)}f()",
  "function*f(){let a=yield g(1),b=yield*g(2)}f()",
  "({m(){let a=g(1),b=g(2)}}).m();class X{constructor(){let a=g(3);var b=g(4)}}",
];
fn check_order(src: &str) -> Result<(), String> {
  let Some(out) = minify(src)? else { return Ok(()) };
  let at = |t: &str| (1..9).filter_map(|k| t.find(&format!("g({k})")).map(|p| (p, k))).collect::<Vec<_>>();
  let sorted = |t: &str| {
    let mut v = at(t);
    v.sort();
    v.into_iter().map(|x| x.1).collect::<Vec<_>>()
  };
  ensure!(sorted(src) == sorted(&out), "{src} was minified to {out}, which calls {:?}, not {:?}", sorted(&out), sorted(src));
  Ok(())
}

fn leaf(r: &mut Rng) -> E {
  let (s, f) = *r.pick(LEAVES);
  E::Leaf(s, f)
}
fn expr(r: &mut Rng, d: usize) -> E {
  if d == 0 {
    return leaf(r);
  }
  let b = |r: &mut Rng| {
    let k = if r.below(3) == 0 { d - 1 } else { r.below(d) };
    Box::new(expr(r, k))
  };
  match r.below(12) {
    0 | 1 => E::Un(*r.pick(UN), b(r)),
    2 => E::Cond(b(r), b(r), b(r)),
    3 => E::Arr((0..1 + r.below(2)).map(|_| *b(r)).collect(), r.below(3) == 0),
    4 => E::Obj(*r.pick(PROPS), b(r)),
    5 => E::Class(*r.pick(MEMBERS), b(r)),
    6 => E::Tpl(b(r), r.below(2) == 0),
    _ => E::Bin(*r.pick(OPS), b(r), b(r)),
  }
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "every one of 58 leaf expressions, under every unary operator, in every literal and class member, every pair of 40 of them under 26 operators, and seeded nestings, each as the value of a variable not used; 33 programs whose calls all stay in order; non-trivial unless the expression is a leaf".into();
  let leaves: Vec<E> = LEAVES.iter().map(|(s, f)| E::Leaf(s, *f)).collect();
  let mut dropped = 0;
  let mut n = 0usize;
  let mut one = |cx: &mut Ctx, e: E| {
    if cx.failed() || !exact(&e) {
      return;
    }
    let mut d = 0;
    n += 1;
    let which = if n < 6000 { 3 } else { [0, 0, 1, 2][n % 4] };
    cx.case(!matches!(e, E::Leaf(..)), format!("unused {}", e.text()), || check(&e, which, &mut d));
    dropped += d;
  };
  for src in ORDER {
    cx.case(true, format!("program {src}"), || check_order(src));
  }
  for a in &leaves {
    let x = || Box::new(a.clone());
    one(cx, a.clone());
    for u in UN {
      one(cx, E::Un(u, x()));
      for v in UN {
        one(cx, E::Un(v, Box::new(E::Un(u, x()))));
      }
    }
    for h in [false, true] {
      one(cx, E::Arr(vec![a.clone()], h));
      one(cx, E::Tpl(x(), h));
    }
    for p in PROPS {
      one(cx, E::Obj(p, x()));
    }
    for p in MEMBERS {
      one(cx, E::Class(p, x()));
    }
  }
  let few: Vec<usize> = (0..leaves.len()).filter(|k| *k < 37 || matches!(LEAVES[*k].0, "g()" | "u" | "class{static{g()}}")).collect();
  for a in few.iter().map(|k| &leaves[*k]) {
    let x = || Box::new(a.clone());
    for b in few.iter().map(|k| &leaves[*k]) {
      let y = || Box::new(b.clone());
      for o in OPS {
        one(cx, E::Bin(o, x(), y()));
      }
      for t in &leaves[..8] {
        one(cx, E::Cond(Box::new(t.clone()), x(), y()));
      }
      one(cx, E::Un("+", Box::new(E::Bin("&&", x(), y()))));
      one(cx, E::Un("-", Box::new(E::Cond(Box::new(leaves[0].clone()), x(), y()))));
      one(cx, E::Tpl(Box::new(E::Bin("??", x(), y())), false));
    }
  }
  // operands of which one or the other is taken
  let no = || Box::new(E::Leaf("[1]===[2]", || Ok(V::Bool(false))));
  let some: Vec<&E> = leaves.iter().filter(|e| matches!(e.text().as_str(), "1" | "'1'" | "1n" | "0n" | "-1n" | "null" | "({valueOf(){g()}})")).collect();
  for o in ["+", "-", "/", "**", "<<", ">>", ">>>", "<", "=="] {
    for a in &some {
      for b in &some {
        for c in &some {
          let pick = || Box::new(E::Cond(no(), Box::new((*a).clone()), Box::new((*b).clone())));
          one(cx, E::Bin(o, pick(), Box::new((*c).clone())));
          one(cx, E::Bin(o, Box::new((*c).clone()), pick()));
        }
      }
    }
  }
  for p in MEMBERS {
    for a in &leaves {
      cx.case(true, format!("class {p} of {}", a.text()), || check_class(p, a));
    }
  }
  for _ in 0..if cx.thorough { 1_000_000 } else { 60_000 } {
    let d = 1 + cx.rng.below(4);
    let e = expr(&mut cx.rng, d);
    if d > 2 && cx.rng.below(8) == 0 {
      let p = *cx.rng.pick(MEMBERS);
      if exact(&e) {
        cx.case(true, format!("class {p} of {}", e.text()), || check_class(p, &e));
      }
    }
    one(cx, e);
  }
  eprintln!("dropped: {dropped}");
  cx.case(true, "some expressions are dropped", || {
    ensure!(dropped > 1000, "only {dropped} were");
    Ok(())
  });
}
