//! C16: what is printed reads back as the program that was lowered.
use crate::common::*;
use derive_visitor::{Drive, DriveMut, Visitor, VisitorMut};
use diagnostics::FileId;
use emit_js::EmitOptions;
use hir_js::{lower_file, FileKind};
use parse_js::ast::expr::{CallExpr, ComputedMemberExpr, Expr, MemberExpr, TaggedTemplateExpr, ThisExpr, UnaryExpr};
use parse_js::ast::func::{Func, FuncBody};
use parse_js::ast::node::{Node, ParenthesizedExpr};
use parse_js::ast::stmt::Stmt;
use parse_js::ast::stx::TopLevel;
use parse_js::operator::OperatorName;
use parse_js::{parse_with_options, Dialect, ParseOptions, SourceType};
use serde_json::Value;

fn ts(e: &Node<Expr>) -> Option<&Node<Expr>> {
  match e.stx.as_ref() {
    Expr::TypeAssertion(a) => Some(&a.stx.expression),
    Expr::NonNullAssertion(a) => Some(&a.stx.expression),
    Expr::SatisfiesExpr(a) => Some(&a.stx.expression),
    Expr::Instantiation(a) => Some(&a.stx.expression),
    _ => None,
  }
}
fn paren(e: &Node<Expr>) -> bool {
  e.assoc.get::<ParenthesizedExpr>().is_some()
}
/// is `e`, as what comes first in a member access, call or tag, a chain that ends there?
fn closed(e: &Node<Expr>) -> bool {
  let (mut e, mut p) = (e, paren(e));
  while let Some(i) = ts(e) {
    e = i;
    p |= paren(e);
  }
  p && open_chain(e)
}
fn open_chain(e: &Node<Expr>) -> bool {
  let (opt, base) = match e.stx.as_ref() {
    Expr::Member(m) => (m.stx.optional_chaining, &m.stx.left),
    Expr::ComputedMember(m) => (m.stx.optional_chaining, &m.stx.object),
    Expr::Call(c) => (c.stx.optional_chaining, &c.stx.callee),
    _ => return false,
  };
  if opt {
    return true;
  }
  let mut b = base;
  let mut p = paren(b);
  while let Some(i) = ts(b) {
    b = i;
    p |= paren(b);
  }
  !p && open_chain(b)
}
type NMember = Node<MemberExpr>;
type NComputed = Node<ComputedMemberExpr>;
type NCall = Node<CallExpr>;
type NTag = Node<TaggedTemplateExpr>;
type NFunc = Node<Func>;
/// what the tree alone does not say: ends of optional chains, directives
#[derive(Visitor, Default)]
#[visitor(NMember(enter), NComputed(enter), NCall(enter), NTag(enter), NFunc(enter))]
struct Marks(String);
impl Marks {
  fn mark(&mut self, c: char, e: &Node<Expr>) {
    self.0.push(if closed(e) { c.to_ascii_uppercase() } else { c });
  }
  fn enter_n_member(&mut self, n: &NMember) {
    self.mark('m', &n.stx.left)
  }
  fn enter_n_computed(&mut self, n: &NComputed) {
    self.mark('i', &n.stx.object)
  }
  fn enter_n_call(&mut self, n: &NCall) {
    self.mark('c', &n.stx.callee)
  }
  fn enter_n_tag(&mut self, n: &NTag) {
    self.mark('t', &n.stx.function)
  }
  fn enter_n_func(&mut self, n: &NFunc) {
    if let Some(FuncBody::Block(b)) = &n.stx.body {
      self.directives(b)
    }
  }
  fn directives(&mut self, b: &[Node<Stmt>]) {
    for s in b {
      match s.stx.as_ref() {
        Stmt::Expr(e) if matches!(e.stx.expr.stx.as_ref(), Expr::LitStr(_)) && !paren(&e.stx.expr) => self.0.push('!'),
        _ => break,
      }
    }
    self.0.push('|');
  }
}
fn marks(t: &Node<TopLevel>) -> String {
  let mut m = Marks::default();
  m.directives(&t.stx.body);
  t.stx.drive(&mut m);
  m.0
}
/// the tree without types
fn erase(v: Value) -> Value {
  match v {
    Value::Object(mut m) => {
      if let Some(Value::String(t)) = m.get("$t") {
        if matches!(t.as_str(), "TypeAssertion" | "NonNullAssertion" | "SatisfiesExpr" | "Instantiation") {
          return erase(m.remove("expression").unwrap());
        }
      }
      Value::Object(m.into_iter().map(|(k, v)| (k, erase(v))).collect())
    }
    // an empty statement in a list is nothing
    Value::Array(a) => Value::Array(a.into_iter().filter(|v| v.get("$t").and_then(|t| t.as_str()) != Some("Empty")).map(erase).collect()),
    v => v,
  }
}
type NUnary = Node<UnaryExpr>;
/// `new f` is `new f()`
#[derive(VisitorMut, Default)]
#[visitor(NUnary(enter))]
struct News(bool);
impl News {
  fn enter_n_unary(&mut self, n: &mut NUnary) {
    // `new a?.b` is not a program
    if n.stx.operator == OperatorName::New {
      self.0 |= match n.stx.argument.stx.as_ref() {
        Expr::Call(c) if !paren(&n.stx.argument) => c.stx.optional_chaining || open_chain(&c.stx.callee),
        _ => !paren(&n.stx.argument) && open_chain(&n.stx.argument),
      };
    }
    if n.stx.operator != OperatorName::New || matches!(n.stx.argument.stx.as_ref(), Expr::Call(_)) && !paren(&n.stx.argument) {
      return;
    }
    let loc = n.loc;
    let callee = std::mem::replace(&mut n.stx.argument, Node::new(loc, ThisExpr {}).into_wrapped());
    n.stx.argument = Node::new(loc, CallExpr { optional_chaining: false, callee, arguments: vec![] }).into_wrapped();
  }
}
const DEFAULTS: &[&str] = &["({x=(#)}=z)", "({x=(#)}=z);y", "[{x=(#)}]=z", "({y:{x=(#)}}=z)", "for({x=(#)}of z);", "for([{x=(#)}]in z);", "v=>({x=(#)}=z)", "y=({x=(#)}=z)", "f({x=(#)}=z)", "(v,{x=(#)}=z)"];
struct Bad {
  src: String,
  out: String,
}
/// reads, lowers, prints and reads back; None: not a program, or not printed
fn check(src: &str, typed: bool, module: bool, printed: &mut u64) -> Result<bool, String> {
  let source_type = if module { SourceType::Module } else { SourceType::Script };
  let js = ParseOptions { dialect: Dialect::Ecma, source_type };
  let loose = ParseOptions { dialect: Dialect::Js, source_type };
  // what TypeScript's reader also takes outside functions and modules
  if typed && (src.contains("new.target") || src.contains("import.meta")) {
    return Ok(false);
  }
  // the strict reader takes no `{x=a}=b`
  let default = src.contains("{x=");
  if default && !DEFAULTS.iter().any(|p| LEAVES.iter().any(|l| fill(p, l) == src)) {
    return Ok(false);
  }
  let from = if typed { ParseOptions { dialect: Dialect::Ts, source_type } } else if default { loose } else { js };
  let Ok(mut top) = parse_with_options(src, from) else { return Ok(false) };
  let kind = if typed { FileKind::Ts } else { FileKind::Js };
  let lowered = lower_file(FileId(0), kind, &top);
  let mut news = News::default();
  top.stx.drive_mut(&mut news);
  if news.0 {
    return Ok(false);
  }
  // TypeScript's reader takes more: what is left without the types is a program, and the same
  if typed {
    let plain = src.replace(" as any", "").replace(" satisfies any", "").replace("<any>", "").replace(")!.", ").").replace(")!(", ")(").replace(")!)", "))").replace(")!+", ")+").replace(".x!", ".x");
    let Ok(mut plain) = parse_with_options(&plain, js) else { return Ok(false) };
    plain.stx.drive_mut(&mut News::default());
    if erase(serde_json::to_value(&plain.stx).unwrap()) != erase(serde_json::to_value(&top.stx).unwrap()) {
      return Ok(false);
    }
  }
  let (text, m) = (serde_json::to_string(&top.stx).unwrap(), marks(&top));
  let mut any = false;
  for opts in [EmitOptions::minified(), EmitOptions::canonical()] {
    let Ok(out) = emit_js::emit_hir_file_to_string(&lowered, opts) else { continue };
    any = true;
    *printed += 1;
    let b = Bad { src: src.into(), out };
    // the strict reader takes no target in parentheses, which keeps `let` from the start of a loop head
    let how = if default || b.out.contains("for((") || b.out.contains("{x=") { loose } else { js };
    // nor the identifier `of` as an operand in the head of a loop
    if b.out.contains("for(") && b.out.contains("await of") {
      continue;
    }
    let mut back = parse_with_options(&b.out, how).map_err(|e| format!("{:?} is printed as {:?}, which does not read back: {e:?}", b.src, b.out))?;
    back.stx.drive_mut(&mut News::default());
    let btext = serde_json::to_string(&back.stx).unwrap();
    if btext != text {
      let (x, y): (Value, Value) = (erase(serde_json::to_value(&top.stx).unwrap()), erase(serde_json::to_value(&back.stx).unwrap()));
      ensure!(x == y, "{:?} is printed as {:?}, another program: {} instead of {}", b.src, b.out, diff(&x, &y).1, diff(&x, &y).0);
    }
    let bm = marks(&back);
    ensure!(bm == m, "{:?} is printed as {:?}: another optional chain or directive ({bm} instead of {m})", b.src, b.out);
  }
  Ok(any)
}
/// the innermost place where they differ
fn diff(x: &Value, y: &Value) -> (String, String) {
  match (x, y) {
    (Value::Object(a), Value::Object(b)) if a.len() == b.len() && a.keys().eq(b.keys()) && a.get("$t") == b.get("$t") => {
      let k: Vec<_> = a.keys().filter(|k| a[*k] != b[*k]).collect();
      if k.len() == 1 {
        return diff(&a[k[0]], &b[k[0]]);
      }
    }
    (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
      let k: Vec<_> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
      if k.len() == 1 {
        return diff(&a[k[0]], &b[k[0]]);
      }
    }
    _ => {}
  }
  let s = |v: &Value| v.to_string().chars().take(200).collect();
  (s(x), s(y))
}

// `#` is the place of the operand
const LEAVES: &[&str] = &[
  "a", "1", "1.5", "-1", "\"s\"", "'use strict'", "true", "null", "undefined", "void 0", "this", "/r/", "/r/g", "``", "`t${a}u`", "10n", "{}", "{a:1}", "{a}", "{a(){}}",
  "{get a(){}}", "{...a}", "{async *a(){}}", "{'x y':1}", "{[a]:b}", "[]", "[a,,b]", "[,]", "[...a]", "function(){}", "function f(){}", "async function(){}", "function*(){}", "class{}", "class A{}",
  "class extends a{}", "class{x=a;[b](){}}", "()=>{}", "a=>a", "a=>({})", "async a=>a", "async()=>{}", "new a", "new a()", "new a.b(c)", "new.target", "import.meta", "import(a)", "a.b", "a?.b", "a?.b.c", "a()", "a?.()", "a?.[b]", "a[b]", "(a?.b).c",
  "(a?.b)()", "a`t`", "(a,b)", "a=b", "a?b:c", "let", "let[a]", "async", "async()", "async.b", "yield", "await", "of", "get", "static", "1e21", "1e-7", "5..a", "5 .a()", "0.5",
  "'a\\nb'", "a++", "--a", "a in b", "a instanceof b", "[a]=b", "{a}=b", "super_", "1/0", "/=/", "-1n", "\"</script>\"", "({}).a", "(function(){})()", "(class{}).a", "function(){}.a", "let.a",
];
const BINS: &[&str] = &[
  "**", "*", "/", "%", "+", "-", "<<", ">>", ">>>", "<", "<=", ">", ">=", "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "??", ",",
];
const ASSIGNS: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "&&=", "||=", "??="];
const UNARIES: &[&str] = &["!", "~", "+", "-", "typeof ", "void ", "delete ", "await ", "++", "--"];
const HOLES: &[&str] = &[
  "(#).x", "(#)?.x", "(#)[x]", "(#)?.[x]", "x[#]", "x?.[#]", "(#)()", "(#)(x,y)", "(#)?.()", "(#)?.(x)", "x(#)", "x(y,(#))", "x(...(#))", "new (#)", "new (#)()", "new (#)(x)", "new (#).x()", "new x(#)", "new ((#)())", "new ((#)())()", "new ((#).x)",
  "new (new (#))", "(#)`t`", "x`${(#)}`", "`a${(#)}b`", "`${(#)}${x}`", "(#)++", "(#)--", "(#)?x:y", "x?(#):y", "x?y:(#)", "[(#)]", "[x,(#)]", "[...(#)]", "({k:(#)})", "({[(#)]:x})", "({...(#)})", "({[(#)](){}})", "({'a b':(#)})",
  "x=>(#)", "async x=>(#)", "()=>(#)", "(x=(#))=>x", "({x=(#)})=>x", "([x=(#)])=>x", "({[(#)]:x})=>x", "(function(x=(#)){})", "(function(){(#)})", "(function*(){yield (#)})", "(function*(){yield*(#)})", "(function*(){x=yield (#)})", "(function*(){(yield)(#)})", "(function*(){(yield (#)).x})", "(function*(){-(yield (#))})", "(function*(){(yield (#))?x:y})",
  "(function*(){(yield (#))*x})", "(function*(){((yield (#)),x)})", "(async function(){await (#)})", "(async()=>{await (#)})", "(async()=>{(await (#)).x})", "(async()=>{(await (#))**2})", "(async()=>{-(await (#))})", "async()=>await (#)", "(class extends (#){})", "(class{[(#)](){}})", "(class{x=(#)})", "(class{static x=(#)})", "import(#)", "({x:[y=(#)]}=z)", "({x=(#)}=z)",
  "[x=(#)]=z", "[(#).x]=z", "({x:(#).x}=z)", "({x:(#)[y]}=z)", "[...(#).x]=z", "(#).x=y", "(#)[x]=y", "(#).x++", "--(#).x", "++(#)[x]", "delete (#).x", "delete (#)?.x", "(#).x.y", "(#)?.x.y", "((#)?.x).y", "((#)?.x)()", "((#)?.x)`t`", "((#)?.()).x", "((#)?.x)[y]", "((#)?.x)?.y",
  "(#).x()", "(#)[x]()", "(#)().x", "(#)()()", "((#).x)()", "(0,(#).x)()", "(#) in x", "!((#) in x)", "((#))", "(()=>{return (#)})", "(()=>{throw (#)})", "(-(#))**2", "(-(#)).x", "(typeof (#))()", "(x,(#))", "((#),x)", "y=((#),x)", "(x?(#):y)?z:w", "(x=>(#))()", "(x=>(#)).y", "(x=>(#))?y:z", "(x=>(#))||y", "y||(x=>(#))", "(async x=>(#))()",
  "-(-(#))", "+(+(#))", "-(--(#))", "- -(#)", "!(!(#))", "typeof typeof (#)", "x- -(#)", "x+ +(#)", "x-(--y)-(#)", "x++ +(#)", "(#)+ ++x", "x/ /r/.test(#)", "x<!--(#)", "(#)-->x", "x<(!(--(#)))", "((#)--)>x",
];
const TYPED: &[&str] = &["((#) as any)", "(#)!", "((#) satisfies any)", "(<any>(#))", "((#) as any).x", "(#)!.x", "((#)?.x)!.y", "(#)?.x!.y", "(#)?.x!()", "(((#) as any) as any)", "((#) as any)()", "new ((#) as any)()", "(#)!()", "((#)!)`t`", "x=>((#) as any)", "((#) as any)?y:z", "-((#) as any)", "((#) as any)**x", "((#) as any)+x", "x+((#) as any)", "((#) as any),x", "(((#) as any)=x)", "((#)!=x)", "((#)!)++"];
const PLACES: &[&str] = &[
  "(#)", "(#);y", "y;(#)", "\"use strict\";(#)", "function f(){(#)}", "function f(){'use strict';(#)}", "function f(){(#);x}", "{(#)}", "var v=(#)", "let v=(#)", "const v=(#),w=(#)", "var [v=(#)]=x", "var {v=(#)}=x", "var {[(#)]:v}=x", "if(#)x;", "if(#)x;else y", "if(x)(#);else y", "if(x)y;else (#)", "while(#)x;", "while(x)(#)",
  "do x;while(#)", "do (#);while(x)", "for((#);;);", "for(;(#););", "for(;;(#));", "for(var i=(#);;);", "for(let i=(#);;);", "for(var i=x,j=(#);;);", "for(var [i=(#)]=x;;);", "for(x in (#));", "for(x of (#));", "for(var x in (#));", "for(const x of (#));", "for(let [x=(#)] of y);", "for((#).x in y);", "for((#).x of y);", "for((#)[x] of y);", "for([x=(#)] of y);", "for({x=(#)} in y);",
  "for(x of y)(#)", "for(;;)(#)", "switch(#){}", "switch(x){case (#):y}", "switch(x){case y:(#)}", "switch(x){default:(#)}", "throw (#)", "function f(){return (#)}", "function f(x=(#)){}", "function f({x=(#)}){}", "function f([x=(#)]){}", "function f(...[x=(#)]){}", "l:(#)", "try{(#)}catch(e){(#)}finally{(#)}", "try{}catch({x=(#)}){}", "with(#)x", "class C extends (#){}", "class C{x=(#);y}", "class C{[(#)]=1}", "class C{static [(#)](){}}", "class C{static{(#)}}", "class C{m(x=(#)){(#)}}",
  "async function f(){for await(x of (#));}", "async function f(){await (#);(#)}", "function*f(){yield (#);(#)}", "if(x){(#)}else if(y)(#);", "if(x)if(y)(#);else;else z",
];
const MODULES: &[&str] = &["export default (#)", "export const v=(#)", "export default class extends (#){}", "export default class{x=(#)}", "export default function(x=(#)){}", "let x;(#);export{x as y}", "await (#)", "for await(x of (#));", "import x from 'y';(#)", "export default ((#),x)", "export class C extends (#){}"];

fn fill(t: &str, x: &str) -> String {
  t.replace('#', x)
}
/// drops pairs of parentheses: the source then reads as another program, or as none
fn thin(rng: &mut Rng, s: &str) -> String {
  let b: Vec<char> = s.chars().collect();
  let (mut st, mut pairs) = (vec![], vec![]);
  for (i, c) in b.iter().enumerate() {
    if *c == '(' {
      st.push(i);
    } else if *c == ')' {
      if let Some(j) = st.pop() {
        pairs.push((j, i));
      }
    }
  }
  let mut gone = vec![false; b.len()];
  for (i, j) in pairs {
    if rng.below(3) == 0 {
      gone[i] = true;
      gone[j] = true;
    }
  }
  b.iter().zip(gone).map(|(c, g)| if g { ' ' } else { *c }).collect()
}

fn table(cx: &mut Ctx) {
  use parse_js::operator::{Associativity, OperatorName as O, OPERATORS};
  // ECMA-262, the productions of the expression grammar from the loosest to the tightest
  let levels: &[(&[O], bool)] = &[
    (&[O::Comma], false),
    (&[O::Yield, O::YieldDelegated, O::Assignment, O::AssignmentAddition, O::AssignmentSubtraction, O::AssignmentMultiplication, O::AssignmentDivision, O::AssignmentRemainder, O::AssignmentExponentiation, O::AssignmentBitwiseLeftShift, O::AssignmentBitwiseRightShift, O::AssignmentBitwiseUnsignedRightShift, O::AssignmentBitwiseAnd, O::AssignmentBitwiseXor, O::AssignmentBitwiseOr, O::AssignmentLogicalAnd, O::AssignmentLogicalOr, O::AssignmentNullishCoalescing], true),
    (&[O::Conditional], true),
    (&[O::LogicalOr, O::NullishCoalescing], false),
    (&[O::LogicalAnd], false),
    (&[O::BitwiseOr], false),
    (&[O::BitwiseXor], false),
    (&[O::BitwiseAnd], false),
    (&[O::Equality, O::Inequality, O::StrictEquality, O::StrictInequality], false),
    (&[O::LessThan, O::LessThanOrEqual, O::GreaterThan, O::GreaterThanOrEqual, O::In, O::Instanceof], false),
    (&[O::BitwiseLeftShift, O::BitwiseRightShift, O::BitwiseUnsignedRightShift], false),
    (&[O::Addition, O::Subtraction], false),
    (&[O::Multiplication, O::Division, O::Remainder], false),
    (&[O::Exponentiation], true),
    (&[O::Await, O::BitwiseNot, O::Delete, O::LogicalNot, O::PrefixDecrement, O::PrefixIncrement, O::Typeof, O::UnaryNegation, O::UnaryPlus, O::Void], true),
    (&[O::PostfixDecrement, O::PostfixIncrement], false),
    (&[O::New, O::Call, O::ComputedMemberAccess, O::MemberAccess, O::OptionalChainingCall, O::OptionalChainingComputedMemberAccess, O::OptionalChainingMemberAccess], false),
  ];
  cx.case(true, "operator precedence and associativity", || {
    let mut last: Option<u8> = None;
    for (ops, right) in levels {
      let ps: Vec<u8> = ops.iter().map(|o| OPERATORS[o].precedence).collect();
      ensure!(ps.iter().all(|p| *p == ps[0]), "{ops:?} have the precedences {ps:?}");
      ensure!(last.map_or(true, |l| l < ps[0]), "{ops:?} have precedence {}, not above {last:?}", ps[0]);
      last = Some(ps[0]);
      if OPERATORS[&ops[0]].arity == parse_js::operator::Arity::Binary {
        for o in ops.iter() {
          ensure!(matches!(OPERATORS[o].associativity, Associativity::Right) == *right, "{o:?} associates the wrong way");
        }
      }
    }
    Ok(())
  });
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "expressions: every leaf and every operator, access, call, literal, function and class form around every such form around a set of leaves, each at a set of places (statement starts, heads, arrow bodies, clauses), fully parenthesised; with pairs of parentheses dropped at random; at random, deeper; with type wrappers; each parsed, lowered, printed minified and formatted, and parsed again: the same tree, optional chains ending at the same places, the same directives; the operator table against the grammar's levels".into();
  cx.exhaustive = false;
  table(cx);
  let mut holes: Vec<String> = HOLES.iter().map(|s| s.to_string()).collect();
  for b in BINS {
    holes.push(format!("(#) {b} x"));
    holes.push(format!("x {b} (#)"));
  }
  for b in ASSIGNS {
    holes.push(format!("(#) {b} x"));
    holes.push(format!("x {b} (#)"));
  }
  for u in UNARIES {
    holes.push(format!("{u}(#)"));
  }
  let typed: Vec<String> = TYPED.iter().map(|s| s.to_string()).collect();
  let few: &[&str] = &["a", "1", "-1", "{}", "function(){}", "class{}", "a?.b", "a()", "new a", "(a,b)", "a=b", "a=>a", "a in b", "async()=>{}", "let", "'s'", "a+b", "a*b", "a**b", "a||b", "a??b", "-a", "a++", "a?b:c", "{a}=b", "[a]", "`t`", "/r/", "async", "let[a]"];
  let mut printed = 0u64;
  let mut read = 0u64;
  let mut one = |cx: &mut Ctx, src: String, t: bool, module: bool| {
    if cx.failed() {
      return;
    }
    let (mut p, mut r) = (0, false);
    let d = src.clone();
    cx.case(true, d, || {
      r = check(&src, t, module, &mut p)?;
      Ok(())
    });
    printed += p;
    read += r as u64;
  };
  for p in PLACES {
    for l in LEAVES {
      one(cx, fill(p, l), false, false);
    }
  }
  for p in DEFAULTS {
    for l in LEAVES {
      one(cx, fill(p, l), false, false);
    }
  }
  for p in MODULES {
    for l in LEAVES {
      one(cx, fill(p, l), false, true);
    }
  }
  for h in &holes {
    for l in LEAVES {
      one(cx, fill("(#)", &fill(h, l)), false, false);
    }
  }
  // one form in another
  let inner: &[&str] = if cx.thorough { few } else { &["a", "{}", "a?.b", "a in b"] };
  for h in &holes {
    for g in &holes {
      for l in inner {
        let s = fill(h, &fill(g, l));
        one(cx, s, false, false);
      }
    }
  }
  // at every place
  for (ps, module) in [(PLACES, false), (MODULES, true)] {
    for p in ps {
      for h in &holes {
        for l in if cx.thorough { few } else { &few[..2] } {
          let l = if *l == "1" { few[cx.rng.below(few.len())] } else { l };
          one(cx, fill(p, &fill(h, l)), false, module);
        }
      }
    }
  }
  // types
  for t in &typed {
    for l in LEAVES {
      one(cx, fill(t, l), true, false);
      one(cx, format!("()=>{}", fill(t, l)), true, false);
    }
    for h in &holes {
      for l in &few[..6] {
        one(cx, fill(t, &fill(h, l)), true, false);
        one(cx, fill(h, &fill(t, l)), true, false);
      }
    }
    for p in PLACES {
      for l in few {
        one(cx, fill(p, &fill(t, l)), true, false);
      }
    }
  }
  // deeper, and with fewer parentheses
  for i in 0..if cx.thorough { 600_000 } else { 60_000 } {
    let mut s = (*cx.rng.pick(LEAVES)).to_string();
    let ty = cx.rng.below(5) == 0;
    for _ in 0..1 + cx.rng.below(4) {
      let h = if ty && cx.rng.below(3) == 0 { cx.rng.pick(&typed).clone() } else { cx.rng.pick(&holes).clone() };
      // two holes are sometimes two operands
      s = if s.len() < 400 { fill(&h, &s) } else { s };
      if cx.rng.below(3) == 0 {
        if let Some(k) = s.find('x') {
          let o = fill(&cx.rng.pick(&holes).clone(), *cx.rng.pick(LEAVES));
          s.replace_range(k..k + 1, &format!("({o})"));
        }
      }
    }
    let module = cx.rng.below(6) == 0;
    let p = *cx.rng.pick(if module { MODULES } else { PLACES });
    s = fill(p, &s);
    if i % 2 == 0 {
      s = thin(&mut cx.rng, &s);
    }
    one(cx, s, ty, module);
  }
  eprintln!("programs read and printed: {read}, outputs compared: {printed}");
  cx.case(true, "programs were printed", || {
    ensure!(cx_ok(read), "only {read} programs were read and printed");
    Ok(())
  });
}
fn cx_ok(read: u64) -> bool {
  read > 10_000
}
