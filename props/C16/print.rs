use vstd::prelude::*;
verus! {
// ---- hir-js: expressions, patterns and what they hold; opaque parts first
#[verifier::external_body]
pub struct BodyRest { x: u8 }
/// of a body, what the printer of expressions looks at; the arenas are in `rest`
pub struct Body { pub function: Option<FunctionData>, pub root_stmts: Vec<StmtId>, pub rest: BodyRest }
#[verifier::external_body]
pub struct Decorator { x: u8 }
pub struct DefData { pub decorators: Vec<Decorator> }
#[verifier::external_body]
pub struct TextRange { x: u8 }
pub struct StringLiteral { pub lossy: String, pub code_units: Option<Box<[u16]>> }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QuoteStyle { x: u8 }
pub struct EmitOptions { pub quote_style: QuoteStyle }
#[verifier::external_body]
pub struct JsxElement { x: u8 }
#[verifier::external_body]
pub struct Param { x: u8 }
#[verifier::external_body]
pub struct TypeParamId { x: u8 }
#[derive(Clone, Copy)]
pub struct DefId(pub u64);
#[derive(Clone, Copy)]
pub struct BodyId(pub u64);
#[derive(Clone, Copy)]
pub struct StmtId(pub u32);
#[derive(Clone, Copy)]
pub struct TypeExprId(pub u32);
#[derive(Clone, Copy)]
pub struct NameId(pub u64);
#[derive(Clone, Copy)]
pub struct ExprId(pub u32);
#[derive(Clone, Copy)]
pub struct PatId(pub u32);
/*@type hir-js/src/hir.rs :: UnaryOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type hir-js/src/hir.rs :: UpdateOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type hir-js/src/hir.rs :: BinaryOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type hir-js/src/hir.rs :: AssignOp
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type hir-js/src/hir.rs :: Literal
@*/
/*@type hir-js/src/hir.rs :: CallArg
@*/
/*@type hir-js/src/hir.rs :: CallExpr
@*/
/*@type hir-js/src/hir.rs :: ObjectKey
@*/
/*@type hir-js/src/hir.rs :: MemberExpr
@*/
/*@type hir-js/src/hir.rs :: ArrayLiteral
@*/
/*@type hir-js/src/hir.rs :: ArrayElement
@*/
/*@type hir-js/src/hir.rs :: ObjectLiteral
@*/
/*@type hir-js/src/hir.rs :: ObjectProperty
@*/
/*@type hir-js/src/hir.rs :: TemplateLiteral
@*/
/*@type hir-js/src/hir.rs :: TemplateLiteralSpan
@*/
/*@type hir-js/src/hir.rs :: ExprKind
@*/
/*@type hir-js/src/hir.rs :: Expr
@*/
/*@type hir-js/src/hir.rs :: PatKind
@*/
/*@type hir-js/src/hir.rs :: Pat
@*/
/*@type hir-js/src/hir.rs :: ArrayPat
@*/
/*@type hir-js/src/hir.rs :: ArrayPatElement
@*/
/*@type hir-js/src/hir.rs :: ObjectPat
@*/
/*@type hir-js/src/hir.rs :: ObjectPatProp
@*/
/*@type hir-js/src/hir.rs :: FunctionBody
@*/
/*@type hir-js/src/hir.rs :: FunctionData
@*/
/*@type parse-js/src/operator.rs :: OperatorName
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type parse-js/src/operator.rs :: Associativity
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/precedence.rs :: Prec
#derive Clone, Copy
@*/
/*@type emit-js/src/precedence.rs :: Side
#derive Clone, Copy
@*/
/*@type emit-js/src/hir.rs :: StmtStartKeyword
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/hir.rs :: StmtStartToken
#derive Clone, Copy, PartialEq, Eq, Structural
@*/
/*@type emit-js/src/hir.rs :: StmtStartTokenPrefix
#derive Clone, Copy
@*/

// ---- the arenas and the emitter, assumed
pub uninterp spec fn expr_at(b: Body, id: ExprId) -> Expr;
pub uninterp spec fn pat_at(b: Body, id: PatId) -> Pat;
pub uninterp spec fn body_at(id: BodyId) -> Option<Body>;
spec fn function_of(b: Body) -> Option<FunctionData> { b.function }
/// the expression is a string once its type operators are taken away
pub uninterp spec fn stringy(b: Body, id: ExprId) -> bool;
/// what defines `stringy`: the arenas hold finite trees
#[verifier::external_body]
proof fn stringy_def(b: Body, id: ExprId)
  ensures stringy(b, id) == (match expr_at(b, id).kind {
    ExprKind::Literal(Literal::String(_)) => true,
    ExprKind::TypeAssertion { expr, .. } => stringy(b, expr),
    ExprKind::NonNull { expr } => stringy(b, expr),
    ExprKind::Satisfies { expr, .. } => stringy(b, expr),
    _ => false,
  })
{ }
/// a string in parentheses or beneath a type operator: a statement of it is not a directive
spec fn not_directive(b: Body, id: ExprId) -> bool {
  let e = expr_at(b, id);
  match e.kind {
    ExprKind::Literal(Literal::String(_)) => e.parenthesized,
    ExprKind::TypeAssertion { expr, .. } => stringy(b, expr),
    ExprKind::NonNull { expr } => stringy(b, expr),
    ExprKind::Satisfies { expr, .. } => stringy(b, expr),
    _ => false,
  }
}
/// the text of a number has no dot and no exponent
pub uninterp spec fn digits_only(s: Seq<char>) -> bool;
/// the expression is a number of digits alone once its type operators are taken away
pub uninterp spec fn int_end(b: Body, id: ExprId) -> bool;
#[verifier::external_body]
proof fn int_end_def(b: Body, id: ExprId)
  ensures int_end(b, id) == (match expr_at(b, id).kind {
    ExprKind::Literal(Literal::Number(n)) => digits_only(n@),
    ExprKind::TypeAssertion { expr, .. } => int_end(b, expr),
    ExprKind::NonNull { expr } => int_end(b, expr),
    ExprKind::Satisfies { expr, .. } => int_end(b, expr),
    _ => false,
  })
{ }
pub struct EmitError;
impl EmitError {
  #[verifier::external_body]
  fn unsupported(s: &'static str) -> EmitError { unimplemented!() }
}
pub type EmitResult = Result<(), EmitError>;
#[verifier::external_body]
pub struct HirContext<'a> { x: &'a u8 }
impl<'a> HirContext<'a> {
  #[verifier::external_body]
  fn expr<'b>(&self, body: &'b Body, id: ExprId) -> (r: &'b Expr) ensures *r == expr_at(*body, id) { unimplemented!() }
  #[verifier::external_body]
  fn pat<'b>(&self, body: &'b Body, id: PatId) -> (r: &'b Pat) ensures *r == pat_at(*body, id) { unimplemented!() }
  #[verifier::external_body]
  fn body(&self, id: BodyId) -> (r: Option<&'a Body>)
    ensures match r { Some(b) => body_at(id) == Some(*b), None => body_at(id) is None }
  { unimplemented!() }
  #[verifier::external_body]
  fn def(&self, id: DefId) -> Option<&'a DefData> { unimplemented!() }
  #[verifier::external_body]
  fn name(&self, id: NameId) -> &str { unimplemented!() }
}
spec fn as_arrow(f: FunctionData, a: bool) -> FunctionData { FunctionData { is_arrow: a, ..f } }
// `FunctionData { is_arrow, ..func.clone() }`
#[verifier::external_body]
fn with_arrow(f: &FunctionData, a: bool) -> (r: FunctionData) ensures r == as_arrow(*f, a) { unimplemented!() }
/// what is printed: punctuators, keywords, identifiers, literals and other text
pub enum T { P(Seq<char>), K(Seq<char>), I, A, S(Seq<char>), Other }
#[verifier::external_body]
pub struct Emitter { x: u8 }
impl Emitter {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  fn write_punct(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::P(s@)) { unimplemented!() }
  #[verifier::external_body]
  fn write_keyword(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::K(s@)) { unimplemented!() }
  #[verifier::external_body]
  fn write_identifier(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::I) { unimplemented!() }
  #[verifier::external_body]
  fn write_number(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::A) { unimplemented!() }
  #[verifier::external_body]
  fn write_bigint_literal(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::A) { unimplemented!() }
  #[verifier::external_body]
  fn opts(&self) -> &EmitOptions { unimplemented!() }
  #[verifier::external_body]
  fn minify(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  fn write_str(&mut self, s: &str) ensures final(self)@ == old(self)@.push(T::S(s@)) { unimplemented!() }
}
// the text of a string, regular expression or template part (C13, C14)
pub uninterp spec fn part_text(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
fn emit_string_literal_utf16(buf: &mut Vec<u8>, lossy: &str, units: Option<&[u16]>, q: QuoteStyle, minify: bool) { unimplemented!() }
#[verifier::external_body]
fn emit_string_literal(buf: &mut Vec<u8>, s: &str, q: QuoteStyle, minify: bool) { unimplemented!() }
#[verifier::external_body]
fn emit_regex_literal(buf: &mut Vec<u8>, s: &str) { unimplemented!() }
#[verifier::external_body]
fn emit_template_literal_segment(buf: &mut Vec<u8>, s: &str) ensures final(buf)@ == old(buf)@ + part_text(s@) { unimplemented!() }
// `std::str::from_utf8(..).expect(..)`
#[verifier::external_body]
fn utf8(buf: &Vec<u8>) -> (r: &str) ensures r@ == utf(buf@) { unimplemented!() }
// `code_units.as_deref()`
#[verifier::external_body]
fn units_of(s: &StringLiteral) -> Option<&[u16]> { unimplemented!() }
#[verifier::external_body]
fn requires_trailing_dot(s: &str) -> (r: bool) ensures r == digits_only(s@) { unimplemented!() }
// parts that are not looked into: parameter lists, statement lists, classes, JSX
spec fn grew(o: Seq<T>, n: Seq<T>) -> bool { o.len() <= n.len() && n.take(o.len() as int) == o }
spec fn tail(o: Seq<T>, n: Seq<T>) -> Seq<T> { n.skip(o.len() as int) }
pub uninterp spec fn params_d(b: Body, p: Seq<Param>, s: Seq<T>) -> bool;
pub uninterp spec fn block_d(s: Seq<T>) -> bool;
pub uninterp spec fn class_d(b: Body, s: Seq<T>) -> bool;
pub uninterp spec fn decorators_d(l: Seq<Decorator>, s: Seq<T>) -> bool;
pub uninterp spec fn jsx_d(s: Seq<T>) -> bool;
#[verifier::external_body]
fn emit_param_list(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, params: &[Param]) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && params_d(*body, params@, tail(old(em)@, final(em)@)) && tail(old(em)@, final(em)@).len() > 0 && tail(old(em)@, final(em)@)[0] == T::P("("@),
{ unimplemented!() }
#[verifier::external_body]
fn emit_function_body(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, func_body: &FunctionBody, force_block: bool) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && block_d(tail(old(em)@, final(em)@)),
{ unimplemented!() }
#[verifier::external_body]
fn emit_block_like(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmts: &[StmtId]) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && block_d(tail(old(em)@, final(em)@)),
{ unimplemented!() }
#[verifier::external_body]
fn emit_decorators(em: &mut Emitter, ctx: &HirContext<'_>, decorators: &[Decorator]) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && decorators_d(decorators@, tail(old(em)@, final(em)@)) && (tail(old(em)@, final(em)@).len() > 0 ==> tail(old(em)@, final(em)@)[0] == T::P("@"@)),
{ unimplemented!() }
#[verifier::external_body]
fn emit_class_like(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, name: Option<&str>, expr: bool) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && class_d(*body, tail(old(em)@, final(em)@)) && tail(old(em)@, final(em)@).len() > 0 && tail(old(em)@, final(em)@)[0] == T::K("class"@),
{ unimplemented!() }
#[verifier::external_body]
fn emit_jsx_elem(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, j: &JsxElement) -> (r: EmitResult)
  ensures r is Ok ==> grew(old(em)@, final(em)@) && jsx_d(tail(old(em)@, final(em)@)) && tail(old(em)@, final(em)@).len() > 0 && tail(old(em)@, final(em)@)[0] == T::P("<"@),
{ unimplemented!() }

// ---- specification: the levels of the ECMAScript expression grammar
pub enum N { Primary, Member, Call, Opt, Lhs, Update, Unary, Exp, Mul, Add, Shift, Rel, Equal, BitAnd, BitXor, BitOr, And, Or, Coalesce, Short, Cond, Assign, Comma }
spec fn lv(n: N) -> int {
  match n {
    N::Primary => 0, N::Member => 1, N::Call => 2, N::Opt => 2, N::Lhs => 3, N::Update => 4, N::Unary => 5, N::Exp => 6, N::Mul => 7, N::Add => 8, N::Shift => 9, N::Rel => 10,
    N::Equal => 11, N::BitAnd => 12, N::BitXor => 13, N::BitOr => 14, N::And => 15, N::Or => 16, N::Coalesce => 16, N::Short => 17, N::Cond => 18, N::Assign => 19, N::Comma => 20,
  }
}
/// every a is a b (no expression is at the levels Lhs and Short without being at a narrower one)
spec fn le(a: N, b: N) -> bool {
  (a == b && b != N::Lhs && b != N::Short) || (lv(a) < lv(b) && b != N::Opt && !(b == N::Coalesce && a == N::And))
}
spec fn bin_nt(op: BinaryOp) -> N {
  match op {
    BinaryOp::Add | BinaryOp::Subtract => N::Add,
    BinaryOp::Multiply | BinaryOp::Divide | BinaryOp::Remainder => N::Mul,
    BinaryOp::Exponent => N::Exp,
    BinaryOp::ShiftLeft | BinaryOp::ShiftRight | BinaryOp::ShiftRightUnsigned => N::Shift,
    BinaryOp::BitOr => N::BitOr, BinaryOp::BitAnd => N::BitAnd, BinaryOp::BitXor => N::BitXor,
    BinaryOp::LogicalOr => N::Or, BinaryOp::LogicalAnd => N::And, BinaryOp::NullishCoalescing => N::Coalesce,
    BinaryOp::Equality | BinaryOp::Inequality | BinaryOp::StrictEquality | BinaryOp::StrictInequality => N::Equal,
    BinaryOp::LessThan | BinaryOp::LessEqual | BinaryOp::GreaterThan | BinaryOp::GreaterEqual | BinaryOp::In | BinaryOp::Instanceof => N::Rel,
    BinaryOp::Comma => N::Comma,
  }
}
/// the levels of the operands: `a - b` is Additive - Multiplicative
spec fn left_nt(op: BinaryOp) -> N {
  match bin_nt(op) { N::Exp => N::Update, n => n }
}
spec fn right_nt(op: BinaryOp) -> N {
  match bin_nt(op) {
    N::Exp => N::Exp, N::Mul => N::Exp, N::Add => N::Mul, N::Shift => N::Add, N::Rel => N::Shift, N::Equal => N::Rel, N::BitAnd => N::Equal, N::BitXor => N::BitAnd, N::BitOr => N::BitXor,
    N::And => N::BitOr, N::Or => N::And, N::Coalesce => N::BitOr, _ => N::Assign,
  }
}
/// the left operand of ?? may be a ?? or a BitOr
spec fn left_ok(op: BinaryOp, n: N) -> bool { le(n, left_nt(op)) }

// ---- specification: the level of an expression when it is not in parentheses
pub uninterp spec fn rank(b: Body, id: ExprId) -> nat;
pub uninterp spec fn prank(b: Body, id: PatId) -> nat;
spec fn kind(b: Body, id: ExprId) -> ExprKind { expr_at(b, id).kind }
spec fn wrapped(k: ExprKind) -> Option<ExprId> {
  match k { ExprKind::TypeAssertion { expr, .. } => Some(expr), ExprKind::NonNull { expr } => Some(expr), ExprKind::Satisfies { expr, .. } => Some(expr), _ => None }
}
/// written in parentheses (type-only wrappers are not printed)
spec fn closed(b: Body, id: ExprId) -> bool
  decreases rank(b, id)
{
  expr_at(b, id).parenthesized || match wrapped(kind(b, id)) { Some(e) => rank(b, e) < rank(b, id) && closed(b, e), None => false }
}
/// the level of what is accessed, called or tagged, as it is printed there
spec fn recv(n: N, c: bool) -> N { if n == N::Opt { if c { N::Member } else { N::Opt } } else if n == N::Call { N::Call } else { N::Member } }
spec fn called(n: N) -> N { if n == N::Opt { N::Opt } else { N::Call } }
spec fn nt_of(b: Body, id: ExprId) -> N
  decreases rank(b, id)
{
  match kind(b, id) {
    ExprKind::FunctionExpr { is_arrow, .. } => if is_arrow { N::Assign } else { N::Primary },
    ExprKind::Literal(Literal::Undefined) => N::Unary,
    ExprKind::Unary { .. } | ExprKind::Await { .. } => N::Unary,
    ExprKind::Update { .. } => N::Update,
    ExprKind::Binary { op, .. } => bin_nt(op),
    ExprKind::Assignment { .. } | ExprKind::Yield { .. } => N::Assign,
    ExprKind::Conditional { .. } => N::Cond,
    ExprKind::Call(c) => if c.is_new { N::Member } else if c.optional { N::Opt } else if rank(b, c.callee) < rank(b, id) { called(recv(nt_of(b, c.callee), closed(b, c.callee))) } else { arbitrary() },
    ExprKind::Member(m) => if m.optional { N::Opt } else if rank(b, m.object) < rank(b, id) { recv(nt_of(b, m.object), closed(b, m.object)) } else { arbitrary() },
    ExprKind::TaggedTemplate { tag, .. } => if rank(b, tag) < rank(b, id) { recv(nt_of(b, tag), closed(b, tag)) } else { arbitrary() },
    ExprKind::ImportCall { .. } => N::Call,
    ExprKind::ImportMeta | ExprKind::NewTarget => N::Member,
    ExprKind::TypeAssertion { expr, .. } | ExprKind::NonNull { expr } | ExprKind::Satisfies { expr, .. } => if rank(b, expr) < rank(b, id) { nt_of(b, expr) } else { arbitrary() },
    _ => N::Primary,
  }
}
/// how the text of an expression may begin: 1 with a brace, 2 with `function`, `class` or a decorator
spec fn begins(b: Body, id: ExprId) -> int
  decreases rank(b, id)
{
  match kind(b, id) {
    ExprKind::Object(_) => 1,
    ExprKind::ClassExpr { .. } => 2,
    ExprKind::FunctionExpr { is_arrow, .. } => if is_arrow { 0 } else { 2 },
    ExprKind::Member(m) => if rank(b, m.object) < rank(b, id) { begins(b, m.object) } else { 0 },
    ExprKind::Call(c) => if !c.is_new && rank(b, c.callee) < rank(b, id) { begins(b, c.callee) } else { 0 },
    ExprKind::TaggedTemplate { tag, .. } => if rank(b, tag) < rank(b, id) { begins(b, tag) } else { 0 },
    ExprKind::Binary { left, .. } => if rank(b, left) < rank(b, id) { begins(b, left) } else { 0 },
    ExprKind::Conditional { test, .. } => if rank(b, test) < rank(b, id) { begins(b, test) } else { 0 },
    ExprKind::Update { expr, prefix, .. } => if !prefix && rank(b, expr) < rank(b, id) { begins(b, expr) } else { 0 },
    ExprKind::Assignment { target, .. } => if prank(b, target) < rank(b, id) { pbegins(b, target) } else { 0 },
    ExprKind::TypeAssertion { expr, .. } | ExprKind::NonNull { expr } | ExprKind::Satisfies { expr, .. } => if rank(b, expr) < rank(b, id) { begins(b, expr) } else { 0 },
    _ => 0,
  }
}
spec fn pbegins(b: Body, id: PatId) -> int
  decreases prank(b, id)
{
  match pat_at(b, id).kind {
    PatKind::Object(_) => 1,
    PatKind::AssignTarget(e) => if rank(b, e) < prank(b, id) { begins(b, e) } else { 0 },
    PatKind::Assign { target, .. } => if prank(b, target) < prank(b, id) { pbegins(b, target) } else { 0 },
    _ => 0,
  }
}
spec fn first(t: T) -> int {
  if t == T::P("{"@) { 1 } else if t == T::K("function"@) || t == T::K("class"@) || t == T::P("@"@) { 2 } else { 0 }
}
spec fn starts(s: Seq<T>, k: int) -> bool { s.len() > 0 && (first(s[0]) == 0 || first(s[0]) == k) }

// ---- assumed of what the parser and lowering produce
/// expressions and patterns are trees, and
/// what is updated, assigned to, tagged or made by `new` is what the grammar allows there
#[verifier::external_body]
proof fn tree(b: Body, id: ExprId)
  ensures match kind(b, id) {
    ExprKind::Call(c) => rank(b, c.callee) < rank(b, id) && !(c.is_new && c.optional),
    ExprKind::Member(m) => rank(b, m.object) < rank(b, id),
    ExprKind::TaggedTemplate { tag, .. } => rank(b, tag) < rank(b, id) && !(nt_of(b, tag) == N::Opt && !closed(b, tag)),
    ExprKind::Binary { left, right, .. } => rank(b, left) < rank(b, id) && rank(b, right) < rank(b, id),
    ExprKind::Conditional { test, .. } => rank(b, test) < rank(b, id),
    ExprKind::Update { expr, .. } => rank(b, expr) < rank(b, id) && le(nt_of(b, expr), N::Lhs),
    ExprKind::Assignment { target, .. } => prank(b, target) < rank(b, id),
    ExprKind::TypeAssertion { expr, .. } => rank(b, expr) < rank(b, id),
    ExprKind::NonNull { expr } => rank(b, expr) < rank(b, id),
    ExprKind::Satisfies { expr, .. } => rank(b, expr) < rank(b, id),
    _ => true,
  },
{ }
#[verifier::external_body]
proof fn ptree(b: Body, id: PatId)
  ensures match pat_at(b, id).kind {
    PatKind::AssignTarget(e) => rank(b, e) < prank(b, id) && le(nt_of(b, e), N::Lhs),
    PatKind::Assign { target, .. } => prank(b, target) < prank(b, id),
    _ => true,
  },
{ }

// ---- specification: the grammar.  d(b, e, n, s): the tokens s are derived from the level n as the
// expression e; the least relation closed under the rules r_*
pub uninterp spec fn d(b: Body, id: ExprId, n: N, s: Seq<T>) -> bool;
pub uninterp spec fn pat_d(b: Body, id: PatId, s: Seq<T>) -> bool;
pub uninterp spec fn paren(b: Body, id: ExprId, s: Seq<T>) -> bool;
spec fn at(b: Body, id: ExprId, n: N, s: Seq<T>) -> bool { d(b, id, n, s) || paren(b, id, s) }
spec fn lp() -> Seq<T> { seq![T::P("("@)] }
spec fn rp() -> Seq<T> { seq![T::P(")"@)] }
#[verifier::external_body]
proof fn r_sub(b: Body, id: ExprId, n: N, m: N, s: Seq<T>) requires d(b, id, n, s), le(n, m) ensures d(b, id, m, s) { }
#[verifier::external_body]
proof fn r_paren(b: Body, id: ExprId, s: Seq<T>) requires d(b, id, N::Comma, s) ensures paren(b, id, lp() + s + rp()) { }
/// parentheses around what is in parentheses
#[verifier::external_body]
proof fn paren_twice(b: Body, id: ExprId, s: Seq<T>) requires at(b, id, N::Comma, s) ensures paren(b, id, lp() + s + rp()) { }
/// what is accessed, called or tagged: an optional chain goes on unless it was in parentheses
spec fn receiver(b: Body, id: ExprId, s: Seq<T>) -> bool {
  let n = nt_of(b, id);
  if n == N::Opt { if closed(b, id) { paren(b, id, s) } else { d(b, id, n, s) } } else { (le(n, N::Call) && d(b, id, n, s)) || paren(b, id, s) }
}
spec fn rnt(b: Body, id: ExprId) -> N { recv(nt_of(b, id), closed(b, id)) }
spec fn atom(k: ExprKind, s: Seq<T>) -> bool {
  match k {
    ExprKind::Ident(_) => s == seq![T::I],
    ExprKind::This => s == seq![T::K("this"@)],
    ExprKind::Super => s == seq![T::K("super"@)],
    ExprKind::Literal(l) => lit_p(l, s),
    ExprKind::ImportMeta => s == seq![T::S("import.meta"@)],
    ExprKind::NewTarget => s == seq![T::S("new.target"@)],
    ExprKind::Jsx(_) => jsx_d(s),
    _ => false,
  }
}
spec fn lit_p(l: Literal, s: Seq<T>) -> bool {
  match l {
    Literal::Boolean(b) => s == seq![T::K(if b { "true"@ } else { "false"@ })],
    Literal::Null => s == seq![T::K("null"@)],
    Literal::Undefined => s == seq![T::K("void"@), T::A],
    Literal::String(_) | Literal::Regex(_) => s.len() == 1 && s[0] is S,
    _ => s == seq![T::A],
  }
}
#[verifier::external_body]
proof fn r_atom(b: Body, id: ExprId, s: Seq<T>) requires atom(kind(b, id), s) ensures d(b, id, nt_of(b, id), s) { }
#[verifier::external_body]
proof fn r_class(b: Body, id: ExprId, g: Body, l: Seq<Decorator>, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::ClassExpr { body, .. } && body_at(body) == Some(g) && class_d(g, y) && (x.len() == 0 || decorators_d(l, x))
  ensures d(b, id, N::Primary, x + y) { }
/// type-only wrappers are erased
#[verifier::external_body]
proof fn r_erase(b: Body, id: ExprId, e: ExprId, n: N, s: Seq<T>) requires wrapped(kind(b, id)) == Some(e), d(b, e, n, s) ensures d(b, id, n, s) { }
spec fn unary_p(b: Body, op: UnaryOp, e: ExprId, s: Seq<T>) -> bool { s.len() > 0 && s[0] == unary_t(op) && at(b, e, N::Unary, s.skip(1)) }
#[verifier::external_body]
proof fn r_unary(b: Body, id: ExprId, s: Seq<T>)
  requires match kind(b, id) { ExprKind::Unary { op, expr } => unary_p(b, op, expr, s), ExprKind::Await { expr } => s.len() > 0 && s[0] == T::K("await"@) && at(b, expr, N::Unary, s.skip(1)), _ => false }
  ensures d(b, id, N::Unary, s) { }
spec fn update_p(b: Body, op: UpdateOp, prefix: bool, e: ExprId, s: Seq<T>) -> bool {
  s.len() > 0 && if prefix { s[0] == update_t(op) && at(b, e, N::Unary, s.skip(1)) } else { s.last() == update_t(op) && at(b, e, N::Lhs, s.drop_last()) }
}
#[verifier::external_body]
proof fn r_update(b: Body, id: ExprId, s: Seq<T>)
  requires kind(b, id) matches ExprKind::Update { op, expr, prefix } && update_p(b, op, prefix, expr, s)
  ensures d(b, id, N::Update, s) { }
/// a binary expression; ?? and the others do not mix
spec fn binary_p(b: Body, op: BinaryOp, l: ExprId, r: ExprId, s: Seq<T>, x: Seq<T>, y: Seq<T>) -> bool {
  s == x + seq![binary_t(op)] + y && at(b, r, right_nt(op), y)
  && (at(b, l, left_nt(op), x) || (op == BinaryOp::NullishCoalescing && at(b, l, N::BitOr, x)))
}
#[verifier::external_body]
proof fn r_binary(b: Body, id: ExprId, s: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::Binary { op, left, right } && binary_p(b, op, left, right, s, x, y)
  ensures d(b, id, nt_of(b, id), s) { }
#[verifier::external_body]
proof fn r_assign(b: Body, id: ExprId, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::Assignment { op, target, value } && pat_d(b, target, x) && at(b, value, N::Assign, y)
  ensures kind(b, id) matches ExprKind::Assignment { op, target, value } && d(b, id, N::Assign, x + seq![assign_t(op)] + y) { }
#[verifier::external_body]
proof fn r_cond(b: Body, id: ExprId, x: Seq<T>, y: Seq<T>, z: Seq<T>)
  requires kind(b, id) matches ExprKind::Conditional { test, consequent, alternate } && at(b, test, N::Short, x) && at(b, consequent, N::Assign, y) && at(b, alternate, N::Assign, z)
  ensures d(b, id, N::Cond, x + seq![T::P("?"@)] + y + seq![T::P(":"@)] + z) { }
#[verifier::external_body]
proof fn r_yield(b: Body, id: ExprId, s: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::Yield { expr, delegate } && s == (if delegate { seq![T::K("yield"@), T::P("*"@)] } else { seq![T::K("yield"@)] }) + y
    && match expr { Some(e) => at(b, e, N::Assign, y), None => y.len() == 0 }
  ensures d(b, id, N::Assign, s) { }
spec fn name_p(k: ObjectKey, s: Seq<T>) -> bool { s.len() == 1 && match k { ObjectKey::Ident(_) => s[0] == T::I, ObjectKey::String(_) => s[0] is S, ObjectKey::Number(_) => s[0] == T::A, _ => false } }
/// what is between the brackets of an access
spec fn inner_p(b: Body, k: ObjectKey, s: Seq<T>) -> bool { match k { ObjectKey::Computed(e) => at(b, e, N::Comma, s), _ => name_p(k, s) } }
/// .name, ?.name, [expression] or ?.[expression]; a number of digits alone takes one more dot
spec fn access_p(b: Body, m: MemberExpr, s: Seq<T>) -> bool {
  match m.property {
    ObjectKey::Ident(_) => s == if m.optional { seq![T::P("?."@), T::I] } else if int_end(b, m.object) { seq![T::P("."@), T::P("."@), T::I] } else { seq![T::P("."@), T::I] },
    p => s.len() >= 2 && s[0] == (if m.optional { T::S("?.["@) } else { T::P("["@) }) && s.last() == T::P("]"@)
      && inner_p(b, p, s.subrange(1, s.len() - 1)),
  }
}
#[verifier::external_body]
proof fn r_member(b: Body, id: ExprId, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::Member(m) && receiver(b, m.object, x) && access_p(b, m, y)
  ensures kind(b, id) matches ExprKind::Member(m) && d(b, id, if m.optional { N::Opt } else { rnt(b, m.object) }, x + y) { }
/// elements between commas
pub uninterp spec fn args_d(b: Body, a: Seq<CallArg>, n: int, s: Seq<T>) -> bool;
spec fn sep(n: int) -> Seq<T> { if n > 0 { seq![T::P(","@)] } else { seq![] } }
spec fn dots(y: bool) -> Seq<T> { if y { seq![T::P("..."@)] } else { seq![] } }
#[verifier::external_body]
proof fn r_no_args(b: Body, a: Seq<CallArg>) ensures args_d(b, a, 0, seq![]) { }
#[verifier::external_body]
proof fn r_arg(b: Body, a: Seq<CallArg>, n: int, s: Seq<T>, x: Seq<T>)
  requires 0 <= n < a.len(), args_d(b, a, n, s), at(b, a[n].expr, N::Assign, x)
  ensures args_d(b, a, n + 1, s + sep(n) + dots(a[n].spread) + x) { }
/// the callee of new must not take over its arguments
spec fn callee_p(b: Body, c: CallExpr, s: Seq<T>) -> bool {
  if c.is_new { d(b, c.callee, N::Member, s) || paren(b, c.callee, s) } else { receiver(b, c.callee, s) }
}
spec fn call_p(b: Body, c: CallExpr, s: Seq<T>, x: Seq<T>, y: Seq<T>) -> bool {
  s == (if c.is_new { seq![T::K("new"@)] } else { seq![] }) + x + seq![if c.optional { T::S("?.("@) } else { T::P("("@) }] + y + rp() && callee_p(b, c, x) && args_d(b, c.args@, c.args@.len() as int, y)
}
spec fn call_nt(b: Body, c: CallExpr) -> N { if c.is_new { N::Member } else if c.optional { N::Opt } else { called(rnt(b, c.callee)) } }
#[verifier::external_body]
proof fn r_call(b: Body, id: ExprId, s: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::Call(c) && call_p(b, c, s, x, y)
  ensures kind(b, id) matches ExprKind::Call(c) && d(b, id, call_nt(b, c), s) { }
#[verifier::external_body]
proof fn r_import(b: Body, id: ExprId, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::ImportCall { argument, attributes } && at(b, argument, N::Assign, x) && match attributes { Some(e) => y.len() > 0 && y[0] == T::P(","@) && at(b, e, N::Assign, y.skip(1)), None => y.len() == 0 }
  ensures d(b, id, N::Call, seq![T::K("import"@), T::P("("@)] + x + y + rp()) { }
// an elision is a comma after it: what is last needs one of its own
spec fn hole(last: bool) -> Seq<T> { if last { seq![T::P(","@)] } else { seq![] } }
pub uninterp spec fn elems_d(b: Body, a: Seq<ArrayElement>, n: int, s: Seq<T>) -> bool;
#[verifier::external_body]
proof fn r_no_elems(b: Body, a: Seq<ArrayElement>) ensures elems_d(b, a, 0, seq![]) { }
#[verifier::external_body]
proof fn r_elem(b: Body, a: Seq<ArrayElement>, n: int, s: Seq<T>, x: Seq<T>)
  requires 0 <= n < a.len(), elems_d(b, a, n, s),
    match a[n] { ArrayElement::Expr(e) => at(b, e, N::Assign, x), ArrayElement::Spread(e) => x.len() > 0 && x[0] == T::P("..."@) && at(b, e, N::Assign, x.skip(1)), ArrayElement::Empty => x == hole(n + 1 == a.len()) }
  ensures elems_d(b, a, n + 1, s + sep(n) + x) { }
#[verifier::external_body]
proof fn r_array(b: Body, id: ExprId, x: Seq<T>)
  requires kind(b, id) matches ExprKind::Array(a) && elems_d(b, a.elements@, a.elements@.len() as int, x)
  ensures d(b, id, N::Primary, seq![T::P("["@)] + x + seq![T::P("]"@)]) { }
spec fn key_p(b: Body, k: ObjectKey, s: Seq<T>) -> bool {
  match k {
    ObjectKey::Computed(e) => s.len() >= 2 && s[0] == T::P("["@) && s.last() == T::P("]"@) && at(b, e, N::Assign, s.subrange(1, s.len() - 1)),
    k => name_p(k, s),
  }
}
pub uninterp spec fn props_d(b: Body, a: Seq<ObjectProperty>, n: int, s: Seq<T>) -> bool;
#[verifier::external_body]
proof fn r_no_props(b: Body, a: Seq<ObjectProperty>) ensures props_d(b, a, 0, seq![]) { }
#[verifier::external_body]
proof fn r_prop(b: Body, a: Seq<ObjectProperty>, n: int, s: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires 0 <= n < a.len(), props_d(b, a, n, s),
    match a[n] {
      ObjectProperty::KeyValue { key, value, method, shorthand } => !(method && kind(b, value) is FunctionExpr) && key_p(b, key, x) && (if shorthand && !method { y.len() == 0 } else { y.len() > 0 && y[0] == T::P(":"@) && at(b, value, N::Assign, y.skip(1)) }),
      ObjectProperty::Spread(e) => x == dots(true) && at(b, e, N::Assign, y),
      _ => false,
    },
  ensures props_d(b, a, n + 1, s + sep(n) + x + y) { }
/// parameters and body
spec fn accessor_p(g: Body, s: Seq<T>) -> bool {
  match function_of(g) { Some(f) => exists|p: Seq<T>, y: Seq<T>| #[trigger] (p + y) == s && params_d(g, f.params@, p) && block_d(y), None => block_d(s) }
}
spec fn head_t(f: FunctionData) -> Seq<T> { (if f.async_ { seq![T::K("async"@)] } else { seq![] }) + (if f.generator { seq![T::P("*"@)] } else { seq![] }) }
/// methods and accessors: what comes before the key, the key, parameters and body
#[verifier::external_body]
proof fn r_method(b: Body, a: Seq<ObjectProperty>, n: int, s: Seq<T>, h: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires 0 <= n < a.len(), props_d(b, a, n, s),
    match a[n] {
      ObjectProperty::KeyValue { key, value, method, .. } => method && key_p(b, key, x) && (kind(b, value) matches ExprKind::FunctionExpr { body, .. } && body_at(body) is Some && function_of(body_at(body)->0) is Some
        && h == head_t(function_of(body_at(body)->0)->0) && accessor_p(body_at(body)->0, y)),
      ObjectProperty::Getter { key, body } => h == seq![T::K("get"@)] && key_p(b, key, x) && body_at(body) is Some && accessor_p(body_at(body)->0, y),
      ObjectProperty::Setter { key, body } => h == seq![T::K("set"@)] && key_p(b, key, x) && body_at(body) is Some && accessor_p(body_at(body)->0, y),
      _ => false,
    },
  ensures props_d(b, a, n + 1, s + sep(n) + h + x + y) { }
#[verifier::external_body]
proof fn r_object(b: Body, id: ExprId, x: Seq<T>)
  requires kind(b, id) matches ExprKind::Object(a) && props_d(b, a.properties@, a.properties@.len() as int, x)
  ensures d(b, id, N::Primary, seq![T::P("{"@)] + x + seq![T::P("}"@)]) { }
pub uninterp spec fn spans_d(b: Body, a: Seq<TemplateLiteralSpan>, n: int, s: Seq<T>) -> bool;
#[verifier::external_body]
proof fn r_no_spans(b: Body, t: TemplateLiteral) ensures spans_d(b, t.spans@, 0, seq![T::P("`"@), T::S(utf(part_text(t.head@)))]) { }
#[verifier::external_body]
proof fn r_span(b: Body, a: Seq<TemplateLiteralSpan>, n: int, s: Seq<T>, x: Seq<T>)
  requires 0 <= n < a.len(), spans_d(b, a, n, s), at(b, a[n].expr, N::Comma, x)
  ensures spans_d(b, a, n + 1, s + seq![T::P("${"@)] + x + seq![T::P("}"@), T::S(utf(part_text(a[n].literal@)))]) { }
spec fn template_p(b: Body, t: TemplateLiteral, s: Seq<T>) -> bool { s.len() > 1 && s[0] == T::P("`"@) && s.last() == T::P("`"@) && spans_d(b, t.spans@, t.spans@.len() as int, s.drop_last()) }
#[verifier::external_body]
proof fn r_template(b: Body, id: ExprId, s: Seq<T>)
  requires kind(b, id) matches ExprKind::Template(t) && template_p(b, t, s) ensures d(b, id, N::Primary, s) { }
#[verifier::external_body]
proof fn r_tagged(b: Body, id: ExprId, x: Seq<T>, y: Seq<T>)
  requires kind(b, id) matches ExprKind::TaggedTemplate { tag, template } && receiver(b, tag, x) && rnt(b, tag) != N::Opt && template_p(b, template, y)
  ensures kind(b, id) matches ExprKind::TaggedTemplate { tag, template } && d(b, id, rnt(b, tag), x + y) { }
/// functions: an arrow's body is a block, or a value that does not begin with a brace
spec fn fhead(f: FunctionData, named: bool) -> Seq<T> {
  if f.is_arrow { if f.async_ { seq![T::K("async"@)] } else { seq![] } }
  else { (if f.async_ { seq![T::K("async"@), T::K("function"@)] } else { seq![T::K("function"@)] }) + (if f.generator { seq![T::P("*"@)] } else { seq![] }) + (if named { seq![T::I] } else { seq![] }) }
}
spec fn function_p(b: Body, f: FunctionData, named: bool, s: Seq<T>, p: Seq<T>, y: Seq<T>) -> bool {
  params_d(b, f.params@, p) && if f.is_arrow {
    s == fhead(f, named) + p + seq![T::P("=>"@)] + y
    && match f.body { FunctionBody::Expr(e) => at(b, e, N::Assign, y) && y.len() > 0 && first(y[0]) != 1, FunctionBody::Block(_) => block_d(y) }
  } else {
    s == fhead(f, named) + p + y && block_d(y)
  }
}
spec fn function_d(b: Body, f: FunctionData, named: bool, s: Seq<T>) -> bool { exists|p: Seq<T>, y: Seq<T>| function_p(b, f, named, s, p, y) }
#[verifier::external_body]
proof fn r_function(b: Body, id: ExprId, g: Body, f: FunctionData, s: Seq<T>)
  requires kind(b, id) matches ExprKind::FunctionExpr { body, is_arrow, name, .. } && body_at(body) == Some(g) && function_of(g) == Some(f) && function_d(g, as_arrow(f, is_arrow), name is Some, s)
  ensures d(b, id, nt_of(b, id), s) { }
// patterns
#[verifier::external_body]
proof fn r_pat_name(b: Body, id: PatId) requires pat_at(b, id).kind is Ident ensures pat_d(b, id, seq![T::I]) { }
#[verifier::external_body]
proof fn r_pat_target(b: Body, id: PatId, s: Seq<T>) requires pat_at(b, id).kind matches PatKind::AssignTarget(e) && at(b, e, N::Lhs, s) ensures pat_d(b, id, s) { }
#[verifier::external_body]
proof fn r_pat_rest(b: Body, id: PatId, s: Seq<T>) requires pat_at(b, id).kind matches PatKind::Rest(p) && pat_d(b, *p, s) ensures pat_d(b, id, dots(true) + s) { }
#[verifier::external_body]
proof fn r_pat_default(b: Body, id: PatId, x: Seq<T>, y: Seq<T>)
  requires pat_at(b, id).kind matches PatKind::Assign { target, default_value } && pat_d(b, target, x) && at(b, default_value, N::Assign, y)
  ensures pat_d(b, id, x + seq![T::P("="@)] + y) { }
spec fn default_p(b: Body, e: Option<ExprId>, s: Seq<T>) -> bool { match e { Some(e) => s.len() > 0 && s[0] == T::P("="@) && at(b, e, N::Assign, s.skip(1)), None => s.len() == 0 } }
pub uninterp spec fn pelems_d(b: Body, a: Seq<Option<ArrayPatElement>>, rest: bool, n: int, s: Seq<T>) -> bool;
#[verifier::external_body]
proof fn r_no_pelems(b: Body, a: Seq<Option<ArrayPatElement>>, rest: bool) ensures pelems_d(b, a, rest, 0, seq![]) { }
#[verifier::external_body]
proof fn r_pelem(b: Body, a: Seq<Option<ArrayPatElement>>, rest: bool, n: int, s: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires 0 <= n < a.len(), pelems_d(b, a, rest, n, s), match a[n] { Some(p) => pat_d(b, p.pat, x) && default_p(b, p.default_value, y), None => x == hole(n + 1 == a.len() && !rest) && y.len() == 0 }
  ensures pelems_d(b, a, rest, n + 1, s + sep(n) + x + y) { }
/// the rest element, after a comma unless it is alone
spec fn prest(b: Body, r: Option<PatId>, n: int, s: Seq<T>) -> bool {
  match r { Some(p) => s.len() > sep(n).len() && s.take(sep(n).len() as int) == sep(n) && s[sep(n).len() as int] == T::P("..."@) && pat_d(b, p, s.skip(sep(n).len() as int + 1)), None => s.len() == 0 }
}
#[verifier::external_body]
proof fn r_pat_array(b: Body, id: PatId, x: Seq<T>, y: Seq<T>)
  requires pat_at(b, id).kind matches PatKind::Array(a) && pelems_d(b, a.elements@, a.rest is Some, a.elements@.len() as int, x) && prest(b, a.rest, a.elements@.len() as int, y)
  ensures pat_d(b, id, seq![T::P("["@)] + x + y + seq![T::P("]"@)]) { }
pub uninterp spec fn pprops_d(b: Body, a: Seq<ObjectPatProp>, n: int, s: Seq<T>) -> bool;
#[verifier::external_body]
proof fn r_no_pprops(b: Body, a: Seq<ObjectPatProp>) ensures pprops_d(b, a, 0, seq![]) { }
#[verifier::external_body]
proof fn r_pprop(b: Body, a: Seq<ObjectPatProp>, n: int, s: Seq<T>, k: Seq<T>, x: Seq<T>, y: Seq<T>)
  requires 0 <= n < a.len(), pprops_d(b, a, n, s), key_p(b, a[n].key, k), if a[n].shorthand { x.len() == 0 } else { x.len() > 0 && x[0] == T::P(":"@) && pat_d(b, a[n].value, x.skip(1)) }, default_p(b, a[n].default_value, y)
  ensures pprops_d(b, a, n + 1, s + sep(n) + k + x + y) { }
#[verifier::external_body]
proof fn r_pat_object(b: Body, id: PatId, x: Seq<T>, y: Seq<T>)
  requires pat_at(b, id).kind matches PatKind::Object(a) && pprops_d(b, a.props@, a.props@.len() as int, x) && prest(b, a.rest, a.props@.len() as int, y)
  ensures pat_d(b, id, seq![T::P("{"@)] + x + y + seq![T::P("}"@)]) { }

// ---- specification: operators and their tokens
spec fn bop(op: BinaryOp) -> OperatorName {
  match op {
    BinaryOp::Add => OperatorName::Addition, BinaryOp::Subtract => OperatorName::Subtraction, BinaryOp::Multiply => OperatorName::Multiplication, BinaryOp::Divide => OperatorName::Division,
    BinaryOp::Remainder => OperatorName::Remainder, BinaryOp::Exponent => OperatorName::Exponentiation, BinaryOp::ShiftLeft => OperatorName::BitwiseLeftShift, BinaryOp::ShiftRight => OperatorName::BitwiseRightShift,
    BinaryOp::ShiftRightUnsigned => OperatorName::BitwiseUnsignedRightShift, BinaryOp::BitOr => OperatorName::BitwiseOr, BinaryOp::BitAnd => OperatorName::BitwiseAnd, BinaryOp::BitXor => OperatorName::BitwiseXor,
    BinaryOp::LogicalOr => OperatorName::LogicalOr, BinaryOp::LogicalAnd => OperatorName::LogicalAnd, BinaryOp::NullishCoalescing => OperatorName::NullishCoalescing, BinaryOp::Equality => OperatorName::Equality,
    BinaryOp::Inequality => OperatorName::Inequality, BinaryOp::StrictEquality => OperatorName::StrictEquality, BinaryOp::StrictInequality => OperatorName::StrictInequality, BinaryOp::LessThan => OperatorName::LessThan,
    BinaryOp::LessEqual => OperatorName::LessThanOrEqual, BinaryOp::GreaterThan => OperatorName::GreaterThan, BinaryOp::GreaterEqual => OperatorName::GreaterThanOrEqual, BinaryOp::In => OperatorName::In,
    BinaryOp::Instanceof => OperatorName::Instanceof, BinaryOp::Comma => OperatorName::Comma,
  }
}
spec fn uop(op: UnaryOp) -> OperatorName {
  match op {
    UnaryOp::Not => OperatorName::LogicalNot, UnaryOp::BitNot => OperatorName::BitwiseNot, UnaryOp::Plus => OperatorName::UnaryPlus, UnaryOp::Minus => OperatorName::UnaryNegation,
    UnaryOp::Typeof => OperatorName::Typeof, UnaryOp::Void => OperatorName::Void, UnaryOp::Delete => OperatorName::Delete, UnaryOp::Await => OperatorName::Await,
  }
}
/// the token of an operator
spec fn op_t(op: OperatorName) -> Option<T> {
  match op {
    OperatorName::LogicalNot => Some(T::P("!"@)), OperatorName::BitwiseNot => Some(T::P("~"@)), OperatorName::UnaryPlus => Some(T::P("+"@)), OperatorName::UnaryNegation => Some(T::P("-"@)),
    OperatorName::Typeof => Some(T::K("typeof"@)), OperatorName::Void => Some(T::K("void"@)), OperatorName::Delete => Some(T::K("delete"@)), OperatorName::Await => Some(T::K("await"@)),
    OperatorName::PrefixIncrement | OperatorName::PostfixIncrement => Some(T::P("++"@)), OperatorName::PrefixDecrement | OperatorName::PostfixDecrement => Some(T::P("--"@)),
    OperatorName::Addition => Some(T::P("+"@)), OperatorName::Subtraction => Some(T::P("-"@)), OperatorName::Multiplication => Some(T::P("*"@)), OperatorName::Division => Some(T::P("/"@)),
    OperatorName::Remainder => Some(T::P("%"@)), OperatorName::Exponentiation => Some(T::P("**"@)), OperatorName::BitwiseLeftShift => Some(T::P("<<"@)), OperatorName::BitwiseRightShift => Some(T::P(">>"@)),
    OperatorName::BitwiseUnsignedRightShift => Some(T::P(">>>"@)), OperatorName::BitwiseOr => Some(T::P("|"@)), OperatorName::BitwiseAnd => Some(T::P("&"@)), OperatorName::BitwiseXor => Some(T::P("^"@)),
    OperatorName::LogicalOr => Some(T::P("||"@)), OperatorName::LogicalAnd => Some(T::P("&&"@)), OperatorName::NullishCoalescing => Some(T::P("??"@)), OperatorName::Equality => Some(T::P("=="@)),
    OperatorName::Inequality => Some(T::P("!="@)), OperatorName::StrictEquality => Some(T::P("==="@)), OperatorName::StrictInequality => Some(T::P("!=="@)), OperatorName::LessThan => Some(T::P("<"@)),
    OperatorName::LessThanOrEqual => Some(T::P("<="@)), OperatorName::GreaterThan => Some(T::P(">"@)), OperatorName::GreaterThanOrEqual => Some(T::P(">="@)), OperatorName::In => Some(T::K("in"@)),
    OperatorName::Instanceof => Some(T::K("instanceof"@)), OperatorName::Comma => Some(T::P(","@)),
    _ => None,
  }
}
spec fn binary_t(op: BinaryOp) -> T { op_t(bop(op))->0 }
spec fn unary_t(op: UnaryOp) -> T { op_t(uop(op))->0 }
spec fn update_t(op: UpdateOp) -> T { match op { UpdateOp::Increment => T::P("++"@), UpdateOp::Decrement => T::P("--"@) } }
spec fn assign_t(op: AssignOp) -> T {
  T::P(match op {
    AssignOp::Assign => "="@, AssignOp::AddAssign => "+="@, AssignOp::SubAssign => "-="@, AssignOp::MulAssign => "*="@, AssignOp::DivAssign => "/="@, AssignOp::RemAssign => "%="@,
    AssignOp::ShiftLeftAssign => "<<="@, AssignOp::ShiftRightAssign => ">>="@, AssignOp::ShiftRightUnsignedAssign => ">>>="@, AssignOp::BitOrAssign => "|="@, AssignOp::BitAndAssign => "&="@,
    AssignOp::BitXorAssign => "^="@, AssignOp::LogicalAndAssign => "&&="@, AssignOp::LogicalOrAssign => "||="@, AssignOp::NullishAssign => "??="@, AssignOp::ExponentAssign => "**="@,
  })
}
/// the precedence table of parse-js (the driver compares it with the real one, entry by entry)
spec fn prec_of(op: OperatorName) -> int {
  match op {
    OperatorName::PostfixIncrement | OperatorName::PostfixDecrement => 17,
    OperatorName::LogicalNot | OperatorName::BitwiseNot | OperatorName::UnaryPlus | OperatorName::UnaryNegation | OperatorName::PrefixIncrement | OperatorName::PrefixDecrement
    | OperatorName::Typeof | OperatorName::Void | OperatorName::Delete | OperatorName::Await => 16,
    OperatorName::Exponentiation => 15,
    OperatorName::Multiplication | OperatorName::Division | OperatorName::Remainder => 14,
    OperatorName::Addition | OperatorName::Subtraction => 13,
    OperatorName::BitwiseLeftShift | OperatorName::BitwiseRightShift | OperatorName::BitwiseUnsignedRightShift => 12,
    OperatorName::LessThan | OperatorName::LessThanOrEqual | OperatorName::GreaterThan | OperatorName::GreaterThanOrEqual | OperatorName::In | OperatorName::Instanceof => 11,
    OperatorName::Equality | OperatorName::Inequality | OperatorName::StrictEquality | OperatorName::StrictInequality => 10,
    OperatorName::BitwiseAnd => 9, OperatorName::BitwiseXor => 8, OperatorName::BitwiseOr => 7, OperatorName::LogicalAnd => 6,
    OperatorName::LogicalOr | OperatorName::NullishCoalescing => 5,
    OperatorName::Conditional => 4,
    OperatorName::Assignment | OperatorName::AssignmentAddition | OperatorName::AssignmentBitwiseAnd | OperatorName::AssignmentBitwiseLeftShift | OperatorName::AssignmentBitwiseOr
    | OperatorName::AssignmentBitwiseRightShift | OperatorName::AssignmentBitwiseUnsignedRightShift | OperatorName::AssignmentBitwiseXor | OperatorName::AssignmentDivision
    | OperatorName::AssignmentExponentiation | OperatorName::AssignmentLogicalAnd | OperatorName::AssignmentLogicalOr | OperatorName::AssignmentMultiplication
    | OperatorName::AssignmentNullishCoalescing | OperatorName::AssignmentRemainder | OperatorName::AssignmentSubtraction | OperatorName::Yield | OperatorName::YieldDelegated => 3,
    OperatorName::ConditionalAlternate => 2,
    OperatorName::Comma => 1,
    _ => 18,
  }
}
spec fn right_assoc(op: OperatorName) -> bool { op == OperatorName::Exponentiation }
pub struct Operator { pub associativity: Associativity, pub precedence: u8 }
// `OPERATORS[&op]`
#[verifier::external_body]
fn operator_of(op: OperatorName) -> (r: Operator)
  ensures r.precedence == prec_of(op), op_t(op) is Some && !(prec_of(op) == 16) ==> (r.associativity == Associativity::Right <==> right_assoc(op)),
{ unimplemented!() }

// ---- the level a precedence stands for
spec fn pnt(p: int) -> N {
  if p <= 1 { N::Comma } else if p <= 3 { N::Assign } else if p == 4 { N::Cond } else if p == 5 { N::Short } else if p == 6 { N::And } else if p == 7 { N::BitOr } else if p == 8 { N::BitXor }
  else if p == 9 { N::BitAnd } else if p == 10 { N::Equal } else if p == 11 { N::Rel } else if p == 12 { N::Shift } else if p == 13 { N::Add } else if p == 14 { N::Mul } else if p == 15 { N::Exp }
  else if p == 16 { N::Unary } else if p == 17 { N::Update } else if p == 18 { N::Lhs } else { N::Member }
}
/// what printing e where the precedence p is required gives
spec fn op_p(b: Body, id: ExprId, p: int, s: Seq<T>) -> bool {
  (d(b, id, nt_of(b, id), s) && le(nt_of(b, id), pnt(p)) && starts(s, begins(b, id)))
  || (paren(b, id, s) && s.len() > 0 && s[0] == T::P("("@) && (nt_of(b, id) == N::Opt ==> p > 18))
}
/// which tokens a statement may not start with, as the printer foresees them
spec fn tokens_ok(t: StmtStartTokenPrefix, k: int) -> bool {
  (k == 1 ==> t.first == StmtStartToken::BraceOpen)
  && (k == 2 ==> t.first == StmtStartToken::At || t.first == StmtStartToken::Keyword(StmtStartKeyword::Function) || t.first == StmtStartToken::Keyword(StmtStartKeyword::Class)
    || (t.first == StmtStartToken::Keyword(StmtStartKeyword::Async) && t.second == Some(StmtStartToken::Keyword(StmtStartKeyword::Function))))
  && 0 <= k <= 2
}
/// an operand of ** , ?? , || and && that needs no parentheses beyond those its level calls for
spec fn operand_ok(op: BinaryOp, n: N, left: bool) -> bool {
  (op == BinaryOp::Exponent && left ==> n != N::Unary)
  && (op == BinaryOp::NullishCoalescing ==> n != N::And && n != N::Or)
  && (op == BinaryOp::LogicalAnd || op == BinaryOp::LogicalOr ==> n != N::Coalesce)
}
#[verifier::external_body]
fn function_data<'a>(ctx: &HirContext<'a>, id: BodyId) -> &'a FunctionData { unimplemented!() }
#[verifier::external_body]
fn has_decorators(ctx: &HirContext<'_>, id: DefId) -> bool { unimplemented!() }
#[verifier::external_body]
fn token_from_identifier(name: &str) -> StmtStartToken { unimplemented!() }
proof fn op_at(b: Body, id: ExprId, p: int, n: N, s: Seq<T>)
  requires op_p(b, id, p, s), le(nt_of(b, id), pnt(p)) ==> le(nt_of(b, id), n),
  ensures at(b, id, n, s), s.len() > 0,
{ if !paren(b, id, s) { r_sub(b, id, nt_of(b, id), n, s); } }
proof fn op_starts(b: Body, id: ExprId, p: int, s: Seq<T>)
  requires op_p(b, id, p, s)
  ensures starts(s, begins(b, id)),
{ lits(); }
proof fn cat(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  requires grew(a, b), grew(b, c)
  ensures grew(a, c), tail(a, c) == tail(a, b) + tail(b, c),
{
  assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
  assert(tail(a, c) =~= tail(a, b) + tail(b, c)) by {
    assert forall|i: int| 0 <= i < b.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == b[i]); }
  }
}
proof fn one(a: Seq<T>, t: T)
  ensures grew(a, a.push(t)), tail(a, a.push(t)) == seq![t],
{ assert(a.push(t).take(a.len() as int) =~= a); assert(tail(a, a.push(t)) =~= seq![t]); }
proof fn none(a: Seq<T>)
  ensures grew(a, a), tail(a, a) == Seq::<T>::empty(),
{ assert(a.take(a.len() as int) =~= a); assert(tail(a, a) =~= Seq::<T>::empty()); }
broadcast proof fn b_cat(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  requires #[trigger] grew(a, b), #[trigger] grew(b, c)
  ensures grew(a, c), tail(a, c) == tail(a, b) + tail(b, c),
{ cat(a, b, c); }
broadcast proof fn b_one(a: Seq<T>, t: T)
  ensures grew(a, #[trigger] a.push(t)), tail(a, a.push(t)) == seq![t],
{ one(a, t); }
proof fn wrap(a: T, x: Seq<T>, c: T)
  ensures ({ let s = seq![a] + x + seq![c]; s.len() >= 2 && s[0] == a && s.last() == c && s.subrange(1, s.len() - 1) == x }),
{ let s = seq![a] + x + seq![c]; assert(s.subrange(1, s.len() - 1) =~= x); }
proof fn after(a: T, x: Seq<T>)
  ensures ({ let s = seq![a] + x; s.len() > 0 && s[0] == a && s.skip(1) == x }),
{ let s = seq![a] + x; assert(s.skip(1) =~= x); }
proof fn before(x: Seq<T>, c: T)
  ensures ({ let s = x + seq![c]; s.len() > 0 && s.last() == c && s.drop_last() == x }),
{ let s = x + seq![c]; assert(s.drop_last() =~= x); }
proof fn starts_more(x: Seq<T>, y: Seq<T>, k: int)
  requires starts(x, k)
  ensures starts(x + y, k),
{ assert((x + y)[0] == x[0]); }
spec fn wrote_d(b: Body, id: ExprId, o: Seq<T>, n: Seq<T>) -> bool { grew(o, n) && d(b, id, nt_of(b, id), tail(o, n)) && starts(tail(o, n), begins(b, id)) }
spec fn wrote_op(b: Body, id: ExprId, p: int, o: Seq<T>, n: Seq<T>) -> bool { grew(o, n) && op_p(b, id, p, tail(o, n)) }
/// a ( e ) written from a to c, e from b1 to b2
proof fn in_parens(b: Body, id: ExprId, a: Seq<T>, b1: Seq<T>, b2: Seq<T>, c: Seq<T>)
  requires b1 == a.push(T::P("("@)), wrote_d(b, id, b1, b2), c == b2.push(T::P(")"@))
  ensures grew(a, c), paren(b, id, tail(a, c)), tail(a, c).len() > 0, tail(a, c)[0] == T::P("("@), starts(tail(a, c), 0),
{
  one(a, T::P("("@)); one(b2, T::P(")"@)); cat(a, b1, b2); cat(a, b2, c);
  r_sub(b, id, nt_of(b, id), N::Comma, tail(b1, b2)); r_paren(b, id, tail(b1, b2));
  wrap(T::P("("@), tail(b1, b2), T::P(")"@)); lits();
}
spec fn member_p(b: Body, m: MemberExpr, s: Seq<T>, x: Seq<T>, y: Seq<T>) -> bool { s == x + y && receiver(b, m.object, x) && access_p(b, m, y) }
spec fn left_prec(op: BinaryOp) -> int { prec_of(bop(op)) + (if right_assoc(bop(op)) { 1int } else { 0 }) }
/// the precedence asked of an operand is that of its place in the grammar
proof fn op_operand(b: Body, op: BinaryOp, id: ExprId, left: bool, s: Seq<T>)
  requires operand_ok(op, nt_of(b, id), left), op_p(b, id, if left { left_prec(op) } else { prec_of(bop(op)) + (if right_assoc(bop(op)) { 0int } else { 1 }) }, s),
  ensures s.len() > 0, left ==> at(b, id, left_nt(op), s) || (op == BinaryOp::NullishCoalescing && at(b, id, N::BitOr, s)), !left ==> at(b, id, right_nt(op), s),
{
  if !paren(b, id, s) {
    let n = nt_of(b, id);
    if left { if le(n, left_nt(op)) { r_sub(b, id, n, left_nt(op), s); } else { r_sub(b, id, n, N::BitOr, s); } } else { r_sub(b, id, n, right_nt(op), s); }
  }
}
spec fn array_p(b: Body, a: ArrayLiteral, s: Seq<T>, x: Seq<T>) -> bool { s == seq![T::P("["@)] + x + seq![T::P("]"@)] && elems_d(b, a.elements@, a.elements@.len() as int, x) }
spec fn object_p(b: Body, a: ObjectLiteral, s: Seq<T>, x: Seq<T>) -> bool { s == seq![T::P("{"@)] + x + seq![T::P("}"@)] && props_d(b, a.properties@, a.properties@.len() as int, x) }
proof fn rest_d(b: Body, p: PatId, n: int, x: Seq<T>)
  requires pat_d(b, p, x), n >= 0
  ensures prest(b, Some(p), n, sep(n) + dots(true) + x),
{ let s = sep(n) + dots(true) + x; assert(s.take(sep(n).len() as int) =~= sep(n)); assert(s.skip(sep(n).len() as int + 1) =~= x); }
/// which tokens are different
proof fn lits()
  ensures first(T::P("("@)) == 0, first(T::P("["@)) == 0, first(T::P("{"@)) == 1, first(T::P("`"@)) == 0, first(T::P("..."@)) == 0, first(T::P("<"@)) == 0,
    first(T::K("function"@)) == 2, first(T::K("class"@)) == 2, first(T::P("@"@)) == 2,
    first(T::K("this"@)) == 0, first(T::K("super"@)) == 0, first(T::K("true"@)) == 0, first(T::K("false"@)) == 0, first(T::K("null"@)) == 0, first(T::K("void"@)) == 0,
    first(T::K("new"@)) == 0, first(T::K("import"@)) == 0, first(T::K("async"@)) == 0, first(T::K("yield"@)) == 0, first(T::K("await"@)) == 0, first(T::K("typeof"@)) == 0, first(T::K("delete"@)) == 0,
    first(T::P("!"@)) == 0, first(T::P("~"@)) == 0, first(T::P("+"@)) == 0, first(T::P("-"@)) == 0, first(T::P("++"@)) == 0, first(T::P("--"@)) == 0,
    first(T::A) == 0, first(T::I) == 0, first(T::Other) == 0, forall|x: Seq<char>| (#[trigger] first(T::S(x))) == 0,
{
  reveal_strlit("("); reveal_strlit("["); reveal_strlit("{"); reveal_strlit("`"); reveal_strlit("..."); reveal_strlit("<"); reveal_strlit("function"); reveal_strlit("class"); reveal_strlit("@");
  reveal_strlit("this"); reveal_strlit("super"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null"); reveal_strlit("void"); reveal_strlit("new"); reveal_strlit("import");
  reveal_strlit("async"); reveal_strlit("yield"); reveal_strlit("await"); reveal_strlit("typeof"); reveal_strlit("delete");
  reveal_strlit("!"); reveal_strlit("~"); reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("++"); reveal_strlit("--");
  assert("{"@[0] == '{'); assert("@"@[0] == '@'); assert("("@[0] == '('); assert("["@[0] == '['); assert("`"@[0] == '`'); assert("..."@[0] == '.'); assert("<"@[0] == '<');
  assert("!"@[0] == '!'); assert("~"@[0] == '~'); assert("+"@[0] == '+'); assert("-"@[0] == '-'); assert("++"@[0] == '+'); assert("--"@[0] == '-');
  assert("function"@[0] == 'f'); assert("function"@[1] == 'u'); assert("false"@[1] == 'a'); assert("class"@[0] == 'c'); assert("this"@[0] == 't'); assert("super"@[0] == 's'); assert("true"@[0] == 't'); assert("null"@[0] == 'n'); assert("void"@[0] == 'v'); assert("new"@[0] == 'n'); assert("import"@[0] == 'i');
  assert("async"@[0] == 'a'); assert("yield"@[0] == 'y'); assert("await"@[0] == 'a'); assert("typeof"@[0] == 't'); assert("delete"@[0] == 'd');
}

// ---- the code: precedence.rs
/*@const emit-js/src/precedence.rs :: CALL_MEMBER_PRECEDENCE
#rewrite `Prec::new(18)` => `Prec(18)`
@*/
/*@const emit-js/src/precedence.rs :: PRIMARY_PRECEDENCE
#rewrite `Prec::new(19)` => `Prec(19)`
@*/
/*@const emit-js/src/precedence.rs :: ASSIGNMENT_EXPR_PRECEDENCE
#rewrite `Prec::new(2)` => `Prec(2)`
@*/
/*@const emit-js/src/precedence.rs :: ARROW_FUNCTION_PRECEDENCE
#rewrite `Prec::new(2)` => `Prec(2)`
@*/
impl Prec {
/*@const emit-js/src/precedence.rs :: Prec::LOWEST
@*/
/*@fn emit-js/src/precedence.rs :: Prec::new
#ret r
#spec
  ensures r.0 == value,
@*/
/*@fn emit-js/src/precedence.rs :: Prec::tighter
#ret r
#spec
  requires self.0 < 255,
  ensures r.0 == self.0 + 1,
@*/
}
/*@fn emit-js/src/precedence.rs :: needs_parens
#ret r
#rewrite `child_prec < min_prec` => `child_prec.0 < min_prec.0`
#spec
  ensures r == (child_prec.0 < min_prec.0),
@*/
/*@fn emit-js/src/precedence.rs :: child_min_prec_for_binary
#ret r
#rewrite `OPERATORS .get(&op) .expect("operator precedence should be defined for all binary operators")` => `operator_of(op)`
#spec
  requires op_t(op) is Some, prec_of(op) != 16,
  ensures r.0 == prec_of(op) + (if right_assoc(op) == (side is Left) { 1int } else { 0 }),
@*/
// ---- the code: hir.rs, operators
/*@fn emit-js/src/hir.rs :: binary_operator
#ret r
#spec
  ensures r == bop(op),
@*/
/*@fn emit-js/src/hir.rs :: assign_operator
#ret r
#spec
  ensures prec_of(r) == 3,
@*/
/*@fn emit-js/src/hir.rs :: unary_operator
#ret r
#spec
  ensures r == uop(op),
@*/
/*@fn emit-js/src/hir.rs :: update_operator
#ret r
#spec
  ensures prec_of(r) == (if prefix { 16int } else { 17 }), op_t(r) == Some(update_t(op)), !(r is Yield), !(r is YieldDelegated),
@*/
/*@fn emit-js/src/hir.rs :: emit_unary_operator
#ret r
#spec
  ensures r is Ok ==> (op_t(op) is Some ==> final(em)@ == old(em)@.push(op_t(op)->0)),
@*/
/*@fn emit-js/src/hir.rs :: emit_binary_operator
#ret r
#spec
  ensures r is Ok && op_t(op) is Some ==> final(em)@ == old(em)@.push(op_t(op)->0),
@*/
/*@fn emit-js/src/hir.rs :: emit_assign_operator
#spec
  ensures final(em)@ == old(em)@.push(assign_t(op)),
@*/

// ---- the code: hir.rs, what an expression is
/*@fn emit-js/src/hir.rs :: expr_prec
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `OPERATORS[&` => `operator_of(`
#rewrite `].precedence` => `).precedence`
#entry
  proof { tree(*body, expr_id); }
#spec
  ensures r matches Ok(p) ==> le(nt_of(*body, expr_id), pnt(p.0 as int)) && (nt_of(*body, expr_id) == N::Opt ==> p.0 == 18),
@*/
/*@fn emit-js/src/hir.rs :: is_parenthesized
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { tree(*body, expr_id); }
#spec
  ensures r == closed(*body, expr_id),
@*/
/*@fn emit-js/src/hir.rs :: starts_with_optional_chaining
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { tree(*body, expr_id); }
#spec
  ensures nt_of(*body, expr_id) == N::Opt ==> r,
@*/
/*@fn emit-js/src/hir.rs :: new_callee_needs_parens
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { tree(*body, expr_id); }
#spec
  ensures !r ==> le(rnt(*body, expr_id), N::Member),
@*/
/*@fn emit-js/src/hir.rs :: operand_needs_parens
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { tree(*body, operand); }
#spec
  ensures !r ==> operand_ok(op, nt_of(*body, operand), is_left),
@*/
/*@fn emit-js/src/hir.rs :: expr_is_arrow_function
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#spec
  ensures true,
@*/
/*@fn emit-js/src/hir.rs :: expr_is_integer
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { int_end_def(*body, expr_id); }
#spec
  ensures r == int_end(*body, expr_id),
@*/
/*@fn emit-js/src/hir.rs :: expr_is_string
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { stringy_def(*body, expr_id); }
#spec
  ensures r == stringy(*body, expr_id),
@*/
/*@fn emit-js/src/hir.rs :: expr_is_string_in_parens
#ret r
#spec
  ensures r == not_directive(*body, expr_id),
@*/
/*@fn emit-js/src/hir.rs :: prefix
#ret r
#spec
  ensures r.first == first, r.second == second,
@*/
/*@fn emit-js/src/hir.rs :: prefix_with_fallback
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#spec
  ensures tokens_ok(r, begins(*body, expr_id)),
@*/
/*@fn emit-js/src/hir.rs :: expr_stmt_tokens
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `ctx.body(*body_id).and_then(|body| body.function.as_ref()).expect("function metadata missing for function expression")` => `function_data(ctx, *body_id)`
#rewrite `ctx.def(*def).is_some_and(|def| !def.decorators.is_empty())` => `has_decorators(ctx, *def)`
#entry
  proof { tree(*body, expr_id); }
#spec
  ensures tokens_ok(r, begins(*body, expr_id)),
@*/
/*@fn emit-js/src/hir.rs :: pat_stmt_tokens
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  proof { ptree(*body, pat_id); }
#spec
  ensures tokens_ok(r, pbegins(*body, pat_id)),
@*/
/*@fn emit-js/src/hir.rs :: arrow_body_starts_with_brace
#ret r
#spec
  ensures begins(*body, expr_id) == 1 ==> r,
@*/
/*@fn emit-js/src/hir.rs :: arrow_concise_body_needs_parens
#ret r
#spec
  ensures true,
@*/
/*@fn emit-js/src/hir.rs :: expr_stmt_needs_parens
#ret r
#spec
  ensures !r ==> begins(*body, expr_id) == 0 && !not_directive(*body, expr_id),
@*/

// ---- the code: hir.rs, printing
/*@fn emit-js/src/hir.rs :: emit_expr_with_min_prec
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  let ghost s0 = em@;
#at before `emit_expr_no_parens(em`
  let ghost s1 = em@;
#at after `emit_expr_no_parens(em`
  let ghost s2 = em@;
#at before `Ok(())`
  proof {
    if s1 != s0 { in_parens(*body, expr_id, s0, s1, s2, em@); }
    assert(s1 == s0 || s1.len() == s0.len() + 1);
  }
#spec
  ensures r is Ok ==> wrote_op(*body, expr_id, min_prec.0 as int, old(em)@, final(em)@),
@*/
/*@fn emit-js/src/hir.rs :: emit_receiver
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  let ghost s0 = em@;
#at before `emit_expr_no_parens(em`
  let ghost s1 = em@;
#at after `emit_expr_no_parens(em`
  let ghost s2 = em@;
#at before `Ok(())`
  proof { in_parens(*body, expr_id, s0, s1, s2, em@); }
#tail res
  proof { if res is Ok && wrote_op(*body, expr_id, 18, s0, em@) { op_starts(*body, expr_id, 18, tail(s0, em@)); } }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && receiver(*body, expr_id, tail(old(em)@, final(em)@)) && starts(tail(old(em)@, final(em)@), begins(*body, expr_id)),
@*/
/*@fn emit-js/src/hir.rs :: emit_string
#rewrite `std::str::from_utf8(` => `utf8(`
#rewrite `.expect("string literal is UTF-8")` => ``
#spec
  ensures exists|t: T| t is S && final(em)@ == #[trigger] old(em)@.push(t),
@*/
/*@fn emit-js/src/hir.rs :: emit_void_0
#entry
  broadcast use b_cat, b_one;
#spec
  ensures grew(old(em)@, final(em)@), tail(old(em)@, final(em)@) == seq![T::K("void"@), T::A],
@*/
/*@fn emit-js/src/hir.rs :: emit_literal
#ret r
#rewrite `str.code_units.as_deref()` => `units_of(str)`
#rewrite `std::str::from_utf8(` => `utf8(`
#rewrite `.expect("string literal is UTF-8")` => ``
#rewrite `.expect("regex literal is UTF-8")` => ``
#entry
  broadcast use b_cat, b_one;
  proof { lits(); }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && lit_p(*lit, tail(old(em)@, final(em)@)) && starts(tail(old(em)@, final(em)@), 0),
@*/
/*@fn emit-js/src/hir.rs :: emit_member_property
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `Ok(())`
  proof {
    match property { ObjectKey::Computed(e) => { op_at(*body, *e, 0, N::Comma, tail(s0, em@)); }, _ => {} }
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && inner_p(*body, *property, tail(old(em)@, final(em)@)),
@*/
/*@fn emit-js/src/hir.rs :: emit_member
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
  let ghost mut s2 = em@;
  let ghost mut s3 = em@;
#at after `emit_receiver(em`
  let ghost s1 = em@;
#at before `emit_member_property(em` 0
  proof { s2 = em@; }
#at after `emit_member_property(em` 0
  proof { s3 = em@; }
#at before `emit_member_property(em` 1
  proof { s2 = em@; }
#at after `emit_member_property(em` 1
  proof { s3 = em@; }
#at before `Ok(())`
  proof {
    let y = tail(s1, em@);
    if member.property is Ident {
      assert(y =~= if member.optional { seq![T::P("?."@), T::I] } else if int_end(*body, member.object) { seq![T::P("."@), T::P("."@), T::I] } else { seq![T::P("."@), T::I] });
    } else {
      wrap(if member.optional { T::S("?.["@) } else { T::P("["@) }, tail(s2, s3), T::P("]"@));
      assert(y =~= seq![if member.optional { T::S("?.["@) } else { T::P("["@) }] + tail(s2, s3) + seq![T::P("]"@)]);
    }
    starts_more(tail(s0, s1), y, begins(*body, member.object));
    assert(member_p(*body, *member, tail(s0, em@), tail(s0, s1), y));
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), begins(*body, member.object))
    && exists|x: Seq<T>, y: Seq<T>| member_p(*body, *member, tail(old(em)@, final(em)@), x, y),
@*/
/*@fn emit-js/src/hir.rs :: emit_object_key
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `emit_expr_with_min_prec(em`
  let ghost s1 = em@;
#at after `emit_expr_with_min_prec(em`
  let ghost s2 = em@;
#at after `em.write_punct("]")`
  proof {
    op_at(*body, *expr, 2, N::Assign, tail(s1, s2));
    wrap(T::P("["@), tail(s1, s2), T::P("]"@));
    assert(tail(s0, em@) =~= seq![T::P("["@)] + tail(s1, s2) + seq![T::P("]"@)]);
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && key_p(*body, *key, tail(old(em)@, final(em)@)),
@*/
/*@fn emit-js/src/hir.rs :: emit_unary
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `OPERATORS[&` => `operator_of(`
#rewrite `].precedence` => `).precedence`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at after `emit_unary_operator(em`
  let ghost s1 = em@;
#tail res
  proof {
    if res is Ok {
      op_at(*body, expr, 16, N::Unary, tail(s1, em@));
      after(unary_t(op), tail(s1, em@)); lits();
    }
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && unary_p(*body, op, expr, tail(old(em)@, final(em)@)) && starts(tail(old(em)@, final(em)@), 0),
@*/
/*@fn emit-js/src/hir.rs :: emit_update
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `OPERATORS[&` => `operator_of(`
#rewrite `].precedence` => `).precedence`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
  let ghost mut s1 = em@;
#at after `emit_unary_operator(em` 0
  proof { s1 = em@; }
#at after `emit_expr_with_min_prec(em` 1
  proof { s1 = em@; }
#tail res
  proof {
    if res is Ok {
      lits();
      if prefix { op_at(*body, expr, 16, N::Unary, tail(s1, em@)); after(update_t(op), tail(s1, em@)); }
      else { op_at(*body, expr, 17, N::Lhs, tail(s0, s1)); before(tail(s0, s1), update_t(op)); op_starts(*body, expr, 17, tail(s0, s1)); starts_more(tail(s0, s1), tail(s1, em@), begins(*body, expr)); }
    }
  }
#spec
  requires le(nt_of(*body, expr), N::Lhs),
  ensures r is Ok ==> grew(old(em)@, final(em)@) && update_p(*body, op, prefix, expr, tail(old(em)@, final(em)@)) && starts(tail(old(em)@, final(em)@), if prefix { 0 } else { begins(*body, expr) }),
@*/
/*@fn emit-js/src/hir.rs :: emit_binary
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `crate::precedence::Side` => `Side`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `emit_expr_no_parens(em` 0
  let ghost a1 = em@;
#at after `emit_expr_no_parens(em` 0
  let ghost a2 = em@;
#at after `em.write_punct(")")` 0
  proof { in_parens(*body, left, s0, a1, a2, em@); }
#at after `emit_expr_with_min_prec(em` 0
  proof { op_starts(*body, left, left_prec(op), tail(s0, em@)); op_operand(*body, op, left, true, tail(s0, em@)); }
#at before `emit_binary_operator(em`
  let ghost s1 = em@;
#at after `emit_binary_operator(em`
  let ghost s2 = em@;
#at before `emit_expr_no_parens(em` 1
  let ghost a1 = em@;
#at after `emit_expr_no_parens(em` 1
  let ghost a2 = em@;
#at after `em.write_punct(")")` 1
  proof {
    in_parens(*body, right, s2, a1, a2, em@);
    starts_more(tail(s0, s1), tail(s1, em@), begins(*body, left));
    assert(tail(s0, em@) =~= tail(s0, s1) + seq![binary_t(op)] + tail(s2, em@));
    assert(binary_p(*body, op, left, right, tail(s0, em@), tail(s0, s1), tail(s2, em@)));
  }
#at after `emit_expr_with_min_prec(em` 1
  proof {
    op_operand(*body, op, right, false, tail(s2, em@));
    starts_more(tail(s0, s1), tail(s1, em@), begins(*body, left));
    assert(tail(s0, em@) =~= tail(s0, s1) + seq![binary_t(op)] + tail(s2, em@));
    assert(binary_p(*body, op, left, right, tail(s0, em@), tail(s0, s1), tail(s2, em@)));
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), begins(*body, left))
    && exists|x: Seq<T>, y: Seq<T>| binary_p(*body, op, left, right, tail(old(em)@, final(em)@), x, y),
@*/

// ---- the code: hir.rs, lists, functions and patterns
/*@fn emit-js/src/hir.rs :: emit_call
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#sig `hir_js::CallExpr` => `CallExpr`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `if call.is_new && new_callee_needs_parens`
  let ghost s1 = em@;
  proof { lits(); }
#at before `emit_expr_no_parens(em`
  let ghost a1 = em@;
#at after `emit_expr_no_parens(em`
  let ghost a2 = em@;
#at after `em.write_punct(")")` 0
  proof { in_parens(*body, call.callee, s1, a1, a2, em@); }
#at after `emit_receiver(em`
  proof { if call.is_new { if !paren(*body, call.callee, tail(s1, em@)) { r_sub(*body, call.callee, nt_of(*body, call.callee), N::Member, tail(s1, em@)); } } }
#at before `if call.optional`
  let ghost s2 = em@;
  proof { assert(callee_p(*body, *call, tail(s1, s2))); }
#at before `for (idx, arg) in`
  let ghost s3 = em@;
  proof { r_no_args(*body, call.args@); none(s3); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == call.args@, grew(s3, em@), args_d(*body, call.args@, ix as int, tail(s3, em@)),
  decreases ix_s@.len() - ix,
#at enter `for (idx, arg) in`
  broadcast use b_cat, b_one;
  let ghost p0 = em@;
#at before `emit_expr_with_min_prec(em`
  let ghost p1 = em@;
  proof { assert(tail(p0, p1) =~= sep(ix - 1) + dots(arg.spread)) by { if ix == 1 && !arg.spread { none(p0); } } assert(grew(p0, p1)) by { none(p0); } }
#at after `emit_expr_with_min_prec(em`
  proof {
    op_at(*body, arg.expr, 2, N::Assign, tail(p1, em@));
    r_arg(*body, call.args@, ix - 1, tail(s3, p0), tail(p1, em@));
    assert(tail(s3, em@) =~= tail(s3, p0) + sep(ix - 1) + dots(arg.spread) + tail(p1, em@));
  }
#at before `em.write_punct(")")` 1
  let ghost s4 = em@;
#at before `Ok(())`
  proof {
    let s = tail(s0, em@);
    none(s0);
    assert(s =~= (if call.is_new { seq![T::K("new"@)] } else { seq![] }) + tail(s1, s2) + seq![if call.optional { T::S("?.("@) } else { T::P("("@) }] + tail(s3, s4) + rp());
    if call.is_new { lits(); } else { starts_more(tail(s1, s2), tail(s2, em@), begins(*body, call.callee)); }
    assert(call_p(*body, *call, s, tail(s1, s2), tail(s3, s4)));
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), if call.is_new { 0 } else { begins(*body, call.callee) })
    && exists|x: Seq<T>, y: Seq<T>| call_p(*body, *call, tail(old(em)@, final(em)@), x, y),
@*/
/*@fn emit-js/src/hir.rs :: emit_array_literal
#attr #[verifier::exec_allows_no_decreases_clause]
#attr #[verifier::loop_isolation(false)]
#ret r
#sig `hir_js::ArrayLiteral` => `ArrayLiteral`
#rewrite `hir_js::ArrayElement` => `ArrayElement`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `for (idx, element) in`
  let ghost s1 = em@;
  proof { r_no_elems(*body, array.elements@); none(s1); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == array.elements@, grew(s1, em@), elems_d(*body, array.elements@, ix as int, tail(s1, em@)),
  decreases ix_s@.len() - ix,
#at enter `for (idx, element) in`
  let ghost p0 = em@;
#at before `match element`
  let ghost p1 = em@;
  proof { none(p0); assert(tail(p0, p1) =~= sep(ix - 1)); }
#at after `emit_expr_with_min_prec(em` 0
  proof { op_at(*body, *expr, 2, N::Assign, tail(p1, em@)); }
#at before `emit_expr_with_min_prec(em` 1
  let ghost p2 = em@;
#at after `emit_expr_with_min_prec(em` 1
  proof { op_at(*body, *expr, 2, N::Assign, tail(p2, em@)); after(T::P("..."@), tail(p2, em@)); }
#at exit `for (idx, element) in`
  proof {
    none(p1);
    r_elem(*body, array.elements@, ix - 1, tail(s1, p0), tail(p1, em@));
    assert(tail(s1, em@) =~= tail(s1, p0) + sep(ix - 1) + tail(p1, em@));
  }
#at before `em.write_punct("]")`
  let ghost s2 = em@;
#at before `Ok(())`
  proof {
    lits();
    assert(tail(s0, em@) =~= seq![T::P("["@)] + tail(s1, s2) + seq![T::P("]"@)]);
    assert(array_p(*body, *array, tail(s0, em@), tail(s1, s2)));
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), 0)
    && exists|x: Seq<T>| array_p(*body, *array, tail(old(em)@, final(em)@), x),
@*/
/*@fn emit-js/src/hir.rs :: emit_template_literal
#attr #[verifier::exec_allows_no_decreases_clause]
#attr #[verifier::loop_isolation(false)]
#ret r
#rewrite `std::str::from_utf8(` => `utf8(`
#rewrite `.expect("template literal head is UTF-8")` => ``
#rewrite `.expect("template literal span is UTF-8")` => ``
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `for span in`
  proof { r_no_spans(*body, *template); assert(Seq::<u8>::empty() + part_text(template.head@) =~= part_text(template.head@)); assert(tail(s0, em@) =~= seq![T::P("`"@), T::S(utf(part_text(template.head@)))]); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == template.spans@, grew(s0, em@), tail(s0, em@).len() > 0, tail(s0, em@)[0] == T::P("`"@), spans_d(*body, template.spans@, ix as int, tail(s0, em@)),
  decreases ix_s@.len() - ix,
#at enter `for span in`
  let ghost p0 = em@;
#at before `emit_expr_with_min_prec(em`
  let ghost p1 = em@;
#at after `emit_expr_with_min_prec(em`
  let ghost p2 = em@;
#at exit `for span in`
  proof {
    op_at(*body, span.expr, 0, N::Comma, tail(p1, p2));
    r_span(*body, template.spans@, ix - 1, tail(s0, p0), tail(p1, p2));
    assert(Seq::<u8>::empty() + part_text(span.literal@) =~= part_text(span.literal@));
    assert(tail(s0, em@) =~= tail(s0, p0) + seq![T::P("${"@)] + tail(p1, p2) + seq![T::P("}"@), T::S(utf(part_text(span.literal@)))]);
  }
#at before `em.write_punct("@BT@")` 1
  let ghost s2 = em@;
#at before `Ok(())`
  proof { lits(); before(tail(s0, s2), T::P("`"@)); assert(tail(s0, em@)[0] == tail(s0, s2)[0]); }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), 0) && template_p(*body, *template, tail(old(em)@, final(em)@)),
@*/
/*@fn emit-js/src/hir.rs :: emit_object_literal
#attr #[verifier::rlimit(100)]
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `.ok_or_else(|| EmitError::unsupported("method body missing"))` => `.ok_or(EmitError::unsupported("method body missing"))`
#rewrite `.ok_or_else(|| EmitError::unsupported("method metadata missing"))` => `.ok_or(EmitError::unsupported("method metadata missing"))`
#rewrite `.ok_or_else(|| EmitError::unsupported("getter body missing"))` => `.ok_or(EmitError::unsupported("getter body missing"))`
#rewrite `.ok_or_else(|| EmitError::unsupported("setter body missing"))` => `.ok_or(EmitError::unsupported("setter body missing"))`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `for (idx, prop) in`
  let ghost s1 = em@;
  proof { r_no_props(*body, obj.properties@); none(s1); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == obj.properties@, grew(s1, em@), props_d(*body, obj.properties@, ix as int, tail(s1, em@)),
  decreases ix_s@.len() - ix,
#at enter `for (idx, prop) in`
  broadcast use b_cat, b_one;
  let ghost p0 = em@;
#at before `match prop`
  let ghost p1 = em@;
  let ghost mut k1 = em@;
  let ghost mut k2 = em@;
  let ghost mut v1 = em@;
  proof { none(p0); none(p1); assert(tail(p0, p1) =~= sep(ix - 1)); }
#at before `emit_object_key(em` 0
  proof { k1 = em@; assert(tail(p1, k1) =~= head_t(*func_data)); }
#at after `emit_object_key(em` 0
  proof { k2 = em@; }
#at after `emit_param_list(em` 0
  proof { v1 = em@; }
#at after `emit_function_body(em` 0
  proof { assert(tail(k2, v1) + tail(v1, em@) == tail(k2, em@)); }
#at before `emit_object_key(em` 1
  proof { k1 = em@; }
#at after `emit_object_key(em` 1
  proof { k2 = em@; }
#at before `emit_expr_with_min_prec(em` 0
  proof { v1 = em@; }
#at after `emit_expr_with_min_prec(em` 0
  proof { op_at(*body, *value, 2, N::Assign, tail(v1, em@)); after(T::P(":"@), tail(v1, em@)); }
#at before `emit_object_key(em` 2
  proof { k1 = em@; }
#at after `emit_object_key(em` 2
  proof { k2 = em@; none(k2); }
#at before `emit_expr_with_min_prec(em` 1
  proof { v1 = em@; }
#at after `emit_expr_with_min_prec(em` 1
  proof { op_at(*body, *value, 2, N::Assign, tail(v1, em@)); after(T::P(":"@), tail(v1, em@)); }
#at before `emit_object_key(em` 3
  proof { k1 = em@; }
#at after `emit_object_key(em` 3
  proof { k2 = em@; }
#at after `emit_param_list(em` 1
  proof { v1 = em@; }
#at after `emit_function_body(em` 1
  proof { assert(tail(k2, v1) + tail(v1, em@) == tail(k2, em@)); }
#at before `emit_object_key(em` 4
  proof { k1 = em@; }
#at after `emit_object_key(em` 4
  proof { k2 = em@; }
#at after `emit_param_list(em` 2
  proof { v1 = em@; }
#at after `emit_function_body(em` 2
  proof { assert(tail(k2, v1) + tail(v1, em@) == tail(k2, em@)); }
#at before `emit_expr_with_min_prec(em` 2
  proof { k2 = em@; }
#at after `emit_expr_with_min_prec(em` 2
  proof { op_at(*body, *expr, 2, N::Assign, tail(k2, em@)); }
#at exit `for (idx, prop) in`
  proof {
    let b = *body; let a = obj.properties@; let n = ix - 1;
    match prop {
      ObjectProperty::KeyValue { value, method, .. } => {
        if *method && kind(b, *value) is FunctionExpr {
          r_method(b, a, n, tail(s1, p0), tail(p1, k1), tail(k1, k2), tail(k2, em@));
          assert(tail(s1, em@) =~= tail(s1, p0) + sep(n) + tail(p1, k1) + tail(k1, k2) + tail(k2, em@));
        } else {
          assert(k1 == p1);
          r_prop(b, a, n, tail(s1, p0), tail(k1, k2), tail(k2, em@));
          assert(tail(s1, em@) =~= tail(s1, p0) + sep(n) + tail(k1, k2) + tail(k2, em@));
        }
      },
      ObjectProperty::Spread(e) => {
        r_prop(b, a, n, tail(s1, p0), tail(p1, k2), tail(k2, em@));
        assert(tail(s1, em@) =~= tail(s1, p0) + sep(n) + tail(p1, k2) + tail(k2, em@));
      },
      _ => {
        r_method(b, a, n, tail(s1, p0), tail(p1, k1), tail(k1, k2), tail(k2, em@));
        assert(tail(s1, em@) =~= tail(s1, p0) + sep(n) + tail(p1, k1) + tail(k1, k2) + tail(k2, em@));
      },
    }
  }
#at before `em.write_punct("}")`
  let ghost s2 = em@;
#at before `Ok(())`
  proof {
    lits();
    assert(tail(s0, em@) =~= seq![T::P("{"@)] + tail(s1, s2) + seq![T::P("}"@)]);
    assert(object_p(*body, *obj, tail(s0, em@), tail(s1, s2)));
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), 1)
    && exists|x: Seq<T>| object_p(*body, *obj, tail(old(em)@, final(em)@), x),
@*/
/*@fn emit-js/src/hir.rs :: emit_arrow_function
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
#at before `emit_param_list(em`
  let ghost s1 = em@;
  proof { none(s0); assert(tail(s0, s1) =~= fhead(*func, false)); lits(); }
#at after `emit_param_list(em`
  let ghost s2 = em@;
#at after `em.write_punct("=>")`
  let ghost s3 = em@;
#at before `emit_expr_with_min_prec(em` 0
  let ghost b1 = em@;
#at after `emit_expr_with_min_prec(em` 0
  let ghost b2 = em@;
#at before `Ok(())`
  proof {
    op_at(*body, *expr, 0, N::Comma, tail(b1, b2));
    paren_twice(*body, *expr, tail(b1, b2));
    wrap(T::P("("@), tail(b1, b2), T::P(")"@));
    assert(tail(s3, em@) =~= lp() + tail(b1, b2) + rp()); lits();
  }
#tail res
  proof {
    if res is Ok {
      match func.body {
        FunctionBody::Expr(e) => { if wrote_op(*body, e, 2, s3, em@) { op_starts(*body, e, 2, tail(s3, em@)); op_at(*body, e, 2, N::Assign, tail(s3, em@)); } },
        _ => {},
      }
      starts_more(tail(s0, s2), tail(s2, em@), 0);
      match func.body { FunctionBody::Expr(e) => { assert(tail(s3, em@).len() > 0); assert(first(tail(s3, em@)[0]) != 1); assert(at(*body, e, N::Assign, tail(s3, em@))); }, FunctionBody::Block(_) => { assert(block_d(tail(s3, em@))); } }
      assert(tail(s0, em@) =~= fhead(*func, false) + tail(s1, s2) + seq![T::P("=>"@)] + tail(s3, em@));
      assert(function_p(*body, *func, false, tail(s0, em@), tail(s1, s2), tail(s3, em@)));
    }
  }
#spec
  requires func.is_arrow,
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), 0) && exists|p: Seq<T>, y: Seq<T>| function_p(*body, *func, false, tail(old(em)@, final(em)@), p, y),
@*/
/*@fn emit-js/src/hir.rs :: emit_function_like
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
  let ghost mut s1 = em@;
  let ghost mut s2 = em@;
#at before `emit_param_list(em`
  proof { s1 = em@; none(s0); assert(tail(s0, s1) =~= fhead(*func, name is Some)); lits(); }
#at after `emit_param_list(em`
  proof { s2 = em@; }
#tail res
  proof {
    if res is Ok && !func.is_arrow {
      assert(tail(s0, em@) =~= fhead(*func, name is Some) + tail(s1, s2) + tail(s2, em@));
      assert(function_p(*body, *func, name is Some, tail(s0, em@), tail(s1, s2), tail(s2, em@)));
      lits();
    }
    if res is Ok && func.is_arrow {
      let (p, y) = choose|p: Seq<T>, y: Seq<T>| function_p(*body, *func, false, tail(s0, em@), p, y);
      assert(function_p(*body, *func, name is Some, tail(s0, em@), p, y));
    }
  }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && starts(tail(old(em)@, final(em)@), if func.is_arrow { 0 } else { 2 }) && function_d(*body, *func, name is Some, tail(old(em)@, final(em)@)),
@*/
/*@fn emit-js/src/hir.rs :: emit_pat
#attr #[verifier::rlimit(200)]
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `OPERATORS[&` => `operator_of(`
#rewrite `].precedence` => `).precedence`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
  let ghost mut a1 = em@;
  let ghost mut a2 = em@;
  proof { lits(); ptree(*body, pat_id); none(s0); }
#at before `emit_pat(em, ctx, body, **inner)`
  proof { a1 = em@; }
#at after `emit_pat(em, ctx, body, **inner)`
  proof { r_pat_rest(*body, pat_id, tail(a1, em@)); assert(tail(s0, em@) =~= dots(true) + tail(a1, em@)); }
#at before `for (idx, element) in`
  let ghost s1 = em@;
  proof { r_no_pelems(*body, array.elements@, array.rest is Some); none(s1); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == array.elements@, grew(s1, em@), pelems_d(*body, array.elements@, array.rest is Some, ix as int, tail(s1, em@)),
  decreases ix_s@.len() - ix,
#at enter `for (idx, element) in`
  broadcast use b_cat, b_one;
  let ghost p0 = em@;
#at before `if let Some(element) = element`
  let ghost p1 = em@;
  let ghost mut p2 = em@;
  let ghost mut p3 = em@;
  proof { none(p0); none(p1); assert(tail(p0, p1) =~= sep(ix - 1)); }
#at after `emit_pat(em, ctx, body, element.pat)`
  proof { p2 = em@; none(p2); }
#at after `em.write_punct(",")` 1
  proof { p2 = em@; none(p2); }
#at before `emit_expr_with_min_prec(em` 0
  proof { p3 = em@; }
#at after `emit_expr_with_min_prec(em` 0
  proof { op_at(*body, default, 2, N::Assign, tail(p3, em@)); after(T::P("="@), tail(p3, em@)); }
#at exit `for (idx, element) in`
  proof {
    r_pelem(*body, array.elements@, array.rest is Some, ix - 1, tail(s1, p0), tail(p1, p2), tail(p2, em@));
    assert(tail(s1, em@) =~= tail(s1, p0) + sep(ix - 1) + tail(p1, p2) + tail(p2, em@));
  }
#at before `if let Some(rest) = array.rest`
  let ghost s2 = em@;
  proof { none(s2); }
#at before `emit_pat(em, ctx, body, rest)` 0
  proof { a1 = em@; assert(tail(s2, a1) =~= sep(array.elements@.len() as int) + dots(true)); }
#at after `emit_pat(em, ctx, body, rest)` 0
  proof { rest_d(*body, rest, array.elements@.len() as int, tail(a1, em@)); assert(tail(s2, em@) =~= sep(array.elements@.len() as int) + dots(true) + tail(a1, em@)); }
#at before `em.write_punct("]")`
  proof { a2 = em@; }
#at after `em.write_punct("]")`
  proof { r_pat_array(*body, pat_id, tail(s1, s2), tail(s2, a2)); assert(tail(s0, em@) =~= seq![T::P("["@)] + tail(s1, s2) + tail(s2, a2) + seq![T::P("]"@)]); }
#at before `for (idx, prop) in`
  let ghost s1 = em@;
  proof { r_no_pprops(*body, obj.props@); none(s1); }
#loop 1 while=iy
  invariant
    iy <= iy_s@.len(), iy_s@ == obj.props@, grew(s1, em@), pprops_d(*body, obj.props@, iy as int, tail(s1, em@)),
  decreases iy_s@.len() - iy,
#at enter `for (idx, prop) in`
  broadcast use b_cat, b_one;
  let ghost p0 = em@;
#at before `emit_object_key(em`
  let ghost p1 = em@;
  let ghost mut p4 = em@;
  let ghost mut p5 = em@;
  proof { none(p0); none(p1); assert(tail(p0, p1) =~= sep(iy - 1)); }
#at after `emit_object_key(em`
  let ghost p2 = em@;
  proof { none(p2); }
#at before `emit_pat(em, ctx, body, prop.value)`
  proof { p4 = em@; }
#at after `emit_pat(em, ctx, body, prop.value)`
  proof { after(T::P(":"@), tail(p4, em@)); }
#at before `if let Some(default) = prop.default_value`
  let ghost p3 = em@;
  proof { none(p3); }
#at before `emit_expr_with_min_prec(em` 1
  proof { p5 = em@; }
#at after `emit_expr_with_min_prec(em` 1
  proof { op_at(*body, default, 2, N::Assign, tail(p5, em@)); after(T::P("="@), tail(p5, em@)); }
#at exit `for (idx, prop) in`
  proof {
    r_pprop(*body, obj.props@, iy - 1, tail(s1, p0), tail(p1, p2), tail(p2, p3), tail(p3, em@));
    assert(tail(s1, em@) =~= tail(s1, p0) + sep(iy - 1) + tail(p1, p2) + tail(p2, p3) + tail(p3, em@));
  }
#at before `if let Some(rest) = obj.rest`
  let ghost s2 = em@;
  proof { none(s2); }
#at before `emit_pat(em, ctx, body, rest)` 1
  proof { a1 = em@; assert(tail(s2, a1) =~= sep(obj.props@.len() as int) + dots(true)); }
#at after `emit_pat(em, ctx, body, rest)` 1
  proof { rest_d(*body, rest, obj.props@.len() as int, tail(a1, em@)); assert(tail(s2, em@) =~= sep(obj.props@.len() as int) + dots(true) + tail(a1, em@)); }
#at before `em.write_punct("}")`
  proof { a2 = em@; }
#at after `em.write_punct("}")`
  proof { r_pat_object(*body, pat_id, tail(s1, s2), tail(s2, a2)); assert(tail(s0, em@) =~= seq![T::P("{"@)] + tail(s1, s2) + tail(s2, a2) + seq![T::P("}"@)]); }
#at after `emit_pat(em, ctx, body, *target)`
  proof { a1 = em@; }
#at before `emit_expr_with_min_prec(em` 2
  proof { a2 = em@; }
#at after `emit_expr_with_min_prec(em` 2
  proof {
    op_at(*body, *default_value, 2, N::Assign, tail(a2, em@));
    r_pat_default(*body, pat_id, tail(s0, a1), tail(a2, em@));
    assert(tail(s0, em@) =~= tail(s0, a1) + seq![T::P("="@)] + tail(a2, em@));
    starts_more(tail(s0, a1), tail(a1, em@), pbegins(*body, *target));
  }
#at after `emit_expr_with_min_prec(em` 3
  proof {
    op_starts(*body, *expr, 3, tail(s0, em@)); op_at(*body, *expr, 3, N::Lhs, tail(s0, em@));
    r_pat_target(*body, pat_id, tail(s0, em@));
  }
#at before `Ok(())`
  proof { if pat_at(*body, pat_id).kind is Ident { r_pat_name(*body, pat_id); } }
#spec
  ensures r is Ok ==> grew(old(em)@, final(em)@) && pat_d(*body, pat_id, tail(old(em)@, final(em)@)) && starts(tail(old(em)@, final(em)@), pbegins(*body, pat_id)),
@*/
/*@fn emit-js/src/hir.rs :: emit_expr_no_parens
#attr #[verifier::rlimit(200)]
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#rewrite `OPERATORS[&` => `operator_of(`
#rewrite `].precedence` => `).precedence`
#rewrite `.ok_or_else(|| EmitError::unsupported("function body not found"))` => `.ok_or(EmitError::unsupported("function body not found"))`
#rewrite `.ok_or_else(|| EmitError::unsupported("function metadata missing"))` => `.ok_or(EmitError::unsupported("function metadata missing"))`
#rewrite `.ok_or_else(|| EmitError::unsupported("class body not found"))` => `.ok_or(EmitError::unsupported("class body not found"))`
#rewrite `&FunctionData { is_arrow: *is_arrow, ..func.clone() }` => `&with_arrow(func, *is_arrow)`
#entry
  broadcast use b_cat, b_one;
  let ghost s0 = em@;
  let ghost outer = *body;
  let ghost mut decs = Seq::<Decorator>::empty();
  let ghost mut m1 = em@;
  let ghost mut m2 = em@;
  let ghost mut m3 = em@;
  let ghost mut m4 = em@;
  proof { lits(); tree(*body, expr_id); none(s0); }
#at after `emit_pat(em, ctx, body, *target)`
  proof { m1 = em@; }
#at after `emit_assign_operator(em`
  proof { m2 = em@; }
#at after `emit_expr_with_min_prec(em` 0
  proof {
    op_at(*body, *value, 3, N::Assign, tail(m2, em@));
    r_assign(*body, expr_id, tail(s0, m1), tail(m2, em@));
    assert(tail(s0, em@) =~= tail(s0, m1) + seq![assign_t(*op)] + tail(m2, em@));
    starts_more(tail(s0, m1), tail(m1, em@), pbegins(*body, *target));
  }
#at after `emit_expr_with_min_prec(em` 1
  proof { m1 = em@; }
#at before `emit_expr_with_min_prec(em` 2
  proof { m2 = em@; }
#at after `emit_expr_with_min_prec(em` 2
  proof { m3 = em@; }
#at before `emit_expr_with_min_prec(em` 3
  proof { m4 = em@; }
#at after `emit_expr_with_min_prec(em` 3
  proof {
    op_at(*body, *test, 5, N::Short, tail(s0, m1)); op_starts(*body, *test, 5, tail(s0, m1));
    op_at(*body, *consequent, 4, N::Assign, tail(m2, m3));
    op_at(*body, *alternate, 4, N::Assign, tail(m4, em@));
    r_cond(*body, expr_id, tail(s0, m1), tail(m2, m3), tail(m4, em@));
    assert(tail(s0, em@) =~= tail(s0, m1) + seq![T::P("?"@)] + tail(m2, m3) + seq![T::P(":"@)] + tail(m4, em@));
    starts_more(tail(s0, m1), tail(m1, em@), begins(*body, *test));
  }
#at before `emit_function_like(em`
  let ghost g = *body;
  let ghost f = *func;
#at after `emit_decorators(em`
  proof { decs = def.decorators@; }
#at before `let class_body =`
  proof { m1 = em@; }
#at before `emit_class_like(em`
  let ghost g = *class_body;
#at after `emit_receiver(em`
  proof { m1 = em@; }
#at after `em.write_keyword("await")`
  proof { m1 = em@; }
#at after `emit_expr_with_min_prec(em` 4
  proof { op_at(*body, *expr, 16, N::Unary, tail(m1, em@)); after(T::K("await"@), tail(m1, em@)); assert(tail(s0, em@) =~= seq![T::K("await"@)] + tail(m1, em@)); r_unary(*body, expr_id, tail(s0, em@)); }
#at before `if let Some(expr) = expr`
  proof { m1 = em@; none(m1); }
#at after `emit_expr_with_min_prec(em` 5
  proof { op_at(*body, *expr, 3, N::Assign, tail(m1, em@)); }
#at before `emit_expr_with_min_prec(em` 6
  proof { m1 = em@; }
#at after `emit_expr_with_min_prec(em` 6
  proof { m2 = em@; none(m2); op_at(*body, *argument, 2, N::Assign, tail(m1, m2)); }
#at before `emit_expr_with_min_prec(em` 7
  proof { m3 = em@; }
#at after `emit_expr_with_min_prec(em` 7
  proof { op_at(*body, *attrs, 2, N::Assign, tail(m3, em@)); after(T::P(","@), tail(m3, em@)); }
#at before `em.write_punct(")")`
  proof { m4 = em@; }
#at before `Ok(())`
  proof {
    let b = *body; let s = tail(s0, em@); let id = expr_id; let k = kind(b, id);
    match k {
      ExprKind::Ident(_) | ExprKind::This | ExprKind::Super | ExprKind::Literal(_) | ExprKind::ImportMeta | ExprKind::NewTarget | ExprKind::Jsx(_) => { r_atom(b, id, s); },
      ExprKind::Unary { .. } => { r_unary(b, id, s); },
      ExprKind::Update { .. } => { r_update(b, id, s); },
      ExprKind::Binary { op, left, right } => { let (x, y) = choose|x: Seq<T>, y: Seq<T>| binary_p(b, op, left, right, s, x, y); r_binary(b, id, s, x, y); },
      ExprKind::Call(c) => { let (x, y) = choose|x: Seq<T>, y: Seq<T>| call_p(b, c, s, x, y); r_call(b, id, s, x, y); },
      ExprKind::Member(m) => { let (x, y) = choose|x: Seq<T>, y: Seq<T>| member_p(b, m, s, x, y); r_member(b, id, x, y); },
      ExprKind::Array(a) => { let x = choose|x: Seq<T>| array_p(b, a, s, x); r_array(b, id, x); },
      ExprKind::Object(a) => { let x = choose|x: Seq<T>| object_p(b, a, s, x); r_object(b, id, x); },
      ExprKind::Template(_) => { r_template(b, id, s); },
      ExprKind::TaggedTemplate { tag, .. } => { r_tagged(b, id, tail(s0, m1), tail(m1, em@)); starts_more(tail(s0, m1), tail(m1, em@), begins(b, tag)); },
      ExprKind::Yield { expr, delegate } => {
        assert(tail(s0, m1) =~= if delegate { seq![T::K("yield"@), T::P("*"@)] } else { seq![T::K("yield"@)] });
        r_yield(b, id, s, tail(m1, em@));
      },
      ExprKind::ImportCall { .. } => {
        assert(s =~= seq![T::K("import"@), T::P("("@)] + tail(m1, m2) + tail(m2, m4) + rp());
        r_import(b, id, tail(m1, m2), tail(m2, m4));
      },
      ExprKind::TypeAssertion { expr, .. } => { r_erase(b, id, expr, nt_of(b, id), s); },
      ExprKind::NonNull { expr } => { r_erase(b, id, expr, nt_of(b, id), s); },
      ExprKind::Satisfies { expr, .. } => { r_erase(b, id, expr, nt_of(b, id), s); },
      _ => {},
    }
  }
#at after `emit_function_like(em`
  proof { r_function(outer, expr_id, g, f, tail(s0, em@)); }
#at after `emit_class_like(em`
  proof {
    r_class(*body, expr_id, g, decs, tail(s0, m1), tail(m1, em@));
    if m1 != s0 { starts_more(tail(s0, m1), tail(m1, em@), 2); }
  }
#spec
  ensures r is Ok ==> wrote_d(*body, expr_id, old(em)@, final(em)@),
@*/
fn main() {}
}
