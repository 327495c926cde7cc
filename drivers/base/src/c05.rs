//! C05: the innermost-span lookup against a brute-force scan.
use crate::common::{Ctx, Rng};
use crate::ensure;
use diagnostics::TextRange;
use hir_js::span_map::SpanIndex;
use hir_js::{BodyId, DefId, DefKind, ExprId, SpanMap};

type S = (u32, u32, u32);
fn wid(s: &S) -> u32 {
  s.1.saturating_sub(s.0)
}
fn hits(s: &S, o: u32) -> bool {
  if s.0 >= s.1 { s.0 == o } else { s.0 <= o && o < s.1 }
}
fn best(v: &[S], o: u32) -> Option<S> {
  v.iter().filter(|s| hits(s, o)).min_by_key(|s| (wid(s), s.0, s.2, s.1)).copied()
}
fn own(v: &[S], id: u32) -> Option<(u32, u32)> {
  v.iter().filter(|s| s.2 == id).min_by_key(|s| (wid(s), s.0, s.1)).map(|s| (s.0, s.1))
}
const KINDS: [DefKind; 4] = [DefKind::Param, DefKind::Var, DefKind::Function, DefKind::VarDeclarator];
fn rank(k: DefKind) -> u8 {
  match k { DefKind::Var => 0, DefKind::VarDeclarator => 1, DefKind::Param => 3, _ => 4 }
}
fn check(v: &[S]) -> Result<(), String> {
  let mut ix = SpanIndex::new();
  for s in v {
    ix.add(TextRange::new(s.0, s.1), s.2);
  }
  ix.finalize();
  let fs = SpanIndex::from_spans(v.iter().map(|s| (TextRange::new(s.0, s.1), s.2)));
  let mut m = SpanMap::new();
  for s in v {
    let r = TextRange::new(s.0, s.1);
    m.add_expr(r, BodyId(1), ExprId(s.2));
    m.add_body(r, BodyId(s.2 as u64));
    m.add_def(r, KINDS[s.2 as usize % 4], DefId(s.2 as u64));
  }
  m.finalize();
  let mut offs: Vec<u32> = v.iter().flat_map(|s| [s.0.saturating_sub(1), s.0, s.0.saturating_add(1), s.1.saturating_sub(1), s.1, s.1.saturating_add(1)]).collect();
  offs.extend([0, 1, u32::MAX]);
  for o in offs {
    let w = best(v, o);
    let q = ix.query_span(o).map(|r| (r.range.start, r.range.end, r.id));
    ensure!(q == w, "offset {o}: {q:?}, brute force {w:?}");
    ensure!(fs.query(o) == w.map(|s| s.2), "from_spans at {o}");
    ensure!(m.expr_at_offset(o) == w.map(|s| (BodyId(1), ExprId(s.2))), "expr_at_offset {o}");
    ensure!(m.expr_span_at_offset(o).map(|r| (r.range.start, r.range.end)) == w.map(|s| (s.0, s.1)), "expr_span_at_offset {o}");
    ensure!(m.body_at_offset(o) == w.map(|s| BodyId(s.2 as u64)), "body_at_offset {o}");
    let d = v.iter().filter(|s| hits(s, o)).min_by_key(|s| (wid(s), s.0, rank(KINDS[s.2 as usize % 4]), s.2, s.1));
    ensure!(m.def_at_offset(o) == d.map(|s| DefId(s.2 as u64)), "def_at_offset {o}: {:?}, brute force {d:?}", m.def_at_offset(o));
  }
  for id in 0..6 {
    let w = own(v, id);
    let g = |r: Option<TextRange>| r.map(|r| (r.start, r.end));
    ensure!(g(ix.span_of(id)) == w, "span_of {id}: {:?}, want {w:?}", ix.span_of(id));
    ensure!(g(m.expr_span(BodyId(1), ExprId(id))) == w && g(m.body_span(BodyId(id as u64))) == w && g(m.def_span(DefId(id as u64))) == w, "span of {id} in the map");
  }
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "every set of at most two spans over 0..=3 with ids 0..=1, then random sets of up to 12 spans (empty, reversed, nested, crossing, duplicated, extreme), every boundary offset queried".into();
  cx.exhaustive = false;
  let mut all: Vec<S> = vec![];
  for a in 0..4 {
    for b in 0..4 {
      for i in 0..2 {
        all.push((a, b, i));
      }
    }
  }
  cx.case(false, "[]", || check(&[]));
  for a in &all {
    cx.case(true, format!("{a:?}"), || check(&[*a]));
    for b in &all {
      cx.case(true, format!("{a:?} {b:?}"), || check(&[*a, *b]));
    }
  }
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 400_000 } else { 20_000 } {
    let n = 2 + r.below(11);
    let top = [6usize, 12, 40, 1 << 32][r.below(4)];
    let v: Vec<S> = (0..n).map(|_| {
      let a = r.below(top) as u32;
      let b = if r.below(6) == 0 { a } else { r.below(top) as u32 };
      let (a, b) = if r.below(8) == 0 { (a.max(b), a.min(b)) } else { (a.min(b), a.max(b)) };
      (a, b, r.below(6) as u32)
    }).collect();
    cx.case(true, format!("{v:?}"), || check(&v));
  }
}
