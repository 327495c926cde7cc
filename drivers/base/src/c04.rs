//! C04: source ranges measure, clamp and join consistently.
use crate::common::Ctx;
use crate::ensure;
use parse_js::loc::{Loc, TextRange};

fn cl(v: usize) -> u32 {
  v.min(u32::MAX as usize) as u32
}
fn one(a: Loc) -> Result<(), String> {
  let (s, e) = (a.0, a.1);
  let (r, o) = a.as_range_with_overflow();
  ensure!((r.start, r.end) == (cl(s), cl(e)), "range {r:?}");
  ensure!((a.start_u32(), a.end_u32()) == (cl(s), cl(e)), "start_u32/end_u32");
  ensure!(a.as_range() == r && TextRange::from(a) == r, "as_range disagrees");
  let big = u32::MAX as usize;
  let want = ((s > big).then_some(s), (e > big).then_some(e));
  ensure!(o.map(|o| (o.start, o.end)) == (s > big || e > big).then_some(want), "overflow {o:?}");
  ensure!(TextRange::checked_from_loc(a).is_ok() == o.is_none(), "checked_from_loc");
  ensure!(a.len() == e.saturating_sub(s) && a.is_empty() == (s >= e), "len {} empty {}", a.len(), a.is_empty());
  ensure!(r.len() as usize == (r.end as usize).saturating_sub(r.start as usize) && r.is_empty() == (r.len() == 0), "range len");
  if o.is_none() {
    ensure!(Loc::from(r) == a, "not lossless");
  }
  let d = a.to_diagnostics_range();
  ensure!((d.start, d.end) == (r.start, r.end), "diagnostics range {d:?}");
  ensure!(d.len() == r.len() && d.is_empty() == r.is_empty(), "diagnostics len");
  let (d2, note) = a.to_diagnostics_range_with_note();
  ensure!(d2 == d && note.is_some() == o.is_some(), "note {note:?}");
  for x in [0, 1, 2, 3, 5, cl(s), cl(s).saturating_sub(1), cl(e), cl(e).saturating_sub(1), u32::MAX] {
    let want = r.start <= x && x < r.end;
    ensure!(r.contains(x) == want && d.contains(x) == want, "contains {x}");
    ensure!(diagnostics::Span::new(diagnostics::FileId(1), d).contains(x) == want, "span contains {x}");
  }
  Ok(())
}
fn two(a: Loc, b: Loc) -> Result<(), String> {
  let want = Loc(a.0.min(b.0), a.1.max(b.1));
  let mut x = a;
  x.extend(b);
  let mut y = a;
  y += b;
  ensure!(x == want && y == want && a + b == want && b + a == want, "join {x:?} {y:?}");
  ensure!(a.add_option(Some(b)) == want && a.add_option(None) == a, "add_option");
  ensure!(Loc::best_effort(Some(a), Some(b)) == want && Loc::best_effort(Some(a), None) == a && Loc::best_effort(None, Some(b)) == b && Loc::best_effort(None, None) == Loc(0, 0), "best_effort");
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "every pair of 15 boundary offsets as a location, every pair of such locations joined".into();
  cx.exhaustive = false;
  let m = u32::MAX as usize;
  let v = [0, 1, 2, 3, 4, 5, 6, 1000, m - 1, m, m + 1, m + 2, 1 << 40, usize::MAX - 1, usize::MAX];
  let mut ls = vec![];
  for a in v {
    for b in v {
      ls.push(Loc(a, b));
    }
  }
  for a in &ls {
    cx.case(true, format!("{a:?}"), || one(*a));
  }
  for a in &ls {
    for b in &ls {
      cx.case(true, format!("{a:?} + {b:?}"), || two(*a, *b));
    }
  }
}
