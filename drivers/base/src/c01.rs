//! C01: what diagnostics are reported, and in which order, depends on their content alone.
use crate::common::{Ctx, Rng};
use diagnostics::render::render_diagnostic;
use diagnostics::{diagnostic_cmp, sort_diagnostics, sort_labels, Diagnostic, FileId, Label, Severity, SimpleFiles, Span, TextRange};
use std::cmp::Ordering;

type LKey = (bool, u32, u32, u32, String);
fn lkey(l: &Label) -> LKey {
  (!l.is_primary, l.span.file.0, l.span.range.start, l.span.range.end, l.message.clone())
}
type RKey = (u32, u32, u32, String, u8, String, usize, Vec<LKey>, usize, Vec<String>);
/// everything observable, in reporting order
fn rkey(d: &Diagnostic) -> RKey {
  let mut ls: Vec<LKey> = d.labels.iter().map(lkey).collect();
  ls.sort();
  let mut ns = d.notes.clone();
  ns.sort();
  let sev = match d.severity {
    Severity::Error => 0,
    Severity::Warning => 1,
    Severity::Note => 2,
    Severity::Help => 3,
  };
  (d.primary.file.0, d.primary.range.start, d.primary.range.end, d.code.as_str().to_string(), sev, d.message.clone(), ls.len(), ls, ns.len(), ns)
}
fn span(r: &mut Rng) -> Span {
  let big = [0u32, 1, 2, 5, u32::MAX];
  Span::new(FileId(*r.pick(&[0, 1, u32::MAX])), TextRange::new(*r.pick(&big), *r.pick(&big)))
}
fn text(r: &mut Rng) -> String {
  r.pick(&["", "a", "b", "ab", "a\u{e9}", "\u{ffff}", "\u{1f600}", "Z"]).to_string()
}
fn label(r: &mut Rng) -> Label {
  Label::new(span(r), text(r), r.bool())
}
fn diag(r: &mut Rng, base: Option<&Diagnostic>) -> Diagnostic {
  let fresh = |r: &mut Rng| {
    let sev = *r.pick(&[Severity::Error, Severity::Warning, Severity::Note, Severity::Help]);
    let mut d = if r.bool() {
      Diagnostic::new(sev, *r.pick(&["A", "B", "AB"]), text(r), span(r))
    } else {
      Diagnostic::new(sev, r.pick(&["A", "B", "AB"]).to_string(), text(r), span(r))
    };
    for _ in 0..r.below(4) {
      let l = label(r);
      d.push_label(l);
    }
    for _ in 0..r.below(3) {
      let n = text(r);
      d.push_note(n);
    }
    d
  };
  match base {
    None => fresh(r),
    Some(b) => {
      // differ from the base in exactly one respect
      let mut d = b.clone();
      match r.below(10) {
        0 => d.primary.file = FileId(d.primary.file.0 ^ 1),
        1 => d.primary.range.start = d.primary.range.start.wrapping_add(1),
        2 => d.primary.range.end = d.primary.range.end.wrapping_add(1),
        3 => d.code = text(r).into(),
        4 => d.severity = *r.pick(&[Severity::Error, Severity::Warning, Severity::Note, Severity::Help]),
        5 => d.message = text(r),
        6 => {
          r.shuffle(&mut d.labels);
          r.shuffle(&mut d.notes);
        }
        7 => {
          if d.labels.is_empty() {
            let l = label(r);
            d.push_label(l);
          } else {
            let i = r.below(d.labels.len());
            let l = &mut d.labels[i];
            match r.below(5) {
              0 => l.is_primary = !l.is_primary,
              1 => l.span.file = FileId(l.span.file.0 ^ 1),
              2 => l.span.range.start ^= 1,
              3 => l.span.range.end ^= 1,
              _ => l.message = text(r),
            }
          }
        }
        8 => {
          if d.notes.is_empty() || r.bool() {
            let n = text(r);
            d.push_note(n);
          } else {
            let i = r.below(d.notes.len());
            d.notes[i] = text(r);
          }
        }
        _ => {
          if !d.labels.is_empty() && r.bool() {
            d.labels.pop();
          } else {
            let l = label(r);
            d.push_label(l);
          }
        }
      }
      d
    }
  }
}
fn order(a: &Diagnostic, b: &Diagnostic) -> Result<(), String> {
  let want = rkey(a).cmp(&rkey(b));
  let got = diagnostic_cmp(a, b);
  ensure!(got == want, "comparison says {got:?}, the contents are {want:?}");
  ensure!(diagnostic_cmp(b, a) == got.reverse(), "the comparison is not antisymmetric");
  ensure!((a.cmp(b) == Ordering::Equal) == (a == b), "Ord and Eq disagree");
  ensure!(a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)), "Ord is not antisymmetric");
  Ok(())
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "seeded families of up to 9 diagnostics that differ from one another in one field (spans at 0/1/2/5/max, multi-byte and empty texts, up to 4 labels and 3 notes): pairwise order against the content key, every family sorted from up to 24 arrival orders, labels sorted, rendering under label permutation".into();
  let n = if cx.thorough { 60000 } else { 6000 };
  let mut files = SimpleFiles::new();
  files.add("a.js", "let a = 1;\nlet b = 2;\n");
  files.add("b.js", "x\n\ny");
  for _ in 0..n {
    let mut r = Rng::new(cx.rng.next());
    let first = diag(&mut r, None);
    let mut fam = vec![first];
    for _ in 0..2 + r.below(7) {
      let k = r.below(fam.len());
      let d = if r.below(5) == 0 { diag(&mut r, None) } else { diag(&mut r, Some(&fam[k].clone())) };
      fam.push(d);
    }
    let desc = format!("{fam:?}");
    let seed = r.next();
    cx.case(true, desc, || {
      let mut r = Rng::new(seed);
      for a in &fam {
        for b in &fam {
          order(a, b)?;
          for c in &fam {
            if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater {
              ensure!(a.cmp(c) != Ordering::Greater, "Ord is not transitive: {a:?} {b:?} {c:?}");
            }
          }
        }
      }
      let mut want: Vec<RKey> = fam.iter().map(rkey).collect();
      want.sort();
      for _ in 0..24 {
        let mut arr = fam.clone();
        r.shuffle(&mut arr);
        sort_diagnostics(&mut arr);
        let got: Vec<RKey> = arr.iter().map(rkey).collect();
        ensure!(got == want, "sorted order depends on arrival: {got:?} instead of {want:?}");
      }
      for d in &fam {
        let mut ls = d.labels.clone();
        let mut lw: Vec<LKey> = ls.iter().map(lkey).collect();
        lw.sort();
        r.shuffle(&mut ls);
        sort_labels(&mut ls);
        let lg: Vec<LKey> = ls.iter().map(lkey).collect();
        ensure!(lg == lw, "labels sorted as {lg:?} instead of {lw:?}");
        for (x, y) in ls.iter().zip(ls.iter().skip(1)) {
          ensure!(x.cmp(y) == lkey(x).cmp(&lkey(y)), "label order: {x:?} {y:?} {:?}", x.cmp(y));
        }
        let mut e = d.clone();
        r.shuffle(&mut e.labels);
        ensure!(render_diagnostic(&files, d) == render_diagnostic(&files, &e), "the rendering depends on the order labels were attached in");
      }
      Ok(())
    });
  }
}
