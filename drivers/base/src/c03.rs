//! C03: every spelling of a path is normalised to the one canonical spelling.
use crate::common::{Ctx, Rng};
use crate::ensure;
use diagnostics::paths::{normalize_ts_path, normalize_ts_path_into};

fn is_drive(s: &str) -> bool {
  let b = s.as_bytes();
  b.len() >= 2 && b[0].is_ascii_alphabetic() && b[1] == b':'
}
/// the specification, over a list of segments instead of one buffer
fn model(raw: &str) -> String {
  let raw = if raw.starts_with("\\\\?\\") || raw.starts_with("//?/") { &raw[4..] } else { raw };
  let mut drive: Option<char> = None;
  let mut segs: Vec<&str> = vec![];
  for part in raw.split(['/', '\\']) {
    let mut part = part;
    if drive.is_none() && segs.is_empty() && is_drive(part) {
      drive = Some(part.as_bytes()[0].to_ascii_lowercase() as char);
      part = &part[2..];
    }
    match part {
      "" | "." => {}
      ".." => {
        segs.pop();
      }
      s => segs.push(s),
    }
  }
  let root = match drive {
    Some(d) => format!("{d}:/"),
    None => "/".into(),
  };
  root + &segs.join("/")
}
fn check(raw: &str, buf: &mut String) -> Result<(), String> {
  let got = normalize_ts_path(raw);
  let want = model(raw);
  ensure!(got == want, "normalised to {got:?}, the path is {want:?}");
  ensure!(normalize_ts_path(&got) == got, "normalising {got:?} again gives {:?}", normalize_ts_path(&got));
  normalize_ts_path_into(raw, buf);
  ensure!(*buf == want, "into a reused buffer: {buf:?}, the path is {want:?}");
  Ok(())
}
const ATOMS: &[&str] = &["/", "\\", ".", "..", "a", "C:", "é:", "?", "//?/", "\\\\?\\"];
pub fn run(cx: &mut Ctx) {
  cx.rule = "every sequence of up to 5 (thorough: 6) pieces from / \\ . .. a C: é: ? and both extended-length prefixes, then random longer ones".into();
  let max = if cx.thorough { 6 } else { 5 };
  let mut buf = String::from("left over");
  for n in 0..=max {
    for k in 0..ATOMS.len().pow(n) {
      let (mut k, mut s) = (k, String::new());
      for _ in 0..n {
        s.push_str(ATOMS[k % ATOMS.len()]);
        k /= ATOMS.len();
      }
      cx.case(n > 1, s.clone(), || check(&s, &mut buf));
      if cx.failed() {
        return;
      }
    }
  }
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 2_000_000 } else { 100_000 } {
    let mut s = String::new();
    for _ in 0..r.below(24) {
      if r.below(8) == 0 {
        s.push(char::from_u32(r.below(0x10ffff) as u32).unwrap_or('x'));
      } else {
        s.push_str(ATOMS[r.below(ATOMS.len())]);
      }
    }
    cx.case(true, s.clone(), || check(&s, &mut buf));
  }
}
