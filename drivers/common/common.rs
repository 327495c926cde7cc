//! Shared harness of the bounded contract checks: enumerates cases, evaluates the
//! executable form of a contract on the real crate, reports every case that breaks it.
#![allow(dead_code)]
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
    for _ in 0..8 {
      r.next();
    }
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n.max(1) as u64) as usize
  }
  pub fn bool(&mut self) -> bool {
    self.next() & 1 == 1
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }
}

pub struct Ctx {
  pub pid: String,
  pub thorough: bool,
  pub rng: Rng,
  pub rule: String,
  pub exhaustive: bool,
  evals: u64,
  seen: HashSet<u64>,
  samples: Vec<String>,
  violations: Vec<(u64, String, String)>,
  only: Option<u64>,
  trace: Option<String>,
  out: String,
  clock: Arc<AtomicU64>,
  current: Arc<Mutex<String>>,
  limit_s: Arc<AtomicU64>,
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          o.push_str(&format!("\\u{:04x}", u));
        }
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn clip(s: &str, n: usize) -> String {
  s.chars().take(n).collect()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".into()
  }
}

impl Ctx {
  /// Seconds one case may run before it counts as not returning.
  pub fn set_limit(&self, s: u64) {
    self.limit_s.store(s, Ordering::SeqCst);
  }
  /// One evaluation of a contract. `desc` names the input; `f` is `Err(what failed)`.
  /// A panic of the code under contract is a failure.
  pub fn case<D: Into<String>>(&mut self, nontrivial: bool, desc: D, f: impl FnOnce() -> Result<(), String>) {
    let idx = self.evals;
    self.evals += 1;
    if let Some(only) = self.only {
      if only != idx {
        return;
      }
    }
    if self.violations.len() >= 40 {
      return;
    }
    let desc: String = desc.into();
    if let Some(tr) = &self.trace {
      let mut fh = std::fs::File::create(tr).unwrap();
      let _ = write!(fh, "{}\n{}", idx, clip(&desc, 4000));
    }
    if nontrivial {
      let mut h = DefaultHasher::new();
      desc.hash(&mut h);
      self.seen.insert(h.finish());
    }
    if self.samples.len() < 3 || (self.samples.len() < 8 && idx.is_power_of_two()) {
      self.samples.push(clip(&desc, 300));
    }
    {
      let mut c = self.current.lock().unwrap();
      c.clear();
      c.push_str(&clip(&desc, 4000));
    }
    self.clock.fetch_add(1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    self.clock.fetch_add(1, Ordering::SeqCst);
    let what = match r {
      Ok(Ok(())) => return,
      Ok(Err(w)) => w,
      Err(e) => format!("panicked: {}", panic_text(e)),
    };
    if self.only.is_some() {
      eprintln!("case {}: {}\n  {}", idx, desc, what);
    }
    self.violations.push((idx, clip(&desc, 4000), clip(&what, 1500)));
  }
  pub fn failed(&self) -> bool {
    self.violations.len() >= 40
  }
  fn report(&self) -> String {
    render(
      self.evals,
      self.seen.len() as u64,
      &self.rule,
      self.exhaustive,
      &self.samples,
      &self.violations,
    )
  }
}

fn render(evals: u64, distinct: u64, rule: &str, exhaustive: bool, samples: &[String], viol: &[(u64, String, String)]) -> String {
  let s: Vec<String> = samples.iter().map(|x| esc(x)).collect();
  let v: Vec<String> = viol
    .iter()
    .map(|(i, d, w)| format!("{{\"index\":{},\"desc\":{},\"what\":{}}}", i, esc(d), esc(w)))
    .collect();
  format!(
    "{{\"evaluations\":{},\"distinct\":{},\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"violations\":[{}]}}",
    evals,
    distinct,
    esc(rule),
    exhaustive,
    s.join(","),
    v.join(",")
  )
}

pub fn main_with(props: &'static [(&'static str, fn(&mut Ctx))]) {
  let a: Vec<String> = std::env::args().collect();
  if a.len() < 6 || a[1] != "run" {
    eprintln!("usage: {} run <property> <tier> <seed> <out>", a[0]);
    std::process::exit(2);
  }
  let Some((_, f)) = props.iter().find(|(n, _)| *n == a[2]) else {
    eprintln!("unknown property {}", a[2]);
    std::process::exit(2);
  };
  let f = *f;
  std::panic::set_hook(Box::new(|_| {}));
  let clock = Arc::new(AtomicU64::new(0));
  let current = Arc::new(Mutex::new(String::new()));
  let limit_s = Arc::new(AtomicU64::new(30));
  let mut ctx = Ctx {
    pid: a[2].clone(),
    thorough: a[3] == "thorough",
    rng: Rng::new(a[4].parse().unwrap_or(1)),
    rule: String::new(),
    exhaustive: false,
    evals: 0,
    seen: HashSet::new(),
    samples: vec![],
    violations: vec![],
    only: std::env::var("DRV_ONLY").ok().and_then(|s| s.parse().ok()),
    trace: std::env::var("DRV_TRACE").ok(),
    out: a[5].clone(),
    clock: clock.clone(),
    current: current.clone(),
    limit_s: limit_s.clone(),
  };
  let out = a[5].clone();
  // watchdog: a case that does not return is a violation in its own right
  std::thread::spawn(move || {
    let mut last = (0u64, std::time::Instant::now());
    loop {
      std::thread::sleep(std::time::Duration::from_millis(500));
      let c = clock.load(Ordering::SeqCst);
      if c != last.0 {
        last = (c, std::time::Instant::now());
      } else if c % 2 == 1 && last.1.elapsed().as_secs() >= limit_s.load(Ordering::SeqCst) {
        let d = current.lock().map(|g| g.clone()).unwrap_or_default();
        let w = format!("the call did not return within {} s", limit_s.load(Ordering::SeqCst));
        let _ = std::fs::write(&out, render(c / 2 + 1, 0, "", false, &[], &[(c / 2, d, w)]));
        std::process::exit(1);
      }
    }
  });
  // a roomy stack, so that recursion depth is bounded by the input and not by the harness
  let h = std::thread::Builder::new()
    .stack_size(256 << 20)
    .spawn(move || {
      f(&mut ctx);
      let rep = ctx.report();
      let bad = !ctx.violations.is_empty();
      std::fs::write(&ctx.out, rep).expect("write report");
      bad
    })
    .unwrap();
  match h.join() {
    Ok(bad) => std::process::exit(bad as i32),
    Err(e) => {
      eprintln!("driver panicked: {}", panic_text(e));
      std::process::exit(3);
    }
  }
}

/// Ensure with a lazily built message.
#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
