//! C10: the control-flow graph against a set of pairs.
use crate::common::{Ctx, Rng};
use crate::ensure;
use ahash::{HashMap, HashMapExt};
use optimize_js::cfg::bblock::convert_insts_to_bblocks;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph, Terminator};
use optimize_js::il::inst::{Arg, Inst, InstTyp};
use optimize_js::il::s2i::DUMMY_LABEL;
use optimize_js::util::counter::Counter;
use std::collections::{BTreeMap, BTreeSet};

pub type Set = BTreeSet<u32>;
#[derive(Clone, Default, Debug)]
pub struct Model {
  pub nodes: Set,
  pub arcs: BTreeSet<(u32, u32)>,
}
impl Model {
  pub fn out(&self, a: u32, rev: bool) -> Set {
    self.arcs.iter().filter_map(|&(x, y)| if rev { (y == a).then_some(x) } else { (x == a).then_some(y) }).collect()
  }
  pub fn reach(&self, a: u32, rev: bool) -> Set {
    let mut s = Set::from([a]);
    let mut q = vec![a];
    while let Some(n) = q.pop() {
      for c in self.out(n, rev) {
        if s.insert(c) {
          q.push(c);
        }
      }
    }
    s
  }
  pub fn contract(&mut self, n: u32) {
    let (p, c) = (self.out(n, true), self.out(n, false));
    self.arcs.retain(|&(x, y)| x != n && y != n);
    for &a in &p {
      for &b in &c {
        if a != n && b != n {
          self.arcs.insert((a, b));
        }
      }
    }
    self.nodes.remove(&n);
  }
  pub fn connect(&mut self, a: u32, b: u32) {
    self.nodes.extend([a, b]);
    self.arcs.insert((a, b));
  }
}
pub fn asc(v: &[u32]) -> bool {
  v.windows(2).all(|w| w[0] < w[1])
}
pub fn is_postorder(m: &Model, entry: u32, rev: bool, po: &[u32]) -> Result<(), String> {
  let s: Set = po.iter().copied().collect();
  ensure!(s.len() == po.len(), "postorder {po:?} repeats a label");
  ensure!(s == m.reach(entry, rev), "postorder {po:?}, reachable {:?}", m.reach(entry, rev));
  ensure!(po.last() == Some(&entry), "postorder {po:?} does not end at {entry}");
  for (i, &x) in po.iter().enumerate() {
    if i + 1 < po.len() {
      ensure!(m.out(x, !rev).iter().any(|p| po[i + 1..].contains(p)), "{x} in {po:?} has no later predecessor");
    }
    for y in m.out(x, rev) {
      let j = po.iter().position(|&z| z == y).unwrap();
      ensure!(j <= i || m.reach(y, rev).contains(&x), "arc {x}->{y} in {po:?} leads later without a cycle");
    }
  }
  Ok(())
}
fn same(g: &CfgGraph, m: &Model) -> Result<(), String> {
  let ls = g.labels_sorted();
  ensure!(asc(&ls) && ls.iter().copied().collect::<Set>() == m.nodes, "labels {ls:?}, want {:?}", m.nodes);
  ensure!(g.labels().collect::<Set>() == m.nodes && g.labels().count() == m.nodes.len() && g.sorted_labels() == ls, "labels()");
  for a in (0..9).chain([77]) {
    ensure!(g.contains(a) == m.nodes.contains(&a), "contains {a}");
    let (c, p) = (g.children_sorted(a), g.parents_sorted(a));
    ensure!(asc(&c) && c.iter().copied().collect::<Set>() == m.out(a, false), "children of {a}: {c:?}, want {:?}", m.out(a, false));
    ensure!(asc(&p) && p.iter().copied().collect::<Set>() == m.out(a, true), "parents of {a}: {p:?}, want {:?}", m.out(a, true));
    ensure!(g.sorted_children(a) == c && g.sorted_parents(a) == p, "sorted_children/sorted_parents of {a}");
    ensure!(g.children(a).count() == c.len() && g.parents(a).count() == p.len(), "children/parents of {a}");
  }
  Ok(())
}
fn queries(g: &CfgGraph, m: &Model) -> Result<(), String> {
  for &e in &m.nodes {
    let u: Vec<u32> = g.find_unreachable(e).collect();
    let want: Vec<u32> = m.nodes.difference(&m.reach(e, false)).copied().collect();
    ensure!(u == want, "unreachable from {e}: {u:?}, want {want:?}");
    for rev in [false, true] {
      let (po, ix) = if rev { g.calculate_reversed_graph_postorder(e) } else { g.calculate_postorder(e) };
      is_postorder(m, e, rev, &po)?;
      ensure!(ix.len() == po.len() && po.iter().enumerate().all(|(i, l)| ix.get(l) == Some(&i)), "index map {ix:?} of {po:?}");
    }
  }
  Ok(())
}
#[derive(Clone, Copy, Debug)]
enum Op {
  Con(u32, u32),
  Dis(u32, u32),
  Del(u32, u32),
  Pop(u32),
}
fn replay(ops: &[Op]) -> Result<(), String> {
  let mut g = CfgGraph::default();
  let mut m = Model::default();
  for &op in ops {
    match op {
      Op::Con(a, b) => {
        g.connect(a, b);
        m.connect(a, b);
      }
      Op::Dis(a, b) => {
        if m.nodes.contains(&a) && m.nodes.contains(&b) {
          g.disconnect(a, b);
          m.arcs.remove(&(a, b));
        }
      }
      Op::Del(a, b) => {
        let ls: Vec<u32> = [a, b].into_iter().filter(|x| m.nodes.contains(x)).collect::<Set>().into_iter().rev().collect();
        g.delete_many(ls.iter().copied());
        for l in ls {
          m.contract(l);
        }
      }
      Op::Pop(a) => {
        if m.nodes.contains(&a) && m.out(a, false).is_empty() && m.out(a, true).is_empty() {
          g.pop(a);
          m.nodes.remove(&a);
        }
      }
    }
    same(&g, &m).map_err(|e| format!("after {op:?}: {e}"))?;
  }
  queries(&g, &m)
}
fn rnd_op(r: &mut Rng, n: usize) -> Op {
  let (a, b) = (r.below(n) as u32, r.below(n) as u32);
  match r.below(10) {
    0..=5 => Op::Con(a, b),
    6 => Op::Dis(a, b),
    7 => Op::Del(a, b),
    8 => Op::Del(a, a),
    _ => Op::Pop(a),
  }
}
fn mark(k: u32) -> Inst {
  Inst::var_assign(1000 + k, Arg::Var(k))
}
#[derive(Clone, Debug)]
enum End {
  Goto(u32),
  Cond(u32, u32),
  Fall,
}
/// blocks in the given order, block i named ord[i]
fn blocks(ord: &[u32], ends: &[End], body: &[usize], entry: u32) -> Result<(), String> {
  let n = ord.len();
  let mut bb: HashMap<u32, Vec<Inst>> = HashMap::new();
  let mut m = Model::default();
  let mut want: BTreeMap<u32, Vec<Inst>> = BTreeMap::new();
  for i in 0..n {
    let mut v: Vec<Inst> = (0..body[i]).map(|k| mark(k as u32)).collect();
    let mut w = v.clone();
    match ends[i] {
      End::Goto(t) => {
        v.push(Inst::goto(t));
        m.connect(ord[i], t);
      }
      End::Cond(t, f) => {
        v.push(Inst::cond_goto(Arg::Var(7), t, f));
        let fix = |l: u32| if l == DUMMY_LABEL { ord[i + 1] } else { l };
        w.push(Inst::cond_goto(Arg::Var(7), fix(t), fix(f)));
        m.connect(ord[i], fix(t));
        m.connect(ord[i], fix(f));
      }
      End::Fall => {
        if i + 1 < n {
          m.connect(ord[i], ord[i + 1]);
        }
      }
    }
    bb.insert(ord[i], v);
    want.insert(ord[i], w);
  }
  let mut cfg = Cfg::from_bblocks(bb, ord.to_vec());
  ensure!(cfg.entry == 0, "entry {}", cfg.entry);
  same(&cfg.graph, &m)?;
  let got: BTreeMap<u32, Vec<Inst>> = cfg.bblocks.all().map(|(k, v)| (k, v.clone())).collect();
  ensure!(got == want, "blocks {got:?}, want {want:?}");
  queries(&cfg.graph, &m)?;
  for &l in ord {
    let t = cfg.terminator(l);
    let w = want[&l].last().filter(|i| i.t == InstTyp::CondGoto);
    let outs: Vec<u32> = m.out(l, false).into_iter().collect();
    let exp = match (w, outs.len()) {
      (Some(i), _) => Terminator::CondGoto { cond: i.args[0].clone(), t: i.labels[0], f: i.labels[1] },
      (None, 0) => Terminator::Stop,
      (None, 1) => Terminator::Goto(outs[0]),
      _ => Terminator::Multi { targets: outs },
    };
    ensure!(t == exp, "terminator of {l}: {t:?}, want {exp:?}");
    ensure!(cfg.bblocks.maybe_get(l) == Some(&want[&l]) && cfg.bblocks.get(l) == &want[&l], "block {l}");
  }
  ensure!(cfg.bblocks.maybe_get(4242).is_none(), "a block that does not exist");
  cfg.entry = entry;
  if m.nodes.contains(&entry) {
    let mut rpo = cfg.reverse_postorder();
    rpo.reverse();
    is_postorder(&m, entry, false, &rpo)?;
  }
  let keep = m.reach(entry, false);
  let gone: Vec<u32> = m.nodes.difference(&keep).copied().collect();
  let r = cfg.find_and_pop_unreachable();
  ensure!(r == gone, "popped {r:?}, unreachable {gone:?}");
  m.arcs.retain(|(a, _)| keep.contains(a));
  m.nodes.retain(|a| keep.contains(a));
  for g in &gone {
    want.remove(g);
  }
  same(&cfg.graph, &m)?;
  let got: BTreeMap<u32, Vec<Inst>> = cfg.bblocks.all().map(|(k, v)| (k, v.clone())).collect();
  ensure!(got == want, "blocks after popping {got:?}, want {want:?}");
  // Cfg::pop of an isolated block
  if let Some(&l) = m.nodes.iter().next() {
    for (a, b) in m.arcs.clone() {
      if a == l || b == l {
        cfg.graph.disconnect(a, b);
        m.arcs.remove(&(a, b));
      }
    }
    let v = cfg.pop(l);
    m.nodes.remove(&l);
    ensure!(Some(v) == want.remove(&l) && cfg.bblocks.maybe_get(l).is_none(), "pop {l}");
    same(&cfg.graph, &m)?;
  }
  let mut bb = CfgBBlocks::default();
  bb.add(5, vec![mark(1)]);
  bb.get_mut(5).push(mark(2));
  ensure!(bb.get(5) == &vec![mark(1), mark(2)] && bb.remove(5).len() == 2 && bb.maybe_get(5).is_none(), "CfgBBlocks");
  Ok(())
}
/// splitting a flat list: nothing lost, nothing reordered, jumps end blocks, labels start them
fn split(kinds: &[u8]) -> Result<(), String> {
  let mut c = Counter::new(100);
  let mut insts = vec![];
  let mut want: Vec<(Option<u32>, Vec<Inst>)> = vec![(Some(0), vec![])];
  let mut l = 10;
  for (i, k) in kinds.iter().enumerate() {
    match k {
      0 => {
        insts.push(mark(i as u32));
        want.last_mut().unwrap().1.push(mark(i as u32));
      }
      1 => {
        l += 1;
        insts.push(Inst::label(l));
        want.push((Some(l), vec![]));
      }
      _ => {
        let x = if *k == 2 { Inst::goto(l) } else { Inst::cond_goto(Arg::Var(1), l, DUMMY_LABEL) };
        insts.push(x.clone());
        want.last_mut().unwrap().1.push(x);
        want.push((None, vec![]));
      }
    }
  }
  let (bb, ord) = convert_insts_to_bblocks(insts, &mut c);
  ensure!(ord.len() == want.len() && bb.len() == want.len(), "{} blocks in the order, {} blocks, want {}", ord.len(), bb.len(), want.len());
  ensure!(ord.iter().collect::<BTreeSet<_>>().len() == ord.len(), "order {ord:?} repeats");
  for (o, w) in ord.iter().zip(&want) {
    ensure!(w.0.is_none_or(|l| l == *o), "block {o} where {w:?} was wanted");
    ensure!(w.0.is_some() || *o >= 100, "label {o} not fresh");
    ensure!(bb.get(o) == Some(&w.1), "block {o}: {:?}, want {:?}", bb.get(o), w.1);
  }
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "every digraph on 3 labels (self-loops included) followed by every pair deletion, random sequences of up to 40 operations on up to 7 labels, every way to end up to 3 blocks, random sets of up to 7 blocks, every flat list of up to 5 instructions of 4 kinds".into();
  cx.exhaustive = false;
  for bits in 0..512u32 {
    let base: Vec<Op> = (0..9).filter(|i| bits >> i & 1 == 1).map(|i| Op::Con(i / 3, i % 3)).collect();
    for a in 0..3 {
      for b in 0..3 {
        let mut v = base.clone();
        v.push(Op::Del(a, b));
        cx.case(bits != 0, format!("{v:?}"), || replay(&v));
      }
    }
    let v = base;
    cx.case(bits != 0, format!("{v:?}"), || replay(&v));
  }
  let mut r = Rng::new(cx.rng.next());
  for _ in 0..if cx.thorough { 120_000 } else { 6_000 } {
    let n = 2 + r.below(6);
    let v: Vec<Op> = (0..1 + r.below(40)).map(|_| rnd_op(&mut r, n)).collect();
    cx.case(true, format!("{v:?}"), || replay(&v));
  }
  for n in 1..=3usize {
    let ord: Vec<u32> = [0u32, 4, 2][..n].to_vec();
    let mut ends: Vec<End> = vec![End::Fall];
    let mut tg: Vec<u32> = ord.clone();
    tg.push(DUMMY_LABEL);
    for &a in &ord {
      ends.push(End::Goto(a));
    }
    for &a in &tg {
      for &b in &tg {
        ends.push(End::Cond(a, b));
      }
    }
    let k = ends.len();
    for x in 0..k.pow(n as u32) {
      let mut y = x;
      let mut es = vec![];
      for i in 0..n {
        let mut e = ends[y % k].clone();
        y /= k;
        if i + 1 == n {
          if let End::Cond(a, b) = e {
            let f = |l| if l == DUMMY_LABEL { 0 } else { l };
            e = End::Cond(f(a), f(b));
          }
        }
        es.push(e);
      }
      let body: Vec<usize> = (0..n).map(|i| (x + i) % 2).collect();
      cx.case(true, format!("{ord:?} {es:?} {body:?}"), || blocks(&ord, &es, &body, ord[x % n]));
    }
  }
  for _ in 0..if cx.thorough { 60_000 } else { 4_000 } {
    let n = 1 + r.below(7);
    let mut ord: Vec<u32> = (1..8).collect();
    r.shuffle(&mut ord);
    ord.insert(0, 0);
    ord.truncate(n);
    let es: Vec<End> = (0..n)
      .map(|i| {
        let mut t = |r: &mut Rng| if i + 1 < n && r.below(3) == 0 { DUMMY_LABEL } else { ord[r.below(n)] };
        match r.below(3) {
          0 => End::Goto(ord[r.below(n)]),
          1 => End::Cond(t(&mut r), t(&mut r)),
          _ => End::Fall,
        }
      })
      .collect();
    let body: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
    let e = ord[r.below(n)];
    cx.case(true, format!("{ord:?} {es:?} {body:?} entry {e}"), || blocks(&ord, &es, &body, e));
  }
  for n in 0..=5u32 {
    for x in 0..4u32.pow(n) {
      let v: Vec<u8> = (0..n).map(|i| (x / 4u32.pow(i) % 4) as u8).collect();
      cx.case(n > 0, format!("{v:?}"), || split(&v));
    }
  }
}
