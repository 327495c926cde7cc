//! C11: dominators, post-dominators, frontiers and common dominators against their definitions.
use crate::c10::{asc, is_postorder, Model, Set};
use crate::common::{Ctx, Rng};
use crate::ensure;
use optimize_js::cfg::cfg::{Cfg, CfgGraph};
use optimize_js::dom::{Dom, PostDom};
use std::collections::BTreeMap;

/// labels the entry reaches without passing `cut`
fn without(m: &Model, entry: u32, cut: u32, rev: bool) -> Set {
  let mut s = Set::new();
  if entry == cut {
    return s;
  }
  s.insert(entry);
  let mut q = vec![entry];
  while let Some(n) = q.pop() {
    for c in m.out(n, rev) {
      if c != cut && s.insert(c) {
        q.push(c);
      }
    }
  }
  s
}
/// label => labels on every walk from the entry to it, by removing each label in turn
fn dominators(m: &Model, entry: u32, rev: bool) -> BTreeMap<u32, Set> {
  let all = m.reach(entry, rev);
  let mut r: BTreeMap<u32, Set> = all.iter().map(|&b| (b, Set::new())).collect();
  for &a in &all {
    let left = without(m, entry, a, rev);
    for &b in all.difference(&left) {
      r.get_mut(&b).unwrap().insert(a);
    }
  }
  r
}
/// the table against the dominators of `m` (reversed if asked) from the entry
fn table<const POST: bool>(d: &Dom<POST>, m: &Model, entry: u32, rev: bool, r: &mut Rng) -> Result<BTreeMap<u32, Set>, String> {
  let want = dominators(m, entry, rev);
  ensure!(d.entry() == entry && d.entry_label() == entry, "entry {} / {}, want {entry}", d.entry(), d.entry_label());
  is_postorder(m, entry, rev, d.postorder())?;
  let mut labels: Vec<u32> = m.nodes.iter().copied().collect();
  labels.extend([entry, 4_000_000]);
  let (by, doms) = (d.dominated_by_graph(), d.dominates_graph());
  let mut below: BTreeMap<u32, Set> = BTreeMap::new();
  for &b in &labels {
    let ds = want.get(&b).cloned().unwrap_or_default();
    // the immediate dominator: the strict one that every other strict one dominates
    let idom = ds.iter().copied().find(|&i| i != b && ds.iter().all(|&x| x == b || want[&i].contains(&x)));
    ensure!(b == entry || ds.is_empty() || idom.is_some(), "driver: no immediate dominator of {b}");
    ensure!(
      d.idom(b) == idom && d.idom_of(b) == idom && d.immediate_dominator(b) == idom,
      "idom {b}: {:?} {:?} {:?}, want {idom:?}",
      d.idom(b),
      d.idom_of(b),
      d.immediate_dominator(b)
    );
    if let Some(i) = idom {
      below.entry(i).or_default().insert(b);
    }
    for &a in &labels {
      ensure!(by.dominated_by(b, a) == ds.contains(&a), "{b} dominated by {a}: {}, want {}", by.dominated_by(b, a), ds.contains(&a));
      ensure!(doms.dominates(a, b) == ds.contains(&a), "{a} dominates {b}: {}, want {}", doms.dominates(a, b), ds.contains(&a));
    }
  }
  for &a in &labels {
    let got: Vec<u32> = d.immediately_dominated_by(a).collect();
    ensure!(asc(&got) && got.iter().copied().collect::<Set>() == below.get(&a).cloned().unwrap_or_default(), "immediately dominated by {a}: {got:?}");
  }
  let near = |ls: &[u32]| -> Option<u32> {
    let mut common = want.get(&ls[0])?.clone();
    for l in ls {
      common = common.intersection(want.get(l)?).copied().collect();
    }
    common.iter().copied().find(|x| common.iter().all(|y| want[x].contains(y)))
  };
  let known: Vec<u32> = want.keys().copied().collect();
  for &a in &labels {
    for &b in &labels {
      let w = if a == b { Some(a) } else { near(&[a, b]) };
      ensure!(d.lca(a, b) == w, "nearest common dominator of {a} and {b}: {:?}, want {w:?}", d.lca(a, b));
    }
  }
  ensure!(d.lca_all([]).is_none(), "nearest common dominator of nothing");
  for k in 1..5 {
    let ls: Vec<u32> = (0..k).map(|_| *r.pick(&known)).collect();
    ensure!(d.lca_all(ls.iter().copied()) == near(&ls), "nearest common dominator of {ls:?}: {:?}, want {:?}", d.lca_all(ls.iter().copied()), near(&ls));
  }
  Ok(want)
}
fn case(m: &Model, entry: u32, seed: u64) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let mut graph = CfgGraph::default();
  for &(a, b) in &m.arcs {
    graph.connect(a, b);
  }
  let cfg = Cfg { bblocks: Default::default(), graph, entry };
  let d = Dom::<false>::calculate(&cfg);
  let want = table(&d, m, entry, false, &mut r)?;
  if want.keys().all(|&b| m.out(b, true).iter().all(|p| want.contains_key(p))) {
    let mut df: BTreeMap<(u32, u32), ()> = BTreeMap::new();
    for (&b, _) in want.iter().filter(|(&b, _)| b != entry) {
      for p in m.out(b, true) {
        for &a in &want[&p] {
          if a == b || !want[&b].contains(&a) {
            df.insert((a, b), ());
          }
        }
      }
    }
    let got: BTreeMap<(u32, u32), ()> = d.dominance_frontiers(&cfg).iter().flat_map(|(&a, s)| s.iter().map(move |&b| ((a, b), ()))).collect();
    ensure!(got == df, "frontiers {:?}, want {:?}", got.keys().collect::<Vec<_>>(), df.keys().collect::<Vec<_>>());
  }
  let p = PostDom::calculate(&cfg);
  let exit = p.entry();
  ensure!(!m.nodes.contains(&exit), "exit {exit} is a label of the graph");
  let mut pm = m.clone();
  for &n in &m.nodes {
    if m.reach(n, false).iter().all(|&y| m.reach(y, false).contains(&n)) {
      pm.connect(n, exit);
    }
  }
  let pd = table(&p, &pm, exit, true, &mut r).map_err(|e| format!("post-dominance: {e}"))?;
  ensure!(m.nodes.iter().all(|n| pd.contains_key(n)), "a label without post-dominators");
  Ok(())
}
fn model(arcs: impl IntoIterator<Item = (u32, u32)>) -> Model {
  let mut m = Model::default();
  for (a, b) in arcs {
    m.connect(a, b);
  }
  m
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "Dom and PostDom of a graph agree with dominance defined by label removal: immediate dominators, both relations, tree children, frontiers, nearest common dominators; the virtual exit is a fresh label after every label nothing leads away from".into();
  cx.exhaustive = true;
  let mut r = Rng::new(cx.rng.next());
  for n in 1..=if cx.thorough { 4 } else { 3u32 } {
    for bits in 0..1u32 << (n * n) {
      let m = model((0..n * n).filter(|k| bits >> k & 1 == 1).map(|k| (k / n, k % n)));
      cx.case(bits != 0, format!("{:?}", m.arcs), || case(&m, 0, bits as u64));
    }
  }
  for _ in 0..if cx.thorough { 60_000 } else { 6_000 } {
    let n = 2 + r.below(9);
    // labels out of order, some at the top of the range where virtual exits are looked for
    let mut ls: Vec<u32> = (0..8).chain([u32::MAX, u32::MAX - 1, u32::MAX - 3]).collect();
    r.shuffle(&mut ls);
    ls.truncate(n);
    let mut arcs = Vec::new();
    match r.below(3) {
      // a chain with extra arcs: deep dominator trees, irreducible parts
      0 => {
        for i in 1..n {
          arcs.push((ls[i - 1], ls[i]));
        }
        for _ in 0..r.below(n) {
          arcs.push((*r.pick(&ls), *r.pick(&ls)));
        }
      }
      // a random tree of forward arcs with jumps
      1 => {
        for i in 1..n {
          arcs.push((ls[r.below(i)], ls[i]));
        }
        for _ in 0..r.below(n) {
          arcs.push((*r.pick(&ls), *r.pick(&ls)));
        }
      }
      _ => {
        for _ in 0..r.below(2 * n + 1) {
          arcs.push((*r.pick(&ls), *r.pick(&ls)));
        }
      }
    }
    let m = model(arcs);
    let seed = r.next();
    let entry = ls[0];
    cx.case(true, format!("entry {entry} {:?}", m.arcs), || case(&m, entry, seed));
  }
}
