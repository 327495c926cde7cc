//! C12: live variables, the dataflow solver, interference and register assignment against path-based definitions.
use crate::c10::{Model, Set};
use crate::common::{Ctx, Rng};
use crate::ensure;
use ahash::{HashMap, HashSet};
use optimize_js::analysis::dataflow::{AnalysisBoundary, DataFlowAnalysis, Direction, ResolvedAnalysisBoundary};
use optimize_js::analysis::interference::calculate_interference_graph;
use optimize_js::analysis::liveness::calculate_live_ins;
use optimize_js::analysis::registers::allocate_registers;
use optimize_js::analysis::single_use_insts::analyse_single_use_defs;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph};
use optimize_js::decompile::regalloc::compute_regalloc;
use optimize_js::il::inst::{Arg, BinOp, Const, Inst, InstTyp};
use std::collections::{BTreeMap, BTreeSet};

type Loc = (u32, usize);
type Blocks = BTreeMap<u32, Vec<Inst>>;

fn k() -> Arg {
  Arg::Const(Const::Null)
}
fn cfg(m: &Model, b: &Blocks, order: &[u32]) -> Cfg {
  let mut graph = CfgGraph::default();
  // node creation order must not matter
  for &l in order {
    graph.connect(l, l);
    graph.disconnect(l, l);
  }
  for &(x, y) in &m.arcs {
    graph.connect(x, y);
  }
  let mut bblocks = CfgBBlocks::default();
  for (l, b) in b {
    bblocks.add(*l, b.clone());
  }
  Cfg { graph, bblocks, entry: order[0] }
}
fn vars(i: &Inst) -> Vec<u32> {
  i.args.iter().filter_map(|a| a.maybe_var()).collect()
}
fn sinks(m: &Model) -> Set {
  m.nodes.iter().copied().filter(|&n| m.reach(n, false).iter().all(|&y| m.reach(y, false).contains(&n))).collect()
}
/// live variables before each instruction that is not inlined, one variable at a time by walking forward
fn live(m: &Model, b: &Blocks, inlines: &BTreeMap<Loc, Loc>, gone: &Set) -> BTreeMap<Loc, Set> {
  // where the uses of an inlined instruction happen
  let mut extra: BTreeMap<Loc, Set> = BTreeMap::new();
  for (&s, &d) in inlines {
    let mut d = d;
    while let Some(&n) = inlines.get(&d) {
      d = n;
    }
    extra.entry(d).or_default().extend(vars(&b[&s.0][s.1]).into_iter().filter(|v| !gone.contains(v)));
  }
  let mut all = Set::new();
  for i in b.values().flatten() {
    all.extend(vars(i));
  }
  let mut out: BTreeMap<Loc, Set> = BTreeMap::new();
  for (&l, bb) in b {
    for i in 0..bb.len() {
      if !inlines.contains_key(&(l, i)) {
        out.insert((l, i), Set::new());
      }
    }
  }
  for &v in all.difference(gone) {
    for (&at, set) in out.iter_mut() {
      let mut seen: BTreeSet<Loc> = BTreeSet::new();
      let mut q = vec![at];
      while let Some((l, i)) = q.pop() {
        if !seen.insert((l, i)) {
          continue;
        }
        if i == b[&l].len() {
          q.extend(m.out(l, false).into_iter().map(|c| (c, 0)));
          continue;
        }
        if !inlines.contains_key(&(l, i)) {
          let inst = &b[&l][i];
          if vars(inst).contains(&v) || extra.get(&(l, i)).is_some_and(|s| s.contains(&v)) {
            set.insert(v);
            break;
          }
          if inst.tgts.contains(&v) {
            continue;
          }
        }
        q.push((l, i + 1));
      }
    }
  }
  out
}
fn plain<A: Ord + Copy>(m: &HashMap<A, HashSet<u32>>) -> BTreeMap<A, Set> {
  m.iter().map(|(a, s)| (*a, s.iter().copied().collect())).collect()
}
fn colives(l: &BTreeMap<Loc, Set>) -> BTreeMap<u32, Set> {
  let mut g: BTreeMap<u32, Set> = BTreeMap::new();
  for s in l.values() {
    for &a in s {
      g.entry(a).or_default().extend(s.iter().copied().filter(|&b| b != a));
    }
  }
  g
}
fn proper(g: &BTreeMap<u32, Set>, c: &BTreeMap<u32, u32>) -> Result<(), String> {
  ensure!(c.keys().eq(g.keys()), "coloured {:?}, nodes {:?}", c.keys(), g.keys());
  for (a, s) in g {
    ensure!((c[a] as usize) < g.len(), "colour {} of {a} with {} nodes", c[a], g.len());
    for b in s {
      ensure!(a == b || c[a] != c[b], "neighbours {a} and {b} both get {}", c[a]);
    }
  }
  Ok(())
}
/// the documented order: repeatedly remove the smallest (degree, id), then colour in reverse with the smallest free colour
fn colour(g: &BTreeMap<u32, Set>) -> BTreeMap<u32, u32> {
  let mut rem = g.clone();
  let mut stack = Vec::new();
  while let Some(t) = rem.iter().map(|(t, s)| (s.len(), *t)).min().map(|x| x.1) {
    stack.push(t);
    for c in rem.remove(&t).unwrap() {
      rem.get_mut(&c).unwrap().remove(&t);
    }
  }
  let mut c: BTreeMap<u32, u32> = BTreeMap::new();
  for t in stack.into_iter().rev() {
    let used: Set = g[&t].iter().filter_map(|n| c.get(n).copied()).collect();
    c.insert(t, (0..).find(|x| !used.contains(x)).unwrap());
  }
  c
}
fn rand_graph(r: &mut Rng, nl: usize) -> (Model, Vec<u32>) {
  let mut ls: Vec<u32> = (0..6).chain([u32::MAX, u32::MAX - 2, 77]).collect();
  r.shuffle(&mut ls);
  ls.truncate(nl);
  let mut m = Model { nodes: ls.iter().copied().collect(), ..Default::default() };
  if r.bool() {
    for i in 1..nl {
      m.arcs.insert((ls[i - 1], ls[i]));
    }
  }
  for _ in 0..r.below(2 * nl + 1) {
    m.arcs.insert((*r.pick(&ls), *r.pick(&ls)));
  }
  (m, ls)
}
fn show(b: &Blocks) -> String {
  b.iter().map(|(l, b)| format!("{l}:{}", b.iter().map(|i| format!("{:?}<-{:?};", i.tgts, i.args)).collect::<String>())).collect::<Vec<_>>().join(" ")
}
fn rand_inst(r: &mut Rng, nv: usize, pick: &mut dyn FnMut(&mut Rng) -> u32) -> Inst {
  let mut v = |r: &mut Rng| if r.below(4) == 0 { k() } else { Arg::Var(r.below(nv) as u32 * 7 % 97) };
  match r.below(6) {
    0 => Inst::var_assign(pick(r), k()),
    1 => Inst::var_assign(pick(r), v(r)),
    2 => Inst::bin(pick(r), v(r), BinOp::Add, v(r)),
    3 => Inst::unknown_store("u".into(), v(r)),
    4 => Inst::call(r.bool().then(|| pick(r)), v(r), k(), vec![v(r)], vec![]),
    _ => Inst::prop_assign(v(r), k(), v(r)),
  }
}
fn live_case(m: &Model, order: &[u32], b: &Blocks, inl: &BTreeMap<Loc, Loc>, gone: &Set) -> Result<(), String> {
  let c = cfg(m, b, order);
  let got = plain(&calculate_live_ins(&c, &inl.iter().map(|(a, b)| (*a, *b)).collect(), &gone.iter().copied().collect()));
  let want = live(m, b, inl, gone);
  ensure!(got.keys().eq(want.keys()), "locations {:?}, want {:?}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>());
  for (l, s) in &want {
    ensure!(&got[l] == s, "live before {l:?}: {:?}, want {s:?}", got[l]);
  }
  let ls: HashMap<Loc, HashSet<u32>> = want.iter().map(|(a, s)| (*a, s.iter().copied().collect())).collect();
  let g = plain(&calculate_interference_graph(&ls));
  ensure!(g == colives(&want), "interference {g:?}, want {:?}", colives(&want));
  Ok(())
}
struct GenKill {
  gen: BTreeMap<Loc, Set>,
  kill: BTreeMap<Loc, Set>,
  start: Set,
}
impl GenKill {
  fn step(&self, at: Loc, s: &mut Set) {
    for x in self.kill.get(&at).into_iter().flatten() {
      s.remove(x);
    }
    s.extend(self.gen.get(&at).into_iter().flatten().copied());
  }
}
struct Fwd(GenKill);
struct Bwd(GenKill);
macro_rules! analysis {
  ($t:ty, $d:expr) => {
    impl DataFlowAnalysis for $t {
      type State = Set;
      const DIRECTION: Direction = $d;
      fn bottom(&self, _: &Cfg) -> Set {
        Set::new()
      }
      fn boundary_state(&self, _: &ResolvedAnalysisBoundary, _: &Cfg) -> Set {
        self.0.start.clone()
      }
      fn meet(&mut self, s: &[(u32, &Set)]) -> Set {
        s.iter().flat_map(|(_, s)| s.iter().copied()).collect()
      }
      fn apply_to_instruction(&mut self, l: u32, i: usize, _: &Inst, s: &mut Set) {
        self.0.step((l, i), s)
      }
    }
  };
}
analysis!(Fwd, Direction::Forward);
analysis!(Bwd, Direction::Backward);
/// the least states of the equations on the labels the boundary reaches, by plain iteration
fn least(a: &GenKill, m: &Model, b: &Blocks, start: u32, rev: bool) -> BTreeMap<u32, (Set, Set)> {
  let apply = |l: u32, s: &Set| {
    let mut s = s.clone();
    let n = b.get(&l).map_or(0, |b| b.len());
    let ix: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
    for i in ix {
      a.step((l, i), &mut s);
    }
    s
  };
  let on = m.reach(start, rev);
  let mut st: BTreeMap<u32, (Set, Set)> = m.nodes.iter().map(|&l| (l, Default::default())).collect();
  loop {
    let mut ch = false;
    for &l in &on {
      let inp: Set = if l == start { a.start.clone() } else { m.out(l, !rev).iter().flat_map(|p| st[p].1.clone()).collect() };
      let new = (inp.clone(), apply(l, &inp));
      if st[&l] != new {
        st.insert(l, new);
        ch = true;
      }
    }
    if !ch {
      return st;
    }
  }
}
fn solver<A: DataFlowAnalysis<State = Set>>(mut a: A, gk: GenKill, m: &Model, b: &Blocks, order: &[u32], at: Option<u32>) -> Result<(), String> {
  let rev = A::DIRECTION == Direction::Backward;
  let c = cfg(m, b, order);
  let got = a.analyze(&c, at.map_or(AnalysisBoundary::VirtualExit, AnalysisBoundary::Entry));
  let mut m = m.clone();
  let start = match (at, &got.boundary) {
    (Some(l), ResolvedAnalysisBoundary::Entry(g)) => {
      ensure!(*g == l, "boundary {g}, want {l}");
      l
    }
    (None, ResolvedAnalysisBoundary::VirtualExit { label, predecessors }) => {
      ensure!(!m.nodes.contains(label), "virtual exit {label} is a label");
      let want: Vec<u32> = sinks(&m).into_iter().collect();
      ensure!(predecessors == &want, "virtual exit follows {predecessors:?}, want {want:?}");
      for p in want {
        m.connect(p, *label);
      }
      m.nodes.insert(*label);
      *label
    }
    (_, g) => return Err(format!("boundary {g:?} for {at:?}")),
  };
  ensure!(got.boundary.label() == start, "boundary label");
  // with a forward analysis nothing follows the virtual exit: all but it stay bottom
  let want = least(&gk, &m, b, start, rev);
  ensure!(got.blocks.len() == want.len(), "{} states for {} labels", got.blocks.len(), want.len());
  for (l, (i, o)) in &want {
    let Some(s) = got.blocks.get(l) else { return Err(format!("no state of {l}")) };
    let (gi, go) = if rev { (&s.exit, &s.entry) } else { (&s.entry, &s.exit) };
    ensure!(gi == i && go == o, "state of {l}: {gi:?} -> {go:?}, want {i:?} -> {o:?}");
  }
  Ok(())
}
/// a program where every variable is defined once and every single use of it is defined
fn ssa(r: &mut Rng, nl: usize) -> (Model, Vec<u32>, Blocks) {
  let (m, ls) = rand_graph(r, nl);
  let mut b: Blocks = ls.iter().map(|&l| (l, vec![])).collect();
  let mut ids: Vec<u32> = (0..40).chain([u32::MAX, u32::MAX - 1]).collect();
  r.shuffle(&mut ids);
  ids.truncate(3 + r.below(12));
  // definitions first, so that a same-block use always follows
  let n = ids.len();
  for i in 0..n {
    let l = *r.pick(&ls);
    let known: Vec<u32> = ids[..i].to_vec();
    let mut arg = |r: &mut Rng| if known.is_empty() || r.below(3) == 0 { k() } else { Arg::Var(*r.pick(&known)) };
    let inst = match r.below(4) {
      0 => Inst::var_assign(ids[i], k()),
      1 => Inst::var_assign(ids[i], arg(r)),
      2 => Inst::bin(ids[i], arg(r), BinOp::Mul, arg(r)),
      _ => Inst::call(ids[i], arg(r), k(), vec![arg(r)], vec![]),
    };
    b.get_mut(&l).unwrap().push(inst);
  }
  for _ in 0..r.below(2 * n) {
    let l = *r.pick(&ls);
    let v = Arg::Var(*r.pick(&ids));
    b.get_mut(&l).unwrap().push(Inst::unknown_store("u".into(), v));
  }
  // values carried round a loop: a phi at the top of a block uses what the block defines later
  for _ in 0..r.below(3) {
    let l = *r.pick(&ls);
    let mut phi = Inst::phi_empty(1000 + r.below(1_000_000) as u32);
    if b.values().flatten().any(|i| i.tgts == phi.tgts) {
      continue;
    }
    for (j, &from) in ls.iter().enumerate() {
      if r.bool() {
        phi.insert_phi(from, if j == 0 && r.bool() { k() } else { Arg::Var(*r.pick(&ids)) });
      }
    }
    let t = phi.tgts[0];
    b.get_mut(&l).unwrap().insert(0, phi);
    for _ in 0..r.below(3) {
      b.get_mut(&l).unwrap().push(Inst::unknown_store("p".into(), Arg::Var(t)));
    }
  }
  (m, ls, b)
}
fn regs(m: &Model, order: &[u32], b: &Blocks) -> Result<(), String> {
  let mut uses: BTreeMap<u32, Vec<Loc>> = BTreeMap::new();
  let mut def: BTreeMap<u32, Loc> = BTreeMap::new();
  for (&l, bb) in b {
    for (i, inst) in bb.iter().enumerate() {
      for v in vars(inst) {
        uses.entry(v).or_default().push((l, i));
      }
      for &t in &inst.tgts {
        def.insert(t, (l, i));
      }
    }
  }
  let mut inl: BTreeMap<Loc, Loc> = BTreeMap::new();
  let mut gone = Set::new();
  for (v, u) in &uses {
    let s = def[v];
    if u.len() == 1 && s.0 == u[0].0 && s.1 < u[0].1 {
      inl.insert(s, u[0]);
      gone.insert(*v);
    }
  }
  let c = cfg(m, b, order);
  let (i2, g2) = analyse_single_use_defs(&c);
  ensure!(i2.iter().map(|(a, b)| (*a, *b)).collect::<BTreeMap<_, _>>() == inl, "inlines {i2:?}, want {inl:?}");
  ensure!(g2.iter().copied().collect::<Set>() == gone, "inlined {g2:?}, want {gone:?}");
  let ra = compute_regalloc(&c);
  ensure!(ra.inlines.iter().map(|(a, b)| (*a, *b)).collect::<BTreeMap<_, _>>() == inl, "inlines of the allocation {:?}", ra.inlines);
  ensure!(ra.inlined_temps.iter().copied().collect::<Set>() == gone, "inlined temps of the allocation {:?}", ra.inlined_temps);
  let temps: Set = uses.keys().chain(def.keys()).copied().filter(|t| !gone.contains(t)).collect();
  let got: BTreeMap<u32, u32> = ra.temp_to_reg.iter().map(|(a, b)| (*a, *b)).collect();
  ensure!(got.keys().copied().collect::<Set>() == temps, "registers for {:?}, temps {temps:?}", got.keys());
  let mut g = colives(&live(m, b, &inl, &gone));
  for &t in &temps {
    g.entry(t).or_default();
  }
  proper(&g, &got)?;
  // numbered densely in the order of the first temp that has them
  let mut next = 0;
  for (t, &reg) in &got {
    ensure!(reg <= next, "{t} gets {reg}, next unused is {next}");
    next = next.max(reg + 1);
  }
  ensure!(ra.reg_count == next, "{} registers counted, {next} used", ra.reg_count);
  let mut o2 = order.to_vec();
  o2.reverse();
  let again = compute_regalloc(&cfg(m, b, &o2));
  ensure!(again.temp_to_reg == ra.temp_to_reg && again.reg_count == ra.reg_count, "two runs differ: {:?} and {:?}", ra.temp_to_reg, again.temp_to_reg);
  Ok(())
}
fn rand_ug(r: &mut Rng, n: usize) -> BTreeMap<u32, Set> {
  let mut ids: Vec<u32> = (0..20).chain([u32::MAX, u32::MAX - 1, 1 << 31]).collect();
  r.shuffle(&mut ids);
  ids.truncate(n);
  let mut g: BTreeMap<u32, Set> = ids.iter().map(|&i| (i, Set::new())).collect();
  let p = 1 + r.below(4);
  for i in 0..n {
    for j in 0..i {
      if r.below(5) < p {
        g.get_mut(&ids[i]).unwrap().insert(ids[j]);
        g.get_mut(&ids[j]).unwrap().insert(ids[i]);
      }
    }
  }
  g
}
fn alloc_case(g: &BTreeMap<u32, Set>, r: &mut Rng) -> Result<(), String> {
  for _ in 0..2 {
    let mut ids: Vec<u32> = g.keys().copied().collect();
    r.shuffle(&mut ids);
    let h: HashMap<u32, HashSet<u32>> = ids.iter().map(|i| (*i, g[i].iter().copied().collect())).collect();
    let got: BTreeMap<u32, u32> = allocate_registers(&h).into_iter().collect();
    proper(g, &got)?;
    ensure!(got == colour(g), "colours {got:?}, want {:?}", colour(g));
  }
  Ok(())
}
pub fn run(cx: &mut Ctx) {
  cx.rule = "live variables before each instruction are those with a path to a use that meets no definition, uses of inlined instructions counted where they end up; solver states are the least of their equations; interference is being live together; registers of interfering temps differ and are dense and reproducible".into();
  let mut r = Rng::new(cx.rng.next());
  let mul = if cx.thorough { 12 } else { 1 };
  // every graph of up to 3 labels, one variable defined in one block and used in another
  for n in 1..=3u32 {
    for bits in 0..1u32 << (n * n) {
      let m = Model {
        nodes: (0..n).collect(),
        arcs: (0..n * n).filter(|k| bits >> k & 1 == 1).map(|k| (k / n, k % n)).collect(),
      };
      let order: Vec<u32> = (0..n).collect();
      for d in 0..n {
        for u in 0..n {
          let mut b: Blocks = (0..n).map(|l| (l, vec![Inst::var_assign(50 + l, k())])).collect();
          b.get_mut(&d).unwrap().push(Inst::var_assign(5, k()));
          b.get_mut(&u).unwrap().insert(0, Inst::unknown_store("u".into(), Arg::Var(5)));
          cx.case(true, format!("{:?} {}", m.arcs, show(&b)), || live_case(&m, &order, &b, &BTreeMap::new(), &Set::new()));
        }
      }
    }
  }
  for it in 0..6_000 * mul {
    let nl = 1 + r.below(5);
    let (m, ls) = rand_graph(&mut r, nl);
    // many variables at times: more than one word of bits
    let nv = if it % 5 == 0 { 90 } else { 2 + r.below(5) };
    let mut b: Blocks = BTreeMap::new();
    for &l in &ls {
      let mut v = Vec::new();
      for _ in 0..r.below(if it % 5 == 0 { 24 } else { 5 }) {
        v.push(rand_inst(&mut r, nv, &mut |r| r.below(nv) as u32 * 7 % 97));
      }
      if r.below(4) == 0 {
        let mut p = Inst::phi_empty(r.below(nv) as u32 * 7 % 97);
        for &f in &ls {
          p.insert_phi(f, Arg::Var(r.below(nv) as u32 * 7 % 97));
        }
        v.insert(0, p);
      }
      if r.below(3) == 0 {
        v.push(Inst::cond_goto(Arg::Var(r.below(nv) as u32 * 7 % 97), ls[0], ls[0]));
      }
      b.insert(l, v);
    }
    let mut inl: BTreeMap<Loc, Loc> = BTreeMap::new();
    let mut gone = Set::new();
    if it % 2 == 0 {
      for (&l, bb) in &b {
        for i in 0..bb.len() {
          if i + 1 < bb.len() && r.below(3) == 0 && bb[i].t != InstTyp::Phi {
            inl.insert((l, i), (l, i + 1 + r.below(bb.len() - i - 1)));
            if r.below(3) > 0 {
              gone.extend(bb[i].tgts.iter().copied());
            }
          }
        }
      }
    }
    let d = format!("{:?} {} inlined {inl:?} {gone:?}", m.arcs, show(&b));
    cx.case(true, d, || live_case(&m, &ls, &b, &inl, &gone));
  }
  for _ in 0..6_000 * mul {
    let nl = 1 + r.below(6);
    let (m, ls) = rand_graph(&mut r, nl);
    let mut b: Blocks = BTreeMap::new();
    let (mut gen, mut kill): (BTreeMap<Loc, Set>, BTreeMap<Loc, Set>) = Default::default();
    for &l in &ls {
      let n = r.below(3);
      b.insert(l, (0..n).map(|_| Inst::unknown_store("x".into(), k())).collect());
      for i in 0..n {
        for s in [&mut gen, &mut kill] {
          if r.below(3) == 0 {
            s.insert((l, i), (0..1 + r.below(3)).map(|_| r.below(4) as u32).collect());
          }
        }
      }
    }
    let start: Set = (0..r.below(3)).map(|_| r.below(4) as u32).collect();
    let at = if r.below(3) == 0 { None } else { Some(*r.pick(&ls)) };
    let mk = || GenKill { gen: gen.clone(), kill: kill.clone(), start: start.clone() };
    let back = r.bool();
    cx.case(true, format!("{} {at:?} {:?} gen {gen:?} kill {kill:?} start {start:?}", if back { "backward" } else { "forward" }, m.arcs), || {
      if back {
        solver(Bwd(mk()), mk(), &m, &b, &ls, at)
      } else {
        solver(Fwd(mk()), mk(), &m, &b, &ls, at)
      }
    });
  }
  for _ in 0..5_000 * mul {
    let nl = 1 + r.below(4);
    let (m, ls, b) = ssa(&mut r, nl);
    cx.case(true, format!("registers {:?} {}", m.arcs, show(&b)), || regs(&m, &ls, &b));
  }
  // all undirected graphs of up to 5 nodes, then random ones
  for n in 0..=5usize {
    let prs: Vec<(u32, u32)> = (0..n as u32).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
    for bits in 0..1u32 << prs.len() {
      let mut g: BTreeMap<u32, Set> = (0..n as u32).map(|i| (i, Set::new())).collect();
      for (q, &(i, j)) in prs.iter().enumerate() {
        if bits >> q & 1 == 1 {
          g.get_mut(&i).unwrap().insert(j);
          g.get_mut(&j).unwrap().insert(i);
        }
      }
      let s = r.next();
      cx.case(n > 0, format!("interference {g:?}"), || alloc_case(&g, &mut Rng::new(s)));
    }
  }
  for _ in 0..2_000 * mul {
    let n = 1 + r.below(14);
    let g = rand_ug(&mut r, n);
    let s = r.next();
    cx.case(true, format!("interference {g:?}"), || alloc_case(&g, &mut Rng::new(s)));
  }
  // sizes past every word and byte boundary: cliques, dense graphs, wide and deep blocks, long chains of blocks
  for &n in &[33u32, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 300] {
    let g: BTreeMap<u32, Set> = (0..n).map(|a| (a, (0..n).filter(|&b| b != a).collect())).collect();
    let s = r.next();
    cx.case(true, format!("clique of {n}"), || alloc_case(&g, &mut Rng::new(s)));
    let mut g: BTreeMap<u32, Set> = (0..n).map(|i| (i * 3, Set::new())).collect();
    for i in 0..n {
      for j in 0..i {
        if r.below(10) > 0 {
          g.get_mut(&(i * 3)).unwrap().insert(j * 3);
          g.get_mut(&(j * 3)).unwrap().insert(i * 3);
        }
      }
    }
    let s = r.next();
    cx.case(true, format!("dense graph of {n}"), || alloc_case(&g, &mut Rng::new(s)));
    if n > if cx.thorough { 130 } else { 66 } {
      continue;
    }
    let one = Model { nodes: Set::from([0]), arcs: BTreeSet::new() };
    // all defined, then all used twice
    let v = |a: u32| Arg::Var(a);
    let mut b: Vec<Inst> = (0..n).map(|a| Inst::var_assign(a, k())).collect();
    b.extend((0..n).map(|a| Inst::bin(n + a, v(a), BinOp::Add, v((a * 7 + 1) % n))));
    b.extend((0..2 * n).map(|a| Inst::unknown_store("u".into(), v(n + a / 2))));
    let w = Blocks::from([(0, b)]);
    cx.case(true, format!("wide block of {n}"), || regs(&one, &[0], &w));
    // one expression n levels deep
    let mut b = vec![Inst::var_assign(0, k()), Inst::var_assign(1, k())];
    b.extend((2..n).map(|a| Inst::bin(a, v(a - 1), BinOp::Add, v(0))));
    b.push(Inst::unknown_store("u".into(), v(n - 1)));
    b.push(Inst::unknown_store("u".into(), v(0)));
    let w = Blocks::from([(0, b)]);
    cx.case(true, format!("deep expression of {n}"), || regs(&one, &[0], &w));
    // a chain of blocks, back edges out of and into the middle
    let m = Model { nodes: (0..n).collect(), arcs: (1..n).map(|a| (a - 1, a)).chain([(n / 2, n / 3), (n - 2, n / 2 + 1), (n / 4, n - 1)]).collect() };
    let ls: Vec<u32> = (0..n).collect();
    let w: Blocks = (0..n).map(|a| (a, match a % 4 { 0 => vec![Inst::var_assign(a, k())], 1 => vec![], 2 => vec![Inst::unknown_store("u".into(), v(n - a - n % 2))], _ => vec![Inst::unknown_store("u".into(), v(a / 4 * 4))] })).collect();
    cx.case(true, format!("chain of {n} blocks"), || live_case(&m, &ls, &w, &BTreeMap::new(), &Set::new()));
  }
}
