// ---- lib/liveness.rs: what is live where ----
type Loc = (u32, usize);
// ---- programs ----
spec fn args_have(a: Seq<Arg>, v: u32) -> bool { exists|k: int| 0 <= k < a.len() && #[trigger] a[k] == Arg::Var(v) }
/// where an inlined instruction ends up
spec fn end_of(inl: Map<Loc, Loc>, s: Loc) -> Loc
  decreases usize::MAX - s.1,
{ if inl.contains_key(s) && s.1 < inl[s].1 { end_of(inl, inl[s]) } else { s } }
ghost struct Prog { cfg: Cfg, inl: Map<Loc, Loc>, gone: Set<u32> }
impl Prog {
  spec fn blk(self, l: u32) -> Seq<Inst> { self.cfg.bblocks.0@[l]@ }
  proof fn blk_len(self, l: u32) ensures self.blk(l).len() <= usize::MAX { vstd::std_specs::vec::axiom_spec_len(&self.cfg.bblocks.0@[l]); }
  spec fn at(self, s: Loc) -> bool { self.cfg.bblocks.0@.contains_key(s.0) && s.1 < self.blk(s.0).len() }
  spec fn ok(self) -> bool {
    &&& self.cfg.graph.wf() && self.cfg.graph.0.nodes@.dom().len() <= u32::MAX
    &&& forall|l: u32| #[trigger] self.cfg.graph.has(l) ==> self.cfg.bblocks.0@.contains_key(l)
    &&& forall|s: Loc| #[trigger] self.inl.contains_key(s) ==> self.at(s) && self.at(self.inl[s]) && self.inl[s].0 == s.0 && s.1 < self.inl[s].1
  }
  /// `s` is inlined into `at` and uses `v`
  spec fn adds(self, s: Loc, at: Loc, v: u32) -> bool {
    end_of(self.inl, s) == at && args_have(self.blk(s.0)[s.1 as int].args@, v) && !self.gone.contains(v)
  }
  spec fn added(self, at: Loc, v: u32) -> bool { exists|s: Loc| self.inl.contains_key(s) && #[trigger] self.adds(s, at, v) }
  /// the instruction at `at` uses `v`, itself or through what is inlined into it
  spec fn used(self, at: Loc, v: u32) -> bool {
    !self.gone.contains(v) && args_have(self.blk(at.0)[at.1 as int].args@, v) || self.added(at, v)
  }
  spec fn killed(self, at: Loc, v: u32) -> bool { self.blk(at.0)[at.1 as int].tgts@.contains(v) }
  /// within `n` steps from before instruction `i` of block `l`, `v` is used before it is defined again
  spec fn live_n(self, n: nat, v: u32, l: u32, i: int) -> bool
    decreases n,
  {
    n > 0 && if i >= self.blk(l).len() { exists|c: u32| #[trigger] self.cfg.graph.edge(l, c) && self.live_n((n - 1) as nat, v, c, 0) }
    else if self.inl.contains_key((l, i as usize)) { self.live_n((n - 1) as nat, v, l, i + 1) }
    else { self.used((l, i as usize), v) || (!self.killed((l, i as usize), v) && self.live_n((n - 1) as nat, v, l, i + 1)) }
  }
  spec fn live(self, v: u32, l: u32, i: int) -> bool { exists|n: nat| #[trigger] self.live_n(n, v, l, i) }
  /// the states before instruction `i` that follow from those at the end of the block
  spec fn back(self, l: u32, i: int, s: spec_fn(u32) -> bool, v: u32) -> bool
    decreases self.blk(l).len() - i,
  {
    if i >= self.blk(l).len() { s(v) } else { self.step(l, i, v, self.back(l, i + 1, s, v)) }
  }
  spec fn step(self, l: u32, i: int, v: u32, after: bool) -> bool {
    if self.inl.contains_key((l, i as usize)) { after } else { self.used((l, i as usize), v) || (!self.killed((l, i as usize), v) && after) }
  }
}
/// exactly the variables live before the instruction
spec fn right(p: Prog, s: Loc, vs: Set<u32>) -> bool { forall|v: u32| #[trigger] vs.contains(v) == p.live(v, s.0, s.1 as int) }
spec fn kept(p: Prog, s: Loc) -> bool { p.at(s) && !p.inl.contains_key(s) }
