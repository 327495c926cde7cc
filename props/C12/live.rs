use vstd::prelude::*;
verus! {
/*@include coll.rs@*/
/*@include graph.rs@*/
/*@include graph2.rs@*/
/*@include cfggraph.rs@*/
/*@include sink.rs@*/
/*@include insts.rs@*/
global size_of usize == 8;
// ---- bit sets ----
/*@type optimize-js/src/analysis/liveness.rs :: BitSet
@*/
spec fn bit(w: u64, i: u64) -> bool { (w >> i) & 1u64 == 1u64 }
spec fn words(n: int) -> int { if n + 63 <= usize::MAX { (n + 63) / 64 } else { usize::MAX as int / 64 } }
proof fn bit_or(w: u64, b: u64, i: u64) requires b < 64, i < 64, ensures bit(w | (1u64 << b), i) == (bit(w, i) || i == b)
{ assert(((w | (1u64 << b)) >> i) & 1u64 == 1u64 <==> ((w >> i) & 1u64 == 1u64 || i == b)) by (bit_vector) requires b < 64, i < 64; }
proof fn bit_and(w: u64, b: u64, i: u64) requires b < 64, i < 64, ensures bit(w & !(1u64 << b), i) == (bit(w, i) && i != b)
{ assert(((w & !(1u64 << b)) >> i) & 1u64 == 1u64 <==> ((w >> i) & 1u64 == 1u64 && i != b)) by (bit_vector) requires b < 64, i < 64; }
proof fn bit_union(w: u64, x: u64, i: u64) requires i < 64, ensures bit(w | x, i) == (bit(w, i) || bit(x, i))
{ assert(((w | x) >> i) & 1u64 == 1u64 <==> ((w >> i) & 1u64 == 1u64 || (x >> i) & 1u64 == 1u64)) by (bit_vector) requires i < 64; }
proof fn bit_zero(i: u64) requires i < 64, ensures !bit(0, i) { assert((0u64 >> i) & 1u64 != 1u64) by (bit_vector) requires i < 64; }
/// `vec![0; n]`
#[verifier::external_body]
fn zeros(n: usize) -> (r: Vec<u64>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { unimplemented!() }
impl BitSet {
  spec fn has(self, i: int) -> bool { 0 <= i < 64 * self.bits@.len() && bit(self.bits@[i / 64], (i % 64) as u64) }
/*@fn optimize-js/src/analysis/liveness.rs :: BitSet::new
#ret r
#rewrite `vec![0; (size.saturating_add(63)) / 64]` => `zeros((size.saturating_add(63)) / 64)`
#tail r
  proof { assert forall|i: int| !#[trigger] r.has(i) by { if 0 <= i < 64 * r.bits@.len() { bit_zero((i % 64) as u64); } } }
#spec
  ensures r.bits@.len() == words(size as int), forall|i: int| !#[trigger] r.has(i),
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: BitSet::word_bit
#ret r
#spec
  ensures r.0 == idx / 64, r.1 == idx % 64,
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: BitSet::insert
#spec
  requires idx / 64 < old(self).bits@.len(),
  ensures final(self).bits@.len() == old(self).bits@.len(), forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || i == idx),
#end
  proof {
    assert forall|i: int| #[trigger] self.has(i) == (old(self).has(i) || i == idx) by {
      if 0 <= i < 64 * self.bits@.len() { if i / 64 == word { bit_or(old(self).bits@[word as int], bit as u64, (i % 64) as u64); } }
    }
  }
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: BitSet::remove
#spec
  requires idx / 64 < old(self).bits@.len(),
  ensures final(self).bits@.len() == old(self).bits@.len(), forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != idx),
#end
  proof {
    assert forall|i: int| #[trigger] self.has(i) == (old(self).has(i) && i != idx) by {
      if 0 <= i < 64 * self.bits@.len() { if i / 64 == word { bit_and(old(self).bits@[word as int], bit as u64, (i % 64) as u64); } }
    }
  }
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: BitSet::union_with
#rewrite `debug_assert_eq!(self.bits.len(), other.bits.len());` => `assert(self.bits@.len() == other.bits@.len());`
#loop 0 while=ix
  invariant
    ix <= ix_n, ix_n == old(self).bits@.len(), self.bits@.len() == old(self).bits@.len(), other.bits@.len() == old(self).bits@.len(),
    forall|k: int| 0 <= k < ix_n ==> #[trigger] self.bits@[k] == (if k < ix { old(self).bits@[k] | other.bits@[k] } else { old(self).bits@[k] }),
  decreases ix_n - ix,
#spec
  requires old(self).bits@.len() == other.bits@.len(),
  ensures final(self).bits@.len() == old(self).bits@.len(), forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || other.has(i)),
#end
  proof {
    assert forall|i: int| #[trigger] self.has(i) == (old(self).has(i) || other.has(i)) by {
      if 0 <= i < 64 * self.bits@.len() { bit_union(old(self).bits@[i / 64], other.bits@[i / 64], (i % 64) as u64); }
    }
  }
@*/
  /// `bits.iter_indices()`: the set bits (checked bounded)
  #[verifier::external_body]
  fn iter_indices(&self) -> (r: Vec<usize>) ensures forall|i: usize| #[trigger] r@.contains(i) == self.has(i as int) { unimplemented!() }
}
proof fn in_words(width: int, i: int) requires 0 <= i < width <= u32::MAX + 1, ensures i / 64 < words(width) { assert(i / 64 < (width + 63) / 64); }
/// derived `Clone`
#[verifier::external_body]
fn bits_clone(b: &BitSet) -> (r: BitSet) ensures r == *b { unimplemented!() }
/// derived `PartialEq`
#[verifier::external_body]
fn same_bits(a: &BitSet, b: &BitSet) -> (r: bool) ensures r == (a.bits@ == b.bits@) { unimplemented!() }

/*@include liveness.rs@*/
proof fn live_step(p: Prog, v: u32, l: u32, i: int)
  requires 0 <= i < p.blk(l).len(),
  ensures p.live(v, l, i) == p.step(l, i, v, p.live(v, l, i + 1)),
{
  if p.live(v, l, i) {
    let n = choose|n: nat| #[trigger] p.live_n(n, v, l, i);
    if p.live_n((n - 1) as nat, v, l, i + 1) { assert(p.live(v, l, i + 1)); }
  }
  if p.step(l, i, v, p.live(v, l, i + 1)) {
    if p.live(v, l, i + 1) { let n = choose|n: nat| #[trigger] p.live_n(n, v, l, i + 1); assert(p.live_n(n + 1, v, l, i)); }
    else { assert(p.live_n(1, v, l, i)); }
  }
}
proof fn live_end(p: Prog, v: u32, l: u32, i: int)
  requires i >= p.blk(l).len(),
  ensures p.live(v, l, i) <==> exists|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live(v, c, 0),
{
  if p.live(v, l, i) {
    let n = choose|n: nat| #[trigger] p.live_n(n, v, l, i);
    let c = choose|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live_n((n - 1) as nat, v, c, 0);
    assert(p.live(v, c, 0));
  }
  if exists|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live(v, c, 0) {
    let c = choose|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live(v, c, 0);
    let n = choose|n: nat| #[trigger] p.live_n(n, v, c, 0);
    assert(p.live_n(n + 1, v, l, i));
  }
}
/// what is live at the end of a block is live before it, instruction by instruction
proof fn back_live(p: Prog, l: u32, i: int, s: spec_fn(u32) -> bool, v: u32)
  requires 0 <= i, s(v) ==> p.live(v, l, p.blk(l).len() as int),
  ensures p.back(l, i, s, v) ==> i > p.blk(l).len() || p.live(v, l, i),
  decreases p.blk(l).len() - i,
{
  if i < p.blk(l).len() { back_live(p, l, i + 1, s, v); live_step(p, v, l, i); }
}
proof fn end_of_id(inl: Map<Loc, Loc>, s: Loc)
  requires !inl.contains_key(s),
  ensures end_of(inl, s) == s,
{}

// ---- the analysis ----
/*@type optimize-js/src/analysis/liveness.rs :: LivenessAnalysis
@*/
spec fn adds_has(m: Map<Loc, HashSet<u32>>, at: Loc, v: u32) -> bool { m.contains_key(at) && m[at]@.contains(v) }
/// the (key, value) pairs of a map, in some order
spec fn pairs_of(l: Seq<(&Loc, &Loc)>, m: Map<Loc, Loc>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key(*(#[trigger] l[i]).0) && m[*l[i].0] == *l[i].1
  &&& forall|k: Loc| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && *(#[trigger] l[i]).0 == k
}
/// `v.sort_by_key(..)`: the same pairs in another order
#[verifier::external_body]
fn sort_edges(v: &mut Vec<(&Loc, &Loc)>) ensures forall|m: Map<Loc, Loc>| #[trigger] pairs_of(old(v)@, m) ==> pairs_of(final(v)@, m) { unimplemented!() }
spec fn added_by(p: Prog, e: Seq<(&Loc, &Loc)>, n: int, at: Loc, v: u32) -> bool { exists|j: int| 0 <= j < n && p.adds(*(#[trigger] e[j]).0, at, v) }
spec fn args_upto(a: Seq<Arg>, n: int, v: u32) -> bool { exists|k: int| 0 <= k < n && #[trigger] a[k] == Arg::Var(v) }
proof fn args_step(a: Seq<Arg>, n: int)
  requires 0 <= n < a.len(),
  ensures forall|v: u32| #[trigger] args_upto(a, n + 1, v) == (args_upto(a, n, v) || a[n] == Arg::Var(v)),
{
  assert forall|v: u32| #[trigger] args_upto(a, n + 1, v) == (args_upto(a, n, v) || a[n] == Arg::Var(v)) by {
    if args_upto(a, n, v) { let k = choose|k: int| 0 <= k < n && #[trigger] a[k] == Arg::Var(v); assert(a[k] == Arg::Var(v) && k < n + 1); }
  }
}
/*@fn optimize-js/src/analysis/liveness.rs :: compute_additional_use_vars
#ret r
#sig `cfg: &Cfg,` => `cfg: &Cfg, Ghost(p): Ghost<Prog>,`
#rewrite `let mut inline_edges: Vec<_> = inlines.iter().collect();` => `let mut inline_edges = inlines.pairs();`
#rewrite `inline_edges.sort_by_key(|(src, dest)| (*src, *dest));` => `sort_edges(&mut inline_edges);`
#spec
  requires p.ok(), p.cfg == *cfg, p.inl == inlines@, p.gone == inlined_vars@,
  ensures forall|at: Loc, v: u32| #[trigger] adds_has(r@, at, v) == p.added(at, v),
#at before `inline_edges.sort_by_key`
  proof { assert(pairs_of(inline_edges@, inlines@)); }
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), pairs_of(ix_s@, inlines@), p.ok(), p.cfg == *cfg, p.inl == inlines@, p.gone == inlined_vars@,
    forall|at: Loc, v: u32| #[trigger] adds_has(additional@, at, v) == added_by(p, ix_s@, ix as int, at, v),
  decreases ix_s@.len() - ix,
#at before `let mut dest`
  let ghost a0 = additional@;
  proof { assert(inlines@.contains_key(*ix_s@[ix as int - 1].0)); assert(p.at(*src)); }
#loop 1
  invariant p.ok(), p.inl == inlines@, end_of(inlines@, dest) == end_of(inlines@, *src), inlines@.contains_key(*src),
  ensures !inlines@.contains_key(dest), end_of(inlines@, dest) == end_of(inlines@, *src),
  decreases usize::MAX - dest.1,
#at before `for arg in`
  let ghost args = p.blk(src.0)[src.1 as int].args@;
  proof { end_of_id(inlines@, dest); }
#loop 2 while=kx
  invariant
    kx <= kx_s@.len(), kx_s@ == args, p.gone == inlined_vars@,
    forall|at: Loc, v: u32| #[trigger] adds_has(additional@, at, v) == (adds_has(a0, at, v) || (at == dest && args_upto(args, kx as int, v) && !p.gone.contains(v))),
  decreases kx_s@.len() - kx,
#at enter `for arg in`
  let ghost a1 = additional@;
  proof { args_step(args, kx as int - 1); }
#at exit `for arg in`
  proof {
    assert forall|at: Loc, v: u32| #[trigger] adds_has(additional@, at, v) == (adds_has(a1, at, v) || (at == dest && *arg == Arg::Var(v) && !p.gone.contains(v))) by {}
  }
#at afterblock `for arg in`
  proof {
    assert forall|at: Loc, v: u32| #[trigger] adds_has(additional@, at, v) == added_by(p, ix_s@, ix as int, at, v) by {
      let e = ix_s@;
      assert(args_upto(args, args.len() as int, v) == args_have(args, v));
      if added_by(p, e, ix - 1, at, v) { let j = choose|j: int| 0 <= j < ix - 1 && p.adds(*(#[trigger] e[j]).0, at, v); assert(p.adds(*e[j].0, at, v)); }
      if p.adds(*src, at, v) { assert(p.adds(*e[ix - 1].0, at, v)); }
    }
  }
#tail r
  proof {
    let e = inline_edges@;
    assert forall|at: Loc, v: u32| #[trigger] adds_has(r@, at, v) == p.added(at, v) by {
      if p.added(at, v) {
        let s = choose|s: Loc| p.inl.contains_key(s) && #[trigger] p.adds(s, at, v);
        let j = choose|j: int| 0 <= j < e.len() && *(#[trigger] e[j]).0 == s;
        assert(p.adds(*e[j].0, at, v));
      }
      if added_by(p, e, e.len() as int, at, v) { let j = choose|j: int| 0 <= j < e.len() && p.adds(*(#[trigger] e[j]).0, at, v); assert(p.adds(*e[j].0, at, v)); }
    }
  }
@*/

spec fn tracked_upto(p: Prog, tr: Set<u32>, l: u32, n: int) -> bool {
  forall|i: int, v: u32| 0 <= i < n && !p.inl.contains_key((l, i as usize)) && #[trigger] args_have(p.blk(l)[i].args@, v) && !p.gone.contains(v) ==> tr.contains(v)
}
/*@fn optimize-js/src/analysis/liveness.rs :: collect_tracked_vars
#ret r
#sig `cfg: &Cfg,` => `cfg: &Cfg, Ghost(p): Ghost<Prog>,`
#spec
  requires p.cfg == *cfg, p.inl.dom() == inlined_insts@, p.gone == inlined_vars@,
  ensures forall|v: u32| #[trigger] r@.contains(v) ==> !p.gone.contains(v),
    forall|l: u32| #[trigger] p.cfg.bblocks.0@.contains_key(l) ==> tracked_upto(p, r@, l, p.blk(l).len() as int),
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), blocks_of(ix_s@, cfg.bblocks.0@), p.cfg == *cfg, p.inl.dom() == inlined_insts@, p.gone == inlined_vars@,
    forall|v: u32| #[trigger] vars@.contains(v) ==> !p.gone.contains(v),
    forall|j: int| 0 <= j < ix ==> tracked_upto(p, vars@, (#[trigger] ix_s@[j]).0, p.blk(ix_s@[j].0).len() as int),
  decreases ix_s@.len() - ix,
#loop 1 while=jx
  invariant
    0 < ix <= ix_s@.len(), jx <= jx_s@.len(), jx_s@ == p.blk(label), p.cfg == *cfg, p.inl.dom() == inlined_insts@, p.gone == inlined_vars@,
    forall|v: u32| #[trigger] vars@.contains(v) ==> !p.gone.contains(v),
    forall|j: int| 0 <= j < ix - 1 ==> tracked_upto(p, vars@, (#[trigger] ix_s@[j]).0, p.blk(ix_s@[j].0).len() as int),
    tracked_upto(p, vars@, label, jx as int),
  decreases jx_s@.len() - jx,
#at before `for &tgt in`
  let ghost v0 = vars@;
#loop 2 while=tx
  invariant
    tx <= tx_s@.len(), p.gone == inlined_vars@,
    forall|v: u32| #[trigger] vars@.contains(v) ==> !p.gone.contains(v),
    v0.subset_of(vars@),
  decreases tx_s@.len() - tx,
#loop 3 while=kx
  invariant
    kx <= kx_s@.len(), kx_s@ == inst.args@, p.gone == inlined_vars@,
    forall|v: u32| #[trigger] vars@.contains(v) ==> !p.gone.contains(v),
    v0.subset_of(vars@),
    forall|v: u32| #[trigger] args_upto(inst.args@, kx as int, v) && !p.gone.contains(v) ==> vars@.contains(v),
  decreases kx_s@.len() - kx,
#at enter `for arg in`
  proof { args_step(inst.args@, kx as int - 1); }
#at afterblock `for arg in`
  proof {
    assert(tracked_upto(p, vars@, label, jx as int)) by {
      assert forall|i: int, v: u32| 0 <= i < jx && !p.inl.contains_key((label, i as usize)) && #[trigger] args_have(p.blk(label)[i].args@, v) && !p.gone.contains(v) implies vars@.contains(v) by {
        if i == jx - 1 { assert(args_upto(inst.args@, inst.args@.len() as int, v)); }
      }
    }
    assert forall|j: int| 0 <= j < ix - 1 implies tracked_upto(p, vars@, (#[trigger] ix_s@[j]).0, p.blk(ix_s@[j].0).len() as int) by {
      assert(tracked_upto(p, v0, ix_s@[j].0, p.blk(ix_s@[j].0).len() as int));
    }
  }
#tail r
  proof {
    assert forall|l: u32| #[trigger] p.cfg.bblocks.0@.contains_key(l) implies tracked_upto(p, r@, l, p.blk(l).len() as int) by {
      let j = choose|j: int| 0 <= j < ix_s@.len() && (#[trigger] ix_s@[j]).0 == l;
      assert(tracked_upto(p, r@, ix_s@[j].0, p.blk(ix_s@[j].0).len() as int));
    }
  }
@*/
impl HashSet<u32> {
  /// `s.extend(t.iter().copied())`
  #[verifier::external_body]
  fn extend_set(&mut self, t: &HashSet<u32>) ensures forall|k: u32| #[trigger] final(self)@.contains(k) == (old(self)@.contains(k) || t@.contains(k)) { unimplemented!() }
}
impl HashMap<Loc, Loc> {
  /// `m.keys().copied().collect()`
  #[verifier::external_body]
  fn key_set(&self) -> (r: HashSet<Loc>) ensures r@ == self@.dom() { unimplemented!() }
}
spec fn value_of(m: Map<Loc, HashSet<u32>>, s: HashSet<u32>) -> bool { exists|k: Loc| m.contains_key(k) && #[trigger] m[k] == s }
impl HashMap<Loc, HashSet<u32>> {
  /// `m.values()`
  #[verifier::external_body]
  fn values(&self) -> (r: Vec<&HashSet<u32>>)
    ensures forall|i: int| 0 <= i < r@.len() ==> value_of(self@, *#[trigger] r@[i]),
      forall|k: Loc| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}
/// `v.iter().enumerate().map(|(i, x)| (*x, i)).collect()`, on distinct elements
#[verifier::external_body]
fn ranks(v: &Vec<u32>) -> (r: HashMap<u32, usize>)
  ensures forall|k: u32| #[trigger] r@.contains_key(k) <==> v@.contains(k),
    v@.no_duplicates() ==> forall|i: int| 0 <= i < v@.len() ==> r@.contains_key(#[trigger] v@[i]) && r@[v@[i]] == i,
{ unimplemented!() }
impl LivenessAnalysis {
  spec fn tracked(self, v: u32) -> bool { self.var_to_bit@.contains_key(v) }
  spec fn holds(self, b: BitSet, v: u32) -> bool { self.tracked(v) && b.has(self.var_to_bit@[v] as int) }
  /// one bit per tracked variable
  spec fn coded(self) -> bool {
    &&& self.width == self.bit_to_var@.len() && self.width <= u32::MAX + 1
    &&& forall|v: u32| #[trigger] self.tracked(v) ==> self.var_to_bit@[v] < self.width && self.bit_to_var@[self.var_to_bit@[v] as int] == v
    &&& forall|i: int| 0 <= i < self.width ==> self.tracked(#[trigger] self.bit_to_var@[i]) && self.var_to_bit@[self.bit_to_var@[i]] == i
  }
  spec fn fits(self, b: BitSet) -> bool { b.bits@.len() == words(self.width as int) && forall|i: int| #[trigger] b.has(i) ==> i < self.width }
  spec fn extra(self, at: Loc, v: u32) -> bool { self.additional_uses@.contains_key(at) && self.holds(self.additional_uses@[at], v) }
  /// set up for the program
  spec fn set_for(self, p: Prog) -> bool {
    &&& p.ok() && self.coded()
    &&& self.inlined_insts@ == p.inl.dom()
    &&& forall|at: Loc| #[trigger] self.additional_uses@.contains_key(at) ==> self.fits(self.additional_uses@[at])
    &&& forall|at: Loc, v: u32| #[trigger] self.extra(at, v) == p.added(at, v)
    &&& forall|v: u32| #[trigger] self.tracked(v) ==> !p.gone.contains(v)
    &&& forall|l: u32, i: int, v: u32| p.cfg.bblocks.0@.contains_key(l) && 0 <= i < p.blk(l).len() && !p.inl.contains_key((l, i as usize)) && #[trigger] p.used((l, i as usize), v) ==> self.tracked(v)
  }
/*@fn optimize-js/src/analysis/liveness.rs :: LivenessAnalysis::new
#ret r
#sig `cfg: &Cfg,` => `cfg: &Cfg, Ghost(p): Ghost<Prog>,`
#rewrite `inlines.keys().copied().collect()` => `inlines.key_set()`
#rewrite `compute_additional_use_vars(cfg,` => `compute_additional_use_vars(cfg, Ghost(p),`
#rewrite `collect_tracked_vars(cfg,` => `collect_tracked_vars(cfg, Ghost(p),`
#rewrite `all_vars.extend(vars.iter().copied())` => `all_vars.extend_set(vars)`
#rewrite `all_vars.into_iter().collect()` => `all_vars.list()`
#rewrite `bit_to_var.sort_unstable();` => `sort_u32(&mut bit_to_var);`
#rewrite `bit_to_var .iter() .enumerate() .map(|(idx, var)| (*var, idx)) .collect()` => `ranks(&bit_to_var)`
#rewrite `HashMap::default()` => `HashMap::<Loc, BitSet>::default()`
#rewrite `additional_uses.insert(loc, bits)` => `additional_uses.insert(*loc, bits)`
#spec
  requires p.ok(), p.cfg == *cfg, p.inl == inlines@, p.gone == inlined_vars@,
  ensures r.set_for(p),
#at before `for vars in additional_use_vars.values()`
  let ghost tr = all_vars@;
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), tr.subset_of(all_vars@),
    forall|i: int| 0 <= i < ix_s@.len() ==> value_of(additional_use_vars@, *#[trigger] ix_s@[i]),
    forall|k: Loc| #[trigger] additional_use_vars@.contains_key(k) ==> exists|i: int| 0 <= i < ix_s@.len() && *(#[trigger] ix_s@[i]) == additional_use_vars@[k],
    forall|v: u32| #[trigger] all_vars@.contains(v) ==> !p.gone.contains(v),
    forall|i: int| 0 <= i < ix ==> (#[trigger] ix_s@[i])@.subset_of(all_vars@),
    forall|at: Loc, v: u32| #[trigger] adds_has(additional_use_vars@, at, v) == p.added(at, v),
  decreases ix_s@.len() - ix,
#at enter `for vars in additional_use_vars.values()`
  let ghost b0 = all_vars@;
#at exit `for vars in additional_use_vars.values()`
  proof {
    assert(vars == ix_s@[ix - 1]);
    let k0 = choose|k: Loc| additional_use_vars@.contains_key(k) && #[trigger] additional_use_vars@[k] == *ix_s@[ix - 1];
    assert forall|v: u32| #[trigger] all_vars@.contains(v) implies !p.gone.contains(v) by {
      if !b0.contains(v) {
        assert(adds_has(additional_use_vars@, k0, v)); assert(p.added(k0, v));
        let s = choose|s: Loc| p.inl.contains_key(s) && #[trigger] p.adds(s, k0, v);
      }
    }
    assert forall|i: int| 0 <= i < ix implies (#[trigger] ix_s@[i])@.subset_of(all_vars@) by {
      if i < ix - 1 { assert(ix_s@[i]@.subset_of(b0)); }
    }
  }
#at before `let mut bit_to_var`
  let ghost av = all_vars@;
  proof {
    assert forall|at: Loc, v: u32| #[trigger] adds_has(additional_use_vars@, at, v) implies av.contains(v) by {
      let i = choose|i: int| 0 <= i < ix_s@.len() && *(#[trigger] ix_s@[i]) == additional_use_vars@[at];
      assert(ix_s@[i]@.subset_of(av));
    }
    all_vars.finite(); at_most_u32(av);
  }
#at before `let var_to_bit: HashMap<u32, usize>`
  proof { lists_len(bit_to_var@, av); }
#at before `let mut additional_uses`
  proof {
    assert forall|k: u32| #[trigger] av.contains(k) implies var_to_bit@[k] < width && bit_to_var@[var_to_bit@[k] as int] == k by {
      assert(bit_to_var@.contains(k));
      let i = choose|i: int| 0 <= i < bit_to_var@.len() && bit_to_var@[i] == k;
      assert(var_to_bit@[bit_to_var@[i]] == i);
    }
  }
#loop 1 while=jx list=pairs
  invariant
    forall|k: Loc| #[trigger] additional_use_vars@.contains_key(k) ==> exists|i: int| 0 <= i < jx_s@.len() && *(#[trigger] jx_s@[i]).0 == k,
    jx <= jx_s@.len(), width == bit_to_var@.len(), width <= u32::MAX + 1,
    forall|k: u32| #[trigger] var_to_bit@.contains_key(k) <==> av.contains(k),
    forall|k: u32| #[trigger] av.contains(k) ==> var_to_bit@[k] < width,
    forall|i: int| 0 <= i < width ==> av.contains(#[trigger] bit_to_var@[i]) && var_to_bit@[bit_to_var@[i]] == i,
    forall|k: u32| #[trigger] av.contains(k) ==> bit_to_var@[var_to_bit@[k] as int] == k,
    forall|i: int| 0 <= i < jx_s@.len() ==> additional_use_vars@.contains_key(*(#[trigger] jx_s@[i]).0) && additional_use_vars@[*jx_s@[i].0] == *jx_s@[i].1,
    forall|i: int, j: int| 0 <= i < j < jx_s@.len() ==> *(#[trigger] jx_s@[i]).0 != *(#[trigger] jx_s@[j]).0,
    forall|at: Loc, v: u32| #[trigger] adds_has(additional_use_vars@, at, v) ==> av.contains(v),
    forall|at: Loc| #[trigger] additional_uses@.contains_key(at) ==> exists|j: int| 0 <= j < jx && *(#[trigger] jx_s@[j]).0 == at,
    forall|j: int| 0 <= j < jx ==> #[trigger] coded_as(additional_uses@, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int),
  decreases jx_s@.len() - jx,
#at enter `for (loc, vars) in additional_use_vars`
  let ghost au0 = additional_uses@;
#loop 2 while=kx list=list
  invariant
    kx <= kx_s@.len(), lists(kx_s@, vars@), bits.bits@.len() == words(width as int), width == bit_to_var@.len(), width <= u32::MAX + 1,
    forall|k: u32| #[trigger] var_to_bit@.contains_key(k) <==> av.contains(k),
    forall|k: u32| #[trigger] av.contains(k) ==> var_to_bit@[k] < width,
    forall|i: int| 0 <= i < width ==> av.contains(#[trigger] bit_to_var@[i]) && var_to_bit@[bit_to_var@[i]] == i,
    forall|k: u32| #[trigger] av.contains(k) ==> bit_to_var@[var_to_bit@[k] as int] == k,
    forall|i: int| #[trigger] bits.has(i) ==> i < width && done(kx_s@, kx as int, bit_to_var@[i]),
    forall|k: u32| #[trigger] done(kx_s@, kx as int, k) && av.contains(k) ==> bits.has(var_to_bit@[k] as int),
  decreases kx_s@.len() - kx,
#at enter `for var in vars`
  proof { done_step(kx_s@, kx as int - 1, vars@); }
#at afterblock `for var in vars`
  proof { done_all(kx_s@, vars@); }
#at after `additional_uses.insert(loc, bits)`
  proof {
    assert(coded_as(additional_uses@, *loc, vars@, var_to_bit@, width as int)) by {
      assert forall|v: u32| var_to_bit@.contains_key(v) implies #[trigger] additional_uses@[*loc].has(var_to_bit@[v] as int) == vars@.contains(v) by {
        assert(bit_to_var@[var_to_bit@[v] as int] == v);
      }
    }
    assert forall|j: int| 0 <= j < jx implies #[trigger] coded_as(additional_uses@, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int) by {
      if j < jx - 1 { assert(coded_as(au0, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int)); assert(*jx_s@[j].0 != *jx_s@[jx - 1].0); }
    }
    assert forall|at: Loc| #[trigger] additional_uses@.contains_key(at) implies exists|j: int| 0 <= j < jx && *(#[trigger] jx_s@[j]).0 == at by {
      if at == *loc { assert(*jx_s@[jx - 1].0 == at); }
      else { let j = choose|j: int| 0 <= j < jx - 1 && *(#[trigger] jx_s@[j]).0 == at; assert(*jx_s@[j].0 == at); }
    }
  }
#tail r
  proof {
    assert forall|at: Loc, v: u32| #[trigger] r.extra(at, v) == p.added(at, v) by {
      assert(adds_has(additional_use_vars@, at, v) == p.added(at, v));
      if additional_uses@.contains_key(at) {
        let j = choose|j: int| 0 <= j < jx_s@.len() && *(#[trigger] jx_s@[j]).0 == at;
        assert(coded_as(additional_uses@, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int));
      }
      if additional_use_vars@.contains_key(at) {
        let j = choose|j: int| 0 <= j < jx_s@.len() && *(#[trigger] jx_s@[j]).0 == at;
        assert(coded_as(additional_uses@, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int));
      }
    }
    assert forall|at: Loc| #[trigger] additional_uses@.contains_key(at) implies r.fits(additional_uses@[at]) by {
      let j = choose|j: int| 0 <= j < jx_s@.len() && *(#[trigger] jx_s@[j]).0 == at;
      assert(coded_as(additional_uses@, *jx_s@[j].0, jx_s@[j].1@, var_to_bit@, width as int));
    }
    assert forall|l: u32, i: int, v: u32| p.cfg.bblocks.0@.contains_key(l) && 0 <= i < p.blk(l).len() && !p.inl.contains_key((l, i as usize)) && #[trigger] p.used((l, i as usize), v) implies r.tracked(v) by {
      if p.added((l, i as usize), v) { assert(adds_has(additional_use_vars@, (l, i as usize), v)); }
      else { p.blk_len(l); assert(tracked_upto(p, tr, l, p.blk(l).len() as int)); assert(args_have(p.blk(l)[i].args@, v)); assert(tr.contains(v)); }
    }
  }
@*/
}
/// the set `s` in bits
spec fn coded_as(m: Map<Loc, BitSet>, at: Loc, s: Set<u32>, code: Map<u32, usize>, width: int) -> bool {
  &&& m.contains_key(at) && m[at].bits@.len() == words(width)
  &&& forall|v: u32| code.contains_key(v) ==> #[trigger] m[at].has(code[v] as int) == s.contains(v)
  &&& forall|i: int| #[trigger] m[at].has(i) ==> i < width
}
proof fn at_most_u32(s: Set<u32>)
  requires s.finite(),
  ensures s.len() <= u32::MAX + 1,
{
  let all = vstd::set_lib::set_int_range(0, u32::MAX + 1);
  vstd::set_lib::lemma_int_range(0, u32::MAX + 1);
  let m = s.map(|k: u32| k as int);
  vstd::set_lib::lemma_map_size(s, m, |k: u32| k as int);
  assert(m.subset_of(all));
  vstd::set_lib::lemma_len_subset(m, all);
}

// ---- transfer ----
impl LivenessAnalysis {
  spec fn set(self, b: BitSet) -> spec_fn(u32) -> bool { |v: u32| self.holds(b, v) }
/*@fn optimize-js/src/analysis/liveness.rs :: LivenessAnalysis::bitset_to_vars
#ret r
#rewrite `HashSet::default()` => `HashSet::<u32>::default()`
#spec
  requires self.coded(), self.fits(*bits),
  ensures forall|v: u32| #[trigger] r@.contains(v) == self.holds(*bits, v),
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), self.coded(), self.fits(*bits),
    forall|i: usize| #[trigger] ix_s@.contains(i) == bits.has(i as int),
    forall|v: u32| #[trigger] vars@.contains(v) ==> self.holds(*bits, v),
    forall|k: int| 0 <= k < ix ==> vars@.contains(self.bit_to_var@[(#[trigger] ix_s@[k]) as int]),
  decreases ix_s@.len() - ix,
#at enter `for idx in`
  proof { assert(ix_s@.contains(ix_s@[ix as int - 1])); assert(bits.has(idx as int)); }
#tail r
  proof {
    assert forall|v: u32| #[trigger] r@.contains(v) == self.holds(*bits, v) by {
      if self.holds(*bits, v) {
        let b = self.var_to_bit@[v];
        assert(ix_s@.contains(b));
        let k = choose|k: int| 0 <= k < ix_s@.len() && ix_s@[k] == b;
        assert(vars@.contains(self.bit_to_var@[ix_s@[k] as int]));
      }
    }
  }
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: DataFlowAnalysis for LivenessAnalysis::bottom
#ret r
#sig `Self::State` => `BitSet`
#spec
  ensures self.width <= u32::MAX + 1 ==> self.fits(r), forall|v: u32| !#[trigger] self.holds(r, v), forall|i: int| !#[trigger] r.has(i),
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: DataFlowAnalysis::boundary_state
#ret r
#sig `Self::State` => `BitSet`
#spec
  ensures self.width <= u32::MAX + 1 ==> self.fits(r), forall|v: u32| !#[trigger] self.holds(r, v),
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: DataFlowAnalysis for LivenessAnalysis::meet
#ret r
#sig `Self::State` => `BitSet`
#spec
  requires old(self).coded(), forall|i: int| 0 <= i < states@.len() ==> old(self).fits(*(#[trigger] states@[i]).1),
  ensures *final(self) == *old(self), final(self).fits(r),
    forall|v: u32| #[trigger] final(self).holds(r, v) == in_upto(*final(self), states@, states@.len() as int, v),
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == states@, *self == *old(self), self.coded(), self.fits(merged),
    forall|i: int| 0 <= i < states@.len() ==> self.fits(*(#[trigger] states@[i]).1),
    forall|v: u32| #[trigger] self.holds(merged, v) == in_upto(*self, states@, ix as int, v),
  decreases ix_s@.len() - ix,
#at enter `for (_, state) in`
  let ghost m0 = merged;
  proof { assert(self.fits(*states@[ix - 1].1)); }
#at after `merged.union_with(state)`
  proof {
    assert forall|v: u32| #[trigger] self.holds(merged, v) == in_upto(*self, states@, ix as int, v) by {
      assert(self.holds(merged, v) == (self.holds(m0, v) || self.holds(*states@[ix - 1].1, v)));
      if in_upto(*self, states@, ix - 1, v) { let k = choose|k: int| 0 <= k < ix - 1 && self.holds(*(#[trigger] states@[k]).1, v); assert(self.holds(*states@[k].1, v)); }
    }
    assert forall|i: int| #[trigger] merged.has(i) implies i < self.width by { assert(m0.has(i) || states@[ix - 1].1.has(i)); }
  }
@*/
/*@fn optimize-js/src/analysis/liveness.rs :: DataFlowAnalysis for LivenessAnalysis::apply_to_instruction
#sig `&mut self,` => `&mut self, Ghost(p): Ghost<Prog>,`
#sig `&mut Self::State` => `&mut BitSet`
#spec
  requires old(self).set_for(p), old(self).fits(*old(state)), p.at((label, inst_idx)), *inst == p.blk(label)[inst_idx as int],
  ensures *final(self) == *old(self), final(self).fits(*final(state)),
    forall|v: u32| #[trigger] final(self).holds(*final(state), v) == p.step(label, inst_idx as int, v, final(self).holds(*old(state), v)),
#entry
  let ghost s0 = *state; let ghost at = (label, inst_idx);
#loop 0 while=tx
  invariant
    tx <= tx_s@.len(), tx_s@ == inst.tgts@, *self == *old(self), self.coded(), self.fits(*state),
    forall|v: u32| #[trigger] self.holds(*state, v) == (self.holds(s0, v) && !tgts_upto(inst.tgts@, tx as int, v)),
  decreases tx_s@.len() - tx,
#at enter `for &var in`
  let ghost s1 = *state;
  proof { tgts_step(inst.tgts@, tx as int - 1); if self.tracked(var) { assert(self.var_to_bit@[var] < self.width); in_words(self.width as int, self.var_to_bit@[var] as int); } }
#at exit `for &var in`
  proof {
    assert forall|v: u32| #[trigger] self.holds(*state, v) == (self.holds(s1, v) && v != var) by {
      if self.tracked(v) && self.tracked(var) { assert(self.bit_to_var@[self.var_to_bit@[v] as int] == v && self.bit_to_var@[self.var_to_bit@[var] as int] == var); }
    }
    assert forall|i: int| #[trigger] state.has(i) implies i < self.width by { assert(s1.has(i)); }
  }
#loop 1 while=kx
  invariant
    kx <= kx_s@.len(), kx_s@ == inst.args@, *self == *old(self), self.coded(), self.fits(*state),
    forall|v: u32| #[trigger] self.holds(*state, v) == ((self.holds(s0, v) && !inst.tgts@.contains(v)) || (self.tracked(v) && args_upto(inst.args@, kx as int, v))),
  decreases kx_s@.len() - kx,
#at enter `for arg in`
  let ghost s2 = *state;
  proof { args_step(inst.args@, kx as int - 1); if let Arg::Var(w) = *arg { if self.tracked(w) { assert(self.var_to_bit@[w] < self.width); in_words(self.width as int, self.var_to_bit@[w] as int); } } }
#at exit `for arg in`
  proof {
    assert forall|v: u32| #[trigger] self.holds(*state, v) == (self.holds(s2, v) || (self.tracked(v) && *arg == Arg::Var(v))) by {
      if let Arg::Var(w) = *arg { if self.tracked(v) && self.tracked(w) { assert(self.bit_to_var@[self.var_to_bit@[v] as int] == v && self.bit_to_var@[self.var_to_bit@[w] as int] == w); } }
    }
    assert forall|i: int| #[trigger] state.has(i) implies i < self.width by { if !s2.has(i) { if let Arg::Var(w) = *arg { assert(self.tracked(w)); assert(i == self.var_to_bit@[w]); } } }
  }
#at before `if let Some(additional)`
  let ghost s3 = *state;
  proof {
    assert forall|v: u32| args_upto(inst.args@, inst.args@.len() as int, v) == #[trigger] args_have(inst.args@, v) by {}
    assert(self.additional_uses@.contains_key(at) ==> self.fits(self.additional_uses@[at]));
  }
#end
  proof {
    assert forall|v: u32| #[trigger] self.holds(*state, v) == p.step(label, inst_idx as int, v, self.holds(s0, v)) by {
      assert(self.holds(*state, v) == (self.holds(s3, v) || self.extra(at, v)));
      assert(self.extra(at, v) == p.added(at, v));
      assert(p.used((label, inst_idx as int as usize), v) ==> self.tracked(v));
      assert(args_have(inst.args@, v) == args_upto(inst.args@, inst.args@.len() as int, v));
    }
    assert forall|i: int| #[trigger] state.has(i) implies i < self.width by { assert(s3.has(i) || self.additional_uses@[at].has(i)); }
  }
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: DataFlowAnalysis::apply_to_block
#ret r
#sig `&mut self,` => `&mut self, Ghost(p): Ghost<Prog>,`
#sig `Self::State` => `BitSet`
#rewrite `state.clone()` => `bits_clone(state)`
#rewrite `Self::DIRECTION` => `Direction::Backward`
#rewrite `self.apply_to_instruction(` => `self.apply_to_instruction(Ghost(p), `
#spec
  requires old(self).set_for(p), old(self).fits(*state), block@.len() == 0 || (p.cfg.bblocks.0@.contains_key(label) && block@ == p.blk(label)),
  ensures *final(self) == *old(self), final(self).fits(r), block@.len() == 0 ==> r == *state,
    block@ == p.blk(label) ==> forall|v: u32| #[trigger] final(self).holds(r, v) == p.back(label, 0, final(self).set(*state), v),
#loop 0 while=fx
  invariant false,
  decreases fx_s@.len() - fx,
#loop 1 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == block@, *self == *old(self), self.set_for(p), self.fits(next), ix_s@.len() == 0 ==> next == *state,
    block@.len() == 0 || (p.cfg.bblocks.0@.contains_key(label) && block@ == p.blk(label)),
    block@ == p.blk(label) ==> forall|v: u32| #[trigger] self.holds(next, v) == p.back(label, ix as int, self.set(*state), v),
  decreases ix,
@*/
}
spec fn in_upto(a: LivenessAnalysis, st: Seq<(u32, &BitSet)>, n: int, v: u32) -> bool { exists|k: int| 0 <= k < n && a.holds(*(#[trigger] st[k]).1, v) }
spec fn tgts_upto(a: Seq<u32>, n: int, v: u32) -> bool { exists|k: int| 0 <= k < n && #[trigger] a[k] == v }
proof fn tgts_step(a: Seq<u32>, n: int)
  requires 0 <= n < a.len(),
  ensures forall|v: u32| #[trigger] tgts_upto(a, n + 1, v) == (tgts_upto(a, n, v) || a[n] == v),
{
  assert forall|v: u32| #[trigger] tgts_upto(a, n + 1, v) == (tgts_upto(a, n, v) || a[n] == v) by {
    if tgts_upto(a, n, v) { let k = choose|k: int| 0 <= k < n && #[trigger] a[k] == v; assert(a[k] == v && k < n + 1); }
  }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
/*@type optimize-js/src/analysis/dataflow.rs :: Direction
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: AnalysisBoundary
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: ResolvedAnalysisBoundary
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: BlockState
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: DataFlowResult
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: VirtualExit
@*/
/*@type optimize-js/src/analysis/dataflow.rs :: FlowGraph
@*/
impl ResolvedAnalysisBoundary {
/*@fn optimize-js/src/analysis/dataflow.rs :: ResolvedAnalysisBoundary::label
#ret r
#spec
  ensures match self { ResolvedAnalysisBoundary::Entry(l) => r == *l, ResolvedAnalysisBoundary::VirtualExit { label, predecessors } => r == *label },
@*/
}

// ---- the graph that is solved over ----
#[verifier::external_body]
fn copy_labels(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@ { unimplemented!() }
/// `v.binary_search(x).is_ok()` on an ascending list
#[verifier::external_body]
fn has_sorted(v: &Vec<u32>, x: &u32) -> (r: bool) requires ascending(v@), ensures r == v@.contains(*x) { unimplemented!() }
/// `v.dedup()`
#[verifier::external_body]
fn dedup_u32(v: &mut Vec<u32>) ensures forall|k: u32| #![trigger final(v)@.contains(k)] #![trigger old(v)@.contains(k)] final(v)@.contains(k) == old(v)@.contains(k) { unimplemented!() }
/// `v.extend(blocks.map(|(label, _)| label))`
#[verifier::external_body]
fn extend_labels(v: &mut Vec<u32>, b: Vec<(u32, &Vec<Inst>)>)
  ensures forall|k: u32| #[trigger] old(v)@.contains(k) ==> final(v)@.contains(k),
    forall|k: u32| #[trigger] final(v)@.contains(k) ==> old(v)@.contains(k) || exists|i: int| 0 <= i < b@.len() && (#[trigger] b@[i]).0 == k,
{ unimplemented!() }
#[verifier::external_body]
fn empty_block<'a>() -> (r: &'a [Inst]) ensures r@.len() == 0 { unimplemented!() }
/// `v.into_iter().collect()`
#[verifier::external_body]
fn set_of(v: Vec<u32>) -> (r: HashSet<u32>) ensures forall|k: u32| #[trigger] r@.contains(k) == v@.contains(k) { unimplemented!() }
/// `s.iter().copied().max()`
#[verifier::external_body]
fn max_of(s: &HashSet<u32>) -> (r: Option<u32>)
  ensures match r { Some(m) => s@.contains(m) && forall|k: u32| #[trigger] s@.contains(k) ==> k <= m, None => forall|k: u32| !#[trigger] s@.contains(k) } { unimplemented!() }
proof fn all_u32(s: Set<u32>, t: Set<u32>)
  requires forall|k: u32| #[trigger] s.contains(k), s.finite(), s =~= t,
  ensures t.len() == u32::MAX + 1,
{
  let all = vstd::set_lib::set_int_range(0, u32::MAX + 1);
  vstd::set_lib::lemma_int_range(0, u32::MAX + 1);
  let m = s.map(|k: u32| k as int);
  assert(m =~= all) by {
    assert forall|i: int| all.contains(i) implies m.contains(i) by { assert(s.contains(i as u32)); assert((i as u32) as int == i); }
  }
  vstd::set_lib::lemma_map_size(s, m, |k: u32| k as int);
}
/*@fn optimize-js/src/analysis/dataflow.rs :: next_unused_label
#ret r
#rewrite `cfg.graph.labels().collect()` => `set_of(cfg.graph.labels())`
#rewrite `used.iter().copied().max()` => `max_of(&used)`
#rewrite `panic!("exhausted all possible CFG labels while searching for a virtual exit");` => `unreached()`
#spec
  requires cfg.graph.0.nodes@.dom().len() <= u32::MAX,
  ensures !cfg.graph.has(r),
#loop 0
  invariant forall|k: u32| k < candidate ==> #[trigger] used@.contains(k), forall|k: u32| #[trigger] used@.contains(k) == cfg.graph.has(k),
  ensures forall|k: u32| #[trigger] used@.contains(k),
  decreases u32::MAX - candidate,
#at before `panic!`
  proof { used.finite(); all_u32(used@, cfg.graph.0.nodes@.dom()); }
@*/
/// Tarjan's algorithm (checked bounded): exactly the labels nothing leads away from for good, ascending
#[verifier::external_body]
fn sink_scc_nodes(cfg: &Cfg) -> (r: Vec<u32>)
  requires cfg.graph.wf(),
  ensures ascending(r@), forall|x: u32| #[trigger] r@.contains(x) <==> cfg.graph.has(x) && sink(cfg.graph.arcs(false), x),
{ unimplemented!() }
/*@fn optimize-js/src/analysis/dataflow.rs :: calculate_virtual_exit
#ret r
#spec
  requires cfg.graph.wf(), cfg.graph.0.nodes@.dom().len() <= u32::MAX,
  ensures !cfg.graph.has(r.label), ascending(r.predecessors@),
    forall|x: u32| #[trigger] r.predecessors@.contains(x) <==> cfg.graph.has(x) && sink(cfg.graph.arcs(false), x),
@*/
impl<'cfg> FlowGraph<'cfg> {
  /// the exit is a label of its own, after labels of the graph
  spec fn ready(self) -> bool {
    &&& self.cfg.graph.wf()
    &&& match self.virtual_exit { Some(e) => !self.cfg.graph.has(e.label) && ascending(e.predecessors@) && forall|x: u32| #[trigger] e.predecessors@.contains(x) ==> self.cfg.graph.has(x), None => true }
  }
  spec fn is_exit(self, l: u32) -> bool { match self.virtual_exit { Some(e) => e.label == l, None => false } }
  spec fn exit(self) -> u32 { match self.virtual_exit { Some(e) => e.label, None => 0 } }
  /// an edge, or the way out to the exit
  spec fn arc(self, a: u32, b: u32) -> bool {
    self.cfg.graph.edge(a, b) || match self.virtual_exit { Some(e) => b == e.label && e.predecessors@.contains(a), None => false }
  }
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::new
#ret r
#spec
  ensures r.cfg == cfg, r.direction == direction, r.virtual_exit == virtual_exit,
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::virtual_exit_label
#ret r
#rewrite `self.virtual_exit.as_ref().map(|v| v.label)` => `self.virtual_exit.as_ref().map(|v: &VirtualExit| -> (o: u32) ensures o == v.label { v.label })`
#spec
  ensures r == (match self.virtual_exit { Some(e) => Some(e.label), None => None }),
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::labels
#ret r
#rewrite `labels.extend(self.cfg.bblocks.all().map(|(label, _)| label));` => `extend_labels(&mut labels, self.cfg.bblocks.all());`
#rewrite `if let Some(VirtualExit { label, .. }) = self.virtual_exit {` => `if let Some(VirtualExit { label, .. }) = &self.virtual_exit { let label = *label;`
#rewrite `labels.sort_unstable();` => `sort_u32(&mut labels);`
#rewrite `labels.dedup();` => `dedup_u32(&mut labels);`
#spec
  ensures forall|l: u32| self.cfg.graph.has(l) || self.is_exit(l) ==> #[trigger] r@.contains(l),
#at before `labels.extend(`
  let ghost l1 = labels@;
  proof { assert forall|l: u32| #[trigger] self.cfg.graph.has(l) implies l1.contains(l) by {} }
#at before `labels.push(label)`
  let ghost l0 = labels@;
  proof { assert forall|l: u32| l1.contains(l) implies #[trigger] l0.contains(l) by {} }
#at after `labels.push(label)`
  proof { assert forall|l: u32| l0.contains(l) || l == label implies #[trigger] labels@.contains(l) by {
    if l0.contains(l) { let i = choose|i: int| 0 <= i < l0.len() && l0[i] == l; assert(labels@[i] == l); } else { assert(labels@[l0.len() as int] == l); } } }
#at before `labels.sort_unstable()`
  proof {
    assert forall|l: u32| self.cfg.graph.has(l) || self.is_exit(l) implies #[trigger] labels@.contains(l) by {
      if self.cfg.graph.has(l) { assert(l1.contains(l)); }
    }
  }
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::block
#ret r
#rewrite `&[]` => `empty_block()`
#rewrite `self.cfg.bblocks.get(label)` => `self.cfg.bblocks.get(label).as_slice()`
#spec
  requires self.is_exit(label) || self.cfg.bblocks.0@.contains_key(label),
  ensures self.is_exit(label) ==> r@.len() == 0, !self.is_exit(label) ==> r@ == self.cfg.bblocks.0@[label]@,
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::predecessors
#ret r
#rewrite `exit.predecessors.binary_search(&label).is_ok()` => `has_sorted(&exit.predecessors, &label)`
#rewrite `nodes.sort_unstable();` => `sort_u32(&mut nodes);`
#rewrite `nodes.dedup();` => `dedup_u32(&mut nodes);`
#spec
  requires self.ready(),
  ensures self.direction == Direction::Backward ==> forall|x: u32| #[trigger] r@.contains(x) <==> self.arc(label, x),
    self.direction == Direction::Forward && self.virtual_exit is None ==> forall|x: u32| #[trigger] r@.contains(x) <==> self.arc(x, label),
#at before `nodes.push(exit.label)`
  let ghost n0 = nodes@;
#at after `nodes.push(exit.label)`
  proof { assert forall|x: u32| #[trigger] nodes@.contains(x) == (n0.contains(x) || x == exit.label) by {
    if n0.contains(x) { let i = choose|i: int| 0 <= i < n0.len() && n0[i] == x; assert(nodes@[i] == x); } if x == exit.label { assert(nodes@[n0.len() as int] == x); } } }
#at before `nodes.sort_unstable()`
  proof { assert forall|x: u32| self.direction == Direction::Forward implies #[trigger] self.cfg.graph.edge(x, label) == self.cfg.graph.0.back(x, label) by {} }
@*/
/*@fn optimize-js/src/analysis/dataflow.rs :: FlowGraph::successors
#ret r
#rewrite `exit.predecessors.binary_search(&label).is_ok()` => `has_sorted(&exit.predecessors, &label)`
#rewrite `exit.predecessors.clone()` => `copy_labels(&exit.predecessors)`
#rewrite `unreachable!("missing virtual exit")` => `unreached()`
#rewrite `nodes.sort_unstable();` => `sort_u32(&mut nodes);`
#rewrite `nodes.dedup();` => `dedup_u32(&mut nodes);`
#spec
  requires self.ready(),
  ensures self.direction == Direction::Backward ==> forall|x: u32| #[trigger] r@.contains(x) <==> self.arc(x, label),
    self.direction == Direction::Forward ==> forall|x: u32| #[trigger] r@.contains(x) <==> self.arc(label, x),
#entry
  proof { assert forall|x: u32| #[trigger] self.cfg.graph.edge(x, label) == self.cfg.graph.0.back(x, label) by {} }
#at before `nodes.push(exit.label)`
  let ghost n0 = nodes@;
#at after `nodes.push(exit.label)`
  proof { assert forall|x: u32| #[trigger] nodes@.contains(x) == (n0.contains(x) || x == exit.label) by {
    if n0.contains(x) { let i = choose|i: int| 0 <= i < n0.len() && n0[i] == x; assert(nodes@[i] == x); } if x == exit.label { assert(nodes@[n0.len() as int] == x); } } }
@*/
}

// ---- solving ----
type Sol = Map<u32, BlockState<BitSet>>;
spec fn way(p: Prog, x: u32, a: u32, b: u32) -> bool { p.cfg.graph.edge(a, b) || (b == x && p.cfg.graph.has(a) && sink(p.cfg.graph.arcs(false), a)) }
spec fn node(p: Prog, x: u32, l: u32) -> bool { p.cfg.graph.has(l) || l == x }
spec fn joined(a: LivenessAnalysis, p: Prog, x: u32, b: Sol, l: u32, v: u32) -> bool { exists|c: u32| #[trigger] way(p, x, l, c) && a.holds(b[c].entry, v) }
spec fn solving(a: LivenessAnalysis, p: Prog, x: u32, b: Sol, vis: Set<u32>, q: Set<u32>) -> bool {
  &&& a.set_for(p) && !p.cfg.graph.has(x)
  &&& forall|l: u32| #[trigger] node(p, x, l) ==> b.contains_key(l) && a.fits(b[l].entry) && a.fits(b[l].exit)
  &&& forall|l: u32| #[trigger] q.contains(l) ==> node(p, x, l)
  &&& forall|l: u32| #[trigger] vis.contains(l) ==> node(p, x, l)
  // nothing is live at the exit
  &&& forall|v: u32| !#[trigger] a.holds(b[x].entry, v)
  // what is said to be live is
  &&& forall|l: u32, v: u32| p.cfg.graph.has(l) && #[trigger] a.holds(b[l].exit, v) ==> p.live(v, l, p.blk(l).len() as int)
  &&& forall|l: u32, v: u32| p.cfg.graph.has(l) && #[trigger] a.holds(b[l].entry, v) ==> p.live(v, l, 0)
  // visited blocks agree with themselves, and, unless queued, with what follows
  &&& forall|l: u32, v: u32| p.cfg.graph.has(l) && vis.contains(l) ==> #[trigger] a.holds(b[l].entry, v) == p.back(l, 0, a.set(b[l].exit), v)
  &&& forall|l: u32, c: u32, v: u32| vis.contains(l) && !q.contains(l) && #[trigger] p.cfg.graph.edge(l, c) && #[trigger] a.holds(b[c].entry, v) ==> a.holds(b[l].exit, v)
  // everything before a visited label is visited or queued
  &&& vis.contains(x) || q.contains(x)
  &&& forall|l: u32, c: u32| vis.contains(c) && #[trigger] way(p, x, l, c) ==> vis.contains(l) || q.contains(l)
}
proof fn back_ext(p: Prog, l: u32, i: int, s: spec_fn(u32) -> bool, t: spec_fn(u32) -> bool, v: u32)
  requires s(v) == t(v),
  ensures p.back(l, i, s, v) == p.back(l, i, t, v),
  decreases p.blk(l).len() - i,
{ if i < p.blk(l).len() { back_ext(p, l, i + 1, s, t, v); } }
proof fn solve_start(a: LivenessAnalysis, p: Prog, x: u32, b: Sol)
  requires a.set_for(p), !p.cfg.graph.has(x), forall|l: u32| #[trigger] node(p, x, l) ==> b.contains_key(l) && clean(a, b[l]),
  ensures solving(a, p, x, b, Set::<u32>::empty(), Set::<u32>::empty().insert(x)),
{
  assert(node(p, x, x));
  assert forall|l: u32, v: u32| p.cfg.graph.has(l) && #[trigger] a.holds(b[l].exit, v) implies p.live(v, l, p.blk(l).len() as int) by { assert(node(p, x, l)); }
  assert forall|l: u32, v: u32| p.cfg.graph.has(l) && #[trigger] a.holds(b[l].entry, v) implies p.live(v, l, 0) by { assert(node(p, x, l)); }
}
proof fn solve_step(a: LivenessAnalysis, p: Prog, x: u32, b: Sol, vis: Set<u32>, q: Set<u32>, l: u32, n: BlockState<BitSet>, b2: Sol, q2: Set<u32>)
  requires solving(a, p, x, b, vis, q), q.contains(l), a.fits(n.entry), a.fits(n.exit),
    l == x ==> forall|v: u32| !#[trigger] a.holds(n.entry, v),
    l != x ==> forall|v: u32| #[trigger] a.holds(n.exit, v) == joined(a, p, x, b, l, v),
    l != x ==> forall|v: u32| #[trigger] a.holds(n.entry, v) == p.back(l, 0, a.set(n.exit), v),
    ({ &&& b2 == b.insert(l, n) && forall|m: u32| #[trigger] q2.contains(m) == ((q.contains(m) && m != l) || way(p, x, m, l)) }) ||
    ({ &&& vis.contains(l) && b2 =~= b && b[l].entry.bits@ == n.entry.bits@ && b[l].exit.bits@ == n.exit.bits@
       &&& forall|m: u32| #[trigger] q2.contains(m) == (q.contains(m) && m != l) }),
  ensures solving(a, p, x, b2, vis.insert(l), q2),
{
  let g = p.cfg.graph;
  let v2 = vis.insert(l);
  assert(node(p, x, l));
  assert forall|c: u32, d: u32| #[trigger] g.edge(c, d) implies g.has(c) && g.has(d) by { assert(g.0.back(c, d)); }
  assert forall|m: u32, v: u32| #[trigger] a.holds(b2[m].entry, v) == (if m == l { a.holds(n.entry, v) } else { a.holds(b[m].entry, v) }) by {}
  assert forall|m: u32, v: u32| #[trigger] a.holds(b2[m].exit, v) == (if m == l { a.holds(n.exit, v) } else { a.holds(b[m].exit, v) }) by {}
  assert forall|m: u32| #[trigger] node(p, x, m) implies b2.contains_key(m) && a.fits(b2[m].entry) && a.fits(b2[m].exit) by {}
  assert forall|v: u32| g.has(l) && #[trigger] a.holds(n.exit, v) implies p.live(v, l, p.blk(l).len() as int) by {
    assert(joined(a, p, x, b, l, v));
    let c = choose|c: u32| #[trigger] way(p, x, l, c) && a.holds(b[c].entry, v);
    if c == x { assert(!a.holds(b[x].entry, v)); }
    assert(g.edge(l, c) && p.live(v, c, 0));
    live_end(p, v, l, p.blk(l).len() as int);
  }
  assert forall|v: u32| g.has(l) && #[trigger] a.holds(n.entry, v) implies p.live(v, l, 0) by {
    back_live(p, l, 0, a.set(n.exit), v);
  }
  assert forall|m: u32, v: u32| g.has(m) && v2.contains(m) implies #[trigger] a.holds(b2[m].entry, v) == p.back(m, 0, a.set(b2[m].exit), v) by {
    if m == l { assert(a.holds(b2[l].entry, v) == a.holds(n.entry, v)); back_ext(p, l, 0, a.set(n.exit), a.set(b2[l].exit), v); }
    else { assert(a.holds(b[m].entry, v) == p.back(m, 0, a.set(b[m].exit), v)); }
  }
  assert forall|m: u32, c: u32, v: u32| v2.contains(m) && !q2.contains(m) && #[trigger] g.edge(m, c) && #[trigger] a.holds(b2[c].entry, v) implies a.holds(b2[m].exit, v) by {
    assert(way(p, x, m, c));
    if m == l {
      assert(a.holds(b[c].entry, v));
      assert(joined(a, p, x, b, l, v));
    } else {
      assert(vis.contains(m) && !q.contains(m));
      assert(a.holds(b[c].entry, v));
    }
  }
}
/// the solution contains everything that is live
proof fn solved(a: LivenessAnalysis, p: Prog, x: u32, b: Sol, vis: Set<u32>, n: nat, v: u32, l: u32, i: int)
  requires solving(a, p, x, b, vis, Set::<u32>::empty()), p.cfg.graph.has(l), 0 <= i, p.live_n(n, v, l, i),
    forall|m: u32| #[trigger] p.cfg.graph.has(m) ==> vis.contains(m),
  ensures p.back(l, i, a.set(b[l].exit), v),
  decreases n,
{
  if i >= p.blk(l).len() {
    let c = choose|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live_n((n - 1) as nat, v, c, 0);
    assert(p.cfg.graph.0.back(l, c));
    assert(p.cfg.graph.has(c));
    solved(a, p, x, b, vis, (n - 1) as nat, v, c, 0);
    assert(a.holds(b[c].entry, v));
    assert(!Set::<u32>::empty().contains(l));
    assert(a.holds(b[l].exit, v));
  } else if p.inl.contains_key((l, i as usize)) { solved(a, p, x, b, vis, (n - 1) as nat, v, l, i + 1); }
  else if !p.used((l, i as usize), v) { solved(a, p, x, b, vis, (n - 1) as nat, v, l, i + 1); }
}
proof fn all_visited(a: LivenessAnalysis, p: Prog, x: u32, b: Sol, vis: Set<u32>, l: u32)
  requires solving(a, p, x, b, vis, Set::<u32>::empty()), p.cfg.graph.has(l),
  ensures vis.contains(l),
{
  let g = p.cfg.graph;
  let r = g.0.nodes@.dom().filter(|y: u32| reach(g.arcs(false), l, y));
  assert forall|y: u32| #[trigger] r.contains(y) <==> reach(g.arcs(false), l, y) by { if reach(g.arcs(false), l, y) { has_reach(g, l, y); } }
  let s = sink_below(g, l, r);
  assert(way(p, x, s, x));
  assert(!Set::<u32>::empty().contains(x) && !Set::<u32>::empty().contains(s));
  assert(vis.contains(s));
  rev_reach(g, l, s);
  assert forall|y: u32, z: u32| vis.contains(y) && #[trigger] g.arcs(true)(y, z) implies vis.contains(z) by {
    assert(g.edge(z, y)); assert(way(p, x, z, y)); assert(!Set::<u32>::empty().contains(z));
  }
  closed_reach(g.arcs(true), vis, s, l);
}
trait Each { spec fn elems(self) -> Seq<u32>;
  fn each<'a, F: Fn(u32) -> (u32, &'a BitSet)>(self, f: F) -> (r: Vec<(u32, &'a BitSet)>) where Self: Sized
    requires forall|k: u32| self.elems().contains(k) ==> #[trigger] call_requires(f, (k,)),
    ensures r@.len() == self.elems().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.elems()[i],), #[trigger] r@[i]);
}
/// `v.into_iter().map(f).collect_vec()`
impl Each for Vec<u32> {
  spec fn elems(self) -> Seq<u32> { self@ }
  #[verifier::external_body]
  fn each<'a, F: Fn(u32) -> (u32, &'a BitSet)>(self, f: F) -> (r: Vec<(u32, &'a BitSet)>) { unimplemented!() }
}
spec fn clean(a: LivenessAnalysis, s: BlockState<BitSet>) -> bool { a.fits(s.entry) && a.fits(s.exit) && (forall|v: u32| !#[trigger] a.holds(s.entry, v)) && (forall|v: u32| !#[trigger] a.holds(s.exit, v)) }
/// what a run over the program finds
spec fn found(a: LivenessAnalysis, p: Prog, b: Sol) -> bool {
  forall|l: u32| #[trigger] p.cfg.graph.has(l) ==> b.contains_key(l) && a.fits(b[l].exit) && forall|v: u32| #[trigger] a.holds(b[l].exit, v) == p.live(v, l, p.blk(l).len() as int)
}
/*@fn optimize-js/src/analysis/dataflow.rs :: run_dataflow
#attr #[verifier::exec_allows_no_decreases_clause]
#ret r
#sig `<A: DataFlowAnalysis>` => ``
#sig `&mut A` => `&mut LivenessAnalysis, Ghost(p): Ghost<Prog>`
#sig `DataFlowResult<A::State>` => `DataFlowResult<BitSet>`
#rewrite `let merged_inputs = flow_graph .predecessors(label) .into_iter() .map(|pred| match A::DIRECTION {` => `let preds = flow_graph.predecessors(label); let ghost ps = preds@; let merged_inputs = preds.each(|pred: u32| -> (o: (u32, &BitSet)) requires blocks@.contains_key(pred) ensures o.0 == pred, *o.1 == blocks@[pred].entry { match Direction::Backward {`
#rewrite `}) .collect_vec();` => `} });`
#rewrite `A::DIRECTION` => `Direction::Backward`
#rewrite `A::State` => `BitSet`
#rewrite `predecessors.clone()` => `copy_labels(predecessors)`
#rewrite `unreachable!("virtual exit must be calculated when requested")` => `unreached()`
#rewrite `bottom.clone()` => `bits_clone(&bottom)`
#rewrite `boundary_state.clone()` => `bits_clone(&boundary_state)`
#rewrite `VecDeque::from([boundary_label])` => `VecDeque::one(boundary_label)`
#rewrite `HashSet::from_iter([boundary_label])` => `HashSet::one(boundary_label)`
#rewrite `let mut visited = HashSet::default();` => `let mut visited = HashSet::<u32>::default();`
#rewrite `analysis.meet(&merged_inputs)` => `analysis.meet(merged_inputs.as_slice())`
#rewrite `analysis.apply_to_block(` => `analysis.apply_to_block(Ghost(p), `
#rewrite `block_state.entry != entry` => `!same_bits(&block_state.entry, &entry)`
#rewrite `block_state.exit != exit` => `!same_bits(&block_state.exit, &exit)`
#spec
  requires old(analysis).set_for(p), p.cfg == *cfg, boundary is VirtualExit,
  ensures *final(analysis) == *old(analysis), found(*final(analysis), p, r.blocks@),
#at after `let flow_graph`
  let ghost x = flow_graph.exit();
  proof { assert forall|c: u32, d: u32| #[trigger] flow_graph.arc(c, d) == way(p, x, c, d) by {} }
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), *analysis == *old(analysis), clean(*analysis, BlockState { entry: bottom, exit: bottom }),
    forall|k: int| 0 <= k < ix ==> blocks@.contains_key(#[trigger] ix_s@[k]),
    forall|l: u32| #[trigger] blocks@.contains_key(l) ==> clean(*analysis, blocks@[l]),
  decreases ix_s@.len() - ix,
#at before `while let Some(label)`
  let ghost a = *analysis;
  proof {
    assert forall|l: u32| #[trigger] node(p, x, l) implies blocks@.contains_key(l) by {
      assert(ix_s@.contains(l)); let k = choose|k: int| 0 <= k < ix_s@.len() && ix_s@[k] == l; assert(blocks@.contains_key(ix_s@[k]));
    }
    assert(node(p, x, x));
    assert(worklist@[0] == x);
    assert forall|l: u32| #[trigger] node(p, x, l) implies blocks@.contains_key(l) && clean(a, blocks@[l]) by {}
    assert(!cfg.graph.has(x));
    assert(visited@ =~= Set::<u32>::empty()); assert(queued@ =~= Set::<u32>::empty().insert(x));
    solve_start(a, p, x, blocks@);
  }
#loop 1
  invariant
    *analysis == a, a == *old(analysis), solving(a, p, x, blocks@, visited@, queued@), p.cfg == *cfg, boundary_label == x,
    a.fits(boundary_state), forall|v: u32| !#[trigger] a.holds(boundary_state, v),
    flow_graph.ready(), flow_graph.cfg == cfg, flow_graph.direction == Direction::Backward, forall|l: u32| #[trigger] flow_graph.is_exit(l) == (l == x),
    forall|c: u32, d: u32| #[trigger] flow_graph.arc(c, d) == way(p, x, c, d),
    worklist@.no_duplicates(), forall|l: u32| #[trigger] queued@.contains(l) <==> worklist@.contains(l),
  ensures queued@ =~= Set::<u32>::empty(),
#at enter `while let Some(label)`
  let ghost b0 = blocks@; let ghost vis0 = visited@; let ghost q0 = queued@; let ghost mut moved = false;
  proof { assert(q0.contains(label)); assert(node(p, x, label)); assert(node(p, x, x)); }
#at before `let merged_inputs`
  proof {
    assert forall|c: u32| #[trigger] flow_graph.arc(label, c) implies node(p, x, c) by { if cfg.graph.edge(label, c) { assert(cfg.graph.0.back(label, c)); assert(cfg.graph.has(c)); } }
    assert forall|c: u32| #[trigger] flow_graph.arc(label, c) implies blocks@.contains_key(c) by { assert(node(p, x, c)); }
  }
#at after `let merged_inputs`
  let ghost mi = merged_inputs@;
  proof {
    assert forall|i: int| 0 <= i < mi.len() implies (#[trigger] mi[i]).0 == ps[i] && way(p, x, label, ps[i]) && *mi[i].1 == blocks@[ps[i]].entry by { assert(ps.contains(ps[i])); assert(flow_graph.arc(label, ps[i])); }
    assert forall|i: int| 0 <= i < mi.len() implies a.fits(*(#[trigger] mi[i]).1) by { assert(node(p, x, mi[i].0)); }
    assert forall|v: u32| #[trigger] in_upto(a, mi, mi.len() as int, v) == joined(a, p, x, blocks@, label, v) by {
      if in_upto(a, mi, mi.len() as int, v) { let k = choose|k: int| 0 <= k < mi.len() && a.holds(*(#[trigger] mi[k]).1, v); assert(way(p, x, label, mi[k].0) && a.holds(blocks@[mi[k].0].entry, v)); }
      if joined(a, p, x, blocks@, label, v) {
        let c = choose|c: u32| #[trigger] way(p, x, label, c) && a.holds(blocks@[c].entry, v);
        assert(flow_graph.arc(label, c));
        assert(ps.contains(c));
        let k = choose|k: int| 0 <= k < ps.len() && ps[k] == c;
        assert(mi[k].0 == c);
        assert(a.holds(*mi[k].1, v));
      }
    }
  }
#at before `let first_visit`
  let ghost nw = BlockState { entry, exit };
  proof {
    assert(a.fits(nw.entry) && a.fits(nw.exit));
    assert(label == x ==> forall|v: u32| !#[trigger] a.holds(nw.entry, v));
    assert(label != x ==> forall|v: u32| #[trigger] a.holds(nw.exit, v) == joined(a, p, x, b0, label, v));
    assert(label != x ==> forall|v: u32| #[trigger] a.holds(nw.entry, v) == p.back(label, 0, a.set(nw.exit), v));
  }
#at before `for succ in`
  let ghost b2 = blocks@; let ghost qr = queued@;
  proof { moved = true; }
#loop 2 while=sx list=self_
  invariant
    sx <= sx_s@.len(), moved, forall|m: u32| #[trigger] sx_s@.contains(m) <==> flow_graph.arc(m, label), blocks@ == b2,
    forall|m: u32| #[trigger] queued@.contains(m) == (qr.contains(m) || tgts_upto(sx_s@, sx as int, m)),
    worklist@.no_duplicates(), forall|l: u32| #[trigger] queued@.contains(l) <==> worklist@.contains(l),
  decreases sx_s@.len() - sx,
#at enter `for succ in`
  let ghost w1 = worklist@;
  proof { tgts_step(sx_s@, sx as int - 1); }
#at after `worklist.push_back(succ)`
  proof {
    assert forall|l: u32| #[trigger] worklist@.contains(l) == (w1.contains(l) || l == succ) by {
      if w1.contains(l) { let i = choose|i: int| 0 <= i < w1.len() && w1[i] == l; assert(worklist@[i] == l); }
      assert(worklist@[w1.len() as int] == succ);
    }
  }
#at afterblock `for succ in`
  proof {
    assert forall|m: u32| #[trigger] queued@.contains(m) == ((q0.contains(m) && m != label) || way(p, x, m, label)) by {
      assert(flow_graph.arc(m, label) == way(p, x, m, label));
      if sx_s@.contains(m) { let k = choose|k: int| 0 <= k < sx_s@.len() && sx_s@[k] == m; assert(tgts_upto(sx_s@, sx_s@.len() as int, m)); }
      if tgts_upto(sx_s@, sx_s@.len() as int, m) { assert(sx_s@.contains(m)); }
    }
    solve_step(a, p, x, b0, vis0, q0, label, nw, blocks@, queued@);
  }
#at exit `while let Some(label)`
  proof { if !moved { solve_step(a, p, x, b0, vis0, q0, label, nw, blocks@, queued@); } }
#at afterblock `while let Some(label)`
  proof {
    assert(queued@ =~= Set::<u32>::empty());
    assert forall|l: u32| #[trigger] cfg.graph.has(l) implies visited@.contains(l) by { all_visited(a, p, x, blocks@, visited@, l); }
    assert forall|l: u32| #[trigger] cfg.graph.has(l) implies forall|v: u32| #[trigger] a.holds(blocks@[l].exit, v) == p.live(v, l, p.blk(l).len() as int) by {
      assert forall|v: u32| #[trigger] a.holds(blocks@[l].exit, v) == p.live(v, l, p.blk(l).len() as int) by {
        if p.live(v, l, p.blk(l).len() as int) {
          let n = choose|n: nat| #[trigger] p.live_n(n, v, l, p.blk(l).len() as int);
          solved(a, p, x, blocks@, visited@, n, v, l, p.blk(l).len() as int);
        }
      }
      assert(node(p, x, l));
    }
  }
@*/
impl LivenessAnalysis {
/*@fn optimize-js/src/analysis/dataflow.rs :: DataFlowAnalysis::analyze
#ret r
#sig `&mut self,` => `&mut self, Ghost(p): Ghost<Prog>,`
#sig `where Self: Sized,` => ``
#sig `DataFlowResult<Self::State>` => `DataFlowResult<BitSet>`
#rewrite `run_dataflow(self,` => `run_dataflow(self, Ghost(p),`
#spec
  requires old(self).set_for(p), p.cfg == *cfg, boundary is VirtualExit,
  ensures *final(self) == *old(self), found(*final(self), p, r.blocks@),
@*/
}
/*@fn optimize-js/src/analysis/liveness.rs :: calculate_live_ins
#ret r
#sig `cfg: &Cfg,` => `cfg: &Cfg, Ghost(p): Ghost<Prog>,`
#rewrite `LivenessAnalysis::new(cfg,` => `LivenessAnalysis::new(cfg, Ghost(p),`
#rewrite `analysis.analyze(cfg,` => `analysis.analyze(Ghost(p), cfg,`
#rewrite `|b| b.exit.clone()` => `|b: &BlockState<BitSet>| -> (o: BitSet) ensures o == b.exit { bits_clone(&b.exit) }`
#rewrite `|| analysis.bottom(cfg)` => `|| -> (o: BitSet) ensures true { analysis.bottom(cfg) }`
#rewrite `analysis.apply_to_instruction(` => `analysis.apply_to_instruction(Ghost(p), `
#rewrite `let mut live_ins = HashMap::default();` => `let mut live_ins = HashMap::<Loc, HashSet<u32>>::default();`
#spec
  requires p.ok(), p.cfg == *cfg, p.inl == inlines@, p.gone == inlined_vars@,
  // exactly the instructions that stay where they are, each with what is live before it
  ensures forall|s: Loc| #[trigger] r@.contains_key(s) == (cfg.graph.has(s.0) && kept(p, s)),
    forall|s: Loc| #[trigger] r@.contains_key(s) ==> right(p, s, r@[s]@),
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), lists(ix_s@, cfg.graph.0.nodes@.dom()), analysis.set_for(p), p.cfg == *cfg, found(analysis, p, result.blocks@),
    forall|s: Loc| #[trigger] live_ins@.contains_key(s) == (done(ix_s@, ix as int, s.0) && kept(p, s)),
    forall|s: Loc| #[trigger] live_ins@.contains_key(s) ==> right(p, s, live_ins@[s]@),
  decreases ix_s@.len() - ix,
#at enter `for label in`
  let ghost m0 = live_ins@;
  proof {
    done_step(ix_s@, ix as int - 1, cfg.graph.0.nodes@.dom()); assert(cfg.graph.has(label));
    p.blk_len(label);
    assert(!done(ix_s@, ix as int - 1, label)) by { if done(ix_s@, ix as int - 1, label) { let j = choose|j: int| 0 <= j < ix - 1 && #[trigger] ix_s@[j] == label; assert(ix_s@[j] == ix_s@[ix as int - 1]); } }
  }
#loop 1 while=jx
  invariant
    0 < ix <= ix_s@.len(), cfg.graph.has(label), jx <= jx_s@.len(), jx_s@ == p.blk(label), analysis.set_for(p), p.cfg == *cfg, found(analysis, p, result.blocks@), analysis.fits(state),
    jx_s@.len() <= usize::MAX,
    forall|v: u32| #[trigger] analysis.holds(state, v) == p.live(v, label, jx as int),
    forall|s: Loc| #[trigger] live_ins@.contains_key(s) == (kept(p, s) && if s.0 == label { s.1 >= jx } else { done(ix_s@, ix - 1, s.0) }),
    forall|s: Loc| #[trigger] live_ins@.contains_key(s) ==> right(p, s, live_ins@[s]@),
  decreases jx,
#at enter `for (inst_idx, inst) in`
  proof {
    assert forall|v: u32| p.step(label, jx as int, v, #[trigger] analysis.holds(state, v)) == p.live(v, label, jx as int) by { live_step(p, v, label, jx as int); }
  }
#tail r
  proof {
    done_all(ix_s@, cfg.graph.0.nodes@.dom());
    assert forall|s: Loc| #[trigger] r@.contains_key(s) == (cfg.graph.has(s.0) && kept(p, s)) by { assert(cfg.graph.0.nodes@.dom().contains(s.0) == done(ix_s@, ix_s@.len() as int, s.0)); }
  }
@*/
fn main() {}
}
