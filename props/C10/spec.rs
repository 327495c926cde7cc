use vstd::prelude::*;
verus! {
/*@include coll.rs@*/
/*@include graph.rs@*/
/*@include graph2.rs@*/
/*@include cfggraph.rs@*/
impl CfgGraph {
/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::connect
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) || a == parent || a == child),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) || (a == parent && b == child)),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::disconnect
#spec
  requires old(self).wf(), old(self).has(parent), old(self).has(child),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == old(self).has(a),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) && !(a == parent && b == child)),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::pop
#spec
  requires old(self).wf(), old(self).has(bblock),
    forall|a: u32| !#[trigger] old(self).edge(a, bblock), forall|a: u32| !#[trigger] old(self).edge(bblock, a),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) && a != bblock),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == old(self).edge(a, b),
#entry
  proof {
    assert forall|a: u32| !#[trigger] self.0.edge(a, bblock) by { assert(!self.edge(a, bblock)); }
    assert forall|a: u32| !#[trigger] self.0.edge(bblock, a) by { assert(!self.edge(bblock, a)); }
  }
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::find_unreachable
#ret r
#sig `impl Iterator<Item = u32> + '_` => `Vec<u32>`
#rewrite `HashSet::from_iter([entry])` => `HashSet::one(entry)`
#rewrite `VecDeque::from([entry])` => `VecDeque::one(entry)`
#rewrite `unreachable.retain(|n| !seen.contains(n));` => `let unreachable = retain_unseen(unreachable, &seen);`
#rewrite `unreachable.into_iter()` => `unreachable`
#spec
  requires self.wf(),
  ensures r@.no_duplicates(), ascending(r@),
    forall|x: u32| #[trigger] r@.contains(x) <==> self.has(x) && !reach(self.arcs(false), entry, x),
#entry
  let ghost e = self.arcs(false);
  proof { reach_refl(e, entry); }
#at before `while let Some(n)`
  proof { assert(to_visit@[0] == entry); assert(to_visit@.contains(entry)); }
#loop 0
  invariant
    self.wf(), e == self.arcs(false), seen@.contains(entry),
    forall|x: u32| #[trigger] seen@.contains(x) ==> reach(e, entry, x),
    forall|i: int| 0 <= i < to_visit@.len() ==> seen@.contains(#[trigger] to_visit@[i]),
    forall|x: u32, y: u32| seen@.contains(x) && #[trigger] e(x, y) ==> seen@.contains(y) || to_visit@.contains(x),
  ensures to_visit@.len() == 0,
  decreases self.0.nodes@.dom().difference(seen@).len() + to_visit@.len(),
#at afterblock `for c in self.children_sorted(n)`
  proof {
    assert forall|x: u32, y: u32| seen@.contains(x) && #[trigger] e(x, y) implies seen@.contains(y) || to_visit@.contains(x) by {
      if x == n { assert(self.edge(n, y)); assert(ix_s@.contains(y)); }
    }
  }
#at before `for c in self.children_sorted(n)`
  let ghost q0 = to_visit@;
  let ghost seen0 = seen@;
#loop 1 while=ix list=self_
  invariant
    self.wf(), e == self.arcs(false), seen@.contains(entry), ix <= ix_s@.len(), reach(e, entry, n), seen@.contains(n),
    forall|x: u32| #[trigger] ix_s@.contains(x) <==> self.edge(n, x),
    forall|x: u32| #[trigger] seen@.contains(x) ==> reach(e, entry, x),
    forall|i: int| 0 <= i < to_visit@.len() ==> seen@.contains(#[trigger] to_visit@[i]),
    forall|k: int| 0 <= k < ix ==> seen@.contains(#[trigger] ix_s@[k]),
    forall|x: u32, y: u32| seen@.contains(x) && #[trigger] e(x, y) ==> seen@.contains(y) || to_visit@.contains(x) || x == n,
    self.0.nodes@.dom().difference(seen@).len() + to_visit@.len() <= self.0.nodes@.dom().difference(seen0).len() + q0.len(),
  decreases ix_s@.len() - ix,
#at before `if !seen.contains(&c)`
  proof {
    assert(ix_s@.contains(c)); assert(self.edge(n, c)); assert(e(n, c)); reach_step(e, entry, n, c);
    assert(self.0.back(n, c));
    count_down(&self.0, seen@, c);
  }
  let ghost q1 = to_visit@;
#at exit `if !seen.contains(&c)`
  proof {
    assert(to_visit@ =~= q1.push(c)); assert(to_visit@[q1.len() as int] == c);
    assert forall|x: u32| q1.contains(x) implies #[trigger] to_visit@.contains(x) by { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == x; assert(to_visit@[i] == x); }
    assert(to_visit@.contains(c));
  }
#at before `let mut unreachable`
  proof {
    assert(to_visit@.len() == 0);
    assert forall|x: u32, y: u32| seen@.contains(x) && #[trigger] e(x, y) implies seen@.contains(y) by { assert(!to_visit@.contains(x)); }
    assert forall|x: u32| #[trigger] seen@.contains(x) == reach(e, entry, x) by {
      if reach(e, entry, x) { closed_reach(e, seen@, entry, x); }
    }
  }
@*/
}
impl CfgGraph {
/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::delete_many
#sig `impl IntoIterator<Item = u32>` => `Vec<u32>`
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), ix_s@ == ls, self.wf(), g0.wf(), ls.no_duplicates(),
    forall|k: int| 0 <= k < ls.len() ==> g0.has(#[trigger] ls[k]),
    forall|a: u32| #[trigger] self.has(a) == (g0.has(a) && !done(ls, ix as int, a)),
    forall|a: u32, b: u32| #[trigger] self.edge(a, b) ==> g0.edge(a, b) || first_hop(g0, a, ls),
    forall|a: u32, b: u32| #[trigger] self.edge(a, b) ==> reach(g0.arcs(false), a, b),
    forall|a: u32, b: u32| #[trigger] g0.edge(a, b) && !done(ls, ix as int, a) && !done(ls, ix as int, b) ==> self.edge(a, b),
    forall|a: u32, b: u32| !done(ls, ix as int, a) && !done(ls, ix as int, b) && #[trigger] reach(g0.arcs(false), a, b) ==> reach(self.arcs(false), a, b),
  decreases ix_s@.len() - ix,
#entry
  let ghost g0 = *self;
  let ghost ls = bblocks@;
  proof {
    assert forall|a: u32, b: u32| #[trigger] self.edge(a, b) implies reach(g0.arcs(false), a, b) by {
      reach_refl(g0.arcs(false), a); reach_step(g0.arcs(false), a, a, b);
    }
  }
#at before `self.0.contract`
  let ghost g1 = *self;
  proof {
    let k = ix as int - 1;
    assert(ls[k] == bblock);
    assert(!done(ls, k, bblock)) by { if done(ls, k, bblock) { let j = choose|j: int| 0 <= j < k && #[trigger] ls[j] == bblock; assert(ls[j] == ls[k]); } }
    assert(self.has(bblock));
  }
#at after `self.0.contract`
  proof {
    let k = ix as int - 1;
    assert forall|x: u32| #[trigger] done(ls, k + 1, x) == (done(ls, k, x) || x == bblock) by {
      if done(ls, k, x) { let j = choose|j: int| 0 <= j < k && #[trigger] ls[j] == x; assert(ls[j] == x && j < k + 1); }
      if x == bblock { assert(ls[k] == x); }
    }
    assert forall|a: u32, b: u32| #[trigger] self.edge(a, b) == (a != bblock && b != bblock && (g1.edge(a, b) || (g1.edge(a, bblock) && g1.edge(bblock, b)))) by {
      assert(self.0.edge(a, b) == self.edge(a, b)); assert(g1.0.edge(a, b) == g1.edge(a, b));
      assert(g1.0.edge(a, bblock) == g1.edge(a, bblock)); assert(g1.0.edge(bblock, b) == g1.edge(bblock, b));
    }
    assert forall|a: u32| #[trigger] self.has(a) == (g0.has(a) && !done(ls, ix as int, a)) by { assert(self.0.has(a) == (g1.0.has(a) && a != bblock)); assert(g1.has(a) == g1.0.has(a)); }
    assert forall|a: u32, b: u32| #[trigger] self.edge(a, b) implies reach(g0.arcs(false), a, b) by {
      if !g1.edge(a, b) { reach_trans(g0.arcs(false), a, bblock, b); }
    }
    assert forall|a: u32, b: u32| #[trigger] self.edge(a, b) implies g0.edge(a, b) || first_hop(g0, a, ls) by {
      if !g1.edge(a, b) && !first_hop(g0, a, ls) { assert(g0.edge(a, ls[k])); }
    }
    assert forall|a: u32, b: u32| !done(ls, ix as int, a) && !done(ls, ix as int, b) && #[trigger] reach(g0.arcs(false), a, b) implies reach(self.arcs(false), a, b) by {
      contract_reach(g1, *self, bblock, a, b);
    }
  }
#spec
  requires old(self).wf(), bblocks@.no_duplicates(),
    forall|k: int| 0 <= k < bblocks@.len() ==> old(self).has(#[trigger] bblocks@[k]),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) && !bblocks@.contains(a)),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) ==> old(self).edge(a, b) || first_hop(*old(self), a, bblocks@),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) ==> reach(old(self).arcs(false), a, b),
    forall|a: u32, b: u32| #[trigger] old(self).edge(a, b) && !bblocks@.contains(a) && !bblocks@.contains(b) ==> final(self).edge(a, b),
    forall|a: u32, b: u32| !bblocks@.contains(a) && !bblocks@.contains(b) ==> #[trigger] reach(final(self).arcs(false), a, b) == reach(old(self).arcs(false), a, b),
#end
  proof {
    assert forall|a: u32| #[trigger] ls.contains(a) == done(ls, ls.len() as int, a) by {
      if ls.contains(a) { let j = choose|j: int| 0 <= j < ls.len() && ls[j] == a; assert(ls[j] == a); }
    }
    assert forall|a: u32, b: u32| #[trigger] reach(self.arcs(false), a, b) implies reach(g0.arcs(false), a, b) by {
      sub_reach(*self, g0, a, b);
    }
  }
@*/
}
/// `a` has an old arc to a deleted label
spec fn first_hop(g: CfgGraph, a: u32, ls: Seq<u32>) -> bool { exists|j: int| 0 <= j < ls.len() && g.edge(a, #[trigger] ls[j]) }
/// arcs of `g1` are walks of `g0`, so walks of `g1` are too
proof fn sub_reach(g1: CfgGraph, g0: CfgGraph, a: u32, b: u32)
  requires reach(g1.arcs(false), a, b), forall|x: u32, y: u32| #[trigger] g1.edge(x, y) ==> reach(g0.arcs(false), x, y),
  ensures reach(g0.arcs(false), a, b),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(g1.arcs(false), p, a, b);
  sub_walk(g1, g0, a, b, p);
}
proof fn sub_walk(g1: CfgGraph, g0: CfgGraph, a: u32, b: u32, p: Seq<u32>)
  requires walk(g1.arcs(false), p, a, b), forall|x: u32, y: u32| #[trigger] g1.edge(x, y) ==> reach(g0.arcs(false), x, y),
  ensures reach(g0.arcs(false), a, b),
  decreases p.len(),
{
  if p.len() > 1 {
    let q = p.drop_last();
    let e = g1.arcs(false);
    assert(walk(e, q, a, q.last()));
    sub_walk(g1, g0, a, q.last(), q);
    assert(e(p[p.len() - 2], p[p.len() - 1]));
    assert(g1.edge(q.last(), b));
    reach_trans(g0.arcs(false), a, q.last(), b);
  } else { reach_refl(g0.arcs(false), a); }
}
/// Contracting `n` away keeps reachability between the rest.
proof fn contract_reach(g1: CfgGraph, g2: CfgGraph, n: u32, a: u32, b: u32)
  requires reach(g1.arcs(false), a, b), a != n, b != n,
    forall|x: u32, y: u32| #[trigger] g2.edge(x, y) == (x != n && y != n && (g1.edge(x, y) || (g1.edge(x, n) && g1.edge(n, y)))),
  ensures reach(g2.arcs(false), a, b),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(g1.arcs(false), p, a, b);
  contract_walk(g1, g2, n, a, b, p);
}
spec fn at_gate(g1: CfgGraph, g2: CfgGraph, n: u32, a: u32) -> bool { exists|x: u32| x != n && reach(g2.arcs(false), a, x) && #[trigger] g1.edge(x, n) }
proof fn contract_walk(g1: CfgGraph, g2: CfgGraph, n: u32, a: u32, b: u32, p: Seq<u32>)
  requires walk(g1.arcs(false), p, a, b), a != n,
    forall|x: u32, y: u32| #[trigger] g2.edge(x, y) == (x != n && y != n && (g1.edge(x, y) || (g1.edge(x, n) && g1.edge(n, y)))),
  ensures b != n ==> reach(g2.arcs(false), a, b), b == n ==> at_gate(g1, g2, n, a),
  decreases p.len(),
{
  let e = g1.arcs(false);
  let f = g2.arcs(false);
  if p.len() > 1 {
    let q = p.drop_last();
    let m = q.last();
    assert(walk(e, q, a, m));
    contract_walk(g1, g2, n, a, m, q);
    assert(e(p[p.len() - 2], p[p.len() - 1]));
    assert(g1.edge(m, b));
    if m == n {
      let x = choose|x: u32| x != n && reach(f, a, x) && #[trigger] g1.edge(x, n);
      if b != n { assert(g2.edge(x, b)); assert(f(x, b)); reach_step(f, a, x, b); }
    } else if b != n {
      assert(g2.edge(m, b)); assert(f(m, b)); reach_step(f, a, m, b);
    }
  } else { reach_refl(f, a); }
}
// ---- instructions and blocks ----
#[verifier::external_body]
struct Arg { a: u8 }
impl Clone for Arg {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
/*@type optimize-js/src/il/inst.rs :: InstTyp
@*/
/*@type optimize-js/src/il/inst.rs :: BinOp
@*/
/*@type optimize-js/src/il/inst.rs :: UnOp
@*/
#[verifier::external_body]
struct SymbolId { s: u8 }
/*@type optimize-js/src/il/inst.rs :: Inst
@*/
/*@type optimize-js/src/cfg/cfg.rs :: Terminator
@*/
/*@type optimize-js/src/cfg/cfg.rs :: CfgBBlocks
@*/
/*@type optimize-js/src/cfg/cfg.rs :: Cfg
@*/
/*@const optimize-js/src/il/s2i/mod.rs :: DUMMY_LABEL
@*/
impl Inst {
/*@fn optimize-js/src/il/inst.rs :: Inst::as_cond_goto
#ret r
#rewrite `assert_eq!(self.t, InstTyp::CondGoto)` => `assert!(self.t == InstTyp::CondGoto)`
#spec
  requires self.t == InstTyp::CondGoto, self.args@.len() >= 1, self.labels@.len() >= 2,
  ensures *r.0 == self.args@[0], r.1 == self.labels@[0], r.2 == self.labels@[1],
@*/
}
impl CfgBBlocks {
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::get
#ret r
#spec
  requires self.0@.contains_key(label),
  ensures *r == self.0@[label],
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::maybe_get
#ret r
#spec
  ensures match r { Some(b) => self.0@.contains_key(label) && *b == self.0@[label], None => !self.0@.contains_key(label) },
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::get_mut
#ret r
#spec
  requires old(self).0@.contains_key(label),
  ensures *r == old(self).0@[label], final(self).0@ == old(self).0@.insert(label, *final(r)),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::add
#spec
  requires !old(self).0@.contains_key(label),
  ensures final(self).0@ == old(self).0@.insert(label, bblock),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::remove
#ret r
#spec
  requires old(self).0@.contains_key(label),
  ensures r == old(self).0@[label], final(self).0@ == old(self).0@.remove(label),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::remove_many
#ret r
#sig `impl IntoIterator<Item = u32>` => `Vec<u32>`
#rewrite `labels.into_iter().map(|label| self.remove(label)).collect()` => `self.remove_each(labels)`
#spec
  requires labels@.no_duplicates(), forall|k: int| 0 <= k < labels@.len() ==> old(self).0@.contains_key(#[trigger] labels@[k]),
  ensures final(self).0@ =~= old(self).0@.remove_keys(labels@.to_set()),
@*/
  /// `labels.into_iter().map(|label| self.remove(label)).collect()`, as the loop it stands for
  fn remove_each(&mut self, labels: Vec<u32>) -> (r: Vec<Vec<Inst>>)
    requires labels@.no_duplicates(), forall|k: int| 0 <= k < labels@.len() ==> old(self).0@.contains_key(#[trigger] labels@[k]),
    ensures final(self).0@ =~= old(self).0@.remove_keys(labels@.to_set()),
  {
    let mut out = Vec::new();
    let ghost m0 = self.0@;
    let mut i = 0;
    while i < labels.len()
      invariant i <= labels@.len(), labels@.no_duplicates(), self.0@ =~= m0.remove_keys(labels@.take(i as int).to_set()),
        forall|k: int| 0 <= k < labels@.len() ==> m0.contains_key(#[trigger] labels@[k]),
      decreases labels@.len() - i,
    {
      proof {
        let t = labels@.take(i as int);
        assert(labels@.take(i + 1) =~= t.push(labels@[i as int]));
        assert(!t.contains(labels@[i as int])) by { if t.contains(labels@[i as int]) { let j = choose|j: int| 0 <= j < i && t[j] == labels@[i as int]; assert(labels@[j] == labels@[i as int]); } }
        assert forall|x: u32| #[trigger] labels@.take(i + 1).to_set().contains(x) == (t.to_set().contains(x) || x == labels@[i as int]) by {
          if t.contains(x) { let j = choose|j: int| 0 <= j < i && t[j] == x; assert(labels@.take(i + 1)[j] == x); }
          if x == labels@[i as int] { assert(labels@.take(i + 1)[i as int] == x); }
        }
      }
      let b = self.remove(labels[i]);
      out.push(b);
      i += 1;
    }
    proof { assert(labels@.take(i as int) =~= labels@); }
    out
  }
}
impl Cfg {
  /// graph and blocks agree: every label of the graph has a block
  spec fn wf(self) -> bool {
    &&& self.graph.wf()
    &&& forall|a: u32| #[trigger] self.graph.has(a) ==> self.bblocks.0@.contains_key(a)
  }
/*@fn optimize-js/src/cfg/cfg.rs :: Cfg::pop
#ret r
#spec
  requires old(self).wf(), old(self).bblocks.0@.contains_key(label),
    forall|a: u32| !#[trigger] old(self).graph.edge(a, label), forall|a: u32| !#[trigger] old(self).graph.edge(label, a),
  ensures
    final(self).wf(), r == old(self).bblocks.0@[label], final(self).bblocks.0@ == old(self).bblocks.0@.remove(label), final(self).entry == old(self).entry,
    forall|a: u32| #[trigger] final(self).graph.has(a) == (old(self).graph.has(a) && a != label),
    forall|a: u32, b: u32| #[trigger] final(self).graph.edge(a, b) == old(self).graph.edge(a, b),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: Cfg::find_and_pop_unreachable
#ret r
#rewrite `.collect_vec()` => ``
#rewrite `to_delete.iter().cloned()` => `to_delete.clone()`
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(), final(self).entry == old(self).entry, ascending(r@), r@.no_duplicates(),
    // exactly the unreachable labels go
    forall|x: u32| #[trigger] r@.contains(x) <==> old(self).graph.has(x) && !reach(old(self).graph.arcs(false), old(self).entry, x),
    forall|x: u32| #[trigger] final(self).graph.has(x) == (old(self).graph.has(x) && reach(old(self).graph.arcs(false), old(self).entry, x)),
    forall|a: u32, b: u32| #[trigger] final(self).graph.edge(a, b) == (old(self).graph.edge(a, b) && reach(old(self).graph.arcs(false), old(self).entry, a)),
    final(self).bblocks.0@ =~= old(self).bblocks.0@.remove_keys(r@.to_set()),
#entry
  let ghost g0 = self.graph;
  let ghost m0 = self.bblocks.0@;
  let ghost root = self.entry;
  let ghost e = g0.arcs(false);
#at before `self.graph.delete_many`
  proof {
    assert forall|k: int| 0 <= k < to_delete@.len() implies g0.has(#[trigger] to_delete@[k]) by { assert(to_delete@.contains(to_delete@[k])); }
    assert forall|k: int| 0 <= k < to_delete@.len() implies m0.contains_key(#[trigger] to_delete@[k]) by { assert(g0.has(to_delete@[k])); }
  }
#at after `self.bblocks.remove_many`
  proof {
    let ls = to_delete@;
    assert forall|a: u32, b: u32| #[trigger] self.graph.edge(a, b) == (g0.edge(a, b) && reach(e, root, a)) by {
      if self.graph.edge(a, b) {
        assert(self.graph.0.nodes@.contains_key(a)); assert(self.graph.has(a));
        assert(!ls.contains(a)); assert(reach(e, root, a));
        if first_hop(g0, a, ls) {
          let j = choose|j: int| 0 <= j < ls.len() && g0.edge(a, #[trigger] ls[j]);
          assert(e(a, ls[j])); reach_step(e, root, a, ls[j]); assert(ls.contains(ls[j]));
        }
      }
      if g0.edge(a, b) && reach(e, root, a) { assert(e(a, b)); reach_step(e, root, a, b); assert(!ls.contains(a)); assert(!ls.contains(b)); }
    }
    assert forall|a: u32| #[trigger] self.graph.has(a) implies self.bblocks.0@.contains_key(a) by { assert(g0.has(a)); assert(!ls.to_set().contains(a)); }
  }
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: Cfg::reverse_postorder
#ret r
#rewrite `postorder.into_iter().rev().collect()` => `reversed(postorder)`
#spec
  requires self.wf(),
  ensures is_postorder(self.graph.arcs(false), self.entry, r@.reverse()),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: Cfg::terminator
#ret r
#at before `match children.len()`
  proof {
    assert forall|b: u32| #[trigger] self.graph.edge(label, b) == children@.contains(b) by { assert(children@.contains(b) <==> self.graph.edge(label, b)); }
    if children@.len() == 1 { assert forall|b: u32| #[trigger] children@.contains(b) == (b == children@[0]) by { assert(children@[0] == children@[0]); } }
  }
#rewrite `self.bblocks.get(label).last()` => `last_inst(self.bblocks.get(label))`
#spec
  requires self.wf(), self.bblocks.0@.contains_key(label),
    is_cond(self.bblocks.0@[label]@) ==> self.bblocks.0@[label]@.last().args@.len() >= 1 && self.bblocks.0@[label]@.last().labels@.len() >= 2,
  ensures
    is_cond(self.bblocks.0@[label]@) ==> r == (Terminator::CondGoto {
      cond: self.bblocks.0@[label]@.last().args@[0], t: self.bblocks.0@[label]@.last().labels@[0], f: self.bblocks.0@[label]@.last().labels@[1] }),
    !is_cond(self.bblocks.0@[label]@) ==> match r {
      Terminator::Stop => forall|b: u32| !#[trigger] self.graph.edge(label, b),
      Terminator::Goto(t) => forall|b: u32| #[trigger] self.graph.edge(label, b) == (b == t),
      Terminator::Multi { targets } => targets@.len() >= 2 && targets@.no_duplicates() && ascending(targets@) && forall|b: u32| #[trigger] self.graph.edge(label, b) == targets@.contains(b),
      Terminator::CondGoto { .. } => false,
    },
@*/
}
/// the labels control can go to from the `i`-th block `b` of `n` in the order `ord`
spec fn resolve(l: u32, ord: Seq<u32>, i: int) -> u32 { if l == DUMMY_LABEL { ord[i + 1] } else { l } }
spec fn is_goto(b: Seq<Inst>) -> bool { b.len() > 0 && b.last().t == InstTyp::_Goto }
spec fn goes(b: Seq<Inst>, ord: Seq<u32>, n: int, i: int, to: u32) -> bool {
  if is_goto(b) { to == b.last().labels@[0] }
  else if is_cond(b) { cond_goes(b.last().labels@, ord, i, b.last().labels@.len() as int, to) }
  else { i + 1 < n && to == ord[i + 1] }
}
spec fn cond_goes(ls: Seq<u32>, ord: Seq<u32>, i: int, upto: int, to: u32) -> bool { exists|k: int| 0 <= k < upto && to == resolve(#[trigger] ls[k], ord, i) }
spec fn well_ended(b: Seq<Inst>, n: int, i: int) -> bool {
  &&& is_goto(b) ==> b.last().labels@.len() >= 1
  &&& is_cond(b) ==> i + 1 < n || forall|k: int| 0 <= k < b.last().labels@.len() ==> #[trigger] b.last().labels@[k] != DUMMY_LABEL
}
/// what is left of a block: its `_Goto` dropped, a fallthrough label named
spec fn settled(b: Seq<Inst>, ord: Seq<u32>, i: int, c: Seq<Inst>) -> bool {
  if is_goto(b) { c == b.drop_last() }
  else if is_cond(b) { c.len() == b.len() && c.drop_last() =~= b.drop_last() && settled_cond(b.last(), c.last(), ord, i) }
  else { c == b }
}
spec fn settled_cond(x: Inst, y: Inst, ord: Seq<u32>, i: int) -> bool {
  &&& y == Inst { labels: y.labels, ..x }
  &&& y.labels@.len() == x.labels@.len()
  &&& forall|k: int| 0 <= k < x.labels@.len() ==> #[trigger] y.labels@[k] == resolve(x.labels@[k], ord, i)
}
spec fn covered(ord: Seq<u32>, m: Map<u32, Vec<Inst>>) -> bool {
  &&& ord.no_duplicates() && ord.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < ord.len() ==> m.contains_key(#[trigger] ord[i])
}
spec fn comes_from(m: Map<u32, Vec<Inst>>, ord: Seq<u32>, n: int, upto: int, a: u32, b: u32) -> bool {
  exists|j: int| 0 <= j < upto && #[trigger] ord[j] == a && goes(m[a]@, ord, n, j, b)
}
proof fn comes_step(m: Map<u32, Vec<Inst>>, ord: Seq<u32>, n: int, i: int, a: u32, b: u32)
  ensures comes_from(m, ord, n, i + 1, a, b) == (comes_from(m, ord, n, i, a, b) || (i >= 0 && a == ord[i] && goes(m[a]@, ord, n, i, b))),
{
  if comes_from(m, ord, n, i, a, b) { let j = choose|j: int| 0 <= j < i && #[trigger] ord[j] == a && goes(m[a]@, ord, n, j, b); assert(ord[j] == a && j < i + 1); }
}
impl Cfg {
/*@fn optimize-js/src/cfg/cfg.rs :: Cfg::from_bblocks
#ret r
#rewrite `bblocks[&parent].last()` => `last_inst(&bblocks[&parent])`
#rewrite `bblocks.get_mut(&parent).unwrap().last_mut()` => `last_inst_mut(bblocks.get_mut(&parent).unwrap())`
#spec
  requires covered(bblock_order@, bblocks@),
    forall|i: int| 0 <= i < bblock_order@.len() ==> well_ended(bblocks@[#[trigger] bblock_order@[i]]@, bblock_order@.len() as int, i),
  ensures
    r.graph.wf(), r.entry == 0,
    // the arcs are exactly the ways control can go
    forall|a: u32, b: u32| #[trigger] r.graph.edge(a, b) <==> comes_from(bblocks@, bblock_order@, bblock_order@.len() as int, bblock_order@.len() as int, a, b),
    r.bblocks.0@.dom() =~= bblocks@.dom(),
    forall|i: int| 0 <= i < bblock_order@.len() ==> settled(bblocks@[bblock_order@[i]]@, bblock_order@, i, r.bblocks.0@[#[trigger] bblock_order@[i]]@),
#entry
  let ghost m0 = bblocks@;
  let ghost ord = bblock_order@;
  let ghost n = ord.len() as int;
#loop 0 while=q
  invariant
    covered(ord, m0), ord == bblock_order@, n == ord.len(), q <= n, q_e == n, graph.wf(), bblocks@.dom() =~= m0.dom(),
    forall|j: int| 0 <= j < n ==> well_ended(m0[#[trigger] ord[j]]@, n, j),
    forall|j: int| q <= j < n ==> bblocks@[#[trigger] ord[j]] == m0[ord[j]],
    forall|j: int| 0 <= j < q ==> settled(m0[ord[j]]@, ord, j, bblocks@[#[trigger] ord[j]]@),
    forall|a: u32, b: u32| #[trigger] graph.edge(a, b) <==> comes_from(m0, ord, n, q as int, a, b),
  decreases n - q,
#at enter `for i in 0..bblocks.len()`
  let ghost g1 = graph;
  let ghost b1 = bblocks@;
  let ghost me = ord[i as int];
  proof {
    assert(m0.contains_key(ord[i as int]));
    assert(bblocks@[ord[i as int]] == m0[ord[i as int]]); assert(well_ended(m0[ord[i as int]]@, n, i as int));
  }
#at exit `for i in 0..bblocks.len()`
  proof {
    assert forall|j: int| 0 <= j < n && j != i implies #[trigger] ord[j] != me by {}
    assert(bblocks@.dom() =~= m0.dom());
    assert forall|j: int| 0 <= j < n && j != i implies bblocks@[#[trigger] ord[j]] == b1[ord[j]] by {}
    let b0 = m0[me]@;
    let c = bblocks@[me]@;
    if is_goto(b0) { assert(c == b0.drop_last()); }
    else if is_cond(b0) { assert(c.len() == b0.len()); assert(c.drop_last() =~= b0.drop_last()); assert(c.last().labels@.len() == b0.last().labels@.len()); assert(settled_cond(b0.last(), c.last(), ord, i as int)); }
    else { assert(c == b0); }
    assert(settled(m0[me]@, ord, i as int, bblocks@[me]@));
    assert forall|a: u32, b: u32| #[trigger] graph.edge(a, b) == (g1.edge(a, b) || (a == me && goes(m0[me]@, ord, n, i as int, b))) by {}
    assert forall|a: u32, b: u32| #[trigger] graph.edge(a, b) <==> comes_from(m0, ord, n, q as int, a, b) by {
      comes_step(m0, ord, n, i as int, a, b);
    }
  }
#loop 1 while=ix
  invariant
    ix <= labels@.len(), 0 <= i < n, n <= usize::MAX, ord == bblock_order@, n == ord.len(), parent == ord[i as int], graph.wf(),
    i + 1 < n || forall|k: int| 0 <= k < l0.len() ==> #[trigger] l0[k] != DUMMY_LABEL,
    labels@.len() == l0.len(),
    forall|k: int| 0 <= k < ix ==> #[trigger] labels@[k] == resolve(l0[k], ord, i as int),
    forall|k: int| ix <= k < l0.len() ==> #[trigger] labels@[k] == l0[k],
    forall|a: u32, b: u32| #[trigger] graph.edge(a, b) == (g1.edge(a, b) || (a == parent && cond_goes(l0, ord, i as int, ix as int, b))),
  decreases labels@.len() - ix,
#at before `for label in labels.iter_mut()`
  let ghost l0 = m0[parent]@.last().labels@;
@*/
}
spec fn is_cond(b: Seq<Inst>) -> bool { b.len() > 0 && b.last().t == InstTyp::CondGoto }
#[verifier::external_body]
fn last_inst(v: &Vec<Inst>) -> (r: Option<&Inst>)
  ensures match r { Some(i) => v@.len() > 0 && *i == v@.last(), None => v@.len() == 0 },
{ unimplemented!() }
#[verifier::external_body]
fn last_inst_mut(v: &mut Vec<Inst>) -> (r: Option<&mut Inst>)
  ensures match r { Some(i) => old(v)@.len() > 0 && *i == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(i)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ },
{ unimplemented!() }
/// `v.into_iter().rev().collect()`
#[verifier::external_body]
fn reversed(v: Vec<u32>) -> (r: Vec<u32>)
  ensures r@ == v@.reverse(), r@.reverse() == v@,
{ unimplemented!() }
/// `v.retain(|n| !seen.contains(n))`
#[verifier::external_body]
fn retain_unseen(v: Vec<u32>, seen: &HashSet<u32>) -> (r: Vec<u32>)
  ensures r@ == v@.filter(|n: u32| !seen@.contains(n)),
    v@.no_duplicates() ==> r@.no_duplicates(), ascending(v@) ==> ascending(r@),
    forall|x: u32| #[trigger] r@.contains(x) <==> v@.contains(x) && !seen@.contains(x),
{ unimplemented!() }
proof fn count_down(g: &Graph, seen: Set<u32>, c: u32)
  requires g.has(c),
  ensures !seen.contains(c) ==> g.nodes@.dom().difference(seen.insert(c)).len() + 1 == g.nodes@.dom().difference(seen).len(),
{
  g.nodes.finite();
  let a = g.nodes@.dom().difference(seen);
  if !seen.contains(c) { assert(a.contains(c)); assert(g.nodes@.dom().difference(seen.insert(c)) =~= a.remove(c)); }
}
fn main() {}
}
