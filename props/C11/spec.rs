use vstd::prelude::*;
verus! {
/*@include coll.rs@*/
/*@include graph.rs@*/
/*@include graph2.rs@*/
/*@include cfggraph.rs@*/
/*@include dom.rs@*/
/*@include sink.rs@*/
// ---- trusted readings of iterator chains ----
impl HashSet<u32> {
  /// `HashSet::from_iter(v.iter().copied())`
  #[verifier::external_body]
  fn from_list(v: &[u32]) -> (r: Self) ensures forall|k: u32| #[trigger] r@.contains(k) == v@.contains(k) { unimplemented!() }
  /// `s.extend(v)`
  #[verifier::external_body]
  fn extend(&mut self, v: Vec<u32>) ensures forall|k: u32| #[trigger] final(self)@.contains(k) == (old(self)@.contains(k) || v@.contains(k)) { unimplemented!() }
}
/// `v.iter().rev().filter(|b| **b != e)`
#[verifier::external_body]
fn rev_without(v: &Vec<u32>, e: u32) -> (r: Vec<u32>)
  ensures v@.no_duplicates() && v@.len() > 0 && v@.last() == e ==> r@ == v@.drop_last().reverse()
{ unimplemented!() }
/// `v.iter().rev()`
#[verifier::external_body]
fn rev_list(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@.reverse() { unimplemented!() }
/// `v.iter().find(|n| m.contains_key(n)).cloned()`
#[verifier::external_body]
fn find_key(v: &Vec<u32>, m: &HashMap<u32, u32>) -> (r: Option<u32>)
  ensures match r { Some(x) => v@.contains(x) && m@.contains_key(x), None => forall|x: u32| #[trigger] v@.contains(x) ==> !m@.contains_key(x) }
{ unimplemented!() }
/// `v.iter().filter(|&&p| p != s)`
#[verifier::external_body]
fn without(v: &Vec<u32>, s: u32) -> (r: Vec<u32>)
  ensures forall|x: u32| #[trigger] r@.contains(x) == (v@.contains(x) && x != s)
{ unimplemented!() }
/// `Option<&T>::copied`
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None });
/// `m.get(&b) != Some(&v)`
fn not_mapped(m: &HashMap<u32, u32>, b: &u32, v: &u32) -> (r: bool)
  ensures r == !(m@.contains_key(*b) && m@[*b] == *v)
{ match m.get(b) { Some(x) => *x != *v, None => true } }
/// derived `Clone`
#[verifier::external_body]
fn graph_clone(g: &Graph) -> (r: Graph) ensures r.nodes@ == g.nodes@ { unimplemented!() }
struct CfgBBlocks { b: u8 }
/*@type optimize-js/src/cfg/cfg.rs :: Cfg
@*/
/*@type optimize-js/src/dom/mod.rs :: DominatesGraph
@*/
/*@type optimize-js/src/dom/mod.rs :: DominatedByGraph
@*/
/*@type optimize-js/src/dom/mod.rs :: Dom
#rewrite `const POST: bool = false` => `const POST: bool`
@*/
impl DominatesGraph {
/*@fn optimize-js/src/dom/mod.rs :: DominatesGraph::dominates
#ret r
#rewrite `self.0.get(&a).is_some_and(|s| s.contains(&b))` => `has_pair(&self.0, a, b)`
#spec
  ensures r == (self.0@.contains_key(a) && self.0@[a]@.contains(b)),
@*/
}
impl DominatedByGraph {
/*@fn optimize-js/src/dom/mod.rs :: DominatedByGraph::dominated_by
#ret r
#rewrite `self.0.get(&a).is_some_and(|s| s.contains(&b))` => `has_pair(&self.0, a, b)`
#spec
  ensures r == (self.0@.contains_key(a) && self.0@[a]@.contains(b)),
@*/
}
/// `m.get(&a).is_some_and(|s| s.contains(&b))`
fn has_pair(m: &HashMap<u32, HashSet<u32>>, a: u32, b: u32) -> (r: bool)
  ensures r == (m@.contains_key(a) && m@[a]@.contains(b))
{ match m.get(&a) { Some(s) => s.contains(&b), None => false } }

impl<const POST: bool> Dom<POST> {
  spec fn tab(self) -> Tab { Tab { po: self.postorder@, entry: self.entry, m: self.idom_by@ } }
  /// the dominators of the graph `e` from the entry
  spec fn ok(self, e: Arcs) -> bool {
    &&& is_postorder(e, self.entry, self.postorder@)
    &&& self.shape()
    &&& self.tab().over(e) && self.tab().meets(e)
  }
  spec fn shape(self) -> bool {
    &&& self.tab().tree() && self.tab().full()
    &&& forall|b: u32| #[trigger] self.idom_by@.contains_key(b) ==> self.postorder@.contains(b) && b != self.entry
    &&& forall|p: u32, c: u32| #[trigger] tree_arc(self.domtree@, p, c) == (self.idom_by@.contains_key(c) && self.idom_by@[c] == p)
  }
}

/*@fn optimize-js/src/dom/mod.rs :: intersect!
#macro fn intersect(b1: u32, b2: u32, label_to_postorder: &HashMap<u32, usize>, postorder: &Vec<u32>, idom_by: &HashMap<u32, u32>, Ghost(e): Ghost<Arcs>, Ghost(t): Ghost<Tab>) -> (r: u32)
#spec
  requires
    positions(postorder@, label_to_postorder@), t.po == postorder@, t.m == idom_by@, is_postorder(e, t.entry, t.po),
    t.tree(), t.over(e), t.known(b1), t.known(b2), t.po.contains(b1), t.po.contains(b2),
  ensures
    t.known(r), t.po.contains(r), t.anc(r, b1), t.anc(r, b2), t.ix(r) >= t.ix(b1), t.ix(r) >= t.ix(b2),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, r),
#loop 0
  invariant
    finger1 < t.po.len(), finger2 < t.po.len(),
    finger1 as int >= t.ix(b1), finger2 as int >= t.ix(b2),
    t.anc(postorder@[finger1 as int], b1), t.anc(postorder@[finger2 as int], b2),
    t.known(postorder@[finger1 as int]), t.known(postorder@[finger2 as int]),
    positions(postorder@, label_to_postorder@), t.po == postorder@, t.m == idom_by@, is_postorder(e, t.entry, t.po),
    t.tree(), t.over(e),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, postorder@[finger1 as int]) && domn(e, t.entry, x, postorder@[finger2 as int]),
  decreases 2 * t.po.len() - finger1 - finger2,
#loop 1
  invariant
    finger1 < t.po.len(), finger2 < t.po.len(),
    finger1 as int >= t.ix(b1), finger2 as int >= t.ix(b2),
    t.anc(postorder@[finger1 as int], b1), t.anc(postorder@[finger2 as int], b2),
    t.known(postorder@[finger1 as int]), t.known(postorder@[finger2 as int]),
    positions(postorder@, label_to_postorder@), t.po == postorder@, t.m == idom_by@, is_postorder(e, t.entry, t.po),
    t.tree(), t.over(e),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, postorder@[finger1 as int]) && domn(e, t.entry, x, postorder@[finger2 as int]),
    finger1 + finger2 >= f0,
  decreases 2 * t.po.len() - finger1 - finger2,
#loop 2
  invariant
    finger1 < t.po.len(), finger2 < t.po.len(),
    finger1 as int >= t.ix(b1), finger2 as int >= t.ix(b2),
    t.anc(postorder@[finger1 as int], b1), t.anc(postorder@[finger2 as int], b2),
    t.known(postorder@[finger1 as int]), t.known(postorder@[finger2 as int]),
    positions(postorder@, label_to_postorder@), t.po == postorder@, t.m == idom_by@, is_postorder(e, t.entry, t.po),
    t.tree(), t.over(e),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, postorder@[finger1 as int]) && domn(e, t.entry, x, postorder@[finger2 as int]),
    finger1 + finger2 >= f0,
  decreases 2 * t.po.len() - finger1 - finger2,
#at before `finger1 = label_to_postorder[&idom_by`
  proof { step_up(e, t, postorder@[finger1 as int], postorder@[finger2 as int], b1, b2, finger1 as int, finger2 as int); }
#at before `finger2 = label_to_postorder[&idom_by`
  proof { step_up(e, t, postorder@[finger2 as int], postorder@[finger1 as int], b2, b1, finger2 as int, finger1 as int); }
#at before `while finger1 < finger2`
  let ghost f0 = finger1 + finger2;
@*/
/// the lower finger may climb one link
proof fn step_up(e: Arcs, t: Tab, n1: u32, n2: u32, b1: u32, b2: u32, f1: int, f2: int)
  requires
    0 <= f1 < f2 < t.po.len(), n1 == t.po[f1], n2 == t.po[f2], t.tree(), t.over(e), is_postorder(e, t.entry, t.po),
    t.anc(n1, b1), t.anc(n2, b2), t.known(n1), t.known(n2),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, n1) && domn(e, t.entry, x, n2),
  ensures
    n1 != t.entry, t.m.contains_key(n1), t.po.contains(t.m[n1]), t.ix(t.m[n1]) > f1, t.anc(t.m[n1], b1), t.known(t.m[n1]),
    forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) ==> domn(e, t.entry, x, t.m[n1]),
{
  at_ix(t.po, f1); at_ix(t.po, f2);
  assert(t.po[t.po.len() - 1] == t.entry);
  assert(n1 != t.entry);
  assert(t.anc(t.m[n1], n1)) by { assert(t.anc(t.m[n1], t.m[n1])); }
  t.anc_trans(t.m[n1], n1, b1);
  assert forall|x: u32| #[trigger] domn(e, t.entry, x, b1) && domn(e, t.entry, x, b2) implies domn(e, t.entry, x, t.m[n1]) by {
    assert(domn(e, t.entry, x, n1) && domn(e, t.entry, x, n2));
    if x == n1 { dom_later(e, t.entry, t.po, x, n2); } else { assert(sdom(e, t.entry, x, n1)); }
  }
}

// ---- the virtual exit of post-dominance ----
impl CfgGraph {
/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::connect
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) || a == parent || a == child),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) || (a == parent && b == child)),
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::clone_graph
#ret r
#sig `Graph<u32>` => `Graph`
#rewrite `self.0.clone()` => `graph_clone(&self.0)`
#spec
  ensures r.nodes@ == self.0.nodes@,
@*/
/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::from_graph
#ret r
#sig `Graph<u32>` => `Graph`
#spec
  ensures r.0 == graph,
@*/
}
/*@fn optimize-js/src/dom/mod.rs :: find_virtual_exit_label
#ret r
#rewrite `HashSet::from_iter(labels.iter().copied())` => `HashSet::from_list(labels)`
#spec
  requires labels@.len() <= u32::MAX,
  ensures !labels@.contains(r),
#loop 0
  invariant
    labels@.len() <= u32::MAX,
    forall|k: u32| #[trigger] label_set@.contains(k) == labels@.contains(k),
    forall|k: u32| k > exit ==> #[trigger] labels@.contains(k),
  decreases exit,
#at before `exit = exit.checked_sub`
  proof { if exit == 0 { all_used(labels@); } }
@*/
/// no list of at most `u32::MAX` labels has them all
proof fn all_used(l: Seq<u32>)
  requires forall|k: u32| #[trigger] l.contains(k),
  ensures l.len() > u32::MAX,
{
  let f = |k: u32| k as int;
  let m = l.map_values(f);
  let s = vstd::set_lib::set_int_range(0, u32::MAX + 1);
  vstd::set_lib::lemma_int_range(0, u32::MAX + 1);
  m.lemma_cardinality_of_set();
  assert(s.subset_of(m.to_set())) by {
    assert forall|x: int| s.contains(x) implies m.to_set().contains(x) by {
      let k = x as u32;
      assert(l.contains(k));
      let i = choose|i: int| 0 <= i < l.len() && l[i] == k;
      assert(m[i] == x);
    }
  }
  vstd::set_lib::lemma_len_subset(s, m.to_set());
}
/// The members of the components nothing leaves (bounded check only: Tarjan's recursion is a nested fn).
#[verifier::external_body]
fn calculate_sink_sccs(graph: &CfgGraph) -> (r: Vec<Vec<u32>>)
  requires graph.wf(),
  ensures forall|x: u32| #[trigger] in_some(r@, r@.len() as int, x) <==> graph.has(x) && sink(graph.arcs(false), x),
{ unimplemented!() }
spec fn in_some(r: Seq<Vec<u32>>, n: int, x: u32) -> bool { exists|i: int| 0 <= i < n && (#[trigger] r[i])@.contains(x) }

/// `g` is `g0` with an exit after every label that nothing leads away from for good
spec fn exit_graph(g0: CfgGraph, g: CfgGraph, x: u32) -> bool {
  &&& g.wf() && !g0.has(x)
  &&& forall|a: u32, b: u32| #[trigger] g.edge(a, b) == (g0.edge(a, b) || (b == x && g0.has(a) && sink(g0.arcs(false), a)))
}
/// `v.iter().copied().filter(|label| graph.children(*label).next().is_none())`, collected into a set
#[verifier::external_body]
fn childless(v: &Vec<u32>, graph: &CfgGraph) -> (r: HashSet<u32>)
  ensures forall|x: u32| #[trigger] r@.contains(x) <==> v@.contains(x) && forall|y: u32| !#[trigger] graph.edge(x, y)
{ unimplemented!() }

/*@fn optimize-js/src/dom/mod.rs :: augment_cfg_for_postdom
#ret r
#rewrite `graph.labels().collect()` => `graph.labels()`
#rewrite `labels.sort_unstable();` => `sort_u32(&mut labels);`
#rewrite `HashSet::from_iter( labels .iter() .copied() .filter(|label| graph.children(*label).next().is_none()), )` => `childless(&labels, &graph)`
#rewrite `to_exit.extend(component)` => `to_exit.extend_list(component)`
#rewrite `to_exit.into_iter().collect()` => `to_exit.list()`
#rewrite `to_exit.sort_unstable();` => `sort_u32(&mut to_exit);`
#rewrite `{ let mut seen = HashSet::from_iter([exit]); let mut stack = vec![exit]; while let Some(node) = stack.pop() { let mut parents: Vec<u32> = graph.parents(node).collect(); parents.sort_unstable(); for parent in parents { if seen.insert(parent) { stack.push(parent); } } } debug_assert!(labels.iter().all(|l| seen.contains(l))); }` => `{}`
#spec
  requires cfg.graph.wf(), cfg.graph.0.nodes@.dom().len() <= u32::MAX,
  ensures exit_graph(cfg.graph, r.0, r.1),
    forall|n: u32| cfg.graph.has(n) ==> #[trigger] reach(r.0.arcs(true), r.1, n),
#entry
  let ghost g0 = cfg.graph;
#at before `let exit = find_virtual_exit_label`
  proof {
    assert(graph.0.nodes@ == g0.0.nodes@);
    assert forall|a: u32, b: u32| #[trigger] graph.edge(a, b) == g0.edge(a, b) by {}
    assert forall|a: u32, b: u32| #[trigger] graph.0.back(a, b) == graph.0.edge(a, b) by { assert(g0.0.back(a, b) == g0.0.edge(a, b)); }
    assert(graph.wf());
    lists_len(labels@, graph.0.nodes@.dom());
  }
#at before `let mut to_exit = HashSet`
  proof {
    assert(!g0.has(exit));
  }
#at before `for component in sink_sccs`
  let ghost base = to_exit@;
  let ghost sccs = sink_sccs@;
  proof {
    assert forall|x: u32| #[trigger] base.contains(x) implies g0.has(x) && sink(g0.arcs(false), x) by {
      assert forall|y: u32| !#[trigger] g0.edge(x, y) by { assert(!graph.edge(x, y)); }
      childless_sink(g0, x);
    }
  }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == sccs,
    forall|x: u32| #[trigger] to_exit@.contains(x) == (base.contains(x) || in_some(sccs, ix as int, x)),
  decreases ix_s@.len() - ix,
#at after `to_exit.extend(component)`
  proof {
    assert forall|x: u32| #[trigger] in_some(sccs, ix as int, x) == (in_some(sccs, ix - 1, x) || component@.contains(x)) by {
      if component@.contains(x) { assert(sccs[ix - 1]@.contains(x)); }
      if in_some(sccs, ix - 1, x) { let i = choose|i: int| 0 <= i < ix - 1 && (#[trigger] sccs[i])@.contains(x); assert(sccs[i]@.contains(x)); }
    }
  }
#at before `let mut to_exit: Vec<u32>`
  proof {
    assert(sub_arcs(graph, g0)) by { assert forall|a: u32, b: u32| #[trigger] graph.edge(a, b) == g0.edge(a, b) by {} }
    assert forall|x: u32| #[trigger] to_exit@.contains(x) == (g0.has(x) && sink(g0.arcs(false), x)) by {
      same_sink(graph, g0, x);
      assert(in_some(sccs, sccs.len() as int, x) == (graph.has(x) && sink(graph.arcs(false), x)));
    }
  }
#at before `for node in to_exit`
  let ghost ls = to_exit@;
#loop 1 while=jx list=self_
  invariant
    jx <= jx_s@.len(), jx_s@ == ls, graph.wf(),
    forall|a: u32, b: u32| #[trigger] graph.edge(a, b) == (g0.edge(a, b) || (b == exit && done(ls, jx as int, a))),
  decreases jx_s@.len() - jx,
#at after `graph.connect(node, exit)`
  proof {
    assert forall|a: u32| #[trigger] done(ls, jx as int, a) == (done(ls, jx - 1, a) || a == node) by {
      if done(ls, jx - 1, a) { let j = choose|j: int| 0 <= j < jx - 1 && #[trigger] ls[j] == a; assert(ls[j] == a); }
      if a == node { assert(ls[jx - 1] == a); }
    }
  }
#at afterblock `for node in to_exit`
  proof {
    assert forall|a: u32| #[trigger] done(ls, ls.len() as int, a) == (g0.has(a) && sink(g0.arcs(false), a)) by {
      assert(ls.contains(a) == (g0.has(a) && sink(g0.arcs(false), a)));
    }
    assert forall|n: u32| g0.has(n) implies #[trigger] reach(graph.arcs(true), exit, n) by { exit_reaches(g0, graph, exit, n); }
  }
@*/
impl HashSet<u32> {
  /// `s.extend(v)`
  #[verifier::external_body]
  fn extend_list(&mut self, v: &Vec<u32>) ensures forall|k: u32| #[trigger] final(self)@.contains(k) == (old(self)@.contains(k) || v@.contains(k)) { unimplemented!() }
}
proof fn exit_reaches(g0: CfgGraph, g: CfgGraph, x: u32, n: u32)
  requires exit_graph(g0, g, x), g0.wf(), g0.has(n),
  ensures reach(g.arcs(true), x, n),
{
  g0.0.nodes.finite();
  let r = g0.0.nodes@.dom().filter(|y: u32| reach(g0.arcs(false), n, y));
  assert forall|y: u32| #[trigger] r.contains(y) <==> reach(g0.arcs(false), n, y) by { if reach(g0.arcs(false), n, y) { has_reach(g0, n, y); } }
  let s = sink_below(g0, n, r);
  more_reach(g0, g, n, s);
  assert(g.edge(s, x));
  assert(g.arcs(false)(s, x));
  reach_step(g.arcs(false), n, s, x);
  rev_reach(g, n, x);
}

// ---- the fixpoint ----
spec fn tb(po: Seq<u32>, entry: u32, m: Map<u32, u32>) -> Tab { Tab { po, entry, m } }
spec fn keys_in(po: Seq<u32>, m: Map<u32, u32>) -> bool { forall|b: u32| #[trigger] m.contains_key(b) ==> po.contains(b) }
/// the first `n` of `ls` have links
spec fn linked(ls: Seq<u32>, n: int, m: Map<u32, u32>) -> bool { forall|k: int| 0 <= k < n ==> m.contains_key(#[trigger] ls[k]) }
/// their links lead above every predecessor that has one
spec fn settled(e: Arcs, ls: Seq<u32>, n: int, t: Tab) -> bool {
  forall|k: int, p: u32| 0 <= k < n && #[trigger] e(p, ls[k]) && t.known(p) && t.po.contains(p) ==> t.anc(t.m[ls[k]], p)
}
proof fn tab_insert(e: Arcs, t: Tab, b: u32, v: u32)
  requires t.tree(), t.over(e), t.po.contains(b), b != t.entry, t.known(v), t.po.contains(v), t.ix(v) > t.ix(b),
    forall|x: u32| #[trigger] sdom(e, t.entry, x, b) ==> domn(e, t.entry, x, v),
  ensures tb(t.po, t.entry, t.m.insert(b, v)).tree(), tb(t.po, t.entry, t.m.insert(b, v)).over(e),
{
  let u = tb(t.po, t.entry, t.m.insert(b, v));
  assert forall|c: u32| #[trigger] u.m.contains_key(c) && c != u.entry implies u.up(c) && u.known(u.m[c]) by {
    if c != b { assert(t.m.contains_key(c)); assert(t.up(c)); }
  }
}
/// a complete quiet pass: every link leads above every predecessor
proof fn quiet(e: Arcs, t: Tab, ls: Seq<u32>)
  requires t.tree(), ls == t.po.drop_last().reverse(), linked(ls, ls.len() as int, t.m), settled(e, ls, ls.len() as int, t), t.m.contains_key(t.entry),
  ensures t.full(), t.meets(e),
{
  assert forall|b: u32| #[trigger] t.po.contains(b) && b != t.entry implies t.m.contains_key(b) by { let k = spot(t.po, ls, b); assert(ls[k] == b); }
  assert forall|p: u32, b: u32| #[trigger] e(p, b) && b != t.entry && t.po.contains(p) && t.po.contains(b) implies t.anc(t.m[b], p) by {
    let k = spot(t.po, ls, b); assert(e(p, ls[k]));
  }
}
/// where a label other than the entry stands in the reversed list
proof fn spot(po: Seq<u32>, ls: Seq<u32>, b: u32) -> (k: int)
  requires po.no_duplicates(), po.len() > 0, ls == po.drop_last().reverse(), po.contains(b), b != po.last(),
  ensures 0 <= k < ls.len(), ls[k] == b, k == po.len() - 2 - po.index_of(b),
{
  ix_ok(po, b);
  let k = po.len() - 2 - po.index_of(b);
  assert(ls[k] == po[po.index_of(b)]);
  k
}
/// a label met in reverse postorder has a predecessor with a link, and later in the postorder
proof fn pred_known(e: Arcs, t: Tab, ls: Seq<u32>, k: int) -> (p: u32)
  requires is_postorder(e, t.entry, t.po), t.m.contains_key(t.entry), ls == t.po.drop_last().reverse(), 0 <= k < ls.len(), linked(ls, k, t.m),
  ensures e(p, ls[k]), t.m.contains_key(p), t.po.contains(p), t.ix(p) > t.ix(ls[k]), t.po.contains(ls[k]), ls[k] != t.entry,
{
  let i = t.po.len() - 2 - k;
  assert(ls[k] == t.po[i]);
  let j = choose|j: int| i < j < t.po.len() && e(t.po[j], t.po[i]);
  let p = t.po[j];
  at_ix(t.po, i); at_ix(t.po, j);
  if j == t.po.len() - 1 { assert(p == t.entry); } else { assert(ls[t.po.len() - 2 - j] == p); }
  p
}
/// the first `n` pairs have `c` below `p`
spec fn paired(ls: Seq<(&u32, &u32)>, n: int, c: u32, p: u32) -> bool { exists|k: int| 0 <= k < n && *(#[trigger] ls[k]).0 == c && *ls[k].1 == p }

impl<const POST: bool> Dom<POST> {
/*@fn optimize-js/src/dom/mod.rs :: Dom::calculate
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#attr #[verifier::rlimit(100)]
#rewrite `postorder.iter().rev().filter(|b| **b != entry)` => `rev_without(&postorder, entry)`
#rewrite `parents.iter().find(|n| idom_by.contains_key(n)).cloned()` => `find_key(&parents, &idom_by)`
#rewrite `parents.iter().filter(|&&p| p != to_skip)` => `without(&parents, to_skip)`
#rewrite `intersect!(p, new_idom)` => `intersect(*p, new_idom, &label_to_postorder, &postorder, &idom_by, Ghost(e), Ghost(t0))`
#rewrite `idom_by.get(&b) != Some(&new_idom)` => `not_mapped(&idom_by, &b, &new_idom)`
#rewrite `idom_by.iter()` => `idom_by.pairs()`
#spec
  requires cfg.graph.wf(), POST ==> cfg.graph.0.nodes@.dom().len() <= u32::MAX,
  ensures
    !POST ==> r.entry == cfg.entry && r.ok(cfg.graph.arcs(false)),
    POST ==> exists|g: CfgGraph| #[trigger] exit_graph(cfg.graph, g, r.entry) && r.ok(g.arcs(true)) && forall|n: u32| #[trigger] cfg.graph.has(n) ==> r.postorder@.contains(n),
#entry
  hide(is_postorder); hide(Tab::tree); hide(Tab::over); hide(domn); hide(sdom); hide(reach); hide(walk);
#at before `let mut idom_by`
  let ghost e = graph.arcs(POST);
  proof { assert(is_postorder(e, entry, postorder@)); }
#at after `idom_by.insert(entry, entry)`
  proof { start(e, entry, postorder@, idom_by@); }
#loop 0
  invariant
    graph.wf(), e == graph.arcs(POST), is_postorder(e, entry, postorder@), positions(postorder@, label_to_postorder@),
    tb(postorder@, entry, idom_by@).tree(), tb(postorder@, entry, idom_by@).over(e), idom_by@.contains_key(entry), keys_in(postorder@, idom_by@),
  ensures
    graph.wf(), e == graph.arcs(POST), is_postorder(e, entry, postorder@), positions(postorder@, label_to_postorder@),
    tb(postorder@, entry, idom_by@).tree(), tb(postorder@, entry, idom_by@).over(e), idom_by@.contains_key(entry), keys_in(postorder@, idom_by@),
    tb(postorder@, entry, idom_by@).full(), tb(postorder@, entry, idom_by@).meets(e),
#at before `for &b in postorder`
  proof { po_facts(e, entry, postorder@); }
#loop 1 while=ix
  invariant
    graph.wf(), e == graph.arcs(POST), is_postorder(e, entry, postorder@), positions(postorder@, label_to_postorder@),
    tb(postorder@, entry, idom_by@).tree(), tb(postorder@, entry, idom_by@).over(e), idom_by@.contains_key(entry), keys_in(postorder@, idom_by@),
    ix <= ix_s@.len(), ix_s@ == postorder@.drop_last().reverse(),
    linked(ix_s@, ix as int, idom_by@),
    !changed ==> settled(e, ix_s@, ix as int, tb(postorder@, entry, idom_by@)),
  decreases ix_s@.len() - ix,
#at before `let parents`
  let ghost t0 = tb(postorder@, entry, idom_by@);
  let ghost lp = pred_known(e, t0, ix_s@, ix - 1);
  proof { assert(ix_s@[ix - 1] == b); }
#at before `let Some(mut new_idom)`
  proof {
    assert forall|x: u32| #[trigger] parents@.contains(x) == e(x, b) by {
      if POST { assert(graph.edge(b, x) == e(x, b)); } else { assert(graph.0.back(x, b) == graph.0.edge(x, b)); assert(graph.edge(x, b) == e(x, b)); }
    }
    assert(parents@.contains(lp));
  }
#at before `let to_skip`
  proof {
    assert forall|x: u32| #[trigger] sdom(e, entry, x, b) implies domn(e, entry, x, new_idom) by { sdom_pred(e, entry, x, b, new_idom); }
    assert(t0.anc(new_idom, new_idom));
  }
#loop 2 while=jx
  invariant
    is_postorder(e, entry, postorder@), positions(postorder@, label_to_postorder@), t0.tree(), t0.over(e), keys_in(postorder@, idom_by@), t0.po.contains(to_skip),
    idom_by@.contains_key(entry), jx <= jx_s@.len(), t0 == tb(postorder@, entry, idom_by@),
    forall|x: u32| #[trigger] jx_s@.contains(x) == (parents@.contains(x) && x != to_skip),
    forall|x: u32| #[trigger] parents@.contains(x) == e(x, b),
    t0.known(new_idom), t0.po.contains(new_idom), t0.anc(new_idom, to_skip), t0.ix(new_idom) >= t0.ix(to_skip),
    forall|x: u32| #[trigger] sdom(e, entry, x, b) ==> domn(e, entry, x, new_idom),
    forall|k: int| 0 <= k < jx && idom_by@.contains_key(#[trigger] jx_s@[k]) ==> t0.anc(new_idom, jx_s@[k]) && t0.ix(new_idom) >= t0.ix(jx_s@[k]),
  decreases jx_s@.len() - jx,
#at before `if idom_by.contains_key(&p)`
  let ghost prev = new_idom;
  proof {
    assert(jx_s@.contains(*p)); assert(parents@.contains(*p));
    assert forall|x: u32| #[trigger] sdom(e, entry, x, b) implies domn(e, entry, x, *p) by { sdom_pred(e, entry, x, b, *p); }
  }
#at afterblock `if idom_by.contains_key(&p)`
  proof {
    if idom_by@.contains_key(*p) {
      assert forall|k: int| 0 <= k < jx && idom_by@.contains_key(#[trigger] jx_s@[k]) implies t0.anc(new_idom, jx_s@[k]) && t0.ix(new_idom) >= t0.ix(jx_s@[k]) by {
        if k < jx - 1 { t0.anc_trans(new_idom, prev, jx_s@[k]); }
      }
      t0.anc_trans(new_idom, prev, to_skip);
    }
  }
#at before `if idom_by.get(&b)`
  proof {
    assert forall|q: u32| #[trigger] e(q, b) && t0.known(q) && t0.po.contains(q) implies t0.anc(new_idom, q) && t0.ix(new_idom) >= t0.ix(q) by {
      assert(parents@.contains(q));
      if q != to_skip {
        assert(jx_s@.contains(q));
        let k = choose|k: int| 0 <= k < jx_s@.len() && jx_s@[k] == q;
        assert(idom_by@.contains_key(jx_s@[k]));
      }
    }
    assert(e(lp, b));
    tab_insert(e, t0, b, new_idom);
  }
#at before `if !changed`
  proof { if !changed { quiet(e, tb(postorder@, entry, idom_by@), postorder@.drop_last().reverse()); } }
#at before `idom_by.remove(&entry)`
  let ghost t1 = tb(postorder@, entry, idom_by@);
#at after `idom_by.remove(&entry)`
  proof { drop_entry(e, t1); }
#tail r
  proof {
    all_ok(r, e);
    if POST {
      assert(exit_graph(cfg.graph, *graph, r.entry)); assert(r.ok(graph.arcs(true)));
      assert(forall|n: u32| #[trigger] cfg.graph.has(n) ==> r.postorder@.contains(n));
    }
  }
#loop 3 while=kx list=self_
  invariant
    is_pairs(kx_s@, idom_by@), 
    kx <= kx_s@.len(),
    forall|p: u32, c: u32| #[trigger] tree_arc(domtree@, p, c) == paired(kx_s@, kx as int, c, p),
  decreases kx_s@.len() - kx,
#at before `domtree.entry(p)`
  let ghost d0 = domtree@;
#at after `domtree.entry(p)`
  proof {
    assert forall|q: u32, d: u32| #[trigger] tree_arc(domtree@, q, d) == (tree_arc(d0, q, d) || (q == p && d == c)) by {}
    paired_step(kx_s@, kx - 1);
  }
#at afterblock `for (&c, &p)`
  proof {
    assert forall|q: u32, d: u32| #[trigger] tree_arc(domtree@, q, d) == (idom_by@.contains_key(d) && idom_by@[d] == q) by { paired_all(kx_s@, idom_by@, d, q); }
    po_facts(e, entry, postorder@);
    assert forall|b: u32| #[trigger] idom_by@.contains_key(b) implies postorder@.contains(b) && b != entry by { assert(t1.m.contains_key(b)); }
    if POST {
      assert(exit_graph(cfg.graph, *graph, entry)); assert(e == graph.arcs(true));
      assert forall|n: u32| #[trigger] cfg.graph.has(n) implies postorder@.contains(n) by { assert(reach(e, entry, n)); }
    }
  }
@*/
}
proof fn paired_step(ls: Seq<(&u32, &u32)>, n: int)
  requires 0 <= n < ls.len(),
  ensures forall|c: u32, p: u32| #[trigger] paired(ls, n + 1, c, p) == (paired(ls, n, c, p) || (c == *ls[n].0 && p == *ls[n].1)),
{
  assert forall|c: u32, p: u32| #[trigger] paired(ls, n + 1, c, p) == (paired(ls, n, c, p) || (c == *ls[n].0 && p == *ls[n].1)) by {
    if paired(ls, n, c, p) { let k = choose|k: int| 0 <= k < n && *(#[trigger] ls[k]).0 == c && *ls[k].1 == p; assert(*ls[k].0 == c); }
    if c == *ls[n].0 && p == *ls[n].1 { assert(*ls[n].0 == c); }
  }
}
spec fn is_pairs(ls: Seq<(&u32, &u32)>, m: Map<u32, u32>) -> bool {
  &&& forall|i: int| 0 <= i < ls.len() ==> m.contains_key(*(#[trigger] ls[i]).0) && m[*ls[i].0] == *ls[i].1
  &&& forall|k: u32| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ls.len() && *(#[trigger] ls[i]).0 == k
}
proof fn paired_all(ls: Seq<(&u32, &u32)>, m: Map<u32, u32>, c: u32, p: u32)
  requires is_pairs(ls, m),
  ensures paired(ls, ls.len() as int, c, p) == (m.contains_key(c) && m[c] == p),
{}
/// what a calculated table is, field by field
proof fn all_ok<const POST: bool>(d: Dom<POST>, e: Arcs)
  requires is_postorder(e, d.entry, d.postorder@), tb(d.postorder@, d.entry, d.idom_by@).tree(), tb(d.postorder@, d.entry, d.idom_by@).full(),
    tb(d.postorder@, d.entry, d.idom_by@).over(e), tb(d.postorder@, d.entry, d.idom_by@).meets(e),
    forall|b: u32| #[trigger] d.idom_by@.contains_key(b) ==> d.postorder@.contains(b) && b != d.entry,
    forall|p: u32, c: u32| #[trigger] tree_arc(d.domtree@, p, c) == (d.idom_by@.contains_key(c) && d.idom_by@[c] == p),
  ensures d.ok(e),
{}
spec fn tree_arc(d: Map<u32, HashSet<u32>>, p: u32, c: u32) -> bool { d.contains_key(p) && d[p]@.contains(c) }
proof fn po_facts(e: Arcs, entry: u32, po: Seq<u32>)
  requires is_postorder(e, entry, po),
  ensures po.no_duplicates(), po.len() > 0, po.last() == entry, forall|x: u32| #[trigger] po.contains(x) <==> reach(e, entry, x), forall|x: u32| po.contains(x) <==> #[trigger] reach(e, entry, x),
{}
proof fn start(e: Arcs, entry: u32, po: Seq<u32>, m: Map<u32, u32>)
  requires is_postorder(e, entry, po), m == Map::<u32, u32>::empty().insert(entry, entry),
  ensures po.contains(entry), tb(po, entry, m).tree(), tb(po, entry, m).over(e), keys_in(po, m),
{
  assert(po[po.len() - 1] == entry);
}
proof fn drop_entry(e: Arcs, t: Tab)
  requires t.tree(), t.full(), t.over(e), t.meets(e),
  ensures ({ let u = tb(t.po, t.entry, t.m.remove(t.entry)); u.tree() && u.full() && u.over(e) && u.meets(e) }),
{
  let u = tb(t.po, t.entry, t.m.remove(t.entry));
  assert forall|b: u32| #[trigger] u.m.contains_key(b) && b != u.entry implies u.up(b) && u.known(u.m[b]) by { assert(t.m.contains_key(b)); assert(t.up(b)); }
  assert forall|p: u32, b: u32| #[trigger] e(p, b) && b != u.entry && u.po.contains(p) && u.po.contains(b) implies u.anc(u.m[b], p) by {
    assert(t.anc(t.m[b], p)); same_anc(t, u, t.m[b], p);
  }
}
proof fn same_anc(t: Tab, u: Tab, x: u32, b: u32)
  requires t.anc(x, b), u == tb(t.po, t.entry, t.m.remove(t.entry)),
  ensures u.anc(x, b),
  decreases t.po.len() - t.ix(b),
{
  if x != b { same_anc(t, u, x, t.m[b]); }
}

// ---- what the table answers ----
proof fn dom_is_anc<const POST: bool>(d: Dom<POST>, e: Arcs, a: u32, b: u32)
  requires d.ok(e), d.postorder@.contains(b),
  ensures domn(e, d.entry, a, b) == d.tab().anc(a, b),
{
  let t = d.tab();
  if domn(e, d.entry, a, b) { assert(t.known(b)); t.dom_anc(e, a, b); }
  if t.anc(a, b) {
    assert forall|p: Seq<u32>| #[trigger] walk(e, p, d.entry, b) implies p.contains(a) by { t.anc_walk(e, a, b, p); }
  }
}
/// every label but the entry has its immediate dominator in the table
proof fn idom_right<const POST: bool>(d: Dom<POST>, e: Arcs, b: u32)
  requires d.ok(e), d.postorder@.contains(b), b != d.entry,
  ensures d.idom_by@.contains_key(b), is_idom(e, d.entry, d.idom_by@[b], b),
{
  let t = d.tab();
  assert(t.m.contains_key(b));
  assert(t.up(b));
  assert(t.anc(t.m[b], b)) by { assert(t.anc(t.m[b], t.m[b])); }
  dom_is_anc(d, e, t.m[b], b);
}
/// one link up
proof fn climb(t: Tab, n: u32, label: u32)
  requires t.tree(), t.known(n), n != t.entry, t.anc(n, label),
  ensures t.m.contains_key(n), t.po.contains(n), t.po.contains(t.m[n]), t.ix(t.m[n]) > t.ix(n), t.ix(t.m[n]) < t.po.len(), t.known(t.m[n]), t.anc(t.m[n], label),
    forall|x: u32| #[trigger] t.anc(x, n) == (x == n || t.anc(x, t.m[n])),
{
  assert(t.up(n));
  assert(t.anc(t.m[n], n)) by { assert(t.anc(t.m[n], t.m[n])); }
  t.anc_trans(t.m[n], n, label);
}
proof fn anc_top(t: Tab)
  ensures forall|x: u32| #[trigger] t.anc(x, t.entry) == (x == t.entry), forall|x: u32| #[trigger] t.anc(x, x),
{}
impl<const POST: bool> Dom<POST> {
/*@fn optimize-js/src/dom/mod.rs :: Dom::dominated_by_graph
#ret r
#rewrite `self.idom_by.keys().cloned()` => `self.idom_by.keys()`
#spec
  requires self.shape(),
  ensures
    forall|a: u32| #[trigger] r.0@.contains_key(a) == self.postorder@.contains(a),
    forall|a: u32, b: u32| #![trigger r.0@[a]@.contains(b)] self.postorder@.contains(a) ==> r.0@[a]@.contains(b) == self.tab().anc(b, a),
    forall|e: Arcs, a: u32, b: u32| #![trigger self.ok(e), r.0@[a]@.contains(b)] self.ok(e) && self.postorder@.contains(a) ==> r.0@[a]@.contains(b) == domn(e, self.entry, b, a),
#entry
  hide(Tab::anc); hide(Tab::up); hide(Tab::over); hide(Tab::meets);
  let ghost t = self.tab();
  proof { assert(t.po[t.po.len() - 1] == self.entry); assert(t.po.contains(self.entry)); anc_top(t); }
#at after `dom.entry(self.entry)`
  proof {
    assert forall|x: u32| #[trigger] dom@[self.entry]@.contains(x) == t.anc(x, self.entry) by {}
  }
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), self.shape(), t == self.tab(), lists(ix_s@, self.idom_by@.dom()), t.po.contains(self.entry),
    forall|x: u32| #[trigger] t.anc(x, t.entry) == (x == t.entry), forall|x: u32| #[trigger] t.anc(x, x),
    forall|a: u32| #[trigger] dom@.contains_key(a) == (a == self.entry || done(ix_s@, ix as int, a)),
    forall|a: u32, b: u32| #![trigger dom@[a]@.contains(b)] dom@.contains_key(a) ==> dom@[a]@.contains(b) == t.anc(b, a),
  decreases ix_s@.len() - ix,
#at before `let e = dom.entry`
  let ghost d0 = dom@;
  proof {
    assert(ix_s@.contains(label));
    done_step(ix_s@, ix - 1, self.idom_by@.dom());
    assert(label != self.entry && t.m.contains_key(label));
    if done(ix_s@, ix - 1, label) { let j = choose|j: int| 0 <= j < ix - 1 && #[trigger] ix_s@[j] == label; assert(ix_s@[j] == ix_s@[ix - 1]); }
    assert(!d0.contains_key(label));
  }
#loop 1
  invariant
    t == self.tab(), self.shape(), t.po.contains(n), t.known(n), t.anc(n, label), t.po.contains(label),
    forall|x: u32| #[trigger] t.anc(x, t.entry) == (x == t.entry),
    forall|x: u32| #[trigger] e@.contains(x) ==> t.anc(x, label),
    forall|x: u32| #[trigger] t.anc(x, label) ==> e@.contains(x) || t.anc(x, n),
  ensures
    forall|x: u32| #[trigger] e@.contains(x) == t.anc(x, label),
  decreases t.po.len() - t.ix(n),
#at before `n = self.idom_by[&n]`
  proof { climb(t, n, label); }
#at exit `for label in`
  proof {
    assert(dom@.contains_key(label));
    assert forall|a: u32| #[trigger] dom@.contains_key(a) == (d0.contains_key(a) || a == label) by {}
    assert forall|a: u32| a != label implies #[trigger] dom@[a] == d0[a] by {}
  }
#at afterblock `for label in`
  proof { done_all(ix_s@, self.idom_by@.dom()); }
#tail r
  proof {
    assert forall|a: u32| #[trigger] r.0@.contains_key(a) == self.postorder@.contains(a) by {
      if a != self.entry { assert(t.m.contains_key(a) == t.po.contains(a)); assert(self.idom_by@.dom().contains(a) == t.m.contains_key(a)); }
    }
    assert forall|e: Arcs, a: u32, b: u32| #![trigger self.ok(e), r.0@[a]@.contains(b)] self.ok(e) && self.postorder@.contains(a) implies r.0@[a]@.contains(b) == domn(e, self.entry, b, a) by { dom_is_anc(*self, e, b, a); assert(r.0@.contains_key(a)); }
  }
@*/

/*@fn optimize-js/src/dom/mod.rs :: Dom::dominates_graph
#ret r
#rewrite `dom_bys.0` => `dom_bys.0.pairs()`
#rewrite `insert(child)` => `insert(*child)`
#spec
  requires self.shape(),
  ensures
    forall|a: u32, b: u32| #[trigger] tree_arc(r.0@, a, b) == (self.postorder@.contains(b) && self.tab().anc(a, b)),
    forall|e: Arcs, a: u32, b: u32| #![trigger self.ok(e), tree_arc(r.0@, a, b)] self.ok(e) && self.postorder@.contains(b) ==> tree_arc(r.0@, a, b) == domn(e, self.entry, a, b),
#entry
  hide(Tab::anc); hide(Tab::up); hide(Tab::over); hide(Tab::meets);
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(),
    forall|a: u32, b: u32| #[trigger] tree_arc(doms@, a, b) == listed(ix_s@, ix as int, b, a),
  decreases ix_s@.len() - ix,
#at before `for parent in dominated_by`
  let ghost d0 = doms@;
#loop 1 while=jx list=list
  invariant
    jx <= jx_s@.len(), lists(jx_s@, dominated_by@),
    forall|a: u32, b: u32| #[trigger] tree_arc(doms@, a, b) == (tree_arc(d0, a, b) || (b == *child && done(jx_s@, jx as int, a))),
  decreases jx_s@.len() - jx,
#at before `doms.entry(parent)`
  let ghost d1 = doms@;
#at after `doms.entry(parent)`
  proof {
    assert forall|q: u32, d: u32| #[trigger] tree_arc(doms@, q, d) == (tree_arc(d1, q, d) || (q == parent && d == child)) by {}
    done_step(jx_s@, jx - 1, dominated_by@);
  }
#at afterblock `for parent in dominated_by`
  proof { done_all(jx_s@, dominated_by@); listed_step(ix_s@, ix - 1); }
#tail r
  proof {
    assert forall|a: u32, b: u32| #[trigger] tree_arc(r.0@, a, b) == (self.postorder@.contains(b) && self.tab().anc(a, b)) by {
      if listed(ix_s@, ix_s@.len() as int, b, a) { let k = choose|k: int| 0 <= k < ix_s@.len() && *(#[trigger] ix_s@[k]).0 == b && ix_s@[k].1@.contains(a); assert(dom_bys.0@.contains_key(b)); }
      if self.postorder@.contains(b) { assert(dom_bys.0@.contains_key(b)); let k = choose|k: int| 0 <= k < ix_s@.len() && *(#[trigger] ix_s@[k]).0 == b; assert(dom_bys.0@[b]@.contains(a) == self.tab().anc(a, b)); }
    }
    assert forall|e: Arcs, a: u32, b: u32| #![trigger self.ok(e), tree_arc(r.0@, a, b)] self.ok(e) && self.postorder@.contains(b) implies tree_arc(r.0@, a, b) == domn(e, self.entry, a, b) by { dom_is_anc(*self, e, a, b); }
  }
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::idom_of
#ret r
#spec
  ensures r == (if self.idom_by@.contains_key(node) { Some(self.idom_by@[node]) } else { None }),
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::idom
#ret r
#spec
  ensures r == (if self.idom_by@.contains_key(node) { Some(self.idom_by@[node]) } else { None }),
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::immediate_dominator
#ret r
#spec
  ensures r == (if self.idom_by@.contains_key(node) { Some(self.idom_by@[node]) } else { None }),
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::entry_label
#ret r
#spec
  ensures r == self.entry,
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::entry
#ret r
#spec
  ensures r == self.entry,
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::postorder
#ret r
#rewrite `&self.postorder` => `self.postorder.as_slice()`
#spec
  ensures r@ == self.postorder@,
@*/
/*@fn optimize-js/src/dom/mod.rs :: Dom::immediately_dominated_by
#ret r
#sig `impl Iterator<Item = u32> + '_` => `Vec<u32>`
#rewrite `.map(|s| {` => `.map(|s: &HashSet<u32>| -> (r: Vec<u32>) ensures lists(r@, s@), ascending(r@) {`
#rewrite `s.iter().copied().collect_vec()` => `s.list()`
#rewrite `children.sort_unstable();` => `sort_u32(&mut children);`
#rewrite `.into_iter() .flatten()` => `.flat()`
#spec
  requires self.shape(),
  ensures r@.no_duplicates(), ascending(r@), forall|c: u32| #[trigger] r@.contains(c) == (self.idom_by@.contains_key(c) && self.idom_by@[c] == parent),
#tail r
  proof {
    assert forall|c: u32| #[trigger] r@.contains(c) == (self.idom_by@.contains_key(c) && self.idom_by@[c] == parent) by { assert(tree_arc(self.domtree@, parent, c) == r@.contains(c)); }
  }
@*/
}
spec fn listed(ls: Seq<(&u32, &HashSet<u32>)>, n: int, k: u32, x: u32) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] ls[i]).0 == k && ls[i].1@.contains(x) }
proof fn listed_step(ls: Seq<(&u32, &HashSet<u32>)>, n: int)
  requires 0 <= n < ls.len(),
  ensures forall|k: u32, x: u32| #[trigger] listed(ls, n + 1, k, x) == (listed(ls, n, k, x) || (k == *ls[n].0 && ls[n].1@.contains(x))),
{
  assert forall|k: u32, x: u32| #[trigger] listed(ls, n + 1, k, x) == (listed(ls, n, k, x) || (k == *ls[n].0 && ls[n].1@.contains(x))) by {
    if listed(ls, n, k, x) { let i = choose|i: int| 0 <= i < n && *(#[trigger] ls[i]).0 == k && ls[i].1@.contains(x); assert(*ls[i].0 == k); }
    if k == *ls[n].0 && ls[n].1@.contains(x) { assert(*ls[n].0 == k); }
  }
}

// ---- dominance frontiers ----
/// every predecessor of a label reached is reached
spec fn closed_back(g: CfgGraph, po: Seq<u32>) -> bool { forall|a: u32, b: u32| #[trigger] g.edge(a, b) && po.contains(b) ==> po.contains(a) }
/// `b` is where the dominance of `a` ends
spec fn frontier(e: Arcs, entry: u32, a: u32, b: u32) -> bool {
  exists|p: u32| #[trigger] e(p, b) && domn(e, entry, a, p) && !sdom(e, entry, a, b)
}
/// the same, read off the table
spec fn in_df(e: Arcs, t: Tab, a: u32, b: u32) -> bool { exists|p: u32| #[trigger] e(p, b) && t.anc(a, p) && !t.anc(a, t.m[b]) }
spec fn df_from(t: Tab, ps: Seq<u32>, n: int, a: u32, b: u32) -> bool { exists|k: int| 0 <= k < n && t.anc(a, #[trigger] ps[k]) && !t.anc(a, t.m[b]) }
proof fn df_step(t: Tab, ps: Seq<u32>, n: int, b: u32)
  requires 0 <= n < ps.len(),
  ensures forall|a: u32| #[trigger] df_from(t, ps, n + 1, a, b) == (df_from(t, ps, n, a, b) || (t.anc(a, ps[n]) && !t.anc(a, t.m[b]))),
{
  hide(Tab::anc);
  assert forall|a: u32| #[trigger] df_from(t, ps, n + 1, a, b) == (df_from(t, ps, n, a, b) || (t.anc(a, ps[n]) && !t.anc(a, t.m[b]))) by {
    if df_from(t, ps, n, a, b) { let k = choose|k: int| 0 <= k < n && t.anc(a, #[trigger] ps[k]) && !t.anc(a, t.m[b]); assert(t.anc(a, ps[k])); }
    if t.anc(a, ps[n]) && !t.anc(a, t.m[b]) { assert(t.anc(a, ps[n])); }
  }
}
proof fn df_all(e: Arcs, t: Tab, ps: Seq<u32>, b: u32)
  requires forall|p: u32| #[trigger] ps.contains(p) == e(p, b),
  ensures forall|a: u32| #[trigger] df_from(t, ps, ps.len() as int, a, b) == in_df(e, t, a, b),
{
  hide(Tab::anc);
  assert forall|a: u32| #[trigger] df_from(t, ps, ps.len() as int, a, b) == in_df(e, t, a, b) by {
    if df_from(t, ps, ps.len() as int, a, b) { let k = choose|k: int| 0 <= k < ps.len() && t.anc(a, #[trigger] ps[k]) && !t.anc(a, t.m[b]); assert(ps.contains(ps[k])); assert(e(ps[k], b)); }
    if in_df(e, t, a, b) { let p = choose|p: u32| #[trigger] e(p, b) && t.anc(a, p) && !t.anc(a, t.m[b]); assert(ps.contains(p)); let k = choose|k: int| 0 <= k < ps.len() && ps[k] == p; assert(t.anc(a, ps[k])); }
  }
}
/// a lone predecessor is the immediate dominator
proof fn one_parent<const POST: bool>(d: Dom<POST>, e: Arcs, ps: Seq<u32>, b: u32)
  requires d.ok(e), d.postorder@.contains(b), b != d.entry, ps.len() < 2, forall|p: u32| #[trigger] ps.contains(p) == e(p, b),
    forall|p: u32| #[trigger] e(p, b) ==> d.postorder@.contains(p),
  ensures forall|a: u32| !#[trigger] in_df(e, d.tab(), a, b),
{
  let t = d.tab();
  assert forall|a: u32| !#[trigger] in_df(e, t, a, b) by {
    if in_df(e, t, a, b) {
      let p = choose|p: u32| #[trigger] e(p, b) && t.anc(a, p) && !t.anc(a, t.m[b]);
      assert(ps.contains(p));
      ix_ok(t.po, b);
      let i = t.po.index_of(b);
      assert(t.po[i] == b && i < t.po.len() - 1);
      let j = choose|j: int| i < j < t.po.len() && e(t.po[j], t.po[i]);
      let q = t.po[j];
      at_ix(t.po, j);
      assert(ps.contains(q));
      assert(q == p && p != b);
      assert(sdom(e, t.entry, p, b)) by {
        assert forall|w: Seq<u32>| #[trigger] walk(e, w, t.entry, b) implies w.contains(p) by {
          assert(w.len() > 1);
          assert(e(w[w.len() - 2], w[w.len() - 1]));
          assert(ps.contains(w[w.len() - 2]));
          assert(w[w.len() - 2] == p);
        }
      }
      assert(t.m.contains_key(b));
      assert(domn(e, t.entry, p, t.m[b]));
      assert(t.up(b));
      t.dom_anc(e, p, t.m[b]);
      t.anc_trans(a, p, t.m[b]);
    }
  }
}
proof fn df_is_frontier<const POST: bool>(d: Dom<POST>, g: CfgGraph, a: u32, b: u32)
  requires d.ok(g.arcs(false)), closed_back(g, d.postorder@), d.postorder@.contains(b), b != d.entry,
  ensures in_df(g.arcs(false), d.tab(), a, b) == frontier(g.arcs(false), d.entry, a, b),
{
  let e = g.arcs(false);
  let t = d.tab();
  assert(t.m.contains_key(b));
  assert(t.up(b));
  assert(sdom(e, t.entry, a, b) == t.anc(a, t.m[b])) by {
    if sdom(e, t.entry, a, b) { t.dom_anc(e, a, t.m[b]); }
    if t.anc(a, t.m[b]) { assert(t.anc(a, b)); dom_is_anc(d, e, a, b); t.anc_up(a, t.m[b]); }
  }
  assert forall|p: u32| #[trigger] e(p, b) implies domn(e, t.entry, a, p) == t.anc(a, p) by { assert(g.edge(p, b)); dom_is_anc(d, e, a, p); }
}
/// the link of a label leads above each of its predecessors
proof fn meets_at(t: Tab, e: Arcs, p: u32, b: u32)
  requires t.meets(e), e(p, b), b != t.entry, t.po.contains(p), t.po.contains(b),
  ensures t.anc(t.m[b], p),
{}
/// climbing from `r` towards `top`
proof fn df_climb(t: Tab, r: u32, top: u32, p: u32)
  requires t.tree(), t.known(r), t.po.contains(r), t.anc(top, r), r != top, t.anc(r, p),
  ensures r != t.entry, t.m.contains_key(r), t.po.contains(t.m[r]), t.ix(t.m[r]) > t.ix(r), t.ix(t.m[r]) < t.po.len(), t.known(t.m[r]), t.anc(top, t.m[r]), t.anc(t.m[r], p),
    !t.anc(r, t.m[r]), !t.anc(r, top),
    forall|x: u32| #[trigger] t.anc(x, r) == (x == r || t.anc(x, t.m[r])),
{
  climb(t, r, p);
  if t.anc(r, t.m[r]) { t.anc_up(r, t.m[r]); }
  if t.anc(r, top) { t.anc_up(top, r); t.anc_up(r, top); }
}
impl<const POST: bool> Dom<POST> {
/*@fn optimize-js/src/dom/mod.rs :: Dom::dominance_frontiers
#ret r
#rewrite `self.postorder.iter().rev()` => `rev_list(&self.postorder)`
#spec
  requires cfg.graph.wf(), self.ok(cfg.graph.arcs(false)), closed_back(cfg.graph, self.postorder@),
  ensures
    forall|a: u32, b: u32| #[trigger] tree_arc(r@, a, b) == (self.postorder@.contains(b) && b != self.entry && frontier(cfg.graph.arcs(false), self.entry, a, b)),
#entry
  hide(Tab::anc); hide(Tab::up); hide(Tab::over); hide(Tab::meets); hide(is_postorder); hide(Tab::tree); hide(Tab::full); hide(in_df); hide(df_from); hide(domn); hide(sdom); hide(Dom::ok); hide(Dom::shape);
  let ghost e = cfg.graph.arcs(false);
  let ghost t = self.tab();
  proof { reveal(Dom::ok); reveal(Dom::shape); reveal(Tab::full); }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == self.postorder@.reverse(), t == self.tab(), e == cfg.graph.arcs(false), cfg.graph.wf(), self.ok(e), closed_back(cfg.graph, self.postorder@),
    t.tree(), t.meets(e), forall|b: u32| #[trigger] self.idom_by@.contains_key(b) == (t.po.contains(b) && b != self.entry),
    forall|a: u32, b: u32| #[trigger] tree_arc(domfront@, a, b) == (done(ix_s@, ix as int, b) && b != self.entry && in_df(e, t, a, b)),
  decreases ix_s@.len() - ix,
#at before `if !self.idom_by.contains_key(&b)`
  let ghost d0 = domfront@;
  proof {
    seq_step(ix_s@, ix - 1);
    assert(b == ix_s@[ix - 1]); assert(t.po[t.po.len() - ix] == b); assert(t.po.contains(b));
  }
#at before `if parents.len() < 2`
  proof {
    assert forall|p: u32| #[trigger] parents@.contains(p) == e(p, b) by { assert(cfg.graph.0.back(p, b) == cfg.graph.0.edge(p, b)); assert(cfg.graph.edge(p, b) == e(p, b)); }
    assert forall|p: u32| #[trigger] e(p, b) implies self.postorder@.contains(p) by { assert(cfg.graph.edge(p, b)); }
    if parents@.len() < 2 { one_parent(*self, e, parents@, b); }
    df_from_none(t, parents@, b);
  }
#loop 1 while=jx
  invariant
    jx <= jx_s@.len(), jx_s@ == parents@, t == self.tab(), t.tree(), t.meets(e), self.idom_by@.contains_key(b), t.po.contains(b), b != t.entry,
    forall|x: u32| #[trigger] self.idom_by@.contains_key(x) == (t.po.contains(x) && x != self.entry),
    forall|p: u32| #[trigger] parents@.contains(p) == e(p, b),
    forall|p: u32| #[trigger] e(p, b) ==> self.postorder@.contains(p),
    forall|a: u32, c: u32| #[trigger] tree_arc(domfront@, a, c) == (tree_arc(d0, a, c) || (c == b && df_from(t, parents@, jx as int, a, b))),
  decreases jx_s@.len() - jx,
#at before `while runner`
  let ghost d1 = domfront@;
  proof { assert(parents@.contains(p)); meets_at(t, e, p, b); df_step(t, parents@, jx - 1, b); anc_self(t); }
#loop 2
  invariant
    t == self.tab(), t.tree(), self.idom_by@.contains_key(b), b != t.entry,
    forall|x: u32| #[trigger] self.idom_by@.contains_key(x) == (t.po.contains(x) && x != self.entry),
    t.anc(runner, p), t.anc(t.m[b], runner), t.known(runner), t.po.contains(runner),
    forall|a: u32, c: u32| #[trigger] tree_arc(domfront@, a, c) == (tree_arc(d1, a, c) || (c == b && t.anc(a, p) && !t.anc(a, runner))),
  decreases t.po.len() - t.ix(runner),
#at before `domfront.entry(runner)`
  let ghost d2 = domfront@;
  proof { df_climb(t, runner, t.m[b], p); }
#at after `domfront.entry(runner)`
  proof {
    assert forall|q: u32, d: u32| #[trigger] tree_arc(domfront@, q, d) == (tree_arc(d2, q, d) || (q == runner && d == b)) by {}
  }
#at exit `for &b in`
  proof { df_all(e, t, parents@, b); }
#tail r
  proof {
    assert forall|a: u32, b: u32| #[trigger] tree_arc(r@, a, b) == (self.postorder@.contains(b) && b != self.entry && frontier(e, self.entry, a, b)) by {
      if self.postorder@.contains(b) { ix_ok(t.po, b); let k = t.po.len() - 1 - t.ix(b); assert(ix_s@[k] == b); assert(done(ix_s@, ix_s@.len() as int, b)); }
      if done(ix_s@, ix_s@.len() as int, b) { let j = choose|j: int| 0 <= j < ix_s@.len() && #[trigger] ix_s@[j] == b; assert(t.po[t.po.len() - 1 - j] == b); }
      if self.postorder@.contains(b) && b != self.entry { df_is_frontier(*self, cfg.graph, a, b); }
    }
  }
@*/
}
proof fn df_from_none(t: Tab, ps: Seq<u32>, b: u32) ensures forall|a: u32| !#[trigger] df_from(t, ps, 0, a, b) {}
proof fn anc_self(t: Tab) ensures forall|x: u32| #[trigger] t.anc(x, x) {}
proof fn seq_step(s: Seq<u32>, i: int)
  requires 0 <= i < s.len(),
  ensures forall|k: u32| #[trigger] done(s, i + 1, k) == (done(s, i, k) || k == s[i]),
{
  assert forall|k: u32| #[trigger] done(s, i + 1, k) == (done(s, i, k) || k == s[i]) by {
    if done(s, i, k) { let j = choose|j: int| 0 <= j < i && s[j] == k; assert(s[j] == k && j < i + 1); }
  }
}

// ---- the nearest common dominator ----
/// `x` is the nearest of the labels above both
spec fn is_lca(t: Tab, x: u32, a: u32, b: u32) -> bool {
  &&& t.anc(x, a) && t.anc(x, b)
  &&& forall|y: u32| #[trigger] t.anc(y, a) && t.anc(y, b) ==> t.anc(y, x)
}
/// `x` is above all the labels and below every label that is
spec fn is_lca_all(t: Tab, x: u32, ls: Seq<u32>) -> bool {
  &&& forall|i: int| 0 <= i < ls.len() ==> t.anc(x, #[trigger] ls[i])
  &&& forall|y: u32| (forall|i: int| 0 <= i < ls.len() ==> t.anc(y, #[trigger] ls[i])) ==> #[trigger] t.anc(y, x)
}
/// `nodes.into_iter()`: the elements in order
struct Items { v: Vec<u32>, at: usize }
impl Items {
  spec fn wf(self) -> bool { self.at <= self.v@.len() }
  fn of(v: Vec<u32>) -> (r: Self) ensures r.wf(), r.v == v, r.at == 0 { Items { v, at: 0 } }
  fn next(&mut self) -> (r: Option<u32>)
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v == old(self).v,
      match r { Some(x) => old(self).at < old(self).v@.len() && x == old(self).v@[old(self).at as int] && final(self).at == old(self).at + 1, None => old(self).at == old(self).v@.len() && final(self).at == old(self).at },
  { if self.at < self.v.len() { self.at += 1; Some(self.v[self.at - 1]) } else { None } }
  #[verifier::external_body]
  fn rest(self) -> (r: Vec<u32>) requires self.wf(), ensures r@ == self.v@.skip(self.at as int) { unimplemented!() }
}
proof fn lca_climb(t: Tab, n: u32)
  requires t.tree(), t.known(n), t.po.contains(n),
  ensures n != t.entry ==> t.m.contains_key(n) && t.po.contains(t.m[n]) && t.ix(t.m[n]) > t.ix(n) && t.ix(t.m[n]) < t.po.len() && t.known(t.m[n]),
    n != t.entry ==> forall|x: u32| #[trigger] t.anc(x, n) == (x == n || t.anc(x, t.m[n])),
    n != t.entry ==> forall|x: u32| t.anc(x, n) == (x == n || #[trigger] t.anc(x, t.m[n])),
    n == t.entry ==> forall|x: u32| #[trigger] t.anc(x, n) == (x == n),
{
  if n != t.entry { assert(t.up(n)); }
}
impl<const POST: bool> Dom<POST> {
/*@fn optimize-js/src/dom/mod.rs :: Dom::lca
#ret r
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
  requires self.shape(),
  ensures
    match r { Some(x) => x == a && a == b || (self.postorder@.contains(a) && self.postorder@.contains(b) && is_lca(self.tab(), x, a, b) && self.postorder@.contains(x)), None => !self.postorder@.contains(a) || !self.postorder@.contains(b) },
    a == b ==> r == Some(a),
#entry
  hide(Tab::anc); hide(Tab::up); hide(Tab::over); hide(Tab::meets); hide(Tab::tree);
  let ghost t = self.tab();
  proof {
    tree_entry(t); anc_self(t);
    assert forall|x: u32| #[trigger] t.m.contains_key(x) == (t.po.contains(x) && x != t.entry) by { assert(self.idom_by@.contains_key(x) == t.m.contains_key(x)); }
  }
#loop 0
  invariant
    a != b, t == self.tab(), self.shape(), t.tree(), t.po.contains(t.entry), t.known(t.entry),
    forall|x: u32| #[trigger] t.m.contains_key(x) == (t.po.contains(x) && x != t.entry),
    t.po.contains(a) == t.po.contains(current), t.anc(current, a),
    forall|x: u32| #[trigger] t.anc(x, x),
    forall|x: u32| #[trigger] ancestors@.contains(x) ==> t.anc(x, a),
    forall|x: u32| #[trigger] t.anc(x, a) ==> ancestors@.contains(x) || t.anc(x, current),
  ensures
    t.po.contains(a), forall|x: u32| #[trigger] ancestors@.contains(x) == t.anc(x, a),
#at after `ancestors.insert(current)`
  proof { if t.po.contains(current) { lca_climb(t, current); } }
#at before `current = *self.idom_by.get(&current)?;` 0
  proof { if t.po.contains(current) { climb_to(t, current, a); } }
#loop 1
  invariant
    a != b, t == self.tab(), self.shape(), t.tree(), t.po.contains(t.entry), t.known(t.entry), t.po.contains(a), t.known(a),
    forall|x: u32| #[trigger] t.m.contains_key(x) == (t.po.contains(x) && x != t.entry),
    forall|x: u32| #[trigger] ancestors@.contains(x) == t.anc(x, a),
    t.po.contains(b) == t.po.contains(current), t.anc(current, b),
    forall|x: u32| #[trigger] t.anc(x, a) && t.anc(x, b) ==> t.anc(x, current),
  ensures
    !t.po.contains(b),
#at before `if ancestors.contains(&current)`
  proof {
    if t.po.contains(current) { lca_climb(t, current); if current == t.entry { t.anc_entry(a); } }
    if ancestors@.contains(current) { t.anc_up(current, a); }
  }
#at before `current = *self.idom_by.get(&current)?;` 1
  proof { if t.po.contains(current) { climb_to(t, current, b); } }
@*/
}
impl<const POST: bool> Dom<POST> {
/*@fn optimize-js/src/dom/mod.rs :: Dom::lca_all
#ret r
#sig `impl IntoIterator<Item = u32>` => `Vec<u32>`
#rewrite `nodes.into_iter()` => `Items::of(nodes)`
#spec
  requires self.shape(), forall|i: int| 0 <= i < nodes@.len() ==> self.postorder@.contains(#[trigger] nodes@[i]),
  ensures match r { Some(x) => nodes@.len() > 0 && is_lca_all(self.tab(), x, nodes@), None => nodes@.len() == 0 },
#entry
  hide(Tab::anc); hide(Tab::up); hide(Tab::over); hide(Tab::meets); hide(Tab::tree);
  let ghost t = self.tab();
  let ghost ls = nodes@;
  proof { anc_self(t); }
#loop 0 while=jx list=rest
  invariant
    t == self.tab(), self.shape(), jx <= jx_s@.len(), jx_s@ == ls.skip(1), ls.len() > 0,
    forall|i: int| 0 <= i < ls.len() ==> t.po.contains(#[trigger] ls[i]),
    forall|x: u32| #[trigger] t.anc(x, x),
    t.po.contains(acc), is_lca_all(t, acc, ls.take(jx + 1)),
  decreases jx_s@.len() - jx,
#at before `for n in iter`
  proof { assert(ls.take(1)[0] == acc); assert(ls[0] == acc); }
#at before `acc = self.lca(acc, n)?`
  let ghost prev = acc;
  proof { assert(n == ls[jx as int]); assert(t.po.contains(ls[jx as int])); }
#at after `acc = self.lca(acc, n)?`
  proof { lca_step(t, prev, acc, n, ls, jx as int); }
#tail r
  proof { assert(ls.take(ls.len() as int) =~= ls); }
@*/
}
proof fn lca_step(t: Tab, prev: u32, acc: u32, n: u32, ls: Seq<u32>, k: int)
  requires t.tree(), 0 < k < ls.len(), ls[k] == n, is_lca_all(t, prev, ls.take(k)), is_lca(t, acc, prev, n) || acc == prev && prev == n,
  ensures is_lca_all(t, acc, ls.take(k + 1)),
{
  anc_self(t);
  let a = ls.take(k); let b = ls.take(k + 1);
  assert forall|i: int| 0 <= i < b.len() implies t.anc(acc, #[trigger] b[i]) by {
    if i < k { assert(b[i] == a[i]); t.anc_trans(acc, prev, a[i]); } else { assert(b[i] == n); }
  }
  assert forall|y: u32| (forall|i: int| 0 <= i < b.len() ==> t.anc(y, #[trigger] b[i])) implies #[trigger] t.anc(y, acc) by {
    assert(t.anc(y, b[k]));
    assert forall|i: int| 0 <= i < a.len() implies t.anc(y, #[trigger] a[i]) by { assert(t.anc(y, b[i])); }
    assert(t.anc(y, prev));
  }
}
/// in terms of dominance: `lca` answers the common dominator that all common dominators dominate
proof fn lca_is_nearest<const POST: bool>(d: Dom<POST>, e: Arcs, x: u32, a: u32, b: u32)
  requires d.ok(e), d.postorder@.contains(a), d.postorder@.contains(b), d.postorder@.contains(x), is_lca(d.tab(), x, a, b),
  ensures domn(e, d.entry, x, a), domn(e, d.entry, x, b), forall|y: u32| #[trigger] domn(e, d.entry, y, a) && domn(e, d.entry, y, b) ==> domn(e, d.entry, y, x),
{
  dom_is_anc(d, e, x, a); dom_is_anc(d, e, x, b);
  assert forall|y: u32| #[trigger] domn(e, d.entry, y, a) && domn(e, d.entry, y, b) implies domn(e, d.entry, y, x) by {
    dom_is_anc(d, e, y, a); dom_is_anc(d, e, y, b); dom_is_anc(d, e, y, x);
  }
}
proof fn climb_to(t: Tab, n: u32, b: u32)
  requires t.tree(), t.po.contains(n), t.m.contains_key(n), n != t.entry, t.anc(n, b),
  ensures t.anc(t.m[n], b), t.po.contains(t.m[n]),
{ climb(t, n, b); }
proof fn tree_entry(t: Tab) requires t.tree(), ensures t.po.contains(t.entry), t.known(t.entry) { assert(t.po[t.po.len() - 1] == t.entry); }
fn main() {}
}
