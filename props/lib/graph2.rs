// ---- lib/graph2.rs: postorder ----
/// What may be seen but not yet ordered when `n` is visited: labels that lead to `n`.
spec fn visit_pre(e: Arcs, n: u32, s: Set<u32>, o: Seq<u32>) -> bool {
  &&& o.no_duplicates()
  &&& forall|i: int| 0 <= i < o.len() ==> s.contains(#[trigger] o[i])
  &&& forall|x: u32| #[trigger] s.contains(x) && !o.contains(x) ==> reach(e, x, n)
}
/// What a visit does to the seen set and the order.
spec fn visited(e: Arcs, s0: Set<u32>, s1: Set<u32>, o0: Seq<u32>, o1: Seq<u32>) -> bool {
  &&& o0.len() <= o1.len() && o1.take(o0.len() as int) =~= o0 && o1.no_duplicates()
  &&& forall|x: u32| #[trigger] s1.contains(x) ==> s0.contains(x) || exists|i: int| o0.len() <= i < o1.len() && #[trigger] o1[i] == x
  &&& forall|x: u32| #[trigger] s0.contains(x) ==> s1.contains(x)
  &&& forall|i: int| 0 <= i < o1.len() ==> s1.contains(#[trigger] o1[i])
  &&& forall|i: int| o0.len() <= i < o1.len() ==> !s0.contains(#[trigger] o1[i])
  &&& forall|i: int, c: u32| o0.len() <= i < o1.len() && #[trigger] e(o1[i], c) ==> s1.contains(c)
  &&& forall|i: int, c: u32| o0.len() <= i < o1.len() && #[trigger] e(o1[i], c) ==>
        (exists|j: int| 0 <= j < i && #[trigger] o1[j] == c) || reach(e, c, o1[i])
}
spec fn later_pred(e: Arcs, o: Seq<u32>, i: int) -> bool { exists|j: int| i < j < o.len() && e(#[trigger] o[j], o[i]) }
spec fn visit_post(e: Arcs, n: u32, s0: Set<u32>, s1: Set<u32>, o0: Seq<u32>, o1: Seq<u32>) -> bool {
  &&& visited(e, s0, s1, o0, o1)
  &&& s0.contains(n) ==> o1 == o0 && s1 =~= s0
  &&& !s0.contains(n) ==> o1.len() > o0.len() && o1.last() == n
  &&& s1.contains(n)
  &&& forall|i: int| o0.len() <= i < o1.len() ==> reach(e, n, #[trigger] o1[i])
  &&& forall|i: int| o0.len() <= i < o1.len() - 1 ==> #[trigger] later_pred(e, o1, i)
}
/// The state between the children of `n`.
spec fn visiting(e: Arcs, n: u32, s0: Set<u32>, s1: Set<u32>, o0: Seq<u32>, o1: Seq<u32>) -> bool {
  &&& visited(e, s0.insert(n), s1, o0, o1)
  &&& forall|i: int| o0.len() <= i < o1.len() ==> reach(e, n, #[trigger] o1[i])
  &&& forall|i: int| o0.len() <= i < o1.len() ==> e(n, o1[i]) || #[trigger] later_pred(e, o1, i)
}
proof fn visiting_pre(e: Arcs, n: u32, c: u32, s0: Set<u32>, s1: Set<u32>, o0: Seq<u32>, o1: Seq<u32>)
  requires visit_pre(e, n, s0, o0), !s0.contains(n), visiting(e, n, s0, s1, o0, o1), e(n, c),
  ensures visit_pre(e, c, s1, o1),
{
  assert forall|x: u32| #[trigger] s1.contains(x) && !o1.contains(x) implies reach(e, x, c) by {
    assert(s0.insert(n).contains(x));
    if x == n { reach_refl(e, n); } else {
      if o0.contains(x) { let i = choose|i: int| 0 <= i < o0.len() && o0[i] == x; assert(o1.take(o0.len() as int)[i] == o1[i]); assert(o1.contains(o1[i])); }
    }
    reach_step(e, x, n, c);
  }
}
proof fn visiting_step(e: Arcs, n: u32, c: u32, s0: Set<u32>, s1: Set<u32>, s2: Set<u32>, o0: Seq<u32>, o1: Seq<u32>, o2: Seq<u32>)
  requires visiting(e, n, s0, s1, o0, o1), e(n, c), visit_post(e, c, s1, s2, o1, o2),
  ensures visiting(e, n, s0, s2, o0, o2),
{
  assert forall|i: int| 0 <= i < o1.len() implies o1[i] == o2[i] by { assert(o2.take(o1.len() as int)[i] == o2[i]); }
  assert forall|i: int| 0 <= i < o0.len() implies o0[i] == o2[i] by { assert(o1.take(o0.len() as int)[i] == o1[i]); }
  assert(o2.take(o0.len() as int) =~= o0);
  let t = s0.insert(n);
  assert forall|x: u32| #[trigger] s2.contains(x) implies t.contains(x) || exists|i: int| o0.len() <= i < o2.len() && #[trigger] o2[i] == x by {
    if s1.contains(x) {
      if !t.contains(x) { let i = choose|i: int| o0.len() <= i < o1.len() && #[trigger] o1[i] == x; assert(o2[i] == x); }
    } else { let i = choose|i: int| o1.len() <= i < o2.len() && #[trigger] o2[i] == x; assert(o2[i] == x); }
  }
  assert forall|i: int, d: u32| o0.len() <= i < o2.len() && #[trigger] e(o2[i], d) implies
        (exists|j: int| 0 <= j < i && #[trigger] o2[j] == d) || reach(e, d, o2[i]) by {
    if i < o1.len() {
      assert(e(o1[i], d));
      if !reach(e, d, o1[i]) { let j = choose|j: int| 0 <= j < i && #[trigger] o1[j] == d; assert(o2[j] == d); }
    }
  }
  assert forall|i: int, d: u32| o0.len() <= i < o2.len() && #[trigger] e(o2[i], d) implies s2.contains(d) by {
    if i < o1.len() { assert(e(o1[i], d)); assert(s1.contains(d)); }
  }
  assert forall|i: int| o0.len() <= i < o2.len() implies reach(e, n, #[trigger] o2[i]) by {
    if i < o1.len() { assert(reach(e, n, o1[i])); } else { assert(reach(e, c, o2[i])); reach_refl(e, n); reach_step(e, n, n, c); reach_trans(e, n, c, o2[i]); }
  }
  assert forall|i: int| o0.len() <= i < o2.len() implies e(n, o2[i]) || #[trigger] later_pred(e, o2, i) by {
    if i < o1.len() {
      if !e(n, o1[i]) { assert(later_pred(e, o1, i)); let j = choose|j: int| i < j < o1.len() && e(#[trigger] o1[j], o1[i]); assert(e(o2[j], o2[i])); }
    } else if i < o2.len() - 1 { assert(later_pred(e, o2, i)); }
  }
  assert forall|i: int| 0 <= i < o2.len() implies s2.contains(#[trigger] o2[i]) by { }
  assert forall|i: int| o0.len() <= i < o2.len() implies !t.contains(#[trigger] o2[i]) by {
    if i < o1.len() { assert(!t.contains(o1[i])); } else { assert(!s1.contains(o2[i])); }
  }
}
proof fn visiting_done(e: Arcs, n: u32, s0: Set<u32>, s1: Set<u32>, o0: Seq<u32>, o1: Seq<u32>)
  requires visit_pre(e, n, s0, o0), !s0.contains(n), visiting(e, n, s0, s1, o0, o1), forall|c: u32| #[trigger] e(n, c) ==> s1.contains(c),
  ensures visit_post(e, n, s0, s1, o0, o1.push(n)),
{
  let o2 = o1.push(n); let t = s0.insert(n);
  assert forall|i: int| 0 <= i < o0.len() implies o0[i] == o1[i] by { assert(o1.take(o0.len() as int)[i] == o1[i]); }
  assert(o2.take(o0.len() as int) =~= o0);
  assert forall|i: int| 0 <= i < o1.len() implies o1[i] != n by {
    if i < o0.len() { assert(s0.contains(o0[i])); } else { assert(!t.contains(o1[i])); }
  }
  assert(o2[o1.len() as int] == n && t.contains(n));
  assert forall|i: int, d: u32| o0.len() <= i < o2.len() && #[trigger] e(o2[i], d) implies
        (exists|j: int| 0 <= j < i && #[trigger] o2[j] == d) || reach(e, d, o2[i]) by {
    if i < o1.len() {
      assert(e(o1[i], d));
      if !reach(e, d, o1[i]) { let j = choose|j: int| 0 <= j < i && #[trigger] o1[j] == d; assert(o2[j] == d); }
    } else {
      assert(s1.contains(d));
      if d == n { reach_refl(e, n); }
      else if s0.contains(d) {
        if o0.contains(d) { let j = choose|j: int| 0 <= j < o0.len() && o0[j] == d; assert(o2[j] == d); }
        else { assert(reach(e, d, n)); }
      } else { let j = choose|j: int| o0.len() <= j < o1.len() && #[trigger] o1[j] == d; assert(o2[j] == d); }
    }
  }
  assert forall|i: int, d: u32| o0.len() <= i < o2.len() && #[trigger] e(o2[i], d) implies s1.contains(d) by {
    if i < o1.len() { assert(e(o1[i], d)); }
  }
  assert forall|i: int| o0.len() <= i < o2.len() implies reach(e, n, #[trigger] o2[i]) by {
    if i < o1.len() { assert(reach(e, n, o1[i])); } else { reach_refl(e, n); }
  }
  assert forall|i: int| o0.len() <= i < o2.len() - 1 implies #[trigger] later_pred(e, o2, i) by {
    if e(n, o1[i]) { assert(e(o2[o1.len() as int], o2[i])); }
    else { assert(later_pred(e, o1, i)); let j = choose|j: int| i < j < o1.len() && e(#[trigger] o1[j], o1[i]); assert(e(o2[j], o2[i])); }
  }
  assert forall|x: u32| #[trigger] s1.contains(x) implies s0.contains(x) || exists|i: int| o0.len() <= i < o2.len() && #[trigger] o2[i] == x by {
    if x == n { assert(o2[o1.len() as int] == x); }
    else if !t.contains(x) { let i = choose|i: int| o0.len() <= i < o1.len() && #[trigger] o1[i] == x; assert(o2[i] == x); }
  }
  assert forall|i: int| 0 <= i < o2.len() implies s1.contains(#[trigger] o2[i]) by { if i < o1.len() { assert(s1.contains(o1[i])); } }
  assert forall|i: int| o0.len() <= i < o2.len() implies !s0.contains(#[trigger] o2[i]) by { if i < o1.len() { assert(!t.contains(o1[i])); } }
  assert(o2.no_duplicates());
  assert forall|x: u32| #[trigger] s0.contains(x) implies s1.contains(x) by { assert(t.contains(x)); }
  assert(visited(e, s0, s1, o0, o2));
}
proof fn fewer_unseen(g: &Graph, rev: bool, n: u32, c: u32, s0: Set<u32>, s1: Set<u32>)
  requires g.wf(), g.arcs(rev)(n, c), !s0.contains(n), forall|x: u32| #[trigger] s0.insert(n).contains(x) ==> s1.contains(x),
  ensures g.nodes@.dom().difference(s1).len() < g.nodes@.dom().difference(s0).len(),
{
  g.nodes.finite();
  assert(g.has(n)) by { if rev { assert(g.edge(c, n) == g.back(c, n)); } else { assert(g.edge(n, c)); } }
  let a = g.nodes@.dom().difference(s1); let b = g.nodes@.dom().difference(s0);
  assert(s0.insert(n).contains(n));
  assert(a.subset_of(b.remove(n))) by {
    assert forall|x: u32| #[trigger] a.contains(x) implies b.remove(n).contains(x) by { if s0.contains(x) { assert(s0.insert(n).contains(x)); } }
  }
  assert(b.contains(n));
  vstd::set_lib::lemma_len_subset(a, b.remove(n));
}

impl<'a> PostOrderVisitor<'a> {
  spec fn arcs(self) -> Arcs { self.graph.arcs(self.reversed_graph) }
/*@fn optimize-js/src/graph/mod.rs :: PostOrderVisitor::visit
#sig `n: &'a K` => `n: &K`
#rewrite `insert(n)` => `insert(*n)`
#rewrite `push(n)` => `push(*n)`
#rewrite `let mut children: Vec<&K>` => `let mut children: Vec<K>`
#rewrite `.collect()` => ``
#rewrite `children.sort_unstable();` => `sort_u32(&mut children);`
#rewrite `self.visit(c)` => `self.visit(&c)`
#spec
  requires
    old(self).graph.wf(),
    visit_pre(old(self).arcs(), *n, old(self).seen@, old(self).order@),
  ensures
    final(self).graph == old(self).graph, final(self).reversed_graph == old(self).reversed_graph,
    visit_post(old(self).arcs(), *n, old(self).seen@, final(self).seen@, old(self).order@, final(self).order@),
  decreases old(self).graph.nodes@.dom().difference(old(self).seen@).len(),
#entry
  let ghost e = self.arcs();
  let ghost s0 = self.seen@;
  let ghost o0 = self.order@;
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), e == self.arcs(), e == old(self).arcs(), self.graph == old(self).graph, self.reversed_graph == old(self).reversed_graph,
    self.graph.wf(), s0 == old(self).seen@, o0 == old(self).order@, !s0.contains(*n),
    forall|x: u32| #[trigger] ix_s@.contains(x) <==> e(*n, x),
    visit_pre(e, *n, s0, o0),
    visiting(e, *n, s0, self.seen@, o0, self.order@),
    forall|k: int| 0 <= k < ix ==> self.seen@.contains(#[trigger] ix_s@[k]),
  decreases ix_s@.len() - ix,
#at before `self.visit(c)`
  let ghost (s1, o1) = (self.seen@, self.order@);
  proof {
    assert(ix_s@.contains(c));
    visiting_pre(e, *n, c, s0, s1, o0, o1);
    fewer_unseen(self.graph, self.reversed_graph, *n, c, s0, s1);
  }
#at after `self.visit(c)`
  proof {
    visiting_step(e, *n, c, s0, s1, self.seen@, o0, o1, self.order@);
  }
#at before `self.order.push(n)`
  proof {
    assert forall|c: u32| #[trigger] e(*n, c) implies self.seen@.contains(c) by { assert(ix_s@.contains(c)); }
    visiting_done(e, *n, s0, self.seen@, o0, self.order@);
  }
@*/
}
