// ---- lib/sink.rs: labels nothing leads away from for good ----
/// `n` lies on a cycle (or dead end) that nothing leaves
spec fn sink(e: Arcs, n: u32) -> bool { forall|y: u32| #[trigger] reach(e, n, y) ==> reach(e, y, n) }
proof fn lists_len(l: Seq<u32>, s: Set<u32>)
  requires lists(l, s),
  ensures l.len() == s.len(),
{
  l.unique_seq_to_set();
  assert(l.to_set() =~= s);
}
spec fn sub_arcs(a: CfgGraph, b: CfgGraph) -> bool { forall|x: u32, y: u32| #[trigger] a.edge(x, y) == b.edge(x, y) }
proof fn same_reach(a: CfgGraph, b: CfgGraph, x: u32, y: u32)
  requires sub_arcs(a, b), reach(a.arcs(false), x, y),
  ensures reach(b.arcs(false), x, y),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(a.arcs(false), p, x, y);
  assert(walk(b.arcs(false), p, x, y)) by {
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() implies b.arcs(false)(#[trigger] p[i], #[trigger] p[j]) by { assert(a.arcs(false)(p[i], p[j])); assert(a.edge(p[i], p[j])); }
  }
}
proof fn same_sink(a: CfgGraph, b: CfgGraph, x: u32)
  requires sub_arcs(a, b),
  ensures sink(a.arcs(false), x) == sink(b.arcs(false), x),
{
  assert(sub_arcs(b, a));
  if sink(a.arcs(false), x) {
    assert forall|y: u32| #[trigger] reach(b.arcs(false), x, y) implies reach(b.arcs(false), y, x) by { same_reach(b, a, x, y); same_reach(a, b, y, x); }
  }
  if sink(b.arcs(false), x) {
    assert forall|y: u32| #[trigger] reach(a.arcs(false), x, y) implies reach(a.arcs(false), y, x) by { same_reach(a, b, x, y); same_reach(b, a, y, x); }
  }
}
proof fn childless_sink(g: CfgGraph, x: u32)
  requires forall|y: u32| !#[trigger] g.edge(x, y),
  ensures sink(g.arcs(false), x),
{
  let e = g.arcs(false);
  assert forall|y: u32| #[trigger] reach(e, x, y) implies reach(e, y, x) by {
    let p = choose|p: Seq<u32>| #[trigger] walk(e, p, x, y);
    if p.len() > 1 { assert(e(p[0], p[1])); assert(g.edge(x, p[1])); } else { reach_refl(e, x); }
  }
}
/// following arcs backwards
proof fn rev_reach(g: CfgGraph, a: u32, b: u32)
  requires reach(g.arcs(false), a, b),
  ensures reach(g.arcs(true), b, a),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(g.arcs(false), p, a, b);
  let q = p.reverse();
  assert(walk(g.arcs(true), q, b, a)) by {
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies g.arcs(true)(#[trigger] q[i], #[trigger] q[j]) by {
      assert(g.arcs(false)(p[p.len() - 1 - j], p[p.len() - 1 - i]));
    }
  }
}
/// walks of `g0` are walks of a graph with more arcs
proof fn more_reach(g0: CfgGraph, g: CfgGraph, a: u32, b: u32)
  requires reach(g0.arcs(false), a, b), forall|x: u32, y: u32| #[trigger] g0.edge(x, y) ==> g.edge(x, y),
  ensures reach(g.arcs(false), a, b),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(g0.arcs(false), p, a, b);
  assert(walk(g.arcs(false), p, a, b)) by {
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() implies g.arcs(false)(#[trigger] p[i], #[trigger] p[j]) by { assert(g0.arcs(false)(p[i], p[j])); assert(g0.edge(p[i], p[j])); }
  }
}
proof fn has_reach(g: CfgGraph, a: u32, b: u32)
  requires g.wf(), g.has(a), reach(g.arcs(false), a, b),
  ensures g.has(b),
{
  let s = g.0.nodes@.dom();
  assert forall|x: u32, y: u32| s.contains(x) && #[trigger] g.arcs(false)(x, y) implies s.contains(y) by { assert(g.0.edge(x, y)); assert(g.0.back(x, y)); }
  closed_reach(g.arcs(false), s, a, b);
}
/// every label leads to a sink
proof fn sink_below(g: CfgGraph, n: u32, r: Set<u32>) -> (s: u32)
  requires g.wf(), g.has(n), forall|y: u32| #[trigger] r.contains(y) <==> reach(g.arcs(false), n, y),
  ensures g.has(s), sink(g.arcs(false), s), reach(g.arcs(false), n, s),
  decreases r.len(),
{
  let e = g.arcs(false);
  if sink(e, n) { reach_refl(e, n); n } else {
    let y = choose|y: u32| #[trigger] reach(e, n, y) && !reach(e, y, n);
    has_reach(g, n, y);
    let q = r.filter(|z: u32| reach(e, y, z));
    assert forall|z: u32| #[trigger] q.contains(z) <==> reach(e, y, z) by { if reach(e, y, z) { reach_trans(e, n, y, z); assert(r.contains(z)); } }
    reach_refl(e, n);
    assert(r.contains(n) && !q.contains(n));
    assert(q.subset_of(r.remove(n)));
    vstd::set_lib::lemma_len_subset(q, r.remove(n));
    let s = sink_below(g, y, q);
    reach_trans(e, n, y, s);
    s
  }
}
