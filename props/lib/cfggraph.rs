// ---- lib/cfggraph.rs: postorder entry points and the label-level wrapper ----
/// Each label of the list mapped to its position.
spec fn positions(po: Seq<u32>, m: Map<u32, usize>) -> bool {
  &&& forall|k: u32| #[trigger] m.contains_key(k) <==> po.contains(k)
  &&& forall|i: int| 0 <= i < po.len() ==> m.contains_key(#[trigger] po[i]) && m[po[i]] == i
}
proof fn visit_all(e: Arcs, n: u32, s1: Set<u32>, o1: Seq<u32>)
  requires visit_post(e, n, Set::<u32>::empty(), s1, Seq::<u32>::empty(), o1),
  ensures is_postorder(e, n, o1),
{
  let o0 = Seq::<u32>::empty();
  assert(!Set::<u32>::empty().contains(n));
  assert forall|x: u32| #[trigger] o1.contains(x) <==> reach(e, n, x) by {
    if o1.contains(x) { let i = choose|i: int| 0 <= i < o1.len() && o1[i] == x; assert(reach(e, n, o1[i])); }
    if reach(e, n, x) {
      assert forall|a: u32, b: u32| s1.contains(a) && #[trigger] e(a, b) implies s1.contains(b) by {
        let i = choose|i: int| o0.len() <= i < o1.len() && #[trigger] o1[i] == a;
        assert(e(o1[i], b));
      }
      closed_reach(e, s1, n, x);
      let i = choose|i: int| o0.len() <= i < o1.len() && #[trigger] o1[i] == x;
      assert(o1[i] == x);
    }
  }
  assert forall|i: int| 0 <= i < o1.len() - 1 implies exists|j: int| i < j < o1.len() && e(o1[j], #[trigger] o1[i]) by {
    assert(later_pred(e, o1, i));
    let j = choose|j: int| i < j < o1.len() && e(#[trigger] o1[j], o1[i]);
    assert(e(o1[j], o1[i]));
  }
  assert forall|i: int, j: int| 0 <= i < j < o1.len() && #[trigger] e(o1[i], o1[j]) implies reach(e, o1[j], o1[i]) by {
    if !reach(e, o1[j], o1[i]) { let k = choose|k: int| 0 <= k < i && #[trigger] o1[k] == o1[j]; }
  }
}
impl Graph {
/*@fn optimize-js/src/graph/mod.rs :: Graph::nodes
#ret r
#sig `impl Iterator<Item = &K> + '_` => `Vec<K>`
#spec
  ensures lists(r@, self.nodes@.dom()),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::_calculate_postorder
#ret r
#sig `(Vec<&'a K>, HashMap<&'a K, usize>)` => `(Vec<K>, HashMap<K, usize>)`
#sig `where K: Ord,` => ``
#rewrite `po .iter() .enumerate() .map(|(i, l)| (*l, i)) .collect::<HashMap<_, _>>()` => `index_map(&po)`
#spec
  requires self.wf(),
  ensures is_postorder(self.arcs(reversed_graph), *entry, r.0@), positions(r.0@, r.1@),
#at after `order_po_v.visit(entry)`
  proof { visit_all(self.arcs(reversed_graph), *entry, order_po_v.seen@, order_po_v.order@); }
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::calculate_postorder
#ret r
#sig `(Vec<&'a K>, HashMap<&'a K, usize>)` => `(Vec<K>, HashMap<K, usize>)`
#sig `where K: Ord,` => ``
#spec
  requires self.wf(),
  ensures is_postorder(self.arcs(false), *entry, r.0@), positions(r.0@, r.1@),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::calculate_reversed_graph_postorder
#ret r
#sig `(Vec<&'a K>, HashMap<&'a K, usize>)` => `(Vec<K>, HashMap<K, usize>)`
#sig `where K: Ord,` => ``
#spec
  requires self.wf(),
  ensures is_postorder(self.arcs(true), *entry, r.0@), positions(r.0@, r.1@),
@*/
}

impl CfgGraph {
  spec fn wf(self) -> bool { self.0.wf() }
  spec fn has(self, a: u32) -> bool { self.0.has(a) }
  spec fn edge(self, a: u32, b: u32) -> bool { self.0.edge(a, b) }
  spec fn arcs(self, rev: bool) -> Arcs { self.0.arcs(rev) }

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::labels
#ret r
#sig `impl Iterator<Item = u32> + '_` => `Vec<u32>`
#rewrite `.cloned()` => ``
#spec
  ensures lists(r@, self.0.nodes@.dom()),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::contains
#ret r
#spec
  ensures r == self.has(label),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::labels_sorted
#ret r
#rewrite `.collect_vec()` => ``
#rewrite `labels.sort_unstable();` => `sort_u32(&mut labels);`
#spec
  ensures lists(r@, self.0.nodes@.dom()), ascending(r@),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::parents
#ret r
#sig `iter::Cloned<GraphRelatedNodesIter<'_, u32>>` => `Vec<u32>`
#rewrite `.cloned()` => ``
#spec
  ensures r@.no_duplicates(), forall|a: u32| #[trigger] r@.contains(a) <==> self.0.back(a, bblock),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::parents_sorted
#ret r
#rewrite `.collect_vec()` => ``
#rewrite `parents.sort_unstable();` => `sort_u32(&mut parents);`
#spec
  ensures r@.no_duplicates(), ascending(r@), forall|a: u32| #[trigger] r@.contains(a) <==> self.0.back(a, bblock),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::children
#ret r
#sig `iter::Cloned<GraphRelatedNodesIter<'_, u32>>` => `Vec<u32>`
#rewrite `.cloned()` => ``
#spec
  ensures r@.no_duplicates(), forall|a: u32| #[trigger] r@.contains(a) <==> self.edge(bblock, a),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::children_sorted
#ret r
#rewrite `.collect_vec()` => ``
#rewrite `children.sort_unstable();` => `sort_u32(&mut children);`
#spec
  ensures r@.no_duplicates(), ascending(r@), forall|a: u32| #[trigger] r@.contains(a) <==> self.edge(bblock, a),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::sorted_labels
#ret r
#spec
  ensures lists(r@, self.0.nodes@.dom()), ascending(r@),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::sorted_parents
#ret r
#spec
  ensures r@.no_duplicates(), ascending(r@), forall|a: u32| #[trigger] r@.contains(a) <==> self.0.back(a, bblock),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::sorted_children
#ret r
#spec
  ensures r@.no_duplicates(), ascending(r@), forall|a: u32| #[trigger] r@.contains(a) <==> self.edge(bblock, a),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::calculate_postorder
#ret r
#rewrite `postorder.into_iter().map(|&n| n).collect_vec()` => `postorder`
#rewrite `label_to_postorder .into_iter() .map(|(&k, v)| (k, v)) .collect::<HashMap<_, _>>()` => `label_to_postorder`
#spec
  requires self.wf(),
  ensures is_postorder(self.arcs(false), entry, r.0@), positions(r.0@, r.1@),
@*/

/*@fn optimize-js/src/cfg/cfg.rs :: CfgGraph::calculate_reversed_graph_postorder
#ret r
#rewrite `postorder.into_iter().map(|&n| n).collect_vec()` => `postorder`
#rewrite `label_to_postorder .into_iter() .map(|(&k, v)| (k, v)) .collect::<HashMap<_, _>>()` => `label_to_postorder`
#spec
  requires self.wf(),
  ensures is_postorder(self.arcs(true), entry, r.0@), positions(r.0@, r.1@),
@*/
}
