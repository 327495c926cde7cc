// ---- lib/graph.rs: the directed graph of optimize-js, instantiated at u32 labels ----
type K = u32;

/*@type optimize-js/src/graph/mod.rs :: GraphNode
#rewrite `GraphNode<K: Clone + Default + Hash + Eq>` => `GraphNode`
@*/
/*@type optimize-js/src/graph/mod.rs :: Graph
#rewrite `Graph<K: Clone + Default + Hash + Eq>` => `Graph`
#rewrite `GraphNode<K>` => `GraphNode`
@*/
/*@type optimize-js/src/cfg/cfg.rs :: CfgGraph
#rewrite `Graph<u32>` => `Graph`
@*/
/*@type optimize-js/src/graph/mod.rs :: PostOrderVisitor
#rewrite `PostOrderVisitor<'a, K: Clone + Default + Eq + Hash + Ord>` => `PostOrderVisitor<'a>`
#rewrite `Graph<K>` => `Graph`
#rewrite `HashSet<&'a K>` => `HashSet<K>`
#rewrite `Vec<&'a K>` => `Vec<K>`
@*/

impl HasDefault for GraphNode {
  spec fn is_default(self) -> bool { self.children@ == Set::<u32>::empty() && self.parents@ == Set::<u32>::empty() }
  #[verifier::external_body]
  fn make() -> (r: Self) { unimplemented!() }
}
/// `option.into_iter().flatten()` of a list
trait Flat { spec fn flat_spec(self) -> Seq<K>; fn flat(self) -> (r: Vec<K>) where Self: Sized ensures r@ == self.flat_spec(); }
impl Flat for Option<Vec<K>> {
  spec fn flat_spec(self) -> Seq<K> { match self { Some(v) => v@, None => Seq::<K>::empty() } }
  fn flat(self) -> (r: Vec<K>) { match self { Some(v) => v, None => Vec::new() } }
}
/// `po.iter().enumerate().map(|(i, l)| (*l, i)).collect()`: each label mapped to its last index
#[verifier::external_body]
fn index_map(v: &Vec<K>) -> (r: HashMap<K, usize>)
  ensures
    forall|k: K| #[trigger] r@.contains_key(k) <==> v@.contains(k),
    v@.no_duplicates() ==> forall|i: int| 0 <= i < v@.len() ==> r@.contains_key(#[trigger] v@[i]) && r@[v@[i]] == i,
{ unimplemented!() }

type Arcs = spec_fn(u32, u32) -> bool;
/// A walk from `a` to `b` along arcs.
spec fn walk(e: Arcs, p: Seq<u32>, a: u32, b: u32) -> bool {
  &&& p.len() >= 1 && p[0] == a && p.last() == b
  &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() ==> e(#[trigger] p[i], #[trigger] p[j])
}
spec fn reach(e: Arcs, a: u32, b: u32) -> bool { exists|p: Seq<u32>| #[trigger] walk(e, p, a, b) }
proof fn reach_refl(e: Arcs, a: u32) ensures reach(e, a, a) { assert(walk(e, seq![a], a, a)); }
proof fn reach_step(e: Arcs, a: u32, b: u32, c: u32)
  requires reach(e, a, b), e(b, c),
  ensures reach(e, a, c),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(e, p, a, b);
  assert(walk(e, p.push(c), a, c));
}
proof fn reach_trans(e: Arcs, a: u32, b: u32, c: u32)
  requires reach(e, a, b), reach(e, b, c),
  ensures reach(e, a, c),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(e, p, b, c);
  reach_walk(e, a, b, c, p);
}
proof fn reach_walk(e: Arcs, a: u32, b: u32, c: u32, p: Seq<u32>)
  requires reach(e, a, b), walk(e, p, b, c),
  ensures reach(e, a, c),
  decreases p.len(),
{
  if p.len() > 1 {
    let q = p.drop_last();
    assert(walk(e, q, b, q.last()));
    reach_walk(e, a, b, q.last(), q);
    assert(e(p[p.len() - 2], p[p.len() - 1]));
    reach_step(e, a, q.last(), c);
  }
}
/// A set that contains `a` and is closed under arcs contains all that `a` reaches.
proof fn closed_reach(e: Arcs, s: Set<u32>, a: u32, b: u32)
  requires s.contains(a), forall|x: u32, y: u32| s.contains(x) && #[trigger] e(x, y) ==> s.contains(y), reach(e, a, b),
  ensures s.contains(b),
{
  let p = choose|p: Seq<u32>| #[trigger] walk(e, p, a, b);
  closed_walk(e, s, a, b, p);
}
proof fn closed_walk(e: Arcs, s: Set<u32>, a: u32, b: u32, p: Seq<u32>)
  requires s.contains(a), forall|x: u32, y: u32| s.contains(x) && #[trigger] e(x, y) ==> s.contains(y), walk(e, p, a, b),
  ensures s.contains(b),
  decreases p.len(),
{
  if p.len() > 1 {
    let q = p.drop_last();
    assert(walk(e, q, a, q.last()));
    closed_walk(e, s, a, q.last(), q);
    assert(e(p[p.len() - 2], p[p.len() - 1]));
  }
}

/// A depth-first postorder of what `entry` reaches.
spec fn is_postorder(e: Arcs, entry: u32, po: Seq<u32>) -> bool {
  &&& po.no_duplicates() && po.len() > 0 && po.last() == entry
  &&& forall|x: u32| #[trigger] po.contains(x) <==> reach(e, entry, x)
  // every label but the entry has a predecessor that comes later
  &&& forall|i: int| 0 <= i < po.len() - 1 ==> exists|j: int| i < j < po.len() && e(po[j], #[trigger] po[i])
  // an arc to a later label closes a cycle
  &&& forall|i: int, j: int| 0 <= i < j < po.len() && #[trigger] e(po[i], po[j]) ==> reach(e, po[j], po[i])
}

/// what the neighbours of a node being contracted away are, self-loop excluded
spec fn self_clean(g: Graph, n: u32, children: Set<u32>, parents: Set<u32>) -> bool {
  &&& g.wf() && g.has(n)
  &&& forall|k: u32| #[trigger] children.contains(k) == (g.edge(n, k) && k != n)
  &&& forall|k: u32| #[trigger] parents.contains(k) == (g.edge(k, n) && k != n)
  &&& forall|k: u32| #[trigger] children.contains(k) ==> g.has(k)
  &&& forall|k: u32| #[trigger] parents.contains(k) ==> g.has(k)
}
spec fn done(s: Seq<u32>, i: int, k: u32) -> bool { exists|j: int| 0 <= j < i && #[trigger] s[j] == k }
proof fn done_step(s: Seq<u32>, i: int, st: Set<u32>)
  requires lists(s, st), 0 <= i < s.len(),
  ensures st.contains(s[i]), forall|k: u32| #[trigger] done(s, i + 1, k) == (done(s, i, k) || k == s[i]),
{
  assert(s.contains(s[i]));
  assert forall|k: u32| #[trigger] done(s, i + 1, k) == (done(s, i, k) || k == s[i]) by {
    if done(s, i, k) { let j = choose|j: int| 0 <= j < i && s[j] == k; assert(s[j] == k && j < i + 1); }
  }
}
proof fn done_all(s: Seq<u32>, st: Set<u32>)
  requires lists(s, st),
  ensures forall|k: u32| #[trigger] st.contains(k) == done(s, s.len() as int, k), forall|k: u32| #[trigger] done(s, s.len() as int, k) == st.contains(k),
{
  assert forall|k: u32| #[trigger] st.contains(k) == done(s, s.len() as int, k) by { assert(s.contains(k) == done(s, s.len() as int, k)); }
}
impl Graph {
  spec fn has(self, a: u32) -> bool { self.nodes@.contains_key(a) }
  spec fn edge(self, a: u32, b: u32) -> bool { self.nodes@.contains_key(a) && self.nodes@[a].children@.contains(b) }
  spec fn back(self, a: u32, b: u32) -> bool { self.nodes@.contains_key(b) && self.nodes@[b].parents@.contains(a) }
  /// Children and parents are two views of one edge relation.
  spec fn wf(self) -> bool {
    forall|a: u32, b: u32| #![trigger self.edge(a, b)] #![trigger self.back(a, b)]
        #![trigger self.nodes@[a].children@.contains(b)] #![trigger self.nodes@[b].parents@.contains(a)]
      self.edge(a, b) == self.back(a, b)
  }
  spec fn arcs(self, rev: bool) -> Arcs { |a: u32, b: u32| if rev { self.edge(b, a) } else { self.edge(a, b) } }

/*@fn optimize-js/src/graph/mod.rs :: Graph::new
#ret r
#sig `Self` => `Self`
#spec
  ensures r.wf(), forall|a: u32| !#[trigger] r.has(a), forall|a: u32, b: u32| !#[trigger] r.edge(a, b),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::contains
#ret r
#spec
  ensures r == self.has(*node),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::parents
#ret r
#sig `GraphRelatedNodesIter<'_, K>` => `Vec<K>`
#rewrite `|node| node.parents.iter()` => `|node: &GraphNode| -> (o: Vec<K>) ensures lists(o@, node.parents@) { node.parents.iter() }`
#rewrite `.into_iter().flatten()` => `.flat()`
#spec
  ensures r@.no_duplicates(), forall|a: u32| #[trigger] r@.contains(a) <==> self.back(a, *node),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::children
#ret r
#sig `GraphRelatedNodesIter<'_, K>` => `Vec<K>`
#rewrite `|node| node.children.iter()` => `|node: &GraphNode| -> (o: Vec<K>) ensures lists(o@, node.children@) { node.children.iter() }`
#rewrite `.into_iter().flatten()` => `.flat()`
#spec
  ensures r@.no_duplicates(), forall|a: u32| #[trigger] r@.contains(a) <==> self.edge(*node, a),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::connect
#spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) || a == *parent || a == *child),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) || (a == *parent && b == *child)),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::disconnect
#spec
  requires old(self).wf(), old(self).has(*parent), old(self).has(*child),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == old(self).has(a),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) && !(a == *parent && b == *child)),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::pop
#rewrite `assert!(r.parents.is_empty());` => `let e1 = r.parents.is_empty(); assert forall|a: u32| !r.parents@.contains(a) by { assert(!old(self).back(a, *node)); } assert(e1);`
#rewrite `assert!(r.children.is_empty());` => `let e2 = r.children.is_empty(); assert forall|a: u32| !r.children@.contains(a) by { assert(!old(self).edge(*node, a)); } assert(e2);`
#end
  proof {
    assert forall|a: u32, b: u32| self.edge(a, b) == old(self).edge(a, b) by { if a == *node { assert(!old(self).edge(a, b)); } }
    assert forall|a: u32, b: u32| self.back(a, b) == old(self).back(a, b) by { if b == *node { assert(!old(self).edge(a, b)); assert(!old(self).back(a, b)); } }
    assert forall|a: u32, b: u32| self.edge(a, b) == self.back(a, b) by { assert(old(self).edge(a, b) == old(self).back(a, b)); }
  }
#spec
  requires old(self).wf(), old(self).has(*node),
    forall|a: u32| !#[trigger] old(self).edge(a, *node), forall|a: u32| !#[trigger] old(self).edge(*node, a),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) && a != *node),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == old(self).edge(a, b),
@*/

/*@fn optimize-js/src/graph/mod.rs :: Graph::contract
#rewrite `.extend(children.iter().cloned())` => `.extend_from_set(&children)`
#rewrite `.extend(parents.iter().cloned())` => `.extend_from_set(&parents)`
#entry
  let ghost g0 = *self;
#loop 0 while=i list=list
  invariant
    i <= i_s@.len(), lists(i_s@, parents@), self.nodes@.dom() =~= g0.nodes@.dom().remove(*node), self_clean(g0, *node, children@, parents@),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).parents@ == g0.nodes@[k].parents@,
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).children@ =~=
      (if done(i_s@, i as int, k) { g0.nodes@[k].children@.union(children@) } else { g0.nodes@[k].children@ }),
  decreases i_s.len() - i,
#loop 1 while=j list=list
  invariant
    j <= j_s@.len(), lists(j_s@, children@), self.nodes@.dom() =~= g0.nodes@.dom().remove(*node), self_clean(g0, *node, children@, parents@),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).children@ =~=
      (if parents@.contains(k) { g0.nodes@[k].children@.union(children@) } else { g0.nodes@[k].children@ }),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).parents@ =~=
      (if done(j_s@, j as int, k) { g0.nodes@[k].parents@.union(parents@) } else { g0.nodes@[k].parents@ }),
  decreases j_s.len() - j,
#loop 2 while=p list=list
  invariant
    p <= p_s@.len(), lists(p_s@, parents@), self.nodes@.dom() =~= g0.nodes@.dom().remove(*node), self_clean(g0, *node, children@, parents@),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).children@ =~=
      (if done(p_s@, p as int, k) { g0.nodes@[k].children@.union(children@).remove(*node) }
       else if parents@.contains(k) { g0.nodes@[k].children@.union(children@) } else { g0.nodes@[k].children@ }),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).parents@ =~=
      (if children@.contains(k) { g0.nodes@[k].parents@.union(parents@) } else { g0.nodes@[k].parents@ }),
  decreases p_s.len() - p,
#loop 3 while=q list=list
  invariant
    q <= q_s@.len(), lists(q_s@, children@), self.nodes@.dom() =~= g0.nodes@.dom().remove(*node), self_clean(g0, *node, children@, parents@),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).children@ =~=
      (if parents@.contains(k) { g0.nodes@[k].children@.union(children@).remove(*node) } else { g0.nodes@[k].children@ }),
    forall|k: u32| self.has(k) ==> (#[trigger] self.nodes@[k]).parents@ =~=
      (if done(q_s@, q as int, k) { g0.nodes@[k].parents@.union(parents@).remove(*node) }
       else if children@.contains(k) { g0.nodes@[k].parents@.union(parents@) } else { g0.nodes@[k].parents@ }),
  decreases q_s.len() - q,
#at before `for parent in &parents`
  proof { assert(self_clean(g0, *node, children@, parents@)); }
#at before `for child in &children`
  proof {
    done_all(i_s@, parents@); }
#at before `for parent in parents`
  proof { done_all(j_s@, children@); }
#at before `for child in children`
  proof { done_all(p_s@, parents@); }
#end
  proof { done_all(q_s@, children@); }
#at enter `for parent in &parents`
  proof { done_step(i_s@, i as int - 1, parents@); assert(self.has(*parent)); }
#at enter `for child in &children`
  proof { done_step(j_s@, j as int - 1, children@); assert(self.has(*child)); }
#at enter `for parent in parents`
  proof { done_step(p_s@, p as int - 1, parents@); assert(self.has(parent)); }
#at enter `for child in children`
  proof { done_step(q_s@, q as int - 1, children@); assert(self.has(child)); }
#spec
  requires old(self).wf(), old(self).has(*node),
  ensures
    final(self).wf(),
    forall|a: u32| #[trigger] final(self).has(a) == (old(self).has(a) && a != *node),
    forall|a: u32, b: u32| #[trigger] final(self).edge(a, b) == (a != *node && b != *node
      && (old(self).edge(a, b) || (old(self).edge(a, *node) && old(self).edge(*node, b)))),
@*/
}
