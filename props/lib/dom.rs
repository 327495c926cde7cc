// ---- lib/dom.rs: dominance and the dominator tree ----
/// `a` is on every walk from `entry` to `b`
spec fn domn(e: Arcs, entry: u32, a: u32, b: u32) -> bool { forall|p: Seq<u32>| #[trigger] walk(e, p, entry, b) ==> p.contains(a) }
spec fn sdom(e: Arcs, entry: u32, a: u32, b: u32) -> bool { a != b && domn(e, entry, a, b) }
/// `i` is the immediate dominator of `b`
spec fn is_idom(e: Arcs, entry: u32, i: u32, b: u32) -> bool {
  &&& sdom(e, entry, i, b)
  &&& forall|x: u32| #[trigger] sdom(e, entry, x, b) ==> domn(e, entry, x, i)
}
/// A (partial) table of immediate dominators over a postorder.
struct Tab { po: Seq<u32>, entry: u32, m: Map<u32, u32> }
impl Tab {
  spec fn ix(self, b: u32) -> int { self.po.index_of(b) }
  spec fn known(self, b: u32) -> bool { b == self.entry || self.m.contains_key(b) }
  spec fn up(self, b: u32) -> bool { self.po.contains(b) && self.po.contains(self.m[b]) && self.ix(self.m[b]) > self.ix(b) }
  /// links lead to known labels later in the postorder
  spec fn tree(self) -> bool {
    &&& self.po.no_duplicates() && self.po.len() > 0 && self.po.last() == self.entry
    &&& forall|b: u32| #[trigger] self.m.contains_key(b) && b != self.entry ==> self.up(b) && self.known(self.m[b])
  }
  /// no strict dominator is skipped
  spec fn over(self, e: Arcs) -> bool {
    forall|b: u32, x: u32| self.m.contains_key(b) && b != self.entry && #[trigger] sdom(e, self.entry, x, b) ==> domn(e, self.entry, x, self.m[b])
  }
  /// `x` is `b` or above it
  spec fn anc(self, x: u32, b: u32) -> bool
    decreases self.po.len() - self.ix(b)
  {
    x == b || (b != self.entry && self.m.contains_key(b) && self.up(b) && self.anc(x, self.m[b]))
  }
  /// every link leads above every predecessor
  spec fn meets(self, e: Arcs) -> bool {
    forall|p: u32, b: u32| #[trigger] e(p, b) && b != self.entry && self.po.contains(p) && self.po.contains(b) ==> self.anc(self.m[b], p)
  }
  spec fn full(self) -> bool { forall|b: u32| #[trigger] self.po.contains(b) && b != self.entry ==> self.m.contains_key(b) }

  proof fn anc_trans(self, x: u32, y: u32, z: u32)
    requires self.anc(x, y), self.anc(y, z),
    ensures self.anc(x, z),
    decreases self.po.len() - self.ix(z),
  {
    if y != z { self.anc_trans(x, y, self.m[z]); }
  }
  proof fn anc_up(self, x: u32, b: u32)
    requires self.tree(), self.anc(x, b), self.known(b), self.po.contains(b),
    ensures self.known(x), self.po.contains(x), self.ix(x) >= self.ix(b), x != b ==> self.ix(x) > self.ix(b),
    decreases self.po.len() - self.ix(b),
  {
    if x != b { self.anc_up(x, self.m[b]); }
  }
  proof fn anc_entry(self, b: u32)
    requires self.tree(), self.known(b), self.po.contains(b),
    ensures self.anc(self.entry, b),
    decreases self.po.len() - self.ix(b),
  {
    if b != self.entry { assert(self.m.contains_key(b)); self.anc_entry(self.m[b]); }
  }
  /// two ancestors of one label lie on one line
  proof fn anc_line(self, x: u32, y: u32, b: u32)
    requires self.tree(), self.anc(x, b), self.anc(y, b),
    ensures self.anc(x, y) || self.anc(y, x),
    decreases self.po.len() - self.ix(b),
  {
    if x != b && y != b { self.anc_line(x, y, self.m[b]); }
  }
  /// dominators are ancestors
  proof fn dom_anc(self, e: Arcs, x: u32, b: u32)
    requires self.tree(), self.over(e), self.known(b), self.po.contains(b), domn(e, self.entry, x, b),
    ensures self.anc(x, b),
    decreases self.po.len() - self.ix(b),
  {
    if b == self.entry {
      let p = seq![b];
      assert(walk(e, p, b, b));
      assert(p.contains(x));
    } else if x != b {
      assert(sdom(e, self.entry, x, b));
      self.dom_anc(e, x, self.m[b]);
    }
  }
  /// ancestors are on every walk
  proof fn anc_walk(self, e: Arcs, x: u32, b: u32, p: Seq<u32>)
    requires self.tree(), self.meets(e), self.full(), self.anc(x, b), walk(e, p, self.entry, b),
      forall|y: u32| #[trigger] self.po.contains(y) <==> reach(e, self.entry, y),
    ensures p.contains(x),
    decreases p.len(),
  {
    if x == b { assert(p[p.len() - 1] == x); } else {
      assert(b != self.entry);
      assert(p.len() > 1);
      let d = p.drop_last();
      let q = d.last();
      assert(walk(e, d, self.entry, q));
      assert(e(p[p.len() - 2], p[p.len() - 1]));
      assert(reach(e, self.entry, q));
      assert(reach(e, self.entry, b));
      assert(self.po.contains(q) && self.po.contains(b));
      self.anc_trans(x, self.m[b], q);
      self.anc_walk(e, x, q, d);
      let i = choose|i: int| 0 <= i < d.len() && d[i] == x;
      assert(p[i] == x);
    }
  }
}
/// the position of a label is where the list has it
proof fn at_ix(po: Seq<u32>, i: int)
  requires po.no_duplicates(), 0 <= i < po.len(),
  ensures po.index_of(po[i]) == i, po.contains(po[i]),
{
  assert(po.contains(po[i]));
}
proof fn ix_ok(po: Seq<u32>, b: u32)
  requires po.contains(b),
  ensures 0 <= po.index_of(b) < po.len(), po[po.index_of(b)] == b,
{}
/// a dominator does not come earlier in the postorder
proof fn dom_later(e: Arcs, entry: u32, po: Seq<u32>, a: u32, b: u32)
  requires is_postorder(e, entry, po), po.contains(b), domn(e, entry, a, b),
  ensures po.contains(a), po.index_of(a) >= po.index_of(b),
{
  let i = po.index_of(b);
  let p = up_walk(e, entry, po, i);
  assert(walk(e, p, entry, b));
  let k = choose|k: int| 0 <= k < p.len() && p[k] == a;
  let j = choose|j: int| i <= j < po.len() && po[j] == p[k];
  at_ix(po, j);
}
/// a walk from the entry that stays late in the postorder
proof fn up_walk(e: Arcs, entry: u32, po: Seq<u32>, i: int) -> (p: Seq<u32>)
  requires is_postorder(e, entry, po), 0 <= i < po.len(),
  ensures walk(e, p, entry, po[i]), forall|k: int| 0 <= k < p.len() ==> late(po, i, #[trigger] p[k]),
  decreases po.len() - i,
{
  if i == po.len() - 1 {
    let p = seq![entry];
    assert(late(po, i, po[i]));
    p
  } else {
    let j = choose|j: int| i < j < po.len() && e(po[j], po[i]);
    let q = up_walk(e, entry, po, j);
    let p = q.push(po[i]);
    assert forall|k: int| 0 <= k < p.len() implies late(po, i, #[trigger] p[k]) by {
      if k < q.len() { assert(late(po, j, q[k])); let n = choose|n: int| j <= n < po.len() && #[trigger] po[n] == q[k]; assert(po[n] == p[k]); } else { assert(po[i] == p[k]); }
    }
    p
  }
}
spec fn late(po: Seq<u32>, i: int, x: u32) -> bool { exists|j: int| i <= j < po.len() && #[trigger] po[j] == x }
/// a strict dominator of `b` dominates every predecessor of `b` that the entry reaches
proof fn sdom_pred(e: Arcs, entry: u32, x: u32, b: u32, p: u32)
  requires sdom(e, entry, x, b), e(p, b),
  ensures domn(e, entry, x, p),
{
  assert forall|w: Seq<u32>| #[trigger] walk(e, w, entry, p) implies w.contains(x) by {
    let v = w.push(b);
    assert(walk(e, v, entry, b));
    let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
    assert(w[k] == x);
  }
}
