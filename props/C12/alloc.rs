use vstd::prelude::*;
verus! {
/*@include coll.rs@*/
/*@include graph.rs@*/
/*@include graph2.rs@*/
/*@include cfggraph.rs@*/
/*@include sink.rs@*/
/*@include insts.rs@*/
/*@include liveness.rs@*/
type Ig = Map<u32, HashSet<u32>>;
spec fn nbr(g: Ig, a: u32, b: u32) -> bool { g.contains_key(a) && g[a]@.contains(b) }
// ---- interference ----
spec fn live_at(m: Map<Loc, HashSet<u32>>, s: Loc, a: u32) -> bool { m.contains_key(s) && m[s]@.contains(a) }
/// live somewhere
spec fn occurs(m: Map<Loc, HashSet<u32>>, a: u32) -> bool { exists|s: Loc| #[trigger] live_at(m, s, a) }
/// live somewhere together
spec fn meets(m: Map<Loc, HashSet<u32>>, a: u32, b: u32) -> bool { a != b && exists|s: Loc| #[trigger] live_at(m, s, a) && live_at(m, s, b) }
spec fn upto1(l: Seq<&HashSet<u32>>, n: int, a: u32) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i])@.contains(a) }
spec fn upto2(l: Seq<&HashSet<u32>>, n: int, a: u32, b: u32) -> bool { a != b && exists|i: int| 0 <= i < n && (#[trigger] l[i])@.contains(a) && l[i]@.contains(b) }
proof fn upto_step(l: Seq<&HashSet<u32>>, n: int)
  requires 0 <= n < l.len(),
  ensures forall|a: u32| #[trigger] upto1(l, n + 1, a) == (upto1(l, n, a) || l[n]@.contains(a)),
    forall|a: u32, b: u32| #[trigger] upto2(l, n + 1, a, b) == (upto2(l, n, a, b) || (a != b && l[n]@.contains(a) && l[n]@.contains(b))),
{
  assert forall|a: u32| #[trigger] upto1(l, n + 1, a) == (upto1(l, n, a) || l[n]@.contains(a)) by {
    if upto1(l, n, a) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i])@.contains(a); assert(l[i]@.contains(a)); }
  }
  assert forall|a: u32, b: u32| #[trigger] upto2(l, n + 1, a, b) == (upto2(l, n, a, b) || (a != b && l[n]@.contains(a) && l[n]@.contains(b))) by {
    if upto2(l, n, a, b) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i])@.contains(a) && l[i]@.contains(b); assert(l[i]@.contains(a)); }
    if a != b && l[n]@.contains(a) && l[n]@.contains(b) { assert(l[n]@.contains(a)); }
  }
}
spec fn value_of(m: Map<Loc, HashSet<u32>>, s: HashSet<u32>) -> bool { exists|k: Loc| m.contains_key(k) && #[trigger] m[k] == s }
impl HashMap<Loc, HashSet<u32>> {
  /// `m.values()`
  #[verifier::external_body]
  fn values(&self) -> (r: Vec<&HashSet<u32>>)
    ensures forall|i: int| 0 <= i < r@.len() ==> value_of(self@, *#[trigger] r@[i]),
      forall|k: Loc| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}
spec fn first_n(l: Seq<u32>, n: int, a: u32) -> bool { exists|i: int| 0 <= i < n && #[trigger] l[i] == a }
/// the pairs of positions visited before (i, j)
spec fn paired(l: Seq<u32>, i: int, j: int, a: u32, b: u32) -> bool {
  exists|x: int, y: int| 0 <= x < y < l.len() && (x < i || (x == i && y < j)) && ((#[trigger] l[x] == a && #[trigger] l[y] == b) || (l[x] == b && l[y] == a))
}
proof fn paired_step(l: Seq<u32>, i: int, j: int)
  requires 0 <= i < j < l.len(),
  ensures forall|a: u32, b: u32| #[trigger] paired(l, i, j + 1, a, b) == (paired(l, i, j, a, b) || (l[i] == a && l[j] == b) || (l[i] == b && l[j] == a)),
{
  assert forall|a: u32, b: u32| #[trigger] paired(l, i, j + 1, a, b) == (paired(l, i, j, a, b) || (l[i] == a && l[j] == b) || (l[i] == b && l[j] == a)) by {
    if paired(l, i, j, a, b) {
      let (x, y) = choose|x: int, y: int| 0 <= x < y < l.len() && (x < i || (x == i && y < j)) && ((#[trigger] l[x] == a && #[trigger] l[y] == b) || (l[x] == b && l[y] == a));
      assert((l[x] == a && l[y] == b) || (l[x] == b && l[y] == a));
    }
    if (l[i] == a && l[j] == b) || (l[i] == b && l[j] == a) { assert(0 <= i < j < l.len()); }
  }
}
proof fn paired_row(l: Seq<u32>, i: int)
  requires 0 <= i < l.len(),
  ensures forall|a: u32, b: u32| #[trigger] paired(l, i, l.len() as int, a, b) == paired(l, i + 1, i + 2, a, b),
{
  assert forall|a: u32, b: u32| #[trigger] paired(l, i, l.len() as int, a, b) == paired(l, i + 1, i + 2, a, b) by {
    if paired(l, i, l.len() as int, a, b) {
      let (x, y) = choose|x: int, y: int| 0 <= x < y < l.len() && (x < i || (x == i && y < l.len())) && ((#[trigger] l[x] == a && #[trigger] l[y] == b) || (l[x] == b && l[y] == a));
      assert((l[x] == a && l[y] == b) || (l[x] == b && l[y] == a));
    }
    if paired(l, i + 1, i + 2, a, b) {
      let (x, y) = choose|x: int, y: int| 0 <= x < y < l.len() && (x < i + 1 || (x == i + 1 && y < i + 2)) && ((#[trigger] l[x] == a && #[trigger] l[y] == b) || (l[x] == b && l[y] == a));
      assert((l[x] == a && l[y] == b) || (l[x] == b && l[y] == a));
    }
  }
}
proof fn paired_all(l: Seq<u32>, s: Set<u32>)
  requires lists(l, s),
  ensures forall|a: u32, b: u32| #[trigger] paired(l, l.len() as int, l.len() as int + 1, a, b) == (a != b && s.contains(a) && s.contains(b)),
{
  assert forall|a: u32, b: u32| #[trigger] paired(l, l.len() as int, l.len() as int + 1, a, b) == (a != b && s.contains(a) && s.contains(b)) by {
    if paired(l, l.len() as int, l.len() as int + 1, a, b) {
      let (x, y) = choose|x: int, y: int| 0 <= x < y < l.len() && (x < l.len() || (x == l.len() && y < l.len() + 1)) && ((#[trigger] l[x] == a && #[trigger] l[y] == b) || (l[x] == b && l[y] == a));
      assert(l.contains(l[x]) && l.contains(l[y]) && l[x] != l[y]);
    }
    if a != b && s.contains(a) && s.contains(b) {
      assert(l.contains(a) && l.contains(b));
      let x = choose|x: int| 0 <= x < l.len() && l[x] == a;
      let y = choose|y: int| 0 <= y < l.len() && l[y] == b;
      if x < y { assert(l[x] == a && l[y] == b); } else { assert(l[y] == b && l[x] == a); assert(y < x); }
    }
  }
}
/*@fn optimize-js/src/analysis/interference.rs :: calculate_interference_graph
#ret r
#rewrite `lives.iter().cloned().collect_vec()` => `lives.list()`
#spec
  ensures
    // the variables that are live somewhere, and an edge exactly between those live together
    forall|a: u32| #[trigger] r@.contains_key(a) == occurs(liveness@, a),
    forall|a: u32, b: u32| #[trigger] nbr(r@, a, b) == meets(liveness@, a, b),
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(),
    forall|i: int| 0 <= i < ix_s@.len() ==> value_of(liveness@, *#[trigger] ix_s@[i]),
    forall|k: Loc| #[trigger] liveness@.contains_key(k) ==> exists|i: int| 0 <= i < ix_s@.len() && *(#[trigger] ix_s@[i]) == liveness@[k],
    forall|a: u32| #[trigger] intgraph@.contains_key(a) == upto1(ix_s@, ix as int, a),
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) == upto2(ix_s@, ix as int, a, b),
  decreases ix_s@.len() - ix,
#at enter `for lives in`
  let ghost g0 = intgraph@; let ghost all = lives@;
  proof { upto_step(ix_s@, ix as int - 1); }
#at after `let lives =`
  let ghost l = lives@;
#loop 1
  invariant
    lists(l, all), lives@ == l,
    forall|a: u32| first_n(l, i as int, a) || g0.contains_key(a) ==> #[trigger] intgraph@.contains_key(a),
    forall|a: u32| #[trigger] intgraph@.contains_key(a) ==> g0.contains_key(a) || all.contains(a),
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) == (nbr(g0, a, b) || paired(l, i as int, i + 1, a, b)),
#at before `intgraph.entry(lives[i]).or_default();`
  let ghost g1 = intgraph@;
  proof { assert(l.contains(l[i as int])); }
#at after `intgraph.entry(lives[i]).or_default();`
  let ghost g2 = intgraph@;
  proof {
    assert forall|a: u32, b: u32| #[trigger] nbr(g2, a, b) == nbr(g1, a, b) by {}
    assert forall|a: u32| first_n(l, i + 1, a) || g0.contains_key(a) implies #[trigger] g2.contains_key(a) by {
      if first_n(l, i + 1, a) && a != l[i as int] { let k = choose|k: int| 0 <= k < i + 1 && #[trigger] l[k] == a; assert(first_n(l, i as int, a)); assert(g1.contains_key(a)); }
    }
  }
#loop 2
  invariant
    lists(l, all), lives@ == l, i < l.len(),
    forall|a: u32| #[trigger] g2.contains_key(a) ==> intgraph@.contains_key(a),
    forall|a: u32| #[trigger] intgraph@.contains_key(a) ==> g0.contains_key(a) || all.contains(a),
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) == (nbr(g0, a, b) || paired(l, i as int, j as int, a, b)),
#at enter `for j in (i + 1)..lives.len()`
  let ghost g3 = intgraph@;
  proof { assert(l.contains(l[i as int]) && l.contains(l[j as int])); paired_step(l, i as int, j as int); }
#at exit `for j in (i + 1)..lives.len()`
  proof {
    assert forall|x: u32, y: u32| #[trigger] nbr(intgraph@, x, y) == (nbr(g3, x, y) || (x == a && y == b) || (x == b && y == a)) by {}
  }
#at afterblock `for j in (i + 1)..lives.len()`
  proof {
    paired_row(l, i as int);
    assert forall|a: u32| first_n(l, i + 1, a) || g0.contains_key(a) implies #[trigger] intgraph@.contains_key(a) by { assert(g2.contains_key(a)); }
  }
#at afterblock `for i in 0..lives.len()`
  proof {
    paired_all(l, all);
    assert forall|a: u32| #[trigger] all.contains(a) implies first_n(l, l.len() as int, a) by { assert(l.contains(a)); let k = choose|k: int| 0 <= k < l.len() && l[k] == a; assert(l[k] == a); }
  }
#tail r
  proof {
    let e = ix_s@; let m = liveness@;
    assert forall|a: u32| #[trigger] r@.contains_key(a) == occurs(m, a) by {
      if upto1(e, e.len() as int, a) {
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i])@.contains(a);
        assert(value_of(m, *e[i])); let k = choose|k: Loc| m.contains_key(k) && #[trigger] m[k] == *e[i];
        assert(live_at(m, k, a));
      }
      if occurs(m, a) {
        let k = choose|k: Loc| #[trigger] live_at(m, k, a); assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]) == m[k]; assert(e[i]@.contains(a));
      }
    }
    assert forall|a: u32, b: u32| #[trigger] nbr(r@, a, b) == meets(m, a, b) by {
      if upto2(e, e.len() as int, a, b) {
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i])@.contains(a) && e[i]@.contains(b);
        assert(value_of(m, *e[i])); let k = choose|k: Loc| m.contains_key(k) && #[trigger] m[k] == *e[i];
        assert(live_at(m, k, a) && live_at(m, k, b));
      }
      if meets(m, a, b) {
        let k = choose|k: Loc| #[trigger] live_at(m, k, a) && live_at(m, k, b); assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]) == m[k]; assert(e[i]@.contains(a) && e[i]@.contains(b));
      }
    }
  }
@*/

// ---- colouring ----
/// an undirected graph without self-loops
spec fn undirected(g: Ig) -> bool {
  &&& forall|a: u32, b: u32| #[trigger] nbr(g, a, b) ==> nbr(g, b, a)
  &&& forall|a: u32| !#[trigger] nbr(g, a, a)
}
/// derived `Clone`
#[verifier::external_body]
fn ig_clone(g: &HashMap<u32, HashSet<u32>>) -> (r: HashMap<u32, HashSet<u32>>) ensures r@.dom() == g@.dom(), forall|a: u32, b: u32| #[trigger] nbr(r@, a, b) == nbr(g@, a, b) { unimplemented!() }
/// `g.iter().min_by(fewest neighbours, then smallest).map(|(t, _)| *t)`
#[verifier::external_body]
fn least(g: &HashMap<u32, HashSet<u32>>) -> (r: Option<u32>)
  ensures match r { Some(t) => g@.contains_key(t), None => forall|t: u32| !#[trigger] g@.contains_key(t) } { unimplemented!() }
/// `v.into_iter().rev()`
#[verifier::external_body]
fn reversed(v: Vec<u32>) -> (r: Vec<u32>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[v@.len() - 1 - i] { unimplemented!() }
/// `u32::try_from(n).unwrap()`
fn to_u32(n: usize) -> (r: u32) requires n <= u32::MAX, ensures r == n { n as u32 }
spec fn below(c: u32, n: u32) -> bool { c < n }
/// `(0..n).find(f)`
fn first_below<F: Fn(&u32) -> bool>(n: u32, f: F) -> (r: Option<u32>)
  requires forall|c: u32| #[trigger] call_requires(f, (&c,)),
  ensures match r { Some(c) => c < n && call_ensures(f, (&c,), true), None => forall|c: u32| #[trigger] below(c, n) ==> call_ensures(f, (&c,), false) },
{
  let mut c: u32 = 0;
  while c < n
    invariant c <= n, forall|c: u32| #[trigger] call_requires(f, (&c,)), forall|d: u32| d < c ==> #[trigger] call_ensures(f, (&d,), false),
    decreases n - c,
  {
    if f(&c) { return Some(c); }
    c += 1;
  }
  None
}
/// `rem` is what is left of `g` once the stacked nodes are gone
spec fn left(g: Ig, rem: Ig, st: Seq<u32>) -> bool {
  &&& st.no_duplicates()
  &&& forall|a: u32| #[trigger] rem.contains_key(a) == (g.contains_key(a) && !st.contains(a))
  &&& forall|a: u32| #[trigger] st.contains(a) ==> g.contains_key(a)
  &&& forall|a: u32, b: u32| #[trigger] nbr(rem, a, b) == (nbr(g, a, b) && !st.contains(a) && !st.contains(b))
}
spec fn colour_of(m: Map<u32, u32>, a: u32, c: u32) -> bool { m.contains_key(a) && m[a] == c }
spec fn colours(m: Map<u32, u32>, l: Seq<u32>, n: int, c: u32) -> bool { exists|i: int| 0 <= i < n && colour_of(m, #[trigger] l[i], c) }
/// fewer than `n` colours are taken: one below `n` is free
proof fn free_below(u: Set<u32>, n: u32) -> (c: u32)
  requires u.len() < n,
  ensures c < n, !u.contains(c),
{
  if forall|c: u32| c < n ==> #[trigger] u.contains(c) {
    let all = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    let m = u.map(|k: u32| k as int);
    vstd::set_lib::lemma_map_size(u, m, |k: u32| k as int);
    assert forall|i: int| all.contains(i) implies m.contains(i) by { assert(u.contains(i as u32)); assert((i as u32) as int == i); }
    assert(all.subset_of(m));
    vstd::set_lib::lemma_len_subset(all, m);
    assert(false);
  }
  choose|c: u32| c < n && !u.contains(c)
}
proof fn nodup_len(l: Seq<u32>, s: Set<u32>)
  requires l.no_duplicates(), forall|a: u32| #[trigger] l.contains(a) ==> s.contains(a),
  ensures l.len() <= s.len(),
{
  l.unique_seq_to_set();
  assert forall|a: u32| l.to_set().contains(a) implies s.contains(a) by { assert(l.contains(a)); }
  vstd::set_lib::lemma_len_subset(l.to_set(), s);
}
proof fn rev_list(l: Seq<u32>, r: Seq<u32>)
  requires l.no_duplicates(), r.len() == l.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == l[l.len() - 1 - i],
  ensures r.no_duplicates(), forall|a: u32| #[trigger] r.contains(a) == l.contains(a),
{
  assert forall|a: u32| #[trigger] r.contains(a) == l.contains(a) by {
    if r.contains(a) { let k = choose|k: int| 0 <= k < r.len() && r[k] == a; assert(l[l.len() - 1 - k] == a); }
    if l.contains(a) { let k = choose|k: int| 0 <= k < l.len() && l[k] == a; assert(r[l.len() - 1 - k] == a); }
  }
}
/*@fn optimize-js/src/analysis/registers.rs :: allocate_registers
#ret r
#rewrite `intgraph.clone()` => `ig_clone(intgraph)`
#rewrite `Vec::with_capacity(rem.len())` => `Vec::<u32>::new()`
#rewrite `rem .iter() .min_by(|(t1, c1), (t2, c2)| c1.len().cmp(&c2.len()).then_with(|| t1.cmp(t2))) .map(|(t, _)| *t)` => `least(&rem)`
#rewrite `u32::try_from(intgraph.len()).unwrap()` => `to_u32(intgraph.len())`
#rewrite `stack.into_iter().rev()` => `reversed(stack)`
#rewrite `HashSet::default()` => `HashSet::<u32>::default()`
#rewrite `if let Some(&neighbour_colour) = allocated.get(&neighbour) {` => `if let Some(nc) = allocated.get(neighbour) { let neighbour_colour = *nc;`
#rewrite `(0..max_colour).find(|c| !used.contains(c))` => `first_below(max_colour, |c: &u32| -> (o: bool) ensures o == !used@.contains(*c) { !used.contains(c) })`
#rewrite `assert!(allocated.insert(t, pick).is_none());` => `let was = allocated.insert(t, pick).is_none(); assert(was);`
#spec
  requires undirected(intgraph@), intgraph@.dom().len() <= u32::MAX,
  ensures
    // every node, a colour below the node count, different ones for neighbours
    r@.dom() == intgraph@.dom(),
    forall|a: u32| #[trigger] r@.contains_key(a) == intgraph@.contains_key(a),
    forall|a: u32| #[trigger] r@.contains_key(a) ==> r@[a] < intgraph@.dom().len(),
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) ==> r@[a] != r@[b],
#loop 0
  invariant undirected(intgraph@), left(intgraph@, rem@, stack@),
  ensures left(intgraph@, rem@, stack@), forall|a: u32| !#[trigger] rem@.contains_key(a),
  decreases intgraph@.dom().len() - stack@.len(),
#at enter `while let Some(t)`
  let ghost rem0 = rem@; let ghost st0 = stack@;
  proof {
    nodup_len(st0, intgraph@.dom());
    assert forall|c: u32| #[trigger] nbr(rem0, t, c) implies c != t && rem0.contains_key(c) by { assert(nbr(intgraph@, t, c)); assert(nbr(intgraph@, c, t)); }
  }
#at after `let children`
  let ghost rem1 = rem@;
  proof { assert forall|c: u32| #[trigger] children@.contains(c) implies c != t && rem1.contains_key(c) by { assert(nbr(rem0, t, c)); } }
#loop 1 while=kx list=list
  invariant
    kx <= kx_s@.len(), lists(kx_s@, children@), rem@.dom() =~= rem1.dom(),
    forall|c: u32| #[trigger] children@.contains(c) ==> c != t && rem1.contains_key(c),
    forall|a: u32, b: u32| #[trigger] nbr(rem@, a, b) == (nbr(rem1, a, b) && !(b == t && done(kx_s@, kx as int, a))),
  decreases kx_s@.len() - kx,
#at enter `for &c in children.iter()`
  let ghost r1 = rem@;
  proof { done_step(kx_s@, kx as int - 1, children@); }
#at exit `for &c in children.iter()`
  proof {
    assert forall|a: u32, b: u32| #[trigger] nbr(rem@, a, b) == (nbr(r1, a, b) && !(b == t && a == c)) by {}
    assert(rem@.dom() =~= rem1.dom());
  }
#at afterblock `for &c in children.iter()`
  proof {
    done_all(kx_s@, children@);
    let g = intgraph@; let st = stack@;
    assert(!st0.contains(t));
    assert forall|a: u32| #[trigger] st.contains(a) == (st0.contains(a) || a == t) by {
      if st0.contains(a) { let k = choose|k: int| 0 <= k < st0.len() && st0[k] == a; assert(st[k] == a); }
      assert(st[st0.len() as int] == t);
    }
    assert forall|a: u32, b: u32| #[trigger] nbr(rem@, a, b) == (nbr(g, a, b) && !st.contains(a) && !st.contains(b)) by {
      assert(nbr(rem1, a, b) == (nbr(rem0, a, b) && a != t));
      if nbr(rem0, a, t) { assert(nbr(g, a, t)); assert(nbr(g, t, a)); assert(nbr(rem0, t, a)); }
    }
    nodup_len(st, g.dom());
  }
#at before `let mut allocated`
  let ghost st = stack@;
  proof {
    assert forall|a: u32| #[trigger] intgraph@.contains_key(a) == st.contains(a) by { assert(!rem@.contains_key(a)); }
    assert forall|r: Seq<u32>| r.len() == st.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == st[st.len() - 1 - i]) implies #[trigger] r.no_duplicates() && (forall|a: u32| #[trigger] r.contains(a) == st.contains(a)) by { rev_list(st, r); } }
#loop 2 while=tx list=self_
  invariant
    tx <= tx_s@.len(), tx_s@.no_duplicates(), undirected(intgraph@), max_colour == intgraph@.dom().len(),
    forall|a: u32| #[trigger] tx_s@.contains(a) == intgraph@.contains_key(a),
    forall|a: u32| #[trigger] allocated@.contains_key(a) == first_n(tx_s@, tx as int, a),
    forall|a: u32| #[trigger] allocated@.contains_key(a) ==> allocated@[a] < max_colour,
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) && allocated@.contains_key(a) && allocated@.contains_key(b) ==> allocated@[a] != allocated@[b],
  decreases tx_s@.len() - tx,
#at enter `for t in stack.into_iter().rev()`
  let ghost al0 = allocated@;
  proof { assert(tx_s@.contains(t)); }
#loop 3 while=nx list=list
  invariant
    nx <= nx_s@.len(), lists(nx_s@, intgraph@[t]@), used@.len() <= nx, allocated@ == al0,
    forall|c: u32| #[trigger] used@.contains(c) == colours(al0, nx_s@, nx as int, c),
  decreases nx_s@.len() - nx,
#at enter `for neighbour in`
  let ghost u0 = used@;
  proof {
    used.finite();
    assert forall|c: u32| #[trigger] colours(al0, nx_s@, nx as int, c) == (colours(al0, nx_s@, nx - 1, c) || colour_of(al0, *neighbour, c)) by {
      if colours(al0, nx_s@, nx - 1, c) { let i = choose|i: int| 0 <= i < nx - 1 && colour_of(al0, #[trigger] nx_s@[i], c); assert(colour_of(al0, nx_s@[i], c)); }
      assert(nx_s@[nx - 1] == *neighbour);
    }
  }
#at before `let pick`
  proof {
    let nb = intgraph@[t]@;
    lists_len(nx_s@, nb);
    assert forall|a: u32| nb.contains(a) implies #[trigger] intgraph@.dom().remove(t).contains(a) by { assert(nbr(intgraph@, t, a)); assert(nbr(intgraph@, a, t)); }
    intgraph.finite();
    vstd::set_lib::lemma_len_subset(nb, intgraph@.dom().remove(t));
    let c = free_below(used@, max_colour); assert(below(c, max_colour));
  }
#at after `assert!(allocated.insert(t, pick).is_none());`
  proof {
    assert forall|a: u32| #[trigger] allocated@.contains_key(a) == first_n(tx_s@, tx as int, a) by {
      if first_n(tx_s@, tx - 1, a) { let k = choose|k: int| 0 <= k < tx - 1 && #[trigger] tx_s@[k] == a; assert(tx_s@[k] == a); }
      assert(tx_s@[tx - 1] == t);
    }
    assert forall|b: u32| al0.contains_key(b) && (#[trigger] nbr(intgraph@, t, b) || nbr(intgraph@, b, t)) implies al0[b] != pick by {
      assert(nbr(intgraph@, t, b) || nbr(intgraph@, b, t)); assert(nbr(intgraph@, t, b));
      assert(nx_s@.contains(b)); let k = choose|k: int| 0 <= k < nx_s@.len() && nx_s@[k] == b;
      if al0[b] == pick { assert(colour_of(al0, nx_s@[k], pick)); assert(used@.contains(pick)); }
    }
    assert forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) && allocated@.contains_key(a) && allocated@.contains_key(b) implies allocated@[a] != allocated@[b] by {
      if b == t { assert(nbr(intgraph@, t, a)); }
    }
  }
#tail r
  proof {
    assert forall|a: u32| #[trigger] r@.contains_key(a) == intgraph@.contains_key(a) by {
      assert(tx_s@.contains(a) == first_n(tx_s@, tx_s@.len() as int, a)) by { if tx_s@.contains(a) { let k = choose|k: int| 0 <= k < tx_s@.len() && tx_s@[k] == a; assert(tx_s@[k] == a); } }
    }
    assert forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) implies r@[a] != r@[b] by { assert(nbr(intgraph@, b, a)); assert(intgraph@.contains_key(a) && intgraph@.contains_key(b)); assert(r@.contains_key(a) && r@.contains_key(b)); }
  }
@*/

// ---- which definitions are inlined ----
type Occ = (u32, int, int);
spec fn inst_at(c: Cfg, o: Occ) -> Inst { c.bblocks.0@[o.0]@[o.1] }
spec fn in_block(c: Cfg, l: u32, i: int) -> bool { c.bblocks.0@.contains_key(l) && 0 <= i < c.bblocks.0@[l]@.len() }
/// argument / target `o.2` of that instruction is `v`
spec fn is_use(c: Cfg, o: Occ, v: u32) -> bool { in_block(c, o.0, o.1) && 0 <= o.2 < inst_at(c, o).args@.len() && inst_at(c, o).args@[o.2] == Arg::Var(v) }
spec fn is_def(c: Cfg, o: Occ, v: u32) -> bool { in_block(c, o.0, o.1) && 0 <= o.2 < inst_at(c, o).tgts@.len() && inst_at(c, o).tgts@[o.2] == v }
/// used there and nowhere else
spec fn sole(c: Cfg, o: Occ, v: u32) -> bool { is_use(c, o, v) && forall|q: Occ| #[trigger] is_use(c, q, v) ==> q == o }
/// one definition per variable, one target per instruction; a variable with a single use is defined,
/// and before that use when both are in one block (or the use is a phi that closes a loop)
spec fn ssa(c: Cfg) -> bool {
  &&& c.graph.wf() && c.graph.0.nodes@.dom().len() <= u32::MAX
  &&& forall|l: u32| #[trigger] c.graph.has(l) ==> c.bblocks.0@.contains_key(l)
  &&& forall|o: Occ, q: Occ, v: u32| #[trigger] is_def(c, o, v) && #[trigger] is_def(c, q, v) ==> o == q
  &&& forall|o: Occ, v: u32| #[trigger] is_def(c, o, v) ==> o.2 == 0
  &&& forall|o: Occ, v: u32| #[trigger] sole(c, o, v) ==> exists|d: Occ| #[trigger] is_def(c, d, v)
  &&& forall|o: Occ, d: Occ, v: u32| #[trigger] sole(c, o, v) && #[trigger] is_def(c, d, v) && o.0 == d.0 ==> d.1 < o.1 || (d.1 > o.1 && inst_at(c, o).t == InstTyp::Phi)
}
/// `v` is defined at `d` and used only at `o`, later in the same block: it is computed there
spec fn moves(c: Cfg, d: Occ, o: Occ, v: u32) -> bool { is_def(c, d, v) && sole(c, o, v) && d.0 == o.0 && d.1 < o.1 }
spec fn loc(o: Occ) -> Loc { (o.0, o.1 as usize) }
spec fn gone_var(c: Cfg, v: u32) -> bool { exists|d: Occ, o: Occ| #[trigger] moves(c, d, o, v) }
spec fn inlined_by(c: Cfg, s: Loc, t: Loc) -> bool { exists|d: Occ, o: Occ, v: u32| #[trigger] moves(c, d, o, v) && s == loc(d) && t == loc(o) }
/// occurrences visited before instruction `i`, position `k` of the `b`-th block
spec fn before(e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, k: int, o: Occ) -> bool {
  (exists|j: int| 0 <= j < b && (#[trigger] e[j]).0 == o.0) || (b < e.len() && o.0 == e[b].0 && (o.1 < i || (o.1 == i && o.2 < k)))
}
type Uses = Map<u32, Vec<Loc>>;
/// the recorded uses are those at the occurrences `oc`, which are exactly the ones visited
spec fn used_at(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, k: int, m: Uses, oc: Map<u32, Seq<Occ>>) -> bool {
  &&& forall|v: u32| #[trigger] m.contains_key(v) == oc.contains_key(v)
  &&& forall|v: u32| #[trigger] m.contains_key(v) ==> m[v]@.len() == oc[v].len() && m[v]@.len() > 0 && oc[v].no_duplicates() && agree(m[v]@, oc[v])
  &&& forall|v: u32, o: Occ| is_use(c, o, v) && before(e, b, i, k, o) ==> #[trigger] listed(oc, v, o)
  &&& forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) ==> is_use(c, o, v) && before(e, b, i, k, o)
}
spec fn agree(a: Seq<Loc>, b: Seq<Occ>) -> bool { forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == loc(b[j]) }
spec fn listed(oc: Map<u32, Seq<Occ>>, v: u32, o: Occ) -> bool { oc.contains_key(v) && oc[v].contains(o) }
spec fn def_at(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, k: int, m: Map<u32, Loc>) -> bool {
  &&& forall|v: u32, o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, k, o) ==> m.contains_key(v) && m[v] == loc(o)
  &&& forall|v: u32| #[trigger] m.contains_key(v) ==> exists|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, k, o)
}
proof fn not_before(e: Seq<(u32, &Vec<Inst>)>, c: Cfg, b: int, i: int, k: int)
  requires blocks_of(e, c.bblocks.0@), 0 <= b < e.len(),
  ensures !before(e, b, i, k, (e[b].0, i, k)),
{
  if exists|j: int| 0 <= j < b && (#[trigger] e[j]).0 == e[b].0 { let j = choose|j: int| 0 <= j < b && (#[trigger] e[j]).0 == e[b].0; assert(e[j].0 != e[b].0); }
}
proof fn use_step(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, k: int, m: Uses, oc: Map<u32, Seq<Occ>>, m2: Uses) -> (oc2: Map<u32, Seq<Occ>>)
  requires used_at(c, e, b, i, k, m, oc), blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), 0 <= i < e[b].1@.len(), 0 <= k < e[b].1@[i].args@.len(),
    e[b].1@.len() <= usize::MAX,
    match e[b].1@[i].args@[k] {
      Arg::Var(t) => m2.contains_key(t) && m2[t]@ == (if m.contains_key(t) { m[t]@ } else { Seq::<Loc>::empty() }).push((e[b].0, i as usize))
        && (forall|v: u32| v != t ==> #[trigger] m2.contains_key(v) == m.contains_key(v)) && (forall|v: u32| v != t && m.contains_key(v) ==> #[trigger] m2[v] == m[v]),
      _ => m2 == m,
    },
  ensures used_at(c, e, b, i, k + 1, m2, oc2),
{
  let at = (e[b].0, i, k);
  not_before(e, c, b, i, k);
  assert(c.bblocks.0@.contains_key(e[b].0) && c.bblocks.0@[e[b].0] == *e[b].1);
  assert(inst_at(c, at) == e[b].1@[i]);
  let arg = e[b].1@[i].args@[k];
  assert forall|o: Occ| before(e, b, i, k + 1, o) && !before(e, b, i, k, o) && 0 <= o.2 implies o == at || o.2 != k by {}
  match arg {
    Arg::Var(t) => {
      let o0 = if oc.contains_key(t) { oc[t] } else { Seq::<Occ>::empty() };
      let o1 = o0.push(at);
      let oc2 = oc.insert(t, o1);
      assert(m.contains_key(t) == oc.contains_key(t));
      if o0.contains(at) { assert(listed(oc, t, at)); }
      assert(o1.no_duplicates());
      assert forall|o: Occ| #[trigger] o1.contains(o) == (o0.contains(o) || o == at) by {
        if o0.contains(o) { let j = choose|j: int| 0 <= j < o0.len() && o0[j] == o; assert(o1[j] == o); }
        assert(o1[o0.len() as int] == at);
      }
      assert(agree(m2[t]@, o1)) by { assert forall|j: int| 0 <= j < m2[t]@.len() implies #[trigger] m2[t]@[j] == loc(o1[j]) by { if j < o0.len() { assert(m[t]@[j] == loc(o0[j])); } } }
      assert forall|v: u32| #[trigger] m2.contains_key(v) == oc2.contains_key(v) by { assert(m.contains_key(v) == oc.contains_key(v)); }
      assert forall|v: u32| #[trigger] m2.contains_key(v) implies m2[v]@.len() == oc2[v].len() && m2[v]@.len() > 0 && oc2[v].no_duplicates() && agree(m2[v]@, oc2[v]) by {
        if v != t { assert(m.contains_key(v)); assert(m2[v] == m[v]); }
      }
      assert forall|v: u32, o: Occ| is_use(c, o, v) && before(e, b, i, k + 1, o) implies #[trigger] listed(oc2, v, o) by {
        if before(e, b, i, k, o) { assert(listed(oc, v, o)); } else { assert(o == at); }
      }
      assert forall|v: u32, o: Occ| #[trigger] listed(oc2, v, o) implies is_use(c, o, v) && before(e, b, i, k + 1, o) by {
        if v == t && o == at { } else { assert(listed(oc, v, o)); }
      }
      oc2
    },
    _ => {
      assert forall|v: u32, o: Occ| is_use(c, o, v) && before(e, b, i, k + 1, o) implies #[trigger] listed(oc, v, o) by {
        if !before(e, b, i, k, o) { assert(o == at); }
      }
      assert forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) implies is_use(c, o, v) && before(e, b, i, k + 1, o) by {}
      oc
    },
  }
}
/// to the next instruction
proof fn use_row(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, m: Uses, oc: Map<u32, Seq<Occ>>)
  requires blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), 0 <= i < e[b].1@.len(), used_at(c, e, b, i, e[b].1@[i].args@.len() as int, m, oc),
  ensures used_at(c, e, b, i + 1, 0, m, oc),
{
  assert(c.bblocks.0@[e[b].0] == *e[b].1);
  let n = e[b].1@[i].args@.len() as int;
  assert forall|v: u32, o: Occ| #[trigger] is_use(c, o, v) implies before(e, b, i, n, o) == before(e, b, i + 1, 0, o) by {}
  assert forall|v: u32, o: Occ| is_use(c, o, v) && before(e, b, i + 1, 0, o) implies #[trigger] listed(oc, v, o) by {}
  assert forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) implies is_use(c, o, v) && before(e, b, i + 1, 0, o) by {}
}
/// to the next block
proof fn use_block(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, m: Uses, oc: Map<u32, Seq<Occ>>)
  requires blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), used_at(c, e, b, e[b].1@.len() as int, 0, m, oc),
  ensures used_at(c, e, b + 1, 0, 0, m, oc),
{
  assert(c.bblocks.0@[e[b].0] == *e[b].1);
  let n = e[b].1@.len() as int;
  assert forall|v: u32, o: Occ| #[trigger] is_use(c, o, v) implies before(e, b, n, 0, o) == before(e, b + 1, 0, 0, o) by { if o.0 == e[b].0 { assert(e[b].0 == o.0); } }
  assert forall|v: u32, o: Occ| is_use(c, o, v) && before(e, b + 1, 0, 0, o) implies #[trigger] listed(oc, v, o) by {}
  assert forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) implies is_use(c, o, v) && before(e, b + 1, 0, 0, o) by {}
}
proof fn def_step(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, k: int, m: Map<u32, Loc>)
  requires def_at(c, e, b, i, k, m), ssa(c), blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), 0 <= i < e[b].1@.len(), 0 <= k < e[b].1@[i].tgts@.len(), e[b].1@.len() <= usize::MAX,
  ensures !m.contains_key(e[b].1@[i].tgts@[k]), def_at(c, e, b, i, k + 1, m.insert(e[b].1@[i].tgts@[k], (e[b].0, i as usize))),
{
  let at = (e[b].0, i, k);
  let t = e[b].1@[i].tgts@[k];
  not_before(e, c, b, i, k);
  assert(c.bblocks.0@.contains_key(e[b].0) && c.bblocks.0@[e[b].0] == *e[b].1);
  assert(is_def(c, at, t));
  if m.contains_key(t) { let o = choose|o: Occ| #[trigger] is_def(c, o, t) && before(e, b, i, k, o); assert(o == at); }
  let m2 = m.insert(t, (e[b].0, i as usize));
  assert forall|v: u32, o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, k + 1, o) implies m2.contains_key(v) && m2[v] == loc(o) by {
    if before(e, b, i, k, o) { if v == t { assert(o == at); } } else { assert(o == at); }
  }
  assert forall|v: u32| #[trigger] m2.contains_key(v) implies exists|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, k + 1, o) by {
    if v != t { assert(m.contains_key(v)); let o = choose|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, k, o); assert(is_def(c, o, v) && before(e, b, i, k + 1, o)); }
    else { assert(is_def(c, at, v) && before(e, b, i, k + 1, at)); }
  }
}
proof fn def_row(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, i: int, m: Map<u32, Loc>)
  requires blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), 0 <= i < e[b].1@.len(), def_at(c, e, b, i, e[b].1@[i].tgts@.len() as int, m),
  ensures def_at(c, e, b, i + 1, 0, m),
{
  assert(c.bblocks.0@[e[b].0] == *e[b].1);
  let n = e[b].1@[i].tgts@.len() as int;
  assert forall|v: u32, o: Occ| #[trigger] is_def(c, o, v) implies before(e, b, i, n, o) == before(e, b, i + 1, 0, o) by {}
  assert forall|v: u32| #[trigger] m.contains_key(v) implies exists|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i + 1, 0, o) by {
    let o = choose|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, i, n, o); assert(is_def(c, o, v) && before(e, b, i + 1, 0, o));
  }
}
proof fn def_block(c: Cfg, e: Seq<(u32, &Vec<Inst>)>, b: int, m: Map<u32, Loc>)
  requires blocks_of(e, c.bblocks.0@), 0 <= b < e.len(), def_at(c, e, b, e[b].1@.len() as int, 0, m),
  ensures def_at(c, e, b + 1, 0, 0, m),
{
  assert(c.bblocks.0@[e[b].0] == *e[b].1);
  let n = e[b].1@.len() as int;
  assert forall|v: u32, o: Occ| #[trigger] is_def(c, o, v) implies before(e, b, n, 0, o) == before(e, b + 1, 0, 0, o) by { if o.0 == e[b].0 { assert(e[b].0 == o.0); } }
  assert forall|v: u32| #[trigger] m.contains_key(v) implies exists|o: Occ| #[trigger] is_def(c, o, v) && before(e, b + 1, 0, 0, o) by {
    let o = choose|o: Occ| #[trigger] is_def(c, o, v) && before(e, b, n, 0, o); assert(is_def(c, o, v) && before(e, b + 1, 0, 0, o));
  }
}
impl HasDefault for Vec<Loc> {
  spec fn is_default(self) -> bool { self@ == Seq::<Loc>::empty() }
  #[verifier::external_body]
  fn make() -> (r: Self) { unimplemented!() }
}
spec fn key_before(l: Seq<(&u32, &Vec<Loc>)>, n: int, v: u32) -> bool { exists|j: int| 0 <= j < n && *(#[trigger] l[j]).0 == v }
/// what the first `n` variables contribute
spec fn moved_upto(c: Cfg, l: Seq<(&u32, &Vec<Loc>)>, n: int, v: u32) -> bool { key_before(l, n, v) && gone_var(c, v) }
spec fn inl_upto(c: Cfg, l: Seq<(&u32, &Vec<Loc>)>, n: int, s: Loc, t: Loc) -> bool {
  exists|d: Occ, o: Occ, v: u32| #[trigger] moves(c, d, o, v) && key_before(l, n, v) && s == loc(d) && t == loc(o)
}
spec fn maps_to(m: Map<Loc, Loc>, s: Loc, t: Loc) -> bool { m.contains_key(s) && m[s] == t }
spec fn inl_one(c: Cfg, v: u32, s: Loc, t: Loc) -> bool { exists|d: Occ, o: Occ| #[trigger] moves(c, d, o, v) && s == loc(d) && t == loc(o) }
proof fn moved_step(c: Cfg, l: Seq<(&u32, &Vec<Loc>)>, n: int)
  requires 0 <= n < l.len(),
  ensures forall|v: u32| #[trigger] key_before(l, n + 1, v) == (key_before(l, n, v) || v == *l[n].0),
    forall|v: u32| #[trigger] moved_upto(c, l, n + 1, v) == (moved_upto(c, l, n, v) || (v == *l[n].0 && gone_var(c, v))),
    forall|s: Loc, t: Loc| #[trigger] inl_upto(c, l, n + 1, s, t) == (inl_upto(c, l, n, s, t) || inl_one(c, *l[n].0, s, t)),
{
  assert forall|v: u32| #[trigger] key_before(l, n + 1, v) == (key_before(l, n, v) || v == *l[n].0) by {
    if key_before(l, n, v) { let j = choose|j: int| 0 <= j < n && *(#[trigger] l[j]).0 == v; assert(*l[j].0 == v); }
  }
  assert forall|s: Loc, t: Loc| #[trigger] inl_upto(c, l, n + 1, s, t) == (inl_upto(c, l, n, s, t) || inl_one(c, *l[n].0, s, t)) by {
    if inl_upto(c, l, n, s, t) { let (d, o, v) = choose|d: Occ, o: Occ, v: u32| #[trigger] moves(c, d, o, v) && key_before(l, n, v) && s == loc(d) && t == loc(o); assert(moves(c, d, o, v) && key_before(l, n + 1, v)); }
    if inl_one(c, *l[n].0, s, t) { let (d, o) = choose|d: Occ, o: Occ| #[trigger] moves(c, d, o, *l[n].0) && s == loc(d) && t == loc(o); assert(key_before(l, n + 1, *l[n].0)); }
  }
}
proof fn one_use(c: Cfg, oc: Map<u32, Seq<Occ>>, v: u32)
  requires oc.contains_key(v), oc[v].len() > 0, oc[v].no_duplicates(),
    forall|v: u32, o: Occ| #[trigger] is_use(c, o, v) ==> listed(oc, v, o),
    forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) ==> is_use(c, o, v),
  ensures oc[v].len() == 1 ==> sole(c, oc[v][0], v), oc[v].len() != 1 ==> forall|d: Occ, o: Occ| !#[trigger] moves(c, d, o, v),
{
  assert(listed(oc, v, oc[v][0]));
  if oc[v].len() == 1 {
    assert forall|q: Occ| #[trigger] is_use(c, q, v) implies q == oc[v][0] by { assert(listed(oc, v, q)); }
  } else {
    assert(listed(oc, v, oc[v][1]));
    assert(oc[v][0] != oc[v][1]);
    assert(is_use(c, oc[v][0], v) && is_use(c, oc[v][1], v));
  }
}
proof fn lens(c: Cfg, l: u32) ensures c.bblocks.0@[l]@.len() <= usize::MAX { vstd::std_specs::vec::axiom_spec_len(&c.bblocks.0@[l]); }
/*@fn optimize-js/src/analysis/single_use_insts.rs :: analyse_single_use_defs
#ret r
#rewrite `if let &Arg::Var(t) = arg {` => `if let Arg::Var(tv) = arg { let t = *tv;`
#rewrite `assert!(def_locs.insert(var, (label, inst_no)).is_none())` => `let was = def_locs.insert(var, (label, inst_no)).is_none(); assert(was);`
#rewrite `uses.first().unwrap()` => `&uses[0]`
#rewrite `def_locs.remove(&var).unwrap()` => `def_locs.remove(var).unwrap()`
#rewrite `assert!(src_loc.1 < dest_loc.1);` => `assert(src_loc.1 < dest_loc.1);`
#rewrite `assert!(inlines.insert(src_loc, dest_loc.clone()).is_none());` => `let was = inlines.insert(src_loc, *dest_loc).is_none(); assert(was);`
#rewrite `inlined_vars.insert(var);` => `inlined_vars.insert(*var);`
#rewrite `let mut inlined_vars = HashSet::new();` => `let mut inlined_vars = HashSet::<u32>::new();`
#spec
  requires ssa(*cfg),
  ensures
    // exactly the definitions that move are inlined, each to its use
    forall|s: Loc, t: Loc| #[trigger] maps_to(r.0@, s, t) == inlined_by(*cfg, s, t),
    forall|v: u32| #[trigger] r.1@.contains(v) == gone_var(*cfg, v),
#at before `for (label, insts) in`
  let ghost mut oc = Map::<u32, Seq<Occ>>::empty();
#loop 0 while=bx list=self_
  invariant
    bx <= bx_s@.len(), ssa(*cfg), blocks_of(bx_s@, cfg.bblocks.0@), used_at(*cfg, bx_s@, bx as int, 0, 0, use_locs@, oc), def_at(*cfg, bx_s@, bx as int, 0, 0, def_locs@),
  decreases bx_s@.len() - bx,
#at enter `for (label, insts) in`
  let ghost b = bx - 1; let ghost e = bx_s@;
  proof { vstd::std_specs::vec::axiom_spec_len(insts); assert(insts == e[b].1 && label == e[b].0); }
#loop 1 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == e[b].1@, ix_s@.len() <= usize::MAX, 0 <= b < e.len(), label == e[b].0,
    ssa(*cfg), blocks_of(e, cfg.bblocks.0@), used_at(*cfg, e, b, ix as int, 0, use_locs@, oc), def_at(*cfg, e, b, ix as int, 0, def_locs@),
  decreases ix_s@.len() - ix,
#loop 2 while=kx
  invariant
    kx <= kx_s@.len(), 0 < ix <= ix_s@.len(), ix_s@ == e[b].1@, ix_s@.len() <= usize::MAX, 0 <= b < e.len(), label == e[b].0, kx_s@ == e[b].1@[ix - 1].args@, inst_no == ix - 1,
    blocks_of(e, cfg.bblocks.0@), used_at(*cfg, e, b, ix - 1, kx as int, use_locs@, oc),
  decreases kx_s@.len() - kx,
#at enter `for arg in`
  let ghost u0 = use_locs@;
#at exit `for arg in`
  proof { oc = use_step(*cfg, e, b, ix - 1, kx - 1, u0, oc, use_locs@); }
#at afterblock `for arg in`
  proof { use_row(*cfg, e, b, ix - 1, use_locs@, oc); }
#loop 3 while=tx
  invariant
    tx <= tx_s@.len(), 0 < ix <= ix_s@.len(), ix_s@ == e[b].1@, ix_s@.len() <= usize::MAX, 0 <= b < e.len(), label == e[b].0, tx_s@ == e[b].1@[ix - 1].tgts@, inst_no == ix - 1,
    ssa(*cfg), blocks_of(e, cfg.bblocks.0@), def_at(*cfg, e, b, ix - 1, tx as int, def_locs@),
  decreases tx_s@.len() - tx,
#at enter `for &var in`
  proof { def_step(*cfg, e, b, ix - 1, tx - 1, def_locs@); }
#at afterblock `for &var in`
  proof { def_row(*cfg, e, b, ix - 1, def_locs@); }
#at afterblock `for (inst_no, inst) in`
  proof { use_block(*cfg, e, b, use_locs@, oc); def_block(*cfg, e, b, def_locs@); }
#at before `let mut inlines`
  let ghost e = bx_s@; let ghost u = use_locs@; let ghost df = def_locs@;
  proof {
    assert forall|v: u32, o: Occ| #[trigger] is_use(*cfg, o, v) implies listed(oc, v, o) by { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == o.0; assert(before(e, e.len() as int, 0, 0, o)); }
    assert forall|v: u32, o: Occ| #[trigger] is_def(*cfg, o, v) implies df.contains_key(v) && df[v] == loc(o) by { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == o.0; assert(before(e, e.len() as int, 0, 0, o)); }
  }
#loop 4 while=vx list=pairs
  invariant
    vx <= vx_s@.len(), ssa(*cfg), 
    forall|i: int| 0 <= i < vx_s@.len() ==> u.contains_key(*(#[trigger] vx_s@[i]).0) && u[*vx_s@[i].0] == *vx_s@[i].1,
    forall|i: int, j: int| 0 <= i < j < vx_s@.len() ==> *(#[trigger] vx_s@[i]).0 != *(#[trigger] vx_s@[j]).0,
    forall|v: u32, o: Occ| #[trigger] is_def(*cfg, o, v) ==> df.contains_key(v) && df[v] == loc(o),
    forall|v: u32, o: Occ| #[trigger] is_use(*cfg, o, v) ==> listed(oc, v, o),
    forall|v: u32, o: Occ| #[trigger] listed(oc, v, o) ==> is_use(*cfg, o, v),
    forall|v: u32| #[trigger] u.contains_key(v) ==> oc.contains_key(v) && u[v]@.len() == oc[v].len() && u[v]@.len() > 0 && oc[v].no_duplicates() && agree(u[v]@, oc[v]),
    forall|v: u32| #[trigger] df.contains_key(v) && !key_before(vx_s@, vx as int, v) ==> def_locs@.contains_key(v) && def_locs@[v] == df[v],
    forall|v: u32| #[trigger] inlined_vars@.contains(v) == moved_upto(*cfg, vx_s@, vx as int, v),
    forall|s: Loc, t: Loc| #[trigger] maps_to(inlines@, s, t) == inl_upto(*cfg, vx_s@, vx as int, s, t),
  decreases vx_s@.len() - vx,
#at enter `for (var, uses) in`
  let ghost v = *var; let ghost o = oc[v][0]; let ghost d = choose|d: Occ| #[trigger] is_def(*cfg, d, v);
  let ghost in0 = inlines@; let ghost iv0 = inlined_vars@; let ghost n = vx - 1; let ghost l = vx_s@;
  proof {
    assert(u.contains_key(v));
    moved_step(*cfg, l, n);
    assert(!key_before(l, n, v)) by { if key_before(l, n, v) { let j = choose|j: int| 0 <= j < n && *(#[trigger] l[j]).0 == v; assert(*l[j].0 != *l[n].0); } }
    one_use(*cfg, oc, v);
    if uses@.len() == 1 {
      assert(sole(*cfg, o, v));
      assert(is_def(*cfg, d, v));
      assert(uses@[0] == loc(o));
      lens(*cfg, o.0); lens(*cfg, d.0);
      assert forall|d2: Occ, o2: Occ| #[trigger] moves(*cfg, d2, o2, v) implies d2 == d && o2 == o by {}
      assert(moves(*cfg, d, o, v) == (d.0 == o.0 && d.1 < o.1));
    }
    assert(gone_var(*cfg, v) == (uses@.len() == 1 && moves(*cfg, d, o, v)));
    assert forall|s: Loc, t: Loc| #[trigger] inl_one(*cfg, v, s, t) == (uses@.len() == 1 && moves(*cfg, d, o, v) && s == loc(d) && t == loc(o)) by {}
  }
#at before `assert!(inlines.insert(`
  proof {
    if inlines@.contains_key(src_loc) {
      let t = inlines@[src_loc];
      assert(maps_to(inlines@, src_loc, t));
      let (d2, o2, v2) = choose|d2: Occ, o2: Occ, v2: u32| #[trigger] moves(*cfg, d2, o2, v2) && key_before(l, n, v2) && src_loc == loc(d2) && t == loc(o2);
      lens(*cfg, d2.0);
      assert(d2 == d);
      assert(v2 == v);
    }
  }
#at exit `for (var, uses) in`
  proof {
    assert forall|s: Loc, t: Loc| #[trigger] maps_to(inlines@, s, t) == inl_upto(*cfg, vx_s@, vx as int, s, t) by {
      assert(maps_to(in0, s, t) == inl_upto(*cfg, l, n, s, t));
      assert(!in0.contains_key(loc(d)));
    }
  }
#at before `(inlines, inlined_vars)`
  proof {
    let l = vx_s@;
    assert forall|v: u32| gone_var(*cfg, v) implies #[trigger] key_before(l, l.len() as int, v) by {
      let (d, o) = choose|d: Occ, o: Occ| #[trigger] moves(*cfg, d, o, v);
      assert(listed(oc, v, o));
      assert(u.contains_key(v));
    }
    assert forall|s: Loc, t: Loc| inlined_by(*cfg, s, t) implies #[trigger] inl_upto(*cfg, l, l.len() as int, s, t) by {
      let (d, o, v) = choose|d: Occ, o: Occ, v: u32| #[trigger] moves(*cfg, d, o, v) && s == loc(d) && t == loc(o);
      assert(gone_var(*cfg, v));
      assert(key_before(l, l.len() as int, v));
    }
  }
@*/

// ---- numbering ----
/*@type optimize-js/src/decompile/regalloc.rs :: RegAlloc
@*/
/// a variable that is defined or used somewhere
spec fn is_temp(c: Cfg, v: u32) -> bool { exists|o: Occ| #[trigger] occ(c, o, v) }
spec fn occ(c: Cfg, o: Occ, v: u32) -> bool { is_use(c, o, v) || is_def(c, o, v) }
/// the block labels
#[verifier::external_body]
fn block_labels(l: Vec<(u32, &Vec<Inst>)>) -> (r: Vec<u32>) ensures r@.len() == l@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == l@[i].0 { unimplemented!() }
spec fn temp_in(c: Cfg, gone: Set<u32>, l: u32, i: int, v: u32) -> bool { !gone.contains(v) && exists|o: Occ| #[trigger] occ(c, o, v) && o.0 == l && o.1 < i }
spec fn temp_of(c: Cfg, gone: Set<u32>, ls: Seq<u32>, n: int, v: u32) -> bool { exists|j: int| 0 <= j < n && #[trigger] temp_in(c, gone, ls[j], c.bblocks.0@[ls[j]]@.len() as int, v) }
spec fn args_to(a: Seq<Arg>, n: int, v: u32) -> bool { exists|k: int| 0 <= k < n && #[trigger] a[k] == Arg::Var(v) }
proof fn args_to_step(a: Seq<Arg>, n: int)
  requires 0 <= n < a.len(),
  ensures forall|v: u32| #[trigger] args_to(a, n + 1, v) == (args_to(a, n, v) || a[n] == Arg::Var(v)),
{
  assert forall|v: u32| #[trigger] args_to(a, n + 1, v) == (args_to(a, n, v) || a[n] == Arg::Var(v)) by {
    if args_to(a, n, v) { let k = choose|k: int| 0 <= k < n && #[trigger] a[k] == Arg::Var(v); assert(a[k] == Arg::Var(v)); }
  }
}
proof fn first_n_step(a: Seq<u32>, n: int)
  requires 0 <= n < a.len(),
  ensures forall|v: u32| #[trigger] first_n(a, n + 1, v) == (first_n(a, n, v) || a[n] == v),
{
  assert forall|v: u32| #[trigger] first_n(a, n + 1, v) == (first_n(a, n, v) || a[n] == v) by {
    if first_n(a, n, v) { let k = choose|k: int| 0 <= k < n && #[trigger] a[k] == v; assert(a[k] == v); }
  }
}
proof fn temp_inst(c: Cfg, gone: Set<u32>, l: u32, i: int)
  requires in_block(c, l, i),
  ensures forall|v: u32| #[trigger] temp_in(c, gone, l, i + 1, v) == (temp_in(c, gone, l, i, v) || (!gone.contains(v)
    && (args_to(c.bblocks.0@[l]@[i].args@, c.bblocks.0@[l]@[i].args@.len() as int, v) || first_n(c.bblocks.0@[l]@[i].tgts@, c.bblocks.0@[l]@[i].tgts@.len() as int, v)))),
{
  let ins = c.bblocks.0@[l]@[i];
  assert forall|v: u32| #[trigger] temp_in(c, gone, l, i + 1, v) == (temp_in(c, gone, l, i, v) || (!gone.contains(v)
    && (args_to(ins.args@, ins.args@.len() as int, v) || first_n(ins.tgts@, ins.tgts@.len() as int, v)))) by {
    if temp_in(c, gone, l, i, v) { let o = choose|o: Occ| #[trigger] occ(c, o, v) && o.0 == l && o.1 < i; assert(occ(c, o, v)); assert(o.1 < i + 1); }
    if args_to(ins.args@, ins.args@.len() as int, v) { let k = choose|k: int| 0 <= k < ins.args@.len() && #[trigger] ins.args@[k] == Arg::Var(v); assert(occ(c, (l, i, k), v)); }
    if first_n(ins.tgts@, ins.tgts@.len() as int, v) { let k = choose|k: int| 0 <= k < ins.tgts@.len() && #[trigger] ins.tgts@[k] == v; let o = (l, i, k); assert(occ(c, o, v)); }
    if temp_in(c, gone, l, i + 1, v) {
      let o = choose|o: Occ| #[trigger] occ(c, o, v) && o.0 == l && o.1 < i + 1;
      if o.1 == i { if is_use(c, o, v) { assert(ins.args@[o.2] == Arg::Var(v)); } else { assert(ins.tgts@[o.2] == v); } } else { assert(occ(c, o, v)); assert(o.1 < i); }
    }
  }
}
/*@fn optimize-js/src/decompile/regalloc.rs :: collect_temps
#ret r
#rewrite `let mut labels: Vec<_> = cfg.bblocks.all().map(|(label, _)| label).collect();` => `let bl = cfg.bblocks.all(); let ghost e = bl@; let mut labels: Vec<u32> = block_labels(bl);`
#rewrite `labels.sort_unstable();` => `sort_u32(&mut labels);`
#rewrite `temps.into_iter().collect()` => `temps.list()`
#rewrite `temps.sort_unstable();` => `sort_u32(&mut temps);`
#spec
  ensures ascending(r@), r@.no_duplicates(), forall|v: u32| #[trigger] r@.contains(v) == (is_temp(*cfg, v) && !inlined_temps@.contains(v)),
#at after `labels.sort_unstable();`
  let ghost ls = labels@; let ghost gone = inlined_temps@;
  proof {
    assert forall|l: u32| #[trigger] ls.contains(l) == cfg.bblocks.0@.contains_key(l) by {
      if cfg.bblocks.0@.contains_key(l) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == l; assert(ls0[i] == l); assert(ls0.contains(l)); }
      if ls.contains(l) { assert(ls0.contains(l)); let i = choose|i: int| 0 <= i < ls0.len() && ls0[i] == l; assert(cfg.bblocks.0@.contains_key(e[i].0)); }
    }
  }
#at before `labels.sort_unstable();`
  let ghost ls0 = labels@;
#loop 0 while=lx list=self_
  invariant
    lx <= lx_s@.len(), lx_s@ == ls, gone == inlined_temps@, forall|l: u32| #[trigger] ls.contains(l) == cfg.bblocks.0@.contains_key(l),
    forall|v: u32| #[trigger] temps@.contains(v) == temp_of(*cfg, gone, ls, lx as int, v),
  decreases lx_s@.len() - lx,
#at enter `for label in labels`
  let ghost t0 = temps@;
  proof { assert(ls.contains(label)); }
#loop 1 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == cfg.bblocks.0@[label]@, gone == inlined_temps@, cfg.bblocks.0@.contains_key(label),
    forall|v: u32| #[trigger] temps@.contains(v) == (t0.contains(v) || temp_in(*cfg, gone, label, ix as int, v)),
  decreases ix_s@.len() - ix,
#at enter `for inst in`
  let ghost t1 = temps@;
  proof { temp_inst(*cfg, gone, label, ix - 1); }
#loop 2 while=tx
  invariant
    tx <= tx_s@.len(), tx_s@ == inst.tgts@, gone == inlined_temps@,
    forall|v: u32| #[trigger] temps@.contains(v) == (t1.contains(v) || (!gone.contains(v) && first_n(tx_s@, tx as int, v))),
  decreases tx_s@.len() - tx,
#at enter `for &tgt in`
  proof { first_n_step(tx_s@, tx - 1); }
#loop 3 while=kx
  invariant
    kx <= kx_s@.len(), kx_s@ == inst.args@, gone == inlined_temps@,
    forall|v: u32| #[trigger] temps@.contains(v) == (t1.contains(v) || (!gone.contains(v) && (first_n(inst.tgts@, inst.tgts@.len() as int, v) || args_to(kx_s@, kx as int, v)))),
  decreases kx_s@.len() - kx,
#at enter `for arg in`
  proof { args_to_step(kx_s@, kx - 1); }
#at afterblock `for inst in`
  proof {
    assert forall|v: u32| #[trigger] temps@.contains(v) == temp_of(*cfg, gone, ls, lx as int, v) by {
      if temp_of(*cfg, gone, ls, lx - 1, v) { let j = choose|j: int| 0 <= j < lx - 1 && #[trigger] temp_in(*cfg, gone, ls[j], cfg.bblocks.0@[ls[j]]@.len() as int, v); assert(temp_in(*cfg, gone, ls[j], cfg.bblocks.0@[ls[j]]@.len() as int, v)); }
      if temp_in(*cfg, gone, label, cfg.bblocks.0@[label]@.len() as int, v) { assert(temp_in(*cfg, gone, ls[lx - 1], cfg.bblocks.0@[ls[lx - 1]]@.len() as int, v)); }
    }
  }
#at before `let mut temps: Vec<_>`
  let ghost tt = temps@;
  proof {
    assert forall|v: u32| #[trigger] tt.contains(v) == (is_temp(*cfg, v) && !gone.contains(v)) by {
      if tt.contains(v) {
        let j = choose|j: int| 0 <= j < ls.len() && #[trigger] temp_in(*cfg, gone, ls[j], cfg.bblocks.0@[ls[j]]@.len() as int, v);
        let o = choose|o: Occ| #[trigger] occ(*cfg, o, v) && o.0 == ls[j] && o.1 < cfg.bblocks.0@[ls[j]]@.len() as int;
        assert(occ(*cfg, o, v));
      }
      if is_temp(*cfg, v) && !gone.contains(v) {
        let o = choose|o: Occ| #[trigger] occ(*cfg, o, v);
        assert(ls.contains(o.0)); let j = choose|j: int| 0 <= j < ls.len() && ls[j] == o.0;
        assert(occ(*cfg, o, v));
        assert(temp_in(*cfg, gone, ls[j], cfg.bblocks.0@[ls[j]]@.len() as int, v));
      }
    }
  }
@*/
/*@fn optimize-js/src/decompile/regalloc.rs :: determinize_intgraph
#ret r
#rewrite `let mut nodes: Vec<_> = intgraph.keys().copied().collect();` => `let mut nodes = intgraph.keys();`
#rewrite `nodes.sort_unstable();` => `sort_u32(&mut nodes);`
#rewrite `let mut deterministic = HashMap::with_hasher(RandomState::with_seeds(0, 0, 0, 0));` => `let mut deterministic = HashMap::<u32, HashSet<u32>>::default();`
#rewrite `intgraph.get(&node).unwrap().iter().copied().collect()` => `intgraph.get(&node).unwrap().list()`
#rewrite `neighbours.sort_unstable();` => `sort_u32(&mut neighbours);`
#rewrite `let mut set = HashSet::with_hasher(RandomState::with_seeds(0, 0, 0, 0));` => `let mut set = HashSet::<u32>::default();`
#rewrite `set.extend(neighbours);` => `set.extend_list(neighbours);`
#spec
  // the same graph
  ensures r@.dom() == intgraph@.dom(), forall|a: u32, b: u32| #[trigger] nbr(r@, a, b) == nbr(intgraph@, a, b),
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(), lists(ix_s@, intgraph@.dom()),
    forall|a: u32| #[trigger] deterministic@.contains_key(a) == done(ix_s@, ix as int, a),
    forall|a: u32, b: u32| done(ix_s@, ix as int, a) ==> #[trigger] nbr(deterministic@, a, b) == nbr(intgraph@, a, b),
  decreases ix_s@.len() - ix,
#at enter `for node in nodes`
  let ghost d0 = deterministic@;
  proof { done_step(ix_s@, ix - 1, intgraph@.dom()); }
#at exit `for node in nodes`
  proof {
    assert forall|a: u32, b: u32| done(ix_s@, ix as int, a) implies #[trigger] nbr(deterministic@, a, b) == nbr(intgraph@, a, b) by {
      if a != node { assert(nbr(d0, a, b) == nbr(intgraph@, a, b)); }
    }
  }
#tail r
  proof {
    done_all(ix_s@, intgraph@.dom());
    assert forall|a: u32| #[trigger] r@.contains_key(a) == intgraph@.contains_key(a) by { assert(intgraph@.dom().contains(a) == done(ix_s@, ix_s@.len() as int, a)); }
    assert(r@.dom() =~= intgraph@.dom());
    assert forall|a: u32, b: u32| #[trigger] nbr(r@, a, b) == nbr(intgraph@, a, b) by { if nbr(r@, a, b) || nbr(intgraph@, a, b) { assert(intgraph@.dom().contains(a) == done(ix_s@, ix_s@.len() as int, a)); } }
  }
@*/
impl HashSet<u32> {
  /// `s.extend(list)`
  #[verifier::external_body]
  fn extend_list(&mut self, l: Vec<u32>) ensures forall|k: u32| #[trigger] final(self)@.contains(k) == (old(self)@.contains(k) || l@.contains(k)) { unimplemented!() }
}
spec fn in_pairs(l: Seq<(u32, u32)>, n: int, t: u32, r: u32) -> bool { exists|i: int| 0 <= i < n && #[trigger] l[i] == (t, r) }
impl HashMap<u32, u32> {
  /// `m.into_iter().filter(f).collect()`
  #[verifier::external_body]
  fn kept<F: Fn(&(u32, u32)) -> bool>(&self, f: F) -> (r: Vec<(u32, u32)>)
    requires forall|p: (u32, u32)| #[trigger] call_requires(f, (&p,)),
    ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1 && call_ensures(f, (&r@[i],), true),
      forall|t: u32| #[trigger] self@.contains_key(t) ==> in_pairs(r@, r@.len() as int, t, self@[t]) || call_ensures(f, (&(t, self@[t]),), false),
      forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0 { unimplemented!() }
}
/// `v.sort_unstable_by_key(|(t, _)| *t)`, on distinct keys
#[verifier::external_body]
fn sort_pairs(v: &mut Vec<(u32, u32)>)
  ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0,
    forall|t: u32, r: u32| #[trigger] in_pairs(final(v)@, final(v)@.len() as int, t, r) == in_pairs(old(v)@, old(v)@.len() as int, t, r),
    (forall|i: int, j: int| 0 <= i < j < old(v)@.len() ==> (#[trigger] old(v)@[i]).0 != (#[trigger] old(v)@[j]).0) ==> forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 != (#[trigger] final(v)@[j]).0,
{ unimplemented!() }
/// the registers among the first `n` pairs are numbered as they first appear
spec fn numbered(l: Seq<(u32, u32)>, n: int, m: Map<u32, u32>, next: u32) -> bool {
  &&& forall|r: u32| #[trigger] m.contains_key(r) == (exists|i: int| 0 <= i < n && (#[trigger] l[i]).1 == r)
  &&& forall|r: u32| #[trigger] m.contains_key(r) ==> m[r] < next
  &&& forall|r: u32, q: u32| #[trigger] m.contains_key(r) && #[trigger] m.contains_key(q) && m[r] == m[q] ==> r == q
  &&& next <= n
  // every smaller number was given out earlier
  &&& forall|i: int, x: u32| 0 <= i < n && x < m[(#[trigger] l[i]).1] ==> #[trigger] given(l, i, m, x)
  &&& forall|x: u32| x < next ==> #[trigger] given(l, n, m, x)
}
spec fn given(l: Seq<(u32, u32)>, n: int, m: Map<u32, u32>, x: u32) -> bool { exists|j: int| 0 <= j < n && m[(#[trigger] l[j]).1] == x }
proof fn pairs_bound(l: Seq<(u32, u32)>, m: Map<u32, u32>)
  requires m.dom().len() <= u32::MAX, forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0),
    forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0,
  ensures l.len() <= u32::MAX,
{
  let k = l.map_values(|p: (u32, u32)| p.0);
  assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies k[i] != k[j] by { if i < j { assert(l[i].0 != l[j].0); } else { assert(l[j].0 != l[i].0); } }
  k.unique_seq_to_set();
  assert(k.to_set().subset_of(m.dom())) by { assert forall|t: u32| #[trigger] k.to_set().contains(t) implies m.dom().contains(t) by { let i = choose|i: int| 0 <= i < k.len() && k[i] == t; assert(m.contains_key(l[i].0)); } }
  vstd::set_lib::lemma_len_subset(k.to_set(), m.dom());
}
proof fn numbered_step(l: Seq<(u32, u32)>, n: int, m0: Map<u32, u32>, n0: u32, m: Map<u32, u32>, n1: u32)
  requires 0 <= n < l.len(), numbered(l, n, m0, n0),
    m0.contains_key(l[n].1) ==> m == m0 && n1 == n0,
    !m0.contains_key(l[n].1) ==> m == m0.insert(l[n].1, n0) && n1 == n0 + 1,
  ensures numbered(l, n + 1, m, n1),
{
  let r = l[n].1;
  assert forall|q: u32| #[trigger] m.contains_key(q) == (exists|i: int| 0 <= i < n + 1 && (#[trigger] l[i]).1 == q) by {
    if m0.contains_key(q) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).1 == q; assert(l[i].1 == q); }
    if q == r { assert(l[n].1 == q); }
  }
  assert forall|i: int| 0 <= i < n implies m0.contains_key((#[trigger] l[i]).1) && m[l[i].1] == m0[l[i].1] by {}
  assert forall|i: int, x: u32| 0 <= i <= n && #[trigger] given(l, i, m0, x) implies given(l, i, m, x) by {
    let j = choose|j: int| 0 <= j < i && m0[(#[trigger] l[j]).1] == x; assert(m[l[j].1] == x);
  }
  assert forall|i: int, x: u32| 0 <= i < n + 1 && x < m[(#[trigger] l[i]).1] implies #[trigger] given(l, i, m, x) by {
    if i < n { assert(given(l, i, m0, x)); }
    else if m0.contains_key(r) {
      let k = choose|k: int| 0 <= k < n && (#[trigger] l[k]).1 == r;
      assert(given(l, k, m0, x));
      let j = choose|j: int| 0 <= j < k && m0[(#[trigger] l[j]).1] == x; assert(m[l[j].1] == x);
    } else { assert(given(l, n, m0, x)); }
  }
  assert forall|x: u32| x < n1 implies #[trigger] given(l, n + 1, m, x) by {
    if x < n0 { assert(given(l, n, m0, x)); assert(given(l, n, m, x)); let j = choose|j: int| 0 <= j < n && m[(#[trigger] l[j]).1] == x; assert(m[l[j].1] == x); }
    else { assert(m[l[n].1] == x); }
  }
}
/*@fn optimize-js/src/decompile/regalloc.rs :: normalise_registers
#ret o
#rewrite `alloc .into_iter() .filter(|(temp, _)| !inlined_temps.contains(temp)) .collect()` => `alloc.kept(|p: &(u32, u32)| -> (o: bool) ensures o == !inlined_temps@.contains(p.0) { let temp = &p.0; !inlined_temps.contains(temp) })`
#rewrite `ordered.sort_unstable_by_key(|(temp, _)| *temp);` => `sort_pairs(&mut ordered);`
#rewrite `let mut reg_remap = HashMap::with_hasher(RandomState::with_seeds(0, 0, 0, 0));` => `let mut reg_remap = HashMap::<u32, u32>::default();`
#rewrite `reg_remap.entry(*reg).or_insert_with(|| {` => `if !reg_remap.contains_key(reg) { let fresh = {`
#rewrite `r });` => `r }; reg_remap.insert(*reg, fresh); }`
#rewrite `let mut temp_to_reg = HashMap::with_hasher(RandomState::with_seeds(0, 0, 0, 0));` => `let mut temp_to_reg = HashMap::<u32, u32>::default();`
#spec
  requires alloc@.dom().len() <= u32::MAX,
  ensures
    // the temps that are not inlined, sharing registers exactly when they did
    forall|t: u32| #[trigger] o.0@.contains_key(t) == (alloc@.contains_key(t) && !inlined_temps@.contains(t)),
    forall|t: u32, q: u32| #[trigger] o.0@.contains_key(t) && #[trigger] o.0@.contains_key(q) ==> (o.0@[t] == o.0@[q]) == (alloc@[t] == alloc@[q]),
    // numbered 0, 1, .. in order of their first temp, all of them in use
    forall|t: u32| #[trigger] o.0@.contains_key(t) ==> o.0@[t] < o.1,
    forall|t: u32, x: u32| #[trigger] o.0@.contains_key(t) && x < o.0@[t] ==> #[trigger] taken_below(o.0@, t, x),
    forall|x: u32| x < o.1 ==> #[trigger] taken(o.0@, x),
#at before `ordered.sort_unstable_by_key(|(temp, _)| *temp);`
  let ghost l0 = ordered@;
#at before `let mut reg_remap`
  let ghost l = ordered@;
  proof {
    assert forall|i: int| 0 <= i < l.len() implies alloc@.contains_key((#[trigger] l[i]).0) by {
      assert(in_pairs(l, l.len() as int, l[i].0, l[i].1));
      assert(in_pairs(l0, l0.len() as int, l[i].0, l[i].1));
    }
    pairs_bound(l, alloc@);
  }
#loop 0 while=ix
  invariant
    ix <= ix_s@.len(), ix_s@ == l, l.len() <= u32::MAX, numbered(l, ix as int, reg_remap@, next_reg),
  decreases ix_s@.len() - ix,
#at enter `for (_, reg) in`
  let ghost m0 = reg_remap@; let ghost n0 = next_reg;
#at exit `for (_, reg) in`
  proof { numbered_step(l, ix - 1, m0, n0, reg_remap@, next_reg); }
#at before `let mut temp_to_reg`
  let ghost m = reg_remap@;
#loop 1 while=jx list=self_
  invariant
    jx <= jx_s@.len(), jx_s@ == l, reg_remap@ == m, numbered(l, l.len() as int, m, next_reg),
    forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0,
    forall|t: u32| #[trigger] temp_to_reg@.contains_key(t) ==> exists|i: int| 0 <= i < jx && (#[trigger] l[i]).0 == t,
    forall|i: int| 0 <= i < jx ==> temp_to_reg@.contains_key((#[trigger] l[i]).0) && temp_to_reg@[l[i].0] == m[l[i].1],
  decreases jx_s@.len() - jx,
#tail o
  proof {
    let n = l.len() as int;
    assert forall|t: u32| #[trigger] o.0@.contains_key(t) implies alloc@.contains_key(t) && !inlined_temps@.contains(t) && m.contains_key(alloc@[t]) && o.0@[t] == m[alloc@[t]] && in_pairs(l, n, t, alloc@[t]) by {
      let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).0 == t;
      assert(l[i] == (t, l[i].1)); assert(in_pairs(l, n, t, l[i].1));
    }
    assert forall|t: u32| alloc@.contains_key(t) && !inlined_temps@.contains(t) implies #[trigger] o.0@.contains_key(t) by {
      assert(in_pairs(l, n, t, alloc@[t]));
      let i = choose|i: int| 0 <= i < n && #[trigger] l[i] == (t, alloc@[t]);
      assert(l[i].0 == t);
    }
    assert forall|t: u32, x: u32| #[trigger] o.0@.contains_key(t) && x < o.0@[t] implies #[trigger] taken_below(o.0@, t, x) by {
      let i = choose|i: int| 0 <= i < n && #[trigger] l[i] == (t, alloc@[t]);
      assert(given(l, i, m, x));
      let j = choose|j: int| 0 <= j < i && m[(#[trigger] l[j]).1] == x;
      assert(l[j].0 < l[i].0);
      assert(o.0@.contains_key(l[j].0));
    }
    assert forall|x: u32| x < o.1 implies #[trigger] taken(o.0@, x) by {
      assert(given(l, n, m, x));
      let j = choose|j: int| 0 <= j < n && m[(#[trigger] l[j]).1] == x;
      assert(o.0@.contains_key(l[j].0));
    }
  }
@*/
spec fn taken_below(m: Map<u32, u32>, t: u32, x: u32) -> bool { exists|q: u32| q < t && #[trigger] m.contains_key(q) && m[q] == x }
spec fn taken(m: Map<u32, u32>, x: u32) -> bool { exists|q: u32| #[trigger] m.contains_key(q) && m[q] == x }

// ---- the allocation ----
/// proved in live.rs
#[verifier::external_body]
fn calculate_live_ins(cfg: &Cfg, Ghost(p): Ghost<Prog>, inlines: &HashMap<Loc, Loc>, inlined_vars: &HashSet<u32>) -> (r: HashMap<Loc, HashSet<u32>>)
  requires p.ok(), p.cfg == *cfg, p.inl == inlines@, p.gone == inlined_vars@,
  ensures forall|s: Loc| #[trigger] r@.contains_key(s) == (cfg.graph.has(s.0) && kept(p, s)),
    forall|s: Loc| #[trigger] r@.contains_key(s) ==> right(p, s, r@[s]@),
{ unimplemented!() }
/// two variables live before the instruction at `s`, which stays where it is
spec fn both_live(p: Prog, s: Loc, a: u32, b: u32) -> bool { p.cfg.graph.has(s.0) && kept(p, s) && p.live(a, s.0, s.1 as int) && p.live(b, s.0, s.1 as int) }
spec fn keeps(c: Cfg, v: u32) -> bool { is_temp(c, v) && !gone_var(c, v) }
proof fn prog_ok(c: Cfg, inl: Map<Loc, Loc>, gone: Set<u32>)
  requires ssa(c), forall|s: Loc, t: Loc| #[trigger] maps_to(inl, s, t) == inlined_by(c, s, t),
  ensures (Prog { cfg: c, inl, gone }).ok(),
{
  let p = Prog { cfg: c, inl, gone };
  assert forall|s: Loc| #[trigger] p.inl.contains_key(s) implies p.at(s) && p.at(p.inl[s]) && p.inl[s].0 == s.0 && s.1 < p.inl[s].1 by {
    assert(maps_to(inl, s, inl[s]));
    let (d, o, v) = choose|d: Occ, o: Occ, v: u32| #[trigger] moves(c, d, o, v) && s == loc(d) && inl[s] == loc(o);
    lens(c, d.0); lens(c, o.0);
  }
}
proof fn used_temp(p: Prog, at: Loc, v: u32)
  requires p.ok(), p.at(at), p.used(at, v),
  ensures is_temp(p.cfg, v) && !p.gone.contains(v),
{
  let s = if p.added(at, v) { choose|s: Loc| p.inl.contains_key(s) && #[trigger] p.adds(s, at, v) } else { at };
  assert(p.at(s));
  let a = p.blk(s.0)[s.1 as int].args@;
  let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == Arg::Var(v);
  assert(occ(p.cfg, (s.0, s.1 as int, k), v));
}
proof fn live_temp_n(p: Prog, n: nat, v: u32, l: u32, i: int)
  requires p.ok(), p.cfg.graph.has(l), 0 <= i, p.live_n(n, v, l, i),
  ensures is_temp(p.cfg, v) && !p.gone.contains(v),
  decreases n,
{
  p.blk_len(l);
  if i >= p.blk(l).len() {
    let c = choose|c: u32| #[trigger] p.cfg.graph.edge(l, c) && p.live_n((n - 1) as nat, v, c, 0);
    assert(p.cfg.graph.0.back(l, c));
    live_temp_n(p, (n - 1) as nat, v, c, 0);
  } else if p.inl.contains_key((l, i as usize)) { live_temp_n(p, (n - 1) as nat, v, l, i + 1); }
  else if p.used((l, i as usize), v) { assert(p.at((l, i as usize))); used_temp(p, (l, i as usize), v); }
  else { live_temp_n(p, (n - 1) as nat, v, l, i + 1); }
}
proof fn live_temp(p: Prog, v: u32, l: u32, i: int)
  requires p.ok(), p.cfg.graph.has(l), 0 <= i, p.live(v, l, i),
  ensures is_temp(p.cfg, v) && !p.gone.contains(v),
{ let n = choose|n: nat| #[trigger] p.live_n(n, v, l, i); live_temp_n(p, n, v, l, i); }
proof fn below_len(s: Set<u32>, n: int)
  requires 0 <= n <= u32::MAX + 1, forall|v: u32| #[trigger] s.contains(v) ==> v < n,
  ensures s.len() <= n,
  decreases n,
{
  if n == 0 { assert(s =~= Set::<u32>::empty()); }
  else { let m = (n - 1) as u32; let q = s.remove(m); assert forall|v: u32| #[trigger] q.contains(v) implies v < n - 1 by {} below_len(q, n - 1); }
}
proof fn spare_len(s: Set<u32>, x: u32)
  requires !s.contains(x),
  ensures s.len() <= u32::MAX,
{ below_len(s.insert(x), u32::MAX + 1); }
/*@fn optimize-js/src/decompile/regalloc.rs :: compute_regalloc
#ret r
#rewrite `calculate_live_ins(cfg,` => `calculate_live_ins(cfg, Ghost(p),`
#spec
  requires ssa(*cfg), exists|x: u32| !#[trigger] is_temp(*cfg, x),
  ensures
    // exactly the definitions that move are inlined, each to its use
    forall|s: Loc, t: Loc| #[trigger] maps_to(r.inlines@, s, t) == inlined_by(*cfg, s, t),
    forall|v: u32| #[trigger] r.inlined_temps@.contains(v) == gone_var(*cfg, v),
    // every other variable has a register
    forall|v: u32| #[trigger] r.temp_to_reg@.contains_key(v) == keeps(*cfg, v),
    // two that are live together have different ones
    forall|s: Loc, a: u32, b: u32| a != b && #[trigger] both_live(Prog { cfg: *cfg, inl: r.inlines@, gone: r.inlined_temps@ }, s, a, b)
      ==> keeps(*cfg, a) && keeps(*cfg, b) && r.temp_to_reg@[a] != r.temp_to_reg@[b],
    // numbered 0, 1, .. in order of their first variable, all of them in use
    forall|t: u32| #[trigger] r.temp_to_reg@.contains_key(t) ==> r.temp_to_reg@[t] < r.reg_count,
    forall|t: u32, x: u32| #[trigger] r.temp_to_reg@.contains_key(t) && x < r.temp_to_reg@[t] ==> #[trigger] taken_below(r.temp_to_reg@, t, x),
    forall|x: u32| x < r.reg_count ==> #[trigger] taken(r.temp_to_reg@, x),
#at before `let live_ins =`
  let ghost p = Prog { cfg: *cfg, inl: inlines@, gone: inlined_temps@ };
  proof { prog_ok(*cfg, inlines@, inlined_temps@); }
#at before `for temp in collect_temps`
  let ghost g0 = intgraph@;
#loop 0 while=ix list=self_
  invariant
    ix <= ix_s@.len(),
    forall|v: u32| #[trigger] ix_s@.contains(v) == keeps(*cfg, v),
    forall|v: u32| #[trigger] intgraph@.contains_key(v) == (g0.contains_key(v) || first_n(ix_s@, ix as int, v)),
    forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) == nbr(g0, a, b),
  decreases ix_s@.len() - ix,
#at enter `for temp in collect_temps`
  let ghost g1 = intgraph@;
  proof { first_n_step(ix_s@, ix - 1); }
#at exit `for temp in collect_temps`
  proof {
    assert forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) == nbr(g0, a, b) by { assert(nbr(g1, a, b) == nbr(g0, a, b)); }
  }
#at afterblock `for temp in collect_temps`
  proof {
    assert forall|v: u32| #[trigger] intgraph@.contains_key(v) == keeps(*cfg, v) by {
      if keeps(*cfg, v) { assert(ix_s@.contains(v)); let i = choose|i: int| 0 <= i < ix_s@.len() && ix_s@[i] == v; assert(first_n(ix_s@, ix_s@.len() as int, v)); }
      if g0.contains_key(v) { let s = choose|s: Loc| #[trigger] live_at(live_ins@, s, v); live_temp(p, v, s.0, s.1 as int); }
      if first_n(ix_s@, ix_s@.len() as int, v) { assert(ix_s@.contains(v)); }
    }
    let x = choose|x: u32| !#[trigger] is_temp(*cfg, x);
    assert(!intgraph@.dom().contains(x));
    spare_len(intgraph@.dom(), x);
    assert forall|a: u32, b: u32| #[trigger] nbr(intgraph@, a, b) implies nbr(intgraph@, b, a) by {
      assert(meets(live_ins@, a, b)); let s = choose|s: Loc| #[trigger] live_at(live_ins@, s, a) && live_at(live_ins@, s, b);
      assert(live_at(live_ins@, s, b)); assert(meets(live_ins@, b, a)); assert(nbr(g0, b, a));
    }
    assert forall|a: u32| !#[trigger] nbr(intgraph@, a, a) by { assert(!meets(live_ins@, a, a)); assert(!nbr(g0, a, a)); }
  }
  let ghost g2 = intgraph@;
#tail r
  proof {
    assert forall|s: Loc, a: u32, b: u32| a != b && #[trigger] both_live(Prog { cfg: *cfg, inl: r.inlines@, gone: r.inlined_temps@ }, s, a, b)
      implies keeps(*cfg, a) && keeps(*cfg, b) && r.temp_to_reg@[a] != r.temp_to_reg@[b] by {
      live_temp(p, a, s.0, s.1 as int); live_temp(p, b, s.0, s.1 as int);
      assert(live_ins@.contains_key(s));
      assert(live_at(live_ins@, s, a) && live_at(live_ins@, s, b));
      assert(meets(live_ins@, a, b));
      assert(nbr(g0, a, b)); assert(nbr(g2, a, b)); assert(nbr(intgraph@, a, b));
      assert(p.gone.contains(a) == gone_var(*cfg, a)); assert(p.gone.contains(b) == gone_var(*cfg, b));
      assert(r.temp_to_reg@.contains_key(a) && r.temp_to_reg@.contains_key(b));
    }
  }
@*/
fn main() {}
}
