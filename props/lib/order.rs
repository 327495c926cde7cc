// ---- lib/order.rs: comparison functions as total preorders -------------------
/// `le` is a total preorder presented as a three-way comparison.
pub open spec fn total_order<T>(le: spec_fn(T, T) -> Ordering) -> bool {
  &&& forall|a: T, b: T| #[trigger] le(a, b) == rev(le(b, a))
  &&& forall|a: T, b: T, c: T| #[trigger] le(a, b) != Ordering::Greater && #[trigger] le(b, c) != Ordering::Greater
        ==> le(a, c) != Ordering::Greater
}
pub open spec fn rev(o: Ordering) -> Ordering {
  match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn then_spec(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
  if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn bool_cmp(a: bool, b: bool) -> Ordering {
  if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater }
}
/// Lexicographic comparison by code point (which is also the order of the UTF-8 bytes).
pub open spec fn seq_cmp(a: Seq<char>, b: Seq<char>) -> Ordering
  decreases a.len(),
{
  if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
  else if b.len() == 0 { Ordering::Greater }
  else if a[0] != b[0] { if (a[0] as u32) < (b[0] as u32) { Ordering::Less } else { Ordering::Greater } }
  else { seq_cmp(a.skip(1), b.skip(1)) }
}
pub proof fn seq_cmp_refl(a: Seq<char>)
  ensures seq_cmp(a, a) == Ordering::Equal
  decreases a.len()
{ if a.len() > 0 { seq_cmp_refl(a.skip(1)); } }
pub proof fn seq_cmp_rev(a: Seq<char>, b: Seq<char>)
  ensures seq_cmp(a, b) == rev(seq_cmp(b, a)), (seq_cmp(a, b) == Ordering::Equal) == (a == b)
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 {
    seq_cmp_rev(a.skip(1), b.skip(1));
    if a[0] == b[0] {
      if a.skip(1) == b.skip(1) {
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
      }
    } else { assert(a[0] as u32 != b[0] as u32); }
  } else { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
}
pub proof fn seq_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
  requires seq_cmp(a, b) != Ordering::Greater, seq_cmp(b, c) != Ordering::Greater,
  ensures seq_cmp(a, c) != Ordering::Greater,
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 && c.len() > 0 {
    if a[0] == b[0] && b[0] == c[0] { seq_cmp_trans(a.skip(1), b.skip(1), c.skip(1)); }
  }
}
pub proof fn seq_cmp_total()
  ensures total_order(|a: Seq<char>, b: Seq<char>| seq_cmp(a, b)),
{
  let le = |a: Seq<char>, b: Seq<char>| seq_cmp(a, b);
  assert forall|a: Seq<char>, b: Seq<char>| #[trigger] le(a, b) == rev(le(b, a)) by { seq_cmp_rev(a, b); }
  assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] le(a, b) != Ordering::Greater && #[trigger] le(b, c) != Ordering::Greater
        implies le(a, c) != Ordering::Greater by { seq_cmp_trans(a, b, c); }
}
/// Composition: compare by `f`, break ties by `g`.
pub open spec fn then_order<T>(f: spec_fn(T, T) -> Ordering, g: spec_fn(T, T) -> Ordering) -> spec_fn(T, T) -> Ordering {
  |a: T, b: T| then_spec(f(a, b), g(a, b))
}
pub proof fn then_total<T>(f: spec_fn(T, T) -> Ordering, g: spec_fn(T, T) -> Ordering)
  requires total_order(f), total_order(g),
  ensures total_order(then_order(f, g)),
{
  let h = then_order(f, g);
  assert forall|a: T, b: T| #[trigger] h(a, b) == rev(h(b, a)) by { assert(f(a, b) == rev(f(b, a))); assert(g(a, b) == rev(g(b, a))); }
  assert forall|a: T, b: T, c: T| #[trigger] h(a, b) != Ordering::Greater && #[trigger] h(b, c) != Ordering::Greater
        implies h(a, c) != Ordering::Greater by {
    assert(f(a, b) == rev(f(b, a))); assert(f(b, c) == rev(f(c, b))); assert(f(a, c) == rev(f(c, a)));
    assert(f(a, c) != Ordering::Greater);
    if f(a, c) == Ordering::Equal {
      // c <= a, so a <= b <= c <= a and both halves are ties
      assert(f(c, a) != Ordering::Greater);
      assert(f(c, b) != Ordering::Greater) by { assert(f(a, b) != Ordering::Greater); }
      assert(f(b, a) != Ordering::Greater) by { assert(f(b, c) != Ordering::Greater); }
      assert(f(a, b) == Ordering::Equal); assert(f(b, c) == Ordering::Equal);
      assert(g(a, c) != Ordering::Greater);
    }
  }
}
pub open spec fn by_key<T, K>(key: spec_fn(T) -> K, le: spec_fn(K, K) -> Ordering) -> spec_fn(T, T) -> Ordering {
  |a: T, b: T| le(key(a), key(b))
}
pub proof fn by_key_total<T, K>(key: spec_fn(T) -> K, le: spec_fn(K, K) -> Ordering)
  requires total_order(le),
  ensures total_order(by_key(key, le)),
{
  let h = by_key(key, le);
  assert forall|a: T, b: T| #[trigger] h(a, b) == rev(h(b, a)) by { assert(le(key(a), key(b)) == rev(le(key(b), key(a)))); }
  assert forall|a: T, b: T, c: T| #[trigger] h(a, b) != Ordering::Greater && #[trigger] h(b, c) != Ordering::Greater
        implies h(a, c) != Ordering::Greater by { assert(le(key(a), key(b)) != Ordering::Greater && le(key(b), key(c)) != Ordering::Greater); }
}
pub proof fn int_total()
  ensures total_order(|a: int, b: int| int_cmp(a, b)), total_order(|a: bool, b: bool| bool_cmp(a, b)),
{}
/// Two sorted arrangements of the same multiset agree position by position, up to ties.
pub open spec fn sorted_by_order<T>(s: Seq<T>, le: spec_fn(T, T) -> Ordering) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
/// number of elements of `s` satisfying `p`
pub open spec fn cnt<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> nat
  decreases s.len(),
{
  if s.len() == 0 { 0 } else { cnt(s.drop_last(), p) + if p(s.last()) { 1nat } else { 0nat } }
}
pub proof fn cnt_multiset<T>(s: Seq<T>, p: spec_fn(T) -> bool)
  ensures cnt(s, p) == s.to_multiset().filter(p).len(),
  decreases s.len(),
{
  broadcast use vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
  let m = s.to_multiset();
  if s.len() == 0 {
    assert(m.filter(p) =~= vstd::multiset::Multiset::empty());
  } else {
    let t = s.drop_last();
    cnt_multiset(t, p);
    assert(s =~= t.push(s.last()));
    assert(m =~= t.to_multiset().insert(s.last()));
    if p(s.last()) { assert(m.filter(p) =~= t.to_multiset().filter(p).insert(s.last())); }
    else { assert(m.filter(p) =~= t.to_multiset().filter(p)); }
  }
}
pub proof fn cnt_bounds<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int)
  requires 0 <= k <= s.len(),
  ensures
    (forall|i: int| k <= i < s.len() ==> p(#[trigger] s[i])) ==> cnt(s, p) >= s.len() - k,
    (forall|i: int| 0 <= i < k ==> !p(#[trigger] s[i])) ==> cnt(s, p) <= s.len() - k,
  decreases s.len(),
{
  if s.len() > 0 {
    if k < s.len() {
      cnt_bounds(s.drop_last(), p, k);
      assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]);
      assert(s.last() == s[s.len() - 1]);
    } else if k > 0 {
      cnt_bounds(s.drop_last(), p, k - 1);
      assert(s.last() == s[s.len() - 1]);
    }
  }
}
pub proof fn sorted_unique<T>(s: Seq<T>, t: Seq<T>, le: spec_fn(T, T) -> Ordering)
  requires total_order(le), s.to_multiset() == t.to_multiset(), sorted_by_order(s, le), sorted_by_order(t, le),
  ensures s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> le(#[trigger] s[i], #[trigger] t[i]) == Ordering::Equal,
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  s.to_multiset_ensures(); t.to_multiset_ensures();
  assert(s.len() == t.len());
  assert forall|i: int| 0 <= i < s.len() implies le(#[trigger] s[i], #[trigger] t[i]) == Ordering::Equal by {
    sorted_not_less(s, t, le, i);
    sorted_not_less(t, s, le, i);
    assert(le(s[i], t[i]) == rev(le(t[i], s[i])));
  }
}
proof fn sorted_not_less<T>(s: Seq<T>, t: Seq<T>, le: spec_fn(T, T) -> Ordering, i: int)
  requires total_order(le), s.to_multiset() == t.to_multiset(), s.len() == t.len(), sorted_by_order(s, le), sorted_by_order(t, le), 0 <= i < s.len(),
  ensures le(s[i], t[i]) != Ordering::Less,
{
  if le(s[i], t[i]) == Ordering::Less {
    let p = |x: T| le(s[i], x) == Ordering::Less;
    assert(le(s[i], t[i]) == rev(le(t[i], s[i])));
    assert forall|j: int| i <= j < t.len() implies p(#[trigger] t[j]) by {
      if j > i {
        assert(le(t[i], t[j]) != Ordering::Greater);
        assert(le(s[i], t[j]) != Ordering::Greater);
        if le(s[i], t[j]) == Ordering::Equal {
          assert(le(t[j], s[i]) == rev(le(s[i], t[j])));
          assert(le(t[i], s[i]) != Ordering::Greater);
        }
      }
    }
    cnt_bounds(t, p, i);
    assert forall|j: int| 0 <= j < i + 1 implies !p(#[trigger] s[j]) by {
      assert(le(s[i], s[i]) == rev(le(s[i], s[i])));
      if j < i { assert(le(s[j], s[i]) != Ordering::Greater); assert(le(s[i], s[j]) == rev(le(s[j], s[i]))); }
    }
    cnt_bounds(s, p, i + 1);
    cnt_multiset(s, p); cnt_multiset(t, p);
  }
}

/// equality under `le` is identity
pub open spec fn antisym<T>(le: spec_fn(T, T) -> Ordering) -> bool {
  forall|a: T, b: T| #[trigger] le(a, b) == Ordering::Equal ==> a == b
}
pub open spec fn lex_cmp<K>(a: Seq<K>, b: Seq<K>, le: spec_fn(K, K) -> Ordering) -> Ordering
  decreases a.len(),
{
  if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
  else if b.len() == 0 { Ordering::Greater }
  else if le(a[0], b[0]) != Ordering::Equal { le(a[0], b[0]) }
  else { lex_cmp(a.skip(1), b.skip(1), le) }
}
pub proof fn lex_rev<K>(a: Seq<K>, b: Seq<K>, le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le),
  ensures lex_cmp(a, b, le) == rev(lex_cmp(b, a, le)), (lex_cmp(a, b, le) == Ordering::Equal) == (a == b),
  decreases a.len()
{
  if a.len() > 0 { assert(le(a[0], a[0]) == rev(le(a[0], a[0]))); }
  if a.len() > 0 && b.len() > 0 {
    assert(le(a[0], b[0]) == rev(le(b[0], a[0])));
    lex_rev(a.skip(1), b.skip(1), le);
    if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
  } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lex_trans<K>(a: Seq<K>, b: Seq<K>, c: Seq<K>, le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le), lex_cmp(a, b, le) != Ordering::Greater, lex_cmp(b, c, le) != Ordering::Greater,
  ensures lex_cmp(a, c, le) != Ordering::Greater,
  decreases a.len()
{
  if a.len() > 0 && b.len() > 0 && c.len() > 0 {
    assert(le(a[0], b[0]) == rev(le(b[0], a[0]))); assert(le(b[0], c[0]) == rev(le(c[0], b[0]))); assert(le(a[0], c[0]) == rev(le(c[0], a[0])));
    assert(le(a[0], c[0]) != Ordering::Greater);
    if le(a[0], c[0]) == Ordering::Equal {
      assert(a[0] == c[0]);
      assert(le(b[0], a[0]) != Ordering::Greater);
      assert(a[0] == b[0]);
      lex_trans(a.skip(1), b.skip(1), c.skip(1), le);
    }
  }
}
pub open spec fn lex_order<K>(le: spec_fn(K, K) -> Ordering) -> spec_fn(Seq<K>, Seq<K>) -> Ordering {
  |a: Seq<K>, b: Seq<K>| lex_cmp(a, b, le)
}
pub proof fn lex_total<K>(le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le),
  ensures total_order(lex_order(le)), antisym(lex_order(le)),
{
  let h = lex_order(le);
  assert forall|a: Seq<K>, b: Seq<K>| #[trigger] h(a, b) == rev(h(b, a)) by { lex_rev(a, b, le); }
  assert forall|a: Seq<K>, b: Seq<K>| #[trigger] h(a, b) == Ordering::Equal implies a == b by { lex_rev(a, b, le); }
  assert forall|a: Seq<K>, b: Seq<K>, c: Seq<K>| #[trigger] h(a, b) != Ordering::Greater && #[trigger] h(b, c) != Ordering::Greater
        implies h(a, c) != Ordering::Greater by { lex_trans(a, b, c, le); }
}
/// first position where two sequences of equal length differ decides
pub proof fn lex_at<K>(a: Seq<K>, b: Seq<K>, le: spec_fn(K, K) -> Ordering, k: int)
  requires a.len() == b.len(), 0 <= k <= a.len(), forall|i: int| 0 <= i < k ==> le(#[trigger] a[i], b[i]) == Ordering::Equal,
  ensures k < a.len() && le(a[k], b[k]) != Ordering::Equal ==> lex_cmp(a, b, le) == le(a[k], b[k]),
    k == a.len() ==> lex_cmp(a, b, le) == Ordering::Equal,
  decreases k
{
  if k > 0 {
    assert(le(a[0], b[0]) == Ordering::Equal);
    assert forall|i: int| 0 <= i < k - 1 implies le(#[trigger] a.skip(1)[i], b.skip(1)[i]) == Ordering::Equal by { assert(le(a[i + 1], b[i + 1]) == Ordering::Equal); }
    lex_at(a.skip(1), b.skip(1), le, k - 1);
  }
}
/// mapping a permutation gives a permutation
pub proof fn map_permutes<T, K>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> K)
  requires s.to_multiset() == t.to_multiset(),
  ensures s.map_values(f).to_multiset() == t.map_values(f).to_multiset(),
  decreases s.len()
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
  s.to_multiset_ensures(); t.to_multiset_ensures();
  assert(s.len() == t.len());
  if s.len() == 0 {
    assert(s =~= t);
  } else {
    let x = s.last(); let n = s.len() - 1;
    assert(s[n as int] == x); assert(s.contains(x)); assert(s.to_multiset().count(x) > 0); assert(t.to_multiset().count(x) > 0);
    assert(t.contains(x));
    let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
    let s2 = s.remove(n as int); let t2 = t.remove(j);
    assert(s2.to_multiset() =~= s.to_multiset().remove(x));
    assert(t2.to_multiset() =~= t.to_multiset().remove(x));
    map_permutes(s2, t2, f);
    let sm = s.map_values(f); let tm = t.map_values(f);
    sm.to_multiset_ensures(); tm.to_multiset_ensures();
    assert(sm.remove(n as int) =~= s2.map_values(f));
    assert(tm.remove(j) =~= t2.map_values(f));
    assert(sm.remove(n as int).to_multiset() =~= sm.to_multiset().remove(f(x)));
    assert(tm.remove(j).to_multiset() =~= tm.to_multiset().remove(f(x)));
    assert(sm[n as int] == f(x)); assert(tm[j] == f(x));
    assert(sm.contains(f(x)) && tm.contains(f(x)));
    assert(sm.to_multiset() =~= sm.to_multiset().remove(f(x)).insert(f(x)));
    assert(tm.to_multiset() =~= tm.to_multiset().remove(f(x)).insert(f(x)));
  }
}
/// the sorted arrangement of `s` (unique when `le` is antisymmetric)
pub open spec fn arrange<K>(s: Seq<K>, le: spec_fn(K, K) -> Ordering) -> Seq<K> {
  choose|t: Seq<K>| #[trigger] t.to_multiset() == s.to_multiset() && sorted_by_order(t, le)
}
pub proof fn arrange_is<K>(s: Seq<K>, t: Seq<K>, le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le), t.to_multiset() == s.to_multiset(), sorted_by_order(t, le),
  ensures arrange(s, le) == t, arrange(s, le).to_multiset() == s.to_multiset(),
{
  let u = arrange(s, le);
  sorted_unique(u, t, le);
  assert forall|i: int| 0 <= i < u.len() implies u[i] == t[i] by { assert(le(u[i], t[i]) == Ordering::Equal); }
  assert(u =~= t);
}
pub proof fn arrange_same<K>(s: Seq<K>, t: Seq<K>, le: spec_fn(K, K) -> Ordering)
  requires s.to_multiset() == t.to_multiset(), total_order(le), antisym(le),
  ensures arrange(s, le) == arrange(t, le),
{ let u = arrange_exists(s, le); arrange_is(s, u, le); arrange_is(t, u, le); }
/// every sequence has a sorted arrangement (insertion sort)
pub proof fn arrange_exists<K>(s: Seq<K>, le: spec_fn(K, K) -> Ordering) -> (t: Seq<K>)
  requires total_order(le),
  ensures t.to_multiset() == s.to_multiset(), sorted_by_order(t, le),
  decreases s.len(),
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
  if s.len() == 0 { s } else {
    let u = arrange_exists(s.drop_last(), le);
    let t = insert_sorted(u, s.last(), le);
    assert(s =~= s.drop_last().push(s.last()));
    assert(s.to_multiset() =~= s.drop_last().to_multiset().insert(s.last()));
    t
  }
}
pub proof fn insert_sorted<K>(u: Seq<K>, x: K, le: spec_fn(K, K) -> Ordering) -> (t: Seq<K>)
  requires total_order(le), sorted_by_order(u, le),
  ensures t.to_multiset() == u.to_multiset().insert(x), sorted_by_order(t, le),
  decreases u.len(),
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
  if u.len() == 0 || le(u.last(), x) != Ordering::Greater {
    let t = u.push(x);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies le(#[trigger] t[i], #[trigger] t[j]) != Ordering::Greater by {
      if j == u.len() { if i < u.len() - 1 { assert(le(u[i], u.last()) != Ordering::Greater); } }
    }
    t
  } else {
    let v = u.drop_last(); let l = u.last();
    let w = insert_sorted(v, x, le);
    let t = w.push(l);
    assert(u =~= v.push(l));
    assert(le(u.last(), x) == rev(le(x, u.last())));
    assert forall|i: int| 0 <= i < v.len() implies le(#[trigger] v[i], l) != Ordering::Greater by { assert(le(u[i], u[u.len() - 1]) != Ordering::Greater); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies le(#[trigger] t[i], #[trigger] t[j]) != Ordering::Greater by {
      if j == w.len() {
        assert(w.contains(w[i])); assert(w.to_multiset().count(w[i]) > 0);
        assert(w.to_multiset() == v.to_multiset().insert(x));
        if w[i] != x { assert(v.to_multiset().count(w[i]) > 0); assert(v.contains(w[i])); }
        assert(le(w[i], l) != Ordering::Greater);
      }
    }
    assert(t.to_multiset() =~= u.to_multiset().insert(x));
    t
  }
}
pub proof fn arrange_multiset<K>(s: Seq<K>, le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le),
  ensures arrange(s, le).to_multiset() == s.to_multiset(),
{ let t = arrange_exists(s, le); arrange_is(s, t, le); }

/// a sort whose comparison only looks at `key` yields the sorted arrangement of the keys
pub proof fn sorted_keys<T, K>(s: Seq<T>, t: Seq<T>, key: spec_fn(T) -> K, le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le), s.to_multiset() == t.to_multiset(), sorted_by_order(t, by_key(key, le)),
  ensures t.map_values(key) == arrange(s.map_values(key), le), t.len() == s.len(),
{
  map_permutes(s, t, key);
  let tk = t.map_values(key);
  assert forall|i: int, j: int| 0 <= i < j < tk.len() implies le(#[trigger] tk[i], #[trigger] tk[j]) != Ordering::Greater by {
    assert(by_key(key, le)(t[i], t[j]) != Ordering::Greater);
  }
  arrange_is(s.map_values(key), tk, le);
  s.to_multiset_ensures(); t.to_multiset_ensures();
}
/// shorter first, then position by position
pub open spec fn list_order<K>(le: spec_fn(K, K) -> Ordering) -> spec_fn(Seq<K>, Seq<K>) -> Ordering {
  then_order(by_key(|s: Seq<K>| s.len() as int, |a: int, b: int| int_cmp(a, b)), lex_order(le))
}
pub proof fn list_total<K>(le: spec_fn(K, K) -> Ordering)
  requires total_order(le), antisym(le),
  ensures total_order(list_order(le)), antisym(list_order(le)),
{
  int_total(); lex_total(le);
  by_key_total(|s: Seq<K>| s.len() as int, |a: int, b: int| int_cmp(a, b));
  then_total(by_key(|s: Seq<K>| s.len() as int, |a: int, b: int| int_cmp(a, b)), lex_order(le));
}
pub open spec fn compares<T, F: FnMut(&T, &T) -> Ordering>(f: F, le: spec_fn(T, T) -> Ordering) -> bool {
  forall|a: T, b: T, r: Ordering| #[trigger] call_ensures(f, (&a, &b), r) ==> r == le(a, b)
}
// std: sorting with a comparison that is a total preorder permutes and sorts.
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering>[ <[T]>::sort_by ](s: &mut [T], f: F)
  requires
    forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
    exists|le: spec_fn(T, T) -> Ordering| #[trigger] total_order(le) && compares(f, le),
  ensures
    final(s)@.to_multiset() == old(s)@.to_multiset(),
    forall|le: spec_fn(T, T) -> Ordering| #[trigger] compares(f, le) ==> sorted_by_order(final(s)@, le);
// std: `sort` on a type whose `Ord` is a total preorder permutes and sorts.
pub assume_specification<T: Ord>[ <[T]>::sort ](s: &mut [T])
  requires T::obeys_cmp_spec(), total_order(|a: T, b: T| a.cmp_spec(&b)),
  ensures final(s)@.to_multiset() == old(s)@.to_multiset(), sorted_by_order(final(s)@, |a: T, b: T| a.cmp_spec(&b));
pub assume_specification [ Ordering::then ](a: Ordering, b: Ordering) -> (r: Ordering)
  ensures r == then_spec(a, b);
pub assume_specification<F: FnOnce() -> Ordering>[ Ordering::then_with ](a: Ordering, f: F) -> (r: Ordering)
  requires a == Ordering::Equal ==> call_requires(f, ()),
  ensures if a == Ordering::Equal { call_ensures(f, (), r) } else { r == a };
pub axiom fn bool_order()
  ensures <bool as OrdSpec>::obeys_cmp_spec(), forall|a: bool, b: bool| #[trigger] a.cmp_spec(&b) == bool_cmp(a, b);
pub axiom fn ordering_eq()
  ensures <Ordering as PartialEqSpec>::obeys_eq_spec(), forall|a: Ordering, b: Ordering| #[trigger] a.eq_spec(&b) == (a == b);
pub axiom fn string_order()
  ensures <String as OrdSpec>::obeys_cmp_spec(), forall|a: String, b: String| #[trigger] a.cmp_spec(&b) == seq_cmp(a@, b@);
pub axiom fn str_order()
  ensures <str as OrdSpec>::obeys_cmp_spec(), forall|a: &str, b: &str| #[trigger] a.cmp_spec(b) == seq_cmp(a@, b@);
// ---- end lib/order.rs --------------------------------------------------------
