use vstd::prelude::*;
use vstd::slice::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
use std::collections::{BTreeMap, BTreeSet};
verus! {
pub open spec fn rev(o: Ordering) -> Ordering {
  match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn then_spec(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
  if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

/*@type diagnostics/src/lib.rs :: TextRange
#derive Clone, Copy
@*/
impl TextRange {
/*@fn diagnostics/src/lib.rs :: TextRange::len
#ret r
#spec
  ensures r == width(*self),
@*/
/*@fn diagnostics/src/lib.rs :: TextRange::is_empty
#ret r
#spec
  ensures r == (self.start >= self.end),
@*/
}
spec fn width(r: TextRange) -> int { if r.end > r.start { r.end - r.start } else { 0 } }
spec fn void(r: TextRange) -> bool { r.start >= r.end }

/*@type hir-js/src/span_map.rs :: SpanEntry
@*/
/*@type hir-js/src/span_map.rs :: ActiveSpan
#derive Clone, Copy
@*/
/*@type hir-js/src/span_map.rs :: SpanResult
#derive Clone, Copy
@*/
/*@type hir-js/src/span_map.rs :: Segment
@*/
/*@type hir-js/src/span_map.rs :: EventKind
#derive Clone, Copy
@*/
/*@type hir-js/src/span_map.rs :: Event
#derive Clone, Copy
@*/
/*@type hir-js/src/span_map.rs :: SpanIndex
@*/

// ---- the order of identifiers: any total order that identifies only equal ids ----------
pub uninterp spec fn id_cmp<T>(a: T, b: T) -> Ordering;
pub open spec fn ids<T>() -> bool {
  &&& forall|a: T, b: T| #[trigger] id_cmp(a, b) == rev(id_cmp(b, a))
  &&& forall|a: T, b: T| #[trigger] id_cmp(a, b) == Ordering::Equal ==> a == b
  &&& forall|a: T, b: T, c: T| #[trigger] id_cmp(a, b) != Ordering::Greater && #[trigger] id_cmp(b, c) != Ordering::Greater ==> id_cmp(a, c) != Ordering::Greater
}
/// innermost first: shorter, then earlier, then smaller id, then end
spec fn le<T>(a: ActiveSpan<T>, b: ActiveSpan<T>) -> Ordering {
  then_spec(int_cmp(width(a.range), width(b.range)), then_spec(int_cmp(a.range.start as int, b.range.start as int),
    then_spec(id_cmp(a.id, b.id), int_cmp(a.range.end as int, b.range.end as int))))
}
proof fn le_order<T>(a: ActiveSpan<T>, b: ActiveSpan<T>, c: ActiveSpan<T>)
  requires ids::<T>(),
  ensures
    le(a, b) == rev(le(b, a)), le(a, b) == Ordering::Equal ==> a == b, le(a, a) == Ordering::Equal,
    le(a, b) != Ordering::Greater && le(b, c) != Ordering::Greater ==> le(a, c) != Ordering::Greater,
{
  assert(id_cmp(a.id, a.id) == rev(id_cmp(a.id, a.id)));
  assert(id_cmp(a.id, b.id) == rev(id_cmp(b.id, a.id))); assert(id_cmp(b.id, c.id) == rev(id_cmp(c.id, b.id))); assert(id_cmp(a.id, c.id) == rev(id_cmp(c.id, a.id)));
}
/// does a span count as containing an offset?  an empty one contains only its position
spec fn hits<T>(s: ActiveSpan<T>, o: u32) -> bool { if void(s.range) { s.range.start == o } else { s.range.start <= o < s.range.end } }
spec fn best<T>(all: spec_fn(ActiveSpan<T>) -> bool, o: u32, b: ActiveSpan<T>) -> bool {
  all(b) && hits(b, o) && forall|s: ActiveSpan<T>| #[trigger] all(s) && hits(s, o) ==> le(b, s) != Ordering::Greater
}

// ---- standard library, assumed -------------------------------------------------
// tuple comparison (derived lexicographic order of tuples)
#[verifier::external_body]
fn cmp4<T: Ord>(a: (u32, u32, T, u32), b: &(u32, u32, T, u32)) -> (r: Ordering)
  ensures r == then_spec(int_cmp(a.0 as int, b.0 as int), then_spec(int_cmp(a.1 as int, b.1 as int), then_spec(id_cmp(a.2, b.2), int_cmp(a.3 as int, b.3 as int))))
{ a.cmp(b) }
// `a < b` / `min(a, b)` / `==` on ActiveSpan, whose `Ord::cmp` is checked below
#[verifier::external_body]
fn span_lt<T: Ord + Copy>(a: &ActiveSpan<T>, b: &ActiveSpan<T>) -> (r: bool) ensures r == (le(*a, *b) == Ordering::Less) { a.cmp_(b) == Ordering::Less }
#[verifier::external_body]
fn span_min<T: Ord + Copy>(a: ActiveSpan<T>, b: ActiveSpan<T>) -> (r: ActiveSpan<T>) ensures r == (if le(b, a) == Ordering::Less { b } else { a }) { if b.cmp_(&a) == Ordering::Less { b } else { a } }
#[verifier::external_body]
fn span_eq<T: Ord + Copy>(a: &ActiveSpan<T>, b: &ActiveSpan<T>) -> (r: bool) ensures r == (*a == *b) { a.range.start == b.range.start && a.range.end == b.range.end && a.id == b.id }
#[verifier::external_body]
fn sort_spans<T: Ord + Copy>(v: &mut Vec<ActiveSpan<T>>)
  requires ids::<T>(),
  ensures final(v)@.len() == old(v)@.len(), forall|s: ActiveSpan<T>| #[trigger] final(v)@.contains(s) <==> old(v)@.contains(s),
    forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> le(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) != Ordering::Greater,
{ v.sort_by(|a, b| a.cmp_(b)) }
// sorting permutes
#[verifier::external_body]
fn sort_entries<T: Ord + Copy>(v: &mut Vec<SpanEntry<T>>)
  ensures final(v)@.len() == old(v)@.len(), forall|s: SpanEntry<T>| #[trigger] final(v)@.contains(s) <==> old(v)@.contains(s),
{ v.sort_by(|a, b| (a.range.start, a.range.end, a.id).cmp(&(b.range.start, b.range.end, b.id))) }
#[verifier::external_body]
fn sort_events<T: Ord + Copy>(v: &mut Vec<Event<T>>)
  ensures final(v)@.len() == old(v)@.len(), forall|s: Event<T>| #[trigger] final(v)@.contains(s) <==> old(v)@.contains(s),
    forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).pos <= (#[trigger] final(v)@[j]).pos,
{ v.sort_by(|a, b| a.pos.cmp(&b.pos)) }
// BTreeSet<ActiveSpan<T>>
uninterp spec fn members<T>(s: BTreeSet<ActiveSpan<T>>) -> Set<ActiveSpan<T>>;
#[verifier::external_body]
fn set_new<T: Ord + Copy>() -> (r: BTreeSet<ActiveSpan<T>>) requires ids::<T>(), ensures members(r) == Set::<ActiveSpan<T>>::empty() { unimplemented!() }
#[verifier::external_body]
fn set_insert<T: Ord + Copy>(s: &mut BTreeSet<ActiveSpan<T>>, x: ActiveSpan<T>) requires ids::<T>(), ensures members(*final(s)) == members(*old(s)).insert(x) { unimplemented!() }
#[verifier::external_body]
fn set_remove<T: Ord + Copy>(s: &mut BTreeSet<ActiveSpan<T>>, x: &ActiveSpan<T>) requires ids::<T>(), ensures members(*final(s)) == members(*old(s)).remove(*x) { unimplemented!() }
#[verifier::external_body]
fn set_first<T: Ord + Copy>(s: &BTreeSet<ActiveSpan<T>>) -> (r: Option<ActiveSpan<T>>)
  requires ids::<T>(),
  ensures match r {
    Some(x) => members(*s).contains(x) && forall|y: ActiveSpan<T>| #[trigger] members(*s).contains(y) ==> le(x, y) != Ordering::Greater,
    None => forall|y: ActiveSpan<T>| !#[trigger] members(*s).contains(y),
  }
{ unimplemented!() }
// BTreeMap keyed by an id
#[verifier::external_body]
fn bmap_new<K, V>() -> (r: BTreeMap<K, V>) ensures r@ == Map::<K, V>::empty() { BTreeMap::new() }
#[verifier::external_body]
fn bmap_insert<K: Ord, V>(m: &mut BTreeMap<K, V>, k: K, v: V) requires ids::<K>(), ensures final(m)@ == old(m)@.insert(k, v) { m.insert(k, v); }
#[verifier::external_body]
fn bmap_get<K: Ord, V>(m: &BTreeMap<K, V>, k: K) -> (r: Option<&V>) requires ids::<K>(), ensures match r { Some(v) => m@.contains_key(k) && *v == m@[k], None => !m@.contains_key(k) } { m.get(&k) }
pub assume_specification<T> [ bool::then_some::<T> ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T, F: FnMut(&T) -> bool> [ <[T]>::partition_point ](s: &[T], pred: F) -> (r: usize)
  requires
    forall|x: &T| #[trigger] call_requires(pred, (x,)),
    exists|p: spec_fn(T) -> bool, k: int| #[trigger] decides(pred, p) && #[trigger] splits(s@, p, k),
  ensures
    r <= s@.len(),
    forall|p: spec_fn(T) -> bool| #[trigger] decides(pred, p) ==> splits(s@, p, r as int);
pub open spec fn splits<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int) -> bool {
  0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> p(#[trigger] s[i])) && (forall|i: int| k <= i < s.len() ==> !p(#[trigger] s[i]))
}
pub open spec fn decides<T, F: FnMut(&T) -> bool>(f: F, p: spec_fn(T) -> bool) -> bool {
  forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)
}
#[verifier::external_body]
fn last_of<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
  ensures match r {
    Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)),
    None => old(v)@.len() == 0 && final(v)@ == old(v)@,
  }
{ v.last_mut() }

impl<T: Copy> ActiveSpan<T> {
/*@fn hir-js/src/span_map.rs :: ActiveSpan::len
#ret r
#spec
  ensures r == width(self.range),
@*/
}
impl<T: Ord + Copy> ActiveSpan<T> {
/*@fn hir-js/src/span_map.rs :: Ord for ActiveSpan::cmp
#ret r
#sig `fn cmp` => `fn cmp_`
#rewrite `( self . len ( ) , self . range . start , self . id , self . range . end ) . cmp ( & (` => `cmp4((self.len(), self.range.start, self.id, self.range.end), &(`
#spec
  ensures r == le(*self, *other),
@*/
}
/*@fn hir-js/src/span_map.rs :: From for SpanResult::from
#ret r
#sig `fn from` => `fn result_of<T>`
#sig `Self` => `SpanResult<T>`
#spec
  ensures r.range == value.range, r.id == value.id,
@*/
impl<T> Segment<T> {
/*@fn hir-js/src/span_map.rs :: Segment::new
#ret r
#spec
  ensures r.start == start, r.end == end, r.best == best,
@*/
}

// ---- the segment table ---------------------------------------------------------------
spec fn seg_shape<T>(g: Seq<Segment<T>>) -> bool {
  &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).start < g[i].end
  &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).end <= (#[trigger] g[j]).start
}
spec fn seg_has<T>(g: Seq<Segment<T>>, o: u32, b: ActiveSpan<T>) -> bool {
  exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).start <= o < g[i].end && g[i].best == b
}
/*@fn hir-js/src/span_map.rs :: push_segment
#rewrite `segments . last_mut ( )` => `last_of(segments)`
#rewrite `prev . best == best` => `span_eq(&prev.best, &best)`
#spec
  requires seg_shape(old(segments)@), start < end, old(segments)@.len() > 0 ==> old(segments)@.last().end <= start,
  ensures
    seg_shape(final(segments)@), final(segments)@.len() > 0, final(segments)@.last().end == end,
    forall|o: u32, b: ActiveSpan<T>| #[trigger] seg_has(final(segments)@, o, b) <==> seg_has(old(segments)@, o, b) || (start <= o < end && b == best),
#at before `return`
      proof { joined(old(segments)@, segments@, start, end, best); }
#at before `segments . push`
  proof { assert(segments@ =~= old(segments)@); }
#end
  proof { appended(old(segments)@, segments@, start, end, best); }
@*/
proof fn joined<T>(g: Seq<Segment<T>>, h: Seq<Segment<T>>, start: u32, end: u32, b: ActiveSpan<T>)
  requires seg_shape(g), g.len() > 0, start < end, g.last().best == b, g.last().end == start, h == g.update(g.len() - 1, Segment { start: g.last().start, end, best: b }),
  ensures seg_shape(h), forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) <==> seg_has(g, o, x) || (start <= o < end && x == b),
{
  let n = g.len() - 1;
  assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).end <= (#[trigger] h[j]).start by { assert(g[i].end <= g[j].start); assert(h[i] == g[i]); }
  assert forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) <==> seg_has(g, o, x) || (start <= o < end && x == b) by {
    if seg_has(h, o, x) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).start <= o < h[i].end && h[i].best == x; if i < n { assert(g[i] == h[i]); } else { assert(g[n] == g.last()); } }
    if seg_has(g, o, x) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).start <= o < g[i].end && g[i].best == x; if i < n { assert(g[i] == h[i]); } else { assert(h[n].end == end); assert(h[n].start <= o < h[n].end); } }
    if start <= o < end && x == b { assert(h[n].start <= o < h[n].end) by { assert(g[n].start < g[n].end); } }
  }
}
proof fn appended<T>(g: Seq<Segment<T>>, h: Seq<Segment<T>>, start: u32, end: u32, b: ActiveSpan<T>)
  requires seg_shape(g), start < end, g.len() > 0 ==> g.last().end <= start, h == g.push(Segment { start, end, best: b }),
  ensures seg_shape(h), forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) <==> seg_has(g, o, x) || (start <= o < end && x == b),
{
  let n = g.len() as int;
  assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).end <= (#[trigger] h[j]).start by {
    if j < n { assert(g[i].end <= g[j].start); } else { if i < n - 1 { assert(g[i].end <= g[n - 1].start); assert(g[n - 1].start < g[n - 1].end); } assert(g[n - 1] == g.last()); }
  }
  assert forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) <==> seg_has(g, o, x) || (start <= o < end && x == b) by {
    if seg_has(h, o, x) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).start <= o < h[i].end && h[i].best == x; if i < n { assert(g[i] == h[i]); } }
    if seg_has(g, o, x) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).start <= o < g[i].end && g[i].best == x; assert(g[i] == h[i]); }
    if start <= o < end && x == b { assert(h[n].best == b); }
  }
}

// ---- the sweep ---------------------------------------------------------------------------
spec fn act<T>(e: SpanEntry<T>) -> ActiveSpan<T> { ActiveSpan { range: e.range, id: e.id } }
/// the non-empty spans of the list
spec fn solid<T>(v: Seq<SpanEntry<T>>) -> spec_fn(ActiveSpan<T>) -> bool {
  |s: ActiveSpan<T>| !void(s.range) && v.contains(SpanEntry { range: s.range, id: s.id })
}
spec fn has_events<T>(ev: Seq<Event<T>>, s: ActiveSpan<T>) -> bool {
  ev.contains(Event { pos: s.range.start, kind: EventKind::Start, span: s }) && ev.contains(Event { pos: s.range.end, kind: EventKind::End, span: s })
}
/// the events of the solid spans, no more and no less
spec fn events_of<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>) -> bool {
  &&& forall|s: ActiveSpan<T>| #[trigger] solid(v)(s) ==> has_events(ev, s)
  &&& forall|i: int| 0 <= i < ev.len() ==> solid(v)((#[trigger] ev[i]).span) && ev[i].pos == (if ev[i].kind is Start { ev[i].span.range.start } else { ev[i].span.range.end })
}
spec fn by_pos<T>(ev: Seq<Event<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < ev.len() ==> (#[trigger] ev[i]).pos <= (#[trigger] ev[j]).pos }
/// the table answers every offset below `upto`
spec fn table<T>(g: Seq<Segment<T>>, v: Seq<SpanEntry<T>>, upto: int) -> bool {
  &&& seg_shape(g)
  &&& forall|o: u32, b: ActiveSpan<T>| #[trigger] seg_has(g, o, b) ==> o < upto && best(solid(v), o, b)
  &&& forall|o: u32, s: ActiveSpan<T>| o < upto && #[trigger] solid(v)(s) && #[trigger] hits(s, o) ==> exists|b: ActiveSpan<T>| seg_has(g, o, b)
}
spec fn live<T>(v: Seq<SpanEntry<T>>, at: u32) -> spec_fn(ActiveSpan<T>) -> bool { |s: ActiveSpan<T>| solid(v)(s) && hits(s, at) }
#[verifier::external_body]
fn vs<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T])
  requires a <= b <= v@.len(),
  ensures r@ == v@.subrange(a as int, b as int),
{ &v[a..b] }
proof fn events_push<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, k: int, e2: Seq<Event<T>>)
  requires 0 <= k < v.len(), events_of(ev, v.take(k)),
    void(v[k].range) ==> e2 == ev,
    !void(v[k].range) ==> e2 == ev.push(Event { pos: v[k].range.start, kind: EventKind::Start, span: act(v[k]) }).push(Event { pos: v[k].range.end, kind: EventKind::End, span: act(v[k]) }),
  ensures events_of(e2, v.take(k + 1)),
{
  let a = v.take(k); let b = v.take(k + 1);
  assert(b =~= a.push(v[k]));
  assert forall|s: ActiveSpan<T>| #[trigger] solid(b)(s) implies has_events(e2, s) by {
    let e = SpanEntry { range: s.range, id: s.id };
    if e == v[k] {
      let n = ev.len() as int;
      assert(e2[n] == (Event { pos: s.range.start, kind: EventKind::Start, span: s })); assert(e2[n + 1] == (Event { pos: s.range.end, kind: EventKind::End, span: s }));
    } else {
      let i = choose|i: int| 0 <= i < b.len() && b[i] == e; assert(a[i] == e); assert(a.contains(e)); assert(solid(a)(s)); assert(has_events(ev, s));
      let x = Event { pos: s.range.start, kind: EventKind::Start, span: s }; let y = Event { pos: s.range.end, kind: EventKind::End, span: s };
      let i = choose|i: int| 0 <= i < ev.len() && ev[i] == x; let j = choose|j: int| 0 <= j < ev.len() && ev[j] == y;
      assert(e2[i] == x); assert(e2[j] == y);
    }
  }
  assert forall|i: int| 0 <= i < e2.len() implies solid(b)((#[trigger] e2[i]).span) && e2[i].pos == (if e2[i].kind is Start { e2[i].span.range.start } else { e2[i].span.range.end }) by {
    if i < ev.len() {
      assert(e2[i] == ev[i]); let s = ev[i].span; assert(solid(a)(s)); let e = SpanEntry { range: s.range, id: s.id };
      let j = choose|j: int| 0 <= j < a.len() && a[j] == e; assert(b[j] == e);
    } else { assert(b[k] == v[k]); assert(b.contains(v[k])); assert(v[k] == (SpanEntry { range: v[k].range, id: v[k].id })); }
  }
}
proof fn events_perm<T>(ev: Seq<Event<T>>, e2: Seq<Event<T>>, v: Seq<SpanEntry<T>>)
  requires events_of(ev, v), forall|s: Event<T>| #[trigger] e2.contains(s) <==> ev.contains(s),
  ensures events_of(e2, v),
{
  assert forall|i: int| 0 <= i < e2.len() implies solid(v)((#[trigger] e2[i]).span) && e2[i].pos == (if e2[i].kind is Start { e2[i].span.range.start } else { e2[i].span.range.end }) by {
    assert(e2.contains(e2[i])); let j = choose|j: int| 0 <= j < ev.len() && ev[j] == e2[i]; assert(ev[j].pos == e2[i].pos);
  }
  assert forall|s: ActiveSpan<T>| #[trigger] solid(v)(s) implies has_events(e2, s) by { assert(has_events(ev, s)); }
}
/// where the events of a span lie relative to a boundary of the sweep
proof fn sides<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, s: ActiveSpan<T>) -> (r: (int, int))
  requires events_of(ev, v), solid(v)(s),
  ensures 0 <= r.0 < ev.len(), 0 <= r.1 < ev.len(), ev[r.0].pos == s.range.start, ev[r.0].kind is Start, ev[r.0].span == s, ev[r.1].pos == s.range.end, ev[r.1].kind is End, ev[r.1].span == s, s.range.start < s.range.end,
{
  assert(has_events(ev, s));
  let x = Event { pos: s.range.start, kind: EventKind::Start, span: s }; let y = Event { pos: s.range.end, kind: EventKind::End, span: s };
  (choose|i: int| 0 <= i < ev.len() && ev[i] == x, choose|j: int| 0 <= j < ev.len() && ev[j] == y)
}
/// between two event positions nothing starts or ends
proof fn gap<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, idx: int, prev: Option<u32>, p: u32, s: ActiveSpan<T>, o: u32)
  requires
    events_of(ev, v), by_pos(ev), 0 <= idx <= ev.len(), solid(v)(s), swept(ev, idx, prev), idx < ev.len() ==> p == ev[idx].pos && o < p, prev is Some ==> prev.unwrap() <= o,
  ensures hits(s, o) == (prev is Some && hits(s, prev.unwrap())), idx == ev.len() ==> !hits(s, o),
{
  let (i, j) = sides(ev, v, s);
  if i < idx { assert(ev[i].pos <= ev[idx - 1].pos); } else { assert(ev[idx].pos <= ev[i].pos); }
  if j < idx { assert(ev[j].pos <= ev[idx - 1].pos); } else { assert(ev[idx].pos <= ev[j].pos); }
}
spec fn swept<T>(ev: Seq<Event<T>>, idx: int, prev: Option<u32>) -> bool {
  match prev { None => idx == 0, Some(q) => 0 < idx && q == ev[idx - 1].pos && (idx < ev.len() ==> q < ev[idx].pos) }
}
spec fn least<T>(m: Set<ActiveSpan<T>>, b: Option<ActiveSpan<T>>) -> bool {
  match b {
    Some(x) => m.contains(x) && forall|y: ActiveSpan<T>| #[trigger] m.contains(y) ==> le(x, y) != Ordering::Greater,
    None => forall|y: ActiveSpan<T>| !#[trigger] m.contains(y),
  }
}
spec fn is_live<T>(m: Set<ActiveSpan<T>>, v: Seq<SpanEntry<T>>, prev: Option<u32>) -> bool {
  match prev { Some(q) => forall|s: ActiveSpan<T>| #[trigger] m.contains(s) <==> live(v, q)(s), None => m == Set::<ActiveSpan<T>>::empty() }
}
/// extending the table over the gap
proof fn grow<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, idx: int, prev: Option<u32>, p: u32, m: Set<ActiveSpan<T>>, b: Option<ActiveSpan<T>>, g: Seq<Segment<T>>, h: Seq<Segment<T>>)
  requires
    events_of(ev, v), by_pos(ev), 0 <= idx < ev.len(), p == ev[idx].pos, swept(ev, idx, prev), is_live(m, v, prev), least(m, b),
    table(g, v, match prev { Some(q) => q as int, None => 0 }),
    seg_shape(h),
    prev is Some && b is Some ==> forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) <==> seg_has(g, o, x) || (prev.unwrap() <= o < p && x == b.unwrap()),
    !(prev is Some && b is Some) ==> h == g,
  ensures table(h, v, p as int),
{
  assert forall|o: u32, x: ActiveSpan<T>| #[trigger] seg_has(h, o, x) implies o < p && best(solid(v), o, x) by {
    if !seg_has(g, o, x) {
      let q = prev.unwrap();
      assert(m.contains(x)); assert(live(v, q)(x)); gap(ev, v, idx, prev, p, x, o);
      assert forall|s: ActiveSpan<T>| #[trigger] solid(v)(s) && hits(s, o) implies le(x, s) != Ordering::Greater by { gap(ev, v, idx, prev, p, s, o); assert(live(v, q)(s)); assert(m.contains(s)); }
    }
  }
  assert forall|o: u32, s: ActiveSpan<T>| o < p && #[trigger] solid(v)(s) && #[trigger] hits(s, o) implies exists|x: ActiveSpan<T>| seg_has(h, o, x) by {
    let upto = match prev { Some(q) => q as int, None => 0 };
    if o < upto { let x = choose|x: ActiveSpan<T>| seg_has(g, o, x); assert(seg_has(h, o, x)); }
    else { gap(ev, v, idx, prev, p, s, o); let q = prev.unwrap(); assert(live(v, q)(s)); assert(m.contains(s)); assert(seg_has(h, o, b.unwrap())); }
  }
}
spec fn has_kind<T>(ev: Seq<Event<T>>, lo: int, hi: int, start: bool, s: ActiveSpan<T>) -> bool {
  exists|k: int| lo <= k < hi && 0 <= k < ev.len() && (#[trigger] ev[k]).kind is Start == start && ev[k].span == s
}
proof fn kind_step<T>(ev: Seq<Event<T>>, lo: int, hi: int, start: bool)
  requires 0 <= lo <= hi < ev.len(),
  ensures forall|s: ActiveSpan<T>| #[trigger] has_kind(ev, lo, hi + 1, start, s) <==> has_kind(ev, lo, hi, start, s) || ((ev[hi].kind is Start) == start && ev[hi].span == s),
{
  assert forall|s: ActiveSpan<T>| #[trigger] has_kind(ev, lo, hi + 1, start, s) <==> has_kind(ev, lo, hi, start, s) || ((ev[hi].kind is Start) == start && ev[hi].span == s) by {
    if has_kind(ev, lo, hi + 1, start, s) { let k = choose|k: int| lo <= k < hi + 1 && 0 <= k < ev.len() && (#[trigger] ev[k]).kind is Start == start && ev[k].span == s; if k < hi { assert(ev[k].span == s); } }
    if has_kind(ev, lo, hi, start, s) { let k = choose|k: int| lo <= k < hi && 0 <= k < ev.len() && (#[trigger] ev[k]).kind is Start == start && ev[k].span == s; assert(ev[k].span == s); }
  }
}
/// handling one group of events moves the live set to the group's position
proof fn group<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, idx: int, end: int, prev: Option<u32>, p: u32, m: Set<ActiveSpan<T>>, n: Set<ActiveSpan<T>>)
  requires
    events_of(ev, v), by_pos(ev), 0 <= idx < end <= ev.len(), swept(ev, idx, prev), is_live(m, v, prev),
    forall|k: int| idx <= k < end ==> (#[trigger] ev[k]).pos == p, end < ev.len() ==> ev[end].pos != p,
    forall|s: ActiveSpan<T>| #[trigger] n.contains(s) <==> (m.contains(s) && !has_kind(ev, idx, end, false, s)) || has_kind(ev, idx, end, true, s),
  ensures is_live(n, v, Some(p)), swept(ev, end, Some(p)),
{
  assert(ev[end - 1].pos == p); assert(ev[idx].pos == p);
  if end < ev.len() { assert(ev[end - 1].pos <= ev[end].pos); }
  assert forall|s: ActiveSpan<T>| #[trigger] n.contains(s) <==> live(v, p)(s) by {
    if solid(v)(s) && hits(s, p) {
      let (i, j) = sides(ev, v, s);
      if i >= end { assert(ev[end].pos <= ev[i].pos); }
      if s.range.start == p { if i < idx { assert(ev[i].pos <= ev[idx - 1].pos); } assert(has_kind(ev, idx, end, true, s)); }
      else {
        if i >= idx && i < end { assert(ev[i].pos == p); }
        assert(i < idx); assert(ev[i].pos <= ev[idx - 1].pos); assert(live(v, prev.unwrap())(s)); assert(m.contains(s));
        if has_kind(ev, idx, end, false, s) { let k = choose|k: int| idx <= k < end && 0 <= k < ev.len() && (#[trigger] ev[k]).kind is Start == false && ev[k].span == s; assert(ev[k].pos == p); assert(ev[k].pos == s.range.end); }
      }
    }
    if has_kind(ev, idx, end, true, s) { let k = choose|k: int| idx <= k < end && 0 <= k < ev.len() && (#[trigger] ev[k]).kind is Start == true && ev[k].span == s; assert(ev[k].pos == p); assert(solid(v)(ev[k].span)); }
    else if m.contains(s) && !has_kind(ev, idx, end, false, s) {
      let q = prev.unwrap(); assert(live(v, q)(s));
      let (i, j) = sides(ev, v, s);
      if j < idx { assert(ev[j].pos <= ev[idx - 1].pos); }
      if j < end { assert(ev[j].pos == p); assert(has_kind(ev, idx, end, false, s)); } else { assert(ev[end].pos <= ev[j].pos); }
    }
  }
}
proof fn finish<T>(ev: Seq<Event<T>>, v: Seq<SpanEntry<T>>, prev: Option<u32>, g: Seq<Segment<T>>)
  requires events_of(ev, v), by_pos(ev), swept(ev, ev.len() as int, prev), table(g, v, match prev { Some(q) => q as int, None => 0 }),
  ensures table(g, v, 0x1_0000_0000),
{
  assert forall|o: u32, s: ActiveSpan<T>| o < 0x1_0000_0000 && #[trigger] solid(v)(s) && #[trigger] hits(s, o) implies exists|b: ActiveSpan<T>| seg_has(g, o, b) by {
    let upto = match prev { Some(q) => q as int, None => 0 };
    if o >= upto { gap(ev, v, ev.len() as int, prev, 0, s, o); }
  }
}
/*@fn hir-js/src/span_map.rs :: build_segments
#ret r
#rewrite `Vec :: with_capacity ( spans . len ( ) * 2 )` => `Vec::new()`
#rewrite? `events . sort_by ( | a , b | { a . pos . cmp ( & b . pos ) . then_with ( | | a . kind . cmp ( & b . kind ) ) . then_with ( | | a . span . cmp ( & b . span ) ) } )` => `sort_events(&mut events)`
#rewrite `BTreeSet :: new ( )` => `set_new()`
#rewrite `active . remove ( & event . span )` => `set_remove(&mut active, &event.span)`
#rewrite `active . insert ( event . span )` => `set_insert(&mut active, event.span)`
#rewrite `active . iter ( ) . next ( ) . copied ( )` => `set_first(&active)`
#rewrite `& events [ idx .. end_idx ]` => `vs(&events, idx, end_idx)`
#spec
  requires ids::<T>(),
  ensures table(r@, spans@, 0x1_0000_0000),
#entry
  let ghost v = spans@;
#loop 0 while=ix
    invariant ix <= ix_s.len(), ix_s@ == v, events_of(events@, v.take(ix as int)),
    decreases ix_s.len() - ix,
#at before `if entry . range . is_empty ( )`
    proof { if void(entry.range) { events_push(events@, v, ix as int - 1, events@); } else { events_push(events@, v, ix as int - 1, events@.push(Event { pos: entry.range.start, kind: EventKind::Start, span: act(*entry) }).push(Event { pos: entry.range.end, kind: EventKind::End, span: act(*entry) })); } }
#at before `events . sort_by`
  let ghost ev0 = events@;
  proof { assert(v.take(v.len() as int) =~= v); }
#at before `let mut active`
  proof { events_perm(ev0, events@, v); }
  let ghost ev = events@;
#loop 1
    invariant
      ids::<T>(), ev == events@, events_of(ev, v), by_pos(ev), idx <= ev.len(), swept(ev, idx as int, prev_pos),
      is_live(members(active), v, prev_pos), least(members(active), best),
      table(segments@, v, match prev_pos { Some(q) => q as int, None => 0 }),
      segments@.len() > 0 ==> prev_pos is Some && segments@.last().end <= prev_pos.unwrap(),
    decreases ev.len() - idx,
#at before `if let Some ( prev ) = prev_pos`
    let ghost g0 = segments@;
    let ghost m0 = members(active);
#at before `let mut end_idx`
    proof { grow(ev, v, idx as int, prev_pos, pos, m0, best, g0, segments@); }
#loop 2
      invariant
        ev == events@, by_pos(ev), idx <= end_idx <= ev.len(), idx < ev.len(), pos == ev[idx as int].pos,
        forall|k: int| idx <= k < end_idx ==> (#[trigger] ev[k]).pos == pos, end_idx == idx ==> ev[end_idx as int].pos == pos,
      decreases ev.len() - end_idx,
#loop 3 while=ja
      invariant
        ids::<T>(), ja <= ja_s.len(), ja_s@ == ev.subrange(idx as int, end_idx as int), idx < end_idx <= ev.len(),
        forall|s: ActiveSpan<T>| #[trigger] members(active).contains(s) <==> m0.contains(s) && !has_kind(ev, idx as int, idx + ja, false, s),
      decreases ja_s.len() - ja,
#at before `if matches ! ( event . kind , EventKind :: End )`
      proof { kind_step(ev, idx as int, idx + ja - 1, false); assert(*event == ev[idx + ja - 1]); }
#loop 4 while=jb
      invariant
        ids::<T>(), jb <= jb_s.len(), jb_s@ == ev.subrange(idx as int, end_idx as int), idx < end_idx <= ev.len(),
        forall|s: ActiveSpan<T>| #[trigger] members(active).contains(s) <==> (m0.contains(s) && !has_kind(ev, idx as int, end_idx as int, false, s)) || has_kind(ev, idx as int, idx + jb, true, s),
      decreases jb_s.len() - jb,
#at before `if matches ! ( event . kind , EventKind :: Start )`
      proof { kind_step(ev, idx as int, idx + jb - 1, true); assert(*event == ev[idx + jb - 1]); }
#at before `best = active`
    proof { group(ev, v, idx as int, end_idx as int, prev_pos, pos, m0, members(active)); }
@*/

// ---- the index ------------------------------------------------------------------------------
impl<T> SpanIndex<T> {
  /// the spans recorded
  spec fn holds(self, s: ActiveSpan<T>) -> bool {
    self.spans@.contains(SpanEntry { range: s.range, id: s.id }) || self.empties@.contains(s)
  }
  spec fn held(self) -> spec_fn(ActiveSpan<T>) -> bool { |s: ActiveSpan<T>| self.holds(s) }
  spec fn wf(self) -> bool {
    &&& ids::<T>()
    &&& forall|e: SpanEntry<T>| #[trigger] self.spans@.contains(e) ==> !void(e.range)
    &&& forall|s: ActiveSpan<T>| #[trigger] self.empties@.contains(s) ==> void(s.range)
    &&& forall|t: T| #[trigger] self.by_id@.contains_key(t) ==> self.by_id@[t].id == t && self.holds(self.by_id@[t])
    &&& forall|s: ActiveSpan<T>| #[trigger] self.holds(s) ==> self.by_id@.contains_key(s.id) && le(self.by_id@[s.id], s) != Ordering::Greater
  }
  spec fn ready(self) -> bool {
    &&& self.wf()
    &&& table(self.segments@, self.spans@, 0x1_0000_0000)
    &&& forall|i: int, j: int| 0 <= i < j < self.empties@.len() ==> le(#[trigger] self.empties@[i], #[trigger] self.empties@[j]) != Ordering::Greater
  }
  /// the answer is the innermost recorded span containing the offset
  spec fn finds_span(self, o: u32, r: Option<SpanResult<T>>) -> bool {
    match r { Some(x) => best(self.held(), o, ActiveSpan { range: x.range, id: x.id }), None => forall|s: ActiveSpan<T>| #[trigger] self.holds(s) ==> !hits(s, o) }
  }
  spec fn finds(self, o: u32, r: Option<T>) -> bool {
    exists|x: Option<SpanResult<T>>| #[trigger] self.finds_span(o, x) && r == (match x { Some(y) => Some(y.id), None => None })
  }
  /// the span of an id is the innermost recorded with it
  spec fn spans_of(self, t: T, r: Option<TextRange>) -> bool {
    match r {
      Some(x) => self.holds(ActiveSpan { range: x, id: t }) && forall|s: ActiveSpan<T>| #[trigger] self.holds(s) && s.id == t ==> le(ActiveSpan { range: x, id: t }, s) != Ordering::Greater,
      None => forall|s: ActiveSpan<T>| #[trigger] self.holds(s) ==> s.id != t,
    }
  }
}
spec fn same_spans<T>(a: SpanIndex<T>, b: SpanIndex<T>) -> bool { forall|s: ActiveSpan<T>| #[trigger] b.holds(s) <==> a.holds(s) }
/// what is found is determined by the recorded spans alone, so the order they were added in does not matter
proof fn answer_is_unique<T>(a: SpanIndex<T>, b: SpanIndex<T>, o: u32, x: Option<SpanResult<T>>, y: Option<SpanResult<T>>)
  requires ids::<T>(), same_spans(a, b), a.finds_span(o, x), b.finds_span(o, y),
  ensures x == y,
{
  match (x, y) {
    (Some(p), Some(q)) => {
      let s = ActiveSpan { range: p.range, id: p.id }; let t = ActiveSpan { range: q.range, id: q.id };
      assert(b.holds(s) <==> a.holds(s)); assert(b.holds(t) <==> a.holds(t));
      assert(a.held()(t)); assert(b.held()(s)); le_order(s, t, s);
    }
    (Some(p), None) => { let s = ActiveSpan { range: p.range, id: p.id }; assert(a.held()(s)); assert(b.holds(s)); }
    (None, Some(q)) => { let s = ActiveSpan { range: q.range, id: q.id }; assert(b.held()(s)); assert(b.holds(s)); assert(a.holds(s)); }
    _ => {}
  }
}
impl<T> SpanIndex<T> {
/*@fn hir-js/src/span_map.rs :: SpanIndex::new
#ret r
#rewrite `BTreeMap :: new ( )` => `bmap_new()`
#spec
  requires ids::<T>(),
  ensures r.ready(), forall|s: ActiveSpan<T>| !#[trigger] r.holds(s),
@*/
/*@fn hir-js/src/span_map.rs :: SpanIndex::record_by_id
#rewrite `self . by_id . entry ( span . id ) . and_modify ( | best | { if span < * best { * best = span ; } } ) . or_insert ( span ) ;` => `let c_ = match bmap_get(&self.by_id, span.id) { Some(best) => Some(*best), None => None }; match c_ { Some(best) => { if span_lt(&span, &best) { bmap_insert(&mut self.by_id, span.id, span); } } None => { bmap_insert(&mut self.by_id, span.id, span); } }`
#spec
  requires ids::<T>(),
  ensures
    final(self).spans == old(self).spans, final(self).segments == old(self).segments, final(self).empties == old(self).empties,
    final(self).by_id@ == old(self).by_id@.insert(span.id, if old(self).by_id@.contains_key(span.id) && le(span, old(self).by_id@[span.id]) != Ordering::Less { old(self).by_id@[span.id] } else { span }),
#end
  proof { assert(final(self).by_id@ =~= old(self).by_id@.insert(span.id, if old(self).by_id@.contains_key(span.id) && le(span, old(self).by_id@[span.id]) != Ordering::Less { old(self).by_id@[span.id] } else { span })); }
@*/
/*@fn hir-js/src/span_map.rs :: SpanIndex::add
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<T>| #[trigger] final(self).holds(s) <==> old(self).holds(s) || s == (ActiveSpan { range, id }),
#end
  proof { added(*old(self), *self, ActiveSpan { range, id }); }
@*/
}
proof fn added<T>(a: SpanIndex<T>, b: SpanIndex<T>, x: ActiveSpan<T>)
  requires
    a.wf(),
    if void(x.range) { b.spans == a.spans && b.empties@ == a.empties@.push(x) } else { b.empties == a.empties && b.spans@ == a.spans@.push(SpanEntry { range: x.range, id: x.id }) },
    b.by_id@ == a.by_id@.insert(x.id, if a.by_id@.contains_key(x.id) && le(x, a.by_id@[x.id]) != Ordering::Less { a.by_id@[x.id] } else { x }),
  ensures b.wf(), forall|s: ActiveSpan<T>| #[trigger] b.holds(s) <==> a.holds(s) || s == x,
{
  let ex = SpanEntry { range: x.range, id: x.id };
  assert forall|e: SpanEntry<T>| #[trigger] b.spans@.contains(e) <==> a.spans@.contains(e) || (!void(x.range) && e == ex) by {
    if a.spans@.contains(e) { let i = choose|i: int| 0 <= i < a.spans@.len() && a.spans@[i] == e; assert(b.spans@[i] == e); }
    if !void(x.range) { assert(b.spans@[a.spans@.len() as int] == ex); }
  }
  assert forall|e: ActiveSpan<T>| #[trigger] b.empties@.contains(e) <==> a.empties@.contains(e) || (void(x.range) && e == x) by {
    if a.empties@.contains(e) { let i = choose|i: int| 0 <= i < a.empties@.len() && a.empties@[i] == e; assert(b.empties@[i] == e); }
    if void(x.range) { assert(b.empties@[a.empties@.len() as int] == x); }
  }
  assert forall|s: ActiveSpan<T>| #[trigger] b.holds(s) <==> a.holds(s) || s == x by {}
  assert forall|t: T| #[trigger] b.by_id@.contains_key(t) implies b.by_id@[t].id == t && b.holds(b.by_id@[t]) by { if t != x.id { assert(a.by_id@.contains_key(t)); } }
  assert forall|s: ActiveSpan<T>| #[trigger] b.holds(s) implies b.by_id@.contains_key(s.id) && le(b.by_id@[s.id], s) != Ordering::Greater by {
    le_order(x, x, x);
    if a.by_id@.contains_key(x.id) { let c = a.by_id@[x.id]; le_order(x, c, s); le_order(c, x, s); }
    if s.id != x.id { assert(a.holds(s)); }
  }
}
impl<T: Copy + Ord> SpanIndex<T> {
/*@fn hir-js/src/span_map.rs :: SpanIndex::finalize
#rewrite? `self . spans . sort_by ( | a , b | ( a . range . start , a . range . end , a . id ) . cmp ( & ( b . range . start , b . range . end , b . id ) ) )` => `sort_entries(&mut self.spans)`
#rewrite? `self . empties . sort ( )` => `sort_spans(&mut self.empties)`
#spec
  requires old(self).wf(),
  ensures final(self).ready(), same_spans(*old(self), *final(self)),
#end
  proof {
    assert(same_spans(*old(self), *self));
    assert forall|t: T| #[trigger] self.by_id@.contains_key(t) implies self.by_id@[t].id == t && self.holds(self.by_id@[t]) by { assert(old(self).holds(old(self).by_id@[t])); }
    assert forall|s: ActiveSpan<T>| #[trigger] self.holds(s) implies self.by_id@.contains_key(s.id) && le(self.by_id@[s.id], s) != Ordering::Greater by { assert(old(self).holds(s)); }
  }
@*/
/*@fn hir-js/src/span_map.rs :: SpanIndex::query
#ret r
#rewrite `| span | span . id` => `|span: SpanResult<T>| -> (t: T) ensures t == span.id { span.id }`
#spec
  requires self.ready(),
  ensures self.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanIndex::span_of
#ret r
#rewrite `self . by_id . get ( & id )` => `bmap_get(&self.by_id, id)`
#rewrite `| span | span . range` => `|span: &ActiveSpan<T>| -> (t: TextRange) ensures t == span.range { span.range }`
#spec
  requires self.wf(),
  ensures self.spans_of(id, r),
#entry
  proof { if self.by_id@.contains_key(id) { let c = self.by_id@[id]; assert(c == (ActiveSpan { range: c.range, id })); assert(self.holds(c)); } }
@*/
/*@fn hir-js/src/span_map.rs :: SpanIndex::query_span
#ret r
#rewrite `self . segments . partition_point ( | seg | seg . end <= offset )` => `{ let f_ = |seg: &Segment<T>| -> (b: bool) ensures b == (seg.end <= offset) { seg.end <= offset }; proof { assert(decides(f_, ended(offset))); } self.segments.partition_point(f_) }`
#rewrite `| seg | ( offset >= seg . start ) . then_some ( seg . best )` => `|seg: &Segment<T>| -> (b: Option<ActiveSpan<T>>) ensures b == (if offset >= seg.start { Some(seg.best) } else { None }) { (offset >= seg.start).then_some(seg.best) }`
#rewrite `self . empties . partition_point ( | span | span . range . start < offset )` => `{ let f_ = |span: &ActiveSpan<T>| -> (b: bool) ensures b == (span.range.start < offset) { span.range.start < offset }; proof { assert(decides(f_, before(offset))); } self.empties.partition_point(f_) }`
#rewrite `self . empties . iter ( ) . skip ( start_idx )` => `vs(&self.empties, start_idx, self.empties.len())`
#rewrite `| best | span < & best` => `|best: ActiveSpan<T>| -> (b: bool) ensures b == (le(*span, best) == Ordering::Less) { span_lt(span, &best) }`
#rewrite `std :: cmp :: min ( best , empty ) . into ( )` => `result_of(span_min(best, empty))`
#rewrite `best . into ( )` => `result_of(best)`
#rewrite `empty . into ( )` => `result_of(empty)`
#spec
  requires self.ready(),
  ensures self.finds_span(offset, r),
#entry
  let ghost g = self.segments@; let ghost em = self.empties@; let ghost v = self.spans@;
  proof { seg_split(g, offset); }
#at before `let best_non_empty`
  proof {
    assert(splits(g, ended(offset), idx as int));
    assert forall|i: int| 0 <= i < idx implies (#[trigger] g[i]).end <= offset by { assert(ended(offset)(g[i])); }
    assert forall|i: int| idx <= i < g.len() implies !((#[trigger] g[i]).end <= offset) by { assert(!ended(offset)(g[i])); }
    seg_lookup(g, offset, idx as int);
  }
#at before `let start_idx`
  proof {
    empties_split(em, offset);
    assert(match best_non_empty { Some(b) => seg_has(g, offset, b), None => forall|b: ActiveSpan<T>| !seg_has(g, offset, b) });
    assert(match best_non_empty { Some(b) => best(solid(v), offset, b), None => forall|s: ActiveSpan<T>| #[trigger] solid(v)(s) ==> !hits(s, offset) });
  }
#at before `let mut best_empty`
  proof {
    assert(splits(em, before(offset), start_idx as int));
    assert forall|i: int| 0 <= i < start_idx implies (#[trigger] em[i]).range.start < offset by { assert(before(offset)(em[i])); }
    assert forall|i: int| start_idx <= i < em.len() implies !((#[trigger] em[i]).range.start < offset) by { assert(!before(offset)(em[i])); }
  }
#loop 0 while=ix
    invariant_except_break
      forall|k: int| start_idx <= k < start_idx + ix ==> (#[trigger] em[k]).range.start == offset,
    invariant
      self.ready(), forall|i: int| start_idx <= i < em.len() ==> !((#[trigger] em[i]).range.start < offset), ix <= ix_s.len(), em == self.empties@, start_idx <= em.len(), ix_s@ == em.subrange(start_idx as int, em.len() as int),
      match best_empty {
        Some(b) => em.contains(b) && b.range.start == offset && forall|k: int| start_idx <= k < start_idx + ix && (#[trigger] em[k]).range.start == offset ==> le(b, em[k]) != Ordering::Greater,
        None => forall|k: int| start_idx <= k < start_idx + ix ==> (#[trigger] em[k]).range.start != offset,
      },
    ensures forall|k: int| start_idx + ix <= k < em.len() ==> (#[trigger] em[k]).range.start != offset,
    decreases ix_s.len() - ix,
#at before `if span . range . start != offset`
      proof {
        assert(*span == em[start_idx + ix - 1]);
        empties_sorted(em, start_idx + ix - 1);
        if best_empty is Some { le_order(best_empty.unwrap(), *span, *span); le_order(*span, best_empty.unwrap(), *span);
          assert forall|k: int| start_idx <= k < start_idx + ix implies (le(*span, best_empty.unwrap()) == Ordering::Less && le(best_empty.unwrap(), em[k]) != Ordering::Greater ==> #[trigger] le(*span, em[k]) != Ordering::Greater) by { le_order(*span, best_empty.unwrap(), em[k]); } }
        le_order(*span, *span, *span);
      }
#at before `match ( best_non_empty`
    proof {
      assert(match best_empty { Some(b) => em.contains(b) && hits(b, offset), None => true });
      assert forall|s: ActiveSpan<T>| #[trigger] em.contains(s) && hits(s, offset) implies best_empty is Some && le(best_empty.unwrap(), s) != Ordering::Greater by {
        let k = choose|k: int| 0 <= k < em.len() && em[k] == s; assert(k >= start_idx);
      }
      conclude(*self, offset, best_non_empty, best_empty);
    }
@*/
}
spec fn ended<T>(o: u32) -> spec_fn(Segment<T>) -> bool { |seg: Segment<T>| seg.end <= o }
spec fn before<T>(o: u32) -> spec_fn(ActiveSpan<T>) -> bool { |s: ActiveSpan<T>| s.range.start < o }
proof fn seg_split<T>(g: Seq<Segment<T>>, o: u32)
  requires seg_shape(g),
  ensures exists|k: int| #[trigger] splits(g, ended(o), k),
{ let n = seg_split_at(g, o, g.len() as int); assert(splits(g, ended(o), n)); }
proof fn seg_split_at<T>(g: Seq<Segment<T>>, o: u32, n: int) -> (k: int)
  requires seg_shape(g), 0 <= n <= g.len(), forall|i: int| n <= i < g.len() ==> !((#[trigger] g[i]).end <= o),
  ensures 0 <= k <= g.len(), (forall|i: int| 0 <= i < k ==> (#[trigger] g[i]).end <= o), (forall|i: int| k <= i < g.len() ==> !((#[trigger] g[i]).end <= o)),
  decreases n
{
  if n == 0 { 0 } else if g[n - 1].end <= o {
    assert forall|i: int| 0 <= i < n implies (#[trigger] g[i]).end <= o by { if i < n - 1 { assert(g[i].end <= g[n - 1].start); assert(g[n - 1].start < g[n - 1].end); } }
    n
  } else { seg_split_at(g, o, n - 1) }
}
proof fn seg_lookup<T>(g: Seq<Segment<T>>, o: u32, k: int)
  requires seg_shape(g), 0 <= k <= g.len(), forall|i: int| 0 <= i < k ==> (#[trigger] g[i]).end <= o, forall|i: int| k <= i < g.len() ==> !((#[trigger] g[i]).end <= o),
  ensures
    k < g.len() && g[k].start <= o ==> seg_has(g, o, g[k].best),
    !(k < g.len() && g[k].start <= o) ==> forall|b: ActiveSpan<T>| !#[trigger] seg_has(g, o, b),
{
  assert forall|b: ActiveSpan<T>| #[trigger] seg_has(g, o, b) implies k < g.len() && g[k].start <= o by {
    let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).start <= o < g[i].end && g[i].best == b;
    if i > k { assert(g[k].end <= g[i].start); }
  }
}
proof fn empties_sorted<T>(em: Seq<ActiveSpan<T>>, k: int)
  requires 0 <= k < em.len(), forall|i: int| 0 <= i < em.len() ==> void((#[trigger] em[i]).range) || em[i].range.start == em[i].range.start,
    forall|s: ActiveSpan<T>| #[trigger] em.contains(s) ==> void(s.range),
    forall|i: int, j: int| 0 <= i < j < em.len() ==> le(#[trigger] em[i], #[trigger] em[j]) != Ordering::Greater,
  ensures forall|j: int| k <= j < em.len() ==> em[k].range.start <= (#[trigger] em[j]).range.start,
{
  assert(em.contains(em[k]));
  assert forall|j: int| k <= j < em.len() implies em[k].range.start <= (#[trigger] em[j]).range.start by { assert(em.contains(em[j])); if k < j { assert(le(em[k], em[j]) != Ordering::Greater); } }
}
proof fn empties_split<T>(em: Seq<ActiveSpan<T>>, o: u32)
  requires
    forall|s: ActiveSpan<T>| #[trigger] em.contains(s) ==> void(s.range),
    forall|i: int, j: int| 0 <= i < j < em.len() ==> le(#[trigger] em[i], #[trigger] em[j]) != Ordering::Greater,
  ensures exists|k: int| #[trigger] splits(em, before(o), k),
{ let k = empties_split_at(em, o, em.len() as int); assert(splits(em, before(o), k)); }
proof fn empties_split_at<T>(em: Seq<ActiveSpan<T>>, o: u32, n: int) -> (k: int)
  requires
    forall|s: ActiveSpan<T>| #[trigger] em.contains(s) ==> void(s.range), 0 <= n <= em.len(), forall|i: int| n <= i < em.len() ==> !((#[trigger] em[i]).range.start < o),
    forall|i: int, j: int| 0 <= i < j < em.len() ==> le(#[trigger] em[i], #[trigger] em[j]) != Ordering::Greater,
  ensures 0 <= k <= em.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] em[i]).range.start < o) && (forall|i: int| k <= i < em.len() ==> !((#[trigger] em[i]).range.start < o)),
  decreases n
{
  if n == 0 { 0 } else if em[n - 1].range.start < o {
    assert forall|i: int| 0 <= i < n implies (#[trigger] em[i]).range.start < o by { empties_sorted(em, i); }
    n
  } else { empties_split_at(em, o, n - 1) }
}
proof fn conclude<T>(x: SpanIndex<T>, o: u32, a: Option<ActiveSpan<T>>, e: Option<ActiveSpan<T>>)
  requires
    x.ready(),
    match a { Some(b) => best(solid(x.spans@), o, b), None => forall|s: ActiveSpan<T>| #[trigger] solid(x.spans@)(s) ==> !hits(s, o) },
    match e { Some(b) => x.empties@.contains(b) && hits(b, o), None => true },
    forall|s: ActiveSpan<T>| #[trigger] x.empties@.contains(s) && hits(s, o) ==> e is Some && le(e.unwrap(), s) != Ordering::Greater,
  ensures
    match (a, e) {
      (None, None) => forall|s: ActiveSpan<T>| #[trigger] x.holds(s) ==> !hits(s, o),
      (Some(b), None) => best(x.held(), o, b), (None, Some(b)) => best(x.held(), o, b),
      (Some(b), Some(c)) => best(x.held(), o, if le(c, b) == Ordering::Less { c } else { b }),
    },
{
  assert forall|s: ActiveSpan<T>| #[trigger] x.holds(s) && hits(s, o) implies (solid(x.spans@)(s) || x.empties@.contains(s)) by { let en = SpanEntry { range: s.range, id: s.id }; if x.spans@.contains(en) { assert(!void(en.range)); } }
  if a is Some { assert(solid(x.spans@)(a.unwrap())); assert(x.holds(a.unwrap())); }
  if e is Some { assert(x.holds(e.unwrap())); }
  if a is Some && e is Some {
    let b = a.unwrap(); let c = e.unwrap();
    le_order(b, c, b);
    assert forall|s: ActiveSpan<T>| #[trigger] x.held()(s) && hits(s, o) implies le(if le(c, b) == Ordering::Less { c } else { b }, s) != Ordering::Greater by {
      assert(x.holds(s)); le_order(c, b, s); le_order(b, c, s);
    }
  }
  if a is Some && e is None { assert forall|s: ActiveSpan<T>| #[trigger] x.held()(s) && hits(s, o) implies le(a.unwrap(), s) != Ordering::Greater by { assert(x.holds(s)); } }
  if a is None && e is Some { assert forall|s: ActiveSpan<T>| #[trigger] x.held()(s) && hits(s, o) implies le(e.unwrap(), s) != Ordering::Greater by { assert(x.holds(s)); } }
}

// ---- the map over all kinds of spans -------------------------------------------------------
/*@type hir-js/src/ids.rs :: DefId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: BodyId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: ExprId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: PatId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: StmtId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: TypeExprId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: TypeParamId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: TypeMemberId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: ImportSpecifierId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: ExportSpecifierId
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type hir-js/src/ids.rs :: DefKind
#derive Clone, Copy
@*/
/*@type hir-js/src/span_map.rs :: DefSpanKey
#derive Clone, Copy, PartialEq, Eq
@*/
#[verifier::external]
impl PartialOrd for DefSpanKey { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
#[verifier::external]
impl Ord for DefSpanKey { fn cmp(&self, o: &Self) -> Ordering { self.cmp_(o) } }
/*@type hir-js/src/span_map.rs :: SpanMap
@*/
/// bindings outrank the definitions synthesised around them
spec fn rank(k: DefKind) -> int {
  match k {
    DefKind::Var => 0, DefKind::VarDeclarator => 1, DefKind::ImportBinding => 2, DefKind::Param => 3, DefKind::Function => 4, DefKind::Class => 5, DefKind::Method => 6,
    DefKind::Getter => 7, DefKind::Setter => 8, DefKind::Constructor => 9, DefKind::Field => 10, DefKind::StaticBlock => 11, DefKind::Enum => 12, DefKind::EnumMember => 13,
    DefKind::Namespace => 14, DefKind::Module => 15, DefKind::TypeAlias => 16, DefKind::Interface => 17, DefKind::TypeParam => 18, DefKind::ExportAlias => 19, DefKind::Unknown => 20,
  }
}
spec fn def_key(k: DefKind, id: DefId) -> DefSpanKey { DefSpanKey { kind_rank: rank(k) as u8, id } }
/*@fn hir-js/src/span_map.rs :: def_kind_rank
#ret r
#spec
  ensures r == rank(kind),
@*/
#[verifier::external_body]
fn cmp2(a: (u8, DefId), b: &(u8, DefId)) -> (r: Ordering)
  ensures r == then_spec(int_cmp(a.0 as int, b.0 as int), id_cmp(a.1, b.1))
{ a.cmp(b) }
impl DefSpanKey {
/*@fn hir-js/src/span_map.rs :: DefSpanKey::new
#ret r
#spec
  ensures r == def_key(kind, id),
@*/
/*@fn hir-js/src/span_map.rs :: Ord for DefSpanKey::cmp
#ret r
#sig `fn cmp` => `fn cmp_`
#rewrite `( self . kind_rank , self . id ) . cmp ( &` => `cmp2((self.kind_rank, self.id), &`
#spec
  ensures r == key_cmp(*self, *other),
@*/
}
spec fn key_cmp(a: DefSpanKey, b: DefSpanKey) -> Ordering { then_spec(int_cmp(a.kind_rank as int, b.kind_rank as int), id_cmp(a.id, b.id)) }
/// the orders of the identifier types: derived from their numbers, except the one checked above
spec fn derived_orders() -> bool {
  &&& ids::<DefId>() &&& ids::<BodyId>() &&& ids::<(BodyId, ExprId)>() &&& ids::<(BodyId, StmtId)>() &&& ids::<(BodyId, PatId)>()
  &&& ids::<(DefId, TypeExprId)>() &&& ids::<(DefId, TypeMemberId)>() &&& ids::<(DefId, TypeParamId)>() &&& ids::<ImportSpecifierId>() &&& ids::<ExportSpecifierId>()
}
spec fn ids_ordered() -> bool { derived_orders() && forall|a: DefSpanKey, b: DefSpanKey| #[trigger] id_cmp(a, b) == key_cmp(a, b) }
proof fn keys_ordered()
  requires ids_ordered(),
  ensures ids::<DefSpanKey>(),
{
  assert forall|a: DefSpanKey, b: DefSpanKey| #[trigger] id_cmp(a, b) == rev(id_cmp(b, a)) by { assert(id_cmp(a.id, b.id) == rev(id_cmp(b.id, a.id))); assert(id_cmp(b, a) == key_cmp(b, a)); }
  assert forall|a: DefSpanKey, b: DefSpanKey| #[trigger] id_cmp(a, b) == Ordering::Equal implies a == b by { assert(id_cmp(a.id, b.id) == Ordering::Equal); }
  assert forall|a: DefSpanKey, b: DefSpanKey, c: DefSpanKey| #[trigger] id_cmp(a, b) != Ordering::Greater && #[trigger] id_cmp(b, c) != Ordering::Greater implies id_cmp(a, c) != Ordering::Greater by {
    assert(id_cmp(a, c) == key_cmp(a, c)); assert(id_cmp(a.id, b.id) == rev(id_cmp(b.id, a.id))); assert(id_cmp(b.id, c.id) == rev(id_cmp(c.id, b.id))); assert(id_cmp(a.id, c.id) == rev(id_cmp(c.id, a.id)));
    if id_cmp(a.id, b.id) != Ordering::Greater && id_cmp(b.id, c.id) != Ordering::Greater { assert(id_cmp(a.id, c.id) != Ordering::Greater); }
  }
}
impl SpanMap {
  spec fn wf(self) -> bool {
    &&& ids_ordered()
    &&& self.exprs.wf()
    &&& self.defs.wf()
    &&& self.bodies.wf()
    &&& self.stmts.wf()
    &&& self.type_exprs.wf()
    &&& self.type_members.wf()
    &&& self.type_params.wf()
    &&& self.pats.wf()
    &&& self.import_specifiers.wf()
    &&& self.export_specifiers.wf()
    &&& forall|d: DefId| #[trigger] self.def_keys@.contains_key(d) ==> self.def_keys@[d].id == d
    &&& forall|s: ActiveSpan<DefSpanKey>| #[trigger] self.defs.holds(s) ==> self.def_keys@.contains_key(s.id.id)
  }
  spec fn ready(self) -> bool {
    &&& self.wf()
    &&& self.exprs.ready()
    &&& self.defs.ready()
    &&& self.bodies.ready()
    &&& self.stmts.ready()
    &&& self.type_exprs.ready()
    &&& self.type_members.ready()
    &&& self.type_params.ready()
    &&& self.pats.ready()
    &&& self.import_specifiers.ready()
    &&& self.export_specifiers.ready()
  }
/*@fn hir-js/src/span_map.rs :: SpanMap::add_expr
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(BodyId, ExprId)>| #[trigger] final(self).exprs.holds(s) <==> old(self).exprs.holds(s) || s == (ActiveSpan { range, id: (body, id) }),
    final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::expr_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.exprs.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::expr_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.exprs.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::expr_span
#ret r
#spec
  requires self.wf(),
  ensures self.exprs.spans_of((body, expr), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_body
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<BodyId>| #[trigger] final(self).bodies.holds(s) <==> old(self).bodies.holds(s) || s == (ActiveSpan { range, id: id }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::body_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.bodies.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::body_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.bodies.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::body_span
#ret r
#spec
  requires self.wf(),
  ensures self.bodies.spans_of(body, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_stmt
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(BodyId, StmtId)>| #[trigger] final(self).stmts.holds(s) <==> old(self).stmts.holds(s) || s == (ActiveSpan { range, id: (body, id) }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::stmt_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.stmts.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::stmt_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.stmts.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::stmt_span
#ret r
#spec
  requires self.wf(),
  ensures self.stmts.spans_of((body, stmt), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_type_expr
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(DefId, TypeExprId)>| #[trigger] final(self).type_exprs.holds(s) <==> old(self).type_exprs.holds(s) || s == (ActiveSpan { range, id: (owner, id) }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_expr_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_exprs.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_expr_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_exprs.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_expr_span
#ret r
#spec
  requires self.wf(),
  ensures self.type_exprs.spans_of((owner, type_expr), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_type_member
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(DefId, TypeMemberId)>| #[trigger] final(self).type_members.holds(s) <==> old(self).type_members.holds(s) || s == (ActiveSpan { range, id: (owner, id) }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_member_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_members.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_member_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_members.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_member_span
#ret r
#spec
  requires self.wf(),
  ensures self.type_members.spans_of((owner, type_member), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_type_param
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(DefId, TypeParamId)>| #[trigger] final(self).type_params.holds(s) <==> old(self).type_params.holds(s) || s == (ActiveSpan { range, id: (owner, id) }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_param_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_params.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_param_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.type_params.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::type_param_span
#ret r
#spec
  requires self.wf(),
  ensures self.type_params.spans_of((owner, type_param), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_pat
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<(BodyId, PatId)>| #[trigger] final(self).pats.holds(s) <==> old(self).pats.holds(s) || s == (ActiveSpan { range, id: (body, id) }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::pat_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.pats.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::pat_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.pats.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::pat_span
#ret r
#spec
  requires self.wf(),
  ensures self.pats.spans_of((body, pat), r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_import_specifier
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<ImportSpecifierId>| #[trigger] final(self).import_specifiers.holds(s) <==> old(self).import_specifiers.holds(s) || s == (ActiveSpan { range, id: id }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).export_specifiers == old(self).export_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::import_specifier_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.import_specifiers.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::import_specifier_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.import_specifiers.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::import_specifier_span
#ret r
#spec
  requires self.wf(),
  ensures self.import_specifiers.spans_of(id, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_export_specifier
#spec
  requires old(self).wf(),
  ensures final(self).wf(), forall|s: ActiveSpan<ExportSpecifierId>| #[trigger] final(self).export_specifiers.holds(s) <==> old(self).export_specifiers.holds(s) || s == (ActiveSpan { range, id: id }),
    final(self).exprs == old(self).exprs, final(self).defs == old(self).defs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).def_keys == old(self).def_keys,
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::export_specifier_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.export_specifiers.finds(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::export_specifier_span_at_offset
#ret r
#spec
  requires self.ready(),
  ensures self.export_specifiers.finds_span(offset, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::export_specifier_span
#ret r
#spec
  requires self.wf(),
  ensures self.export_specifiers.spans_of(id, r),
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::add_def
#rewrite `self . def_keys . insert ( id , key )` => `bmap_insert(&mut self.def_keys, id, key)`
#spec
  requires old(self).wf(),
  ensures final(self).wf(), final(self).def_keys@ == old(self).def_keys@.insert(id, def_key(kind, id)),
    forall|s: ActiveSpan<DefSpanKey>| #[trigger] final(self).defs.holds(s) <==> old(self).defs.holds(s) || s == (ActiveSpan { range, id: def_key(kind, id) }),
    final(self).exprs == old(self).exprs, final(self).bodies == old(self).bodies, final(self).stmts == old(self).stmts, final(self).type_exprs == old(self).type_exprs, final(self).type_members == old(self).type_members, final(self).type_params == old(self).type_params, final(self).pats == old(self).pats, final(self).import_specifiers == old(self).import_specifiers, final(self).export_specifiers == old(self).export_specifiers,
#entry
  proof { keys_ordered(); }
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::finalize
#spec
  requires old(self).wf(),
  ensures final(self).ready(), final(self).def_keys == old(self).def_keys,
    same_spans(old(self).exprs, final(self).exprs), same_spans(old(self).defs, final(self).defs), same_spans(old(self).bodies, final(self).bodies), same_spans(old(self).stmts, final(self).stmts), same_spans(old(self).type_exprs, final(self).type_exprs), same_spans(old(self).type_members, final(self).type_members), same_spans(old(self).type_params, final(self).type_params), same_spans(old(self).pats, final(self).pats), same_spans(old(self).import_specifiers, final(self).import_specifiers), same_spans(old(self).export_specifiers, final(self).export_specifiers),
#entry
  proof { keys_ordered(); }
#end
  proof { assert forall|s: ActiveSpan<DefSpanKey>| #[trigger] self.defs.holds(s) implies self.def_keys@.contains_key(s.id.id) by { assert(old(self).defs.holds(s)); } }
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::def_at_offset
#ret r
#rewrite `| key | key . id` => `|key: DefSpanKey| -> (d: DefId) ensures d == key.id { key.id }`
#spec
  requires self.ready(),
  ensures exists|k: Option<DefSpanKey>| #[trigger] self.defs.finds(offset, k) && r == (match k { Some(k) => Some(k.id), None => None }),
#entry
  proof { keys_ordered(); }
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::def_span_at_offset
#ret r
#rewrite `| res | SpanResult { range : res . range , id : res . id . id , }` => `|res: SpanResult<DefSpanKey>| -> (d: SpanResult<DefId>) ensures d.range == res.range, d.id == res.id.id { SpanResult { range: res.range, id: res.id.id } }`
#spec
  requires self.ready(),
  ensures exists|k: Option<SpanResult<DefSpanKey>>| #[trigger] self.defs.finds_span(offset, k) && r == (match k { Some(k) => Some(SpanResult { range: k.range, id: k.id.id }), None => None }),
#entry
  proof { keys_ordered(); }
@*/
/*@fn hir-js/src/span_map.rs :: SpanMap::def_span
#ret r
#rewrite `self . def_keys . get ( & def )` => `bmap_get(&self.def_keys, def)`
#rewrite `| key | self . defs . span_of ( * key )` => `|key: &DefSpanKey| -> (r: Option<TextRange>) requires self.wf() ensures self.defs.spans_of(*key, r) { self.defs.span_of(*key) }`
#spec
  requires self.wf(),
  ensures if self.def_keys@.contains_key(def) { self.defs.spans_of(self.def_keys@[def], r) } else { r is None },
#entry
  proof { keys_ordered(); }
@*/
}

// ---- the type checker's per-body lookup ------------------------------------------------------
/// the pick among spans in evaluation order: the shortest, the first of equals
spec fn pick(v: Seq<TextRange>, ok: spec_fn(TextRange) -> bool, b: Option<(ExprId, TextRange)>) -> bool {
  match b {
    Some((id, s)) => id.0 < v.len() && v[id.0 as int] == s && ok(s) && forall|j: int| 0 <= j < v.len() && ok(#[trigger] v[j]) ==> width(s) < width(v[j]) || (width(s) == width(v[j]) && id.0 <= j),
    None => forall|j: int| 0 <= j < v.len() ==> !ok(#[trigger] v[j]),
  }
}
spec fn covering(o: u32) -> spec_fn(TextRange) -> bool { |s: TextRange| s.start <= o < s.end }
spec fn point(o: u32) -> spec_fn(TextRange) -> bool { |s: TextRange| void(s) && s.start == o }
/// an empty span wins only when it lies strictly inside the covering one
spec fn chosen(v: Seq<TextRange>, o: u32, r: Option<(ExprId, TextRange)>) -> bool {
  exists|c: Option<(ExprId, TextRange)>, e: Option<(ExprId, TextRange)>| #[trigger] pick(v, covering(o), c) && #[trigger] pick(v, point(o), e) && r == (match (c, e) {
    (Some(c), Some(e)) => if e.1.start > c.1.start && e.1.end < c.1.end { Some(e) } else { Some(c) },
    (Some(c), None) => Some(c),
    (None, e) => e,
  })
}
proof fn pick_step(v: Seq<TextRange>, k: int, ok: spec_fn(TextRange) -> bool, b: Option<(ExprId, TextRange)>)
  requires 0 <= k < v.len(), k <= u32::MAX, pick(v.take(k), ok, b),
  ensures
    !ok(v[k]) ==> pick(v.take(k + 1), ok, b),
    ok(v[k]) && b is Some && width(b.unwrap().1) <= width(v[k]) ==> pick(v.take(k + 1), ok, b),
    ok(v[k]) && (b is None || width(b.unwrap().1) > width(v[k])) ==> pick(v.take(k + 1), ok, Some((ExprId(k as u32), v[k]))),
{
  let p = v.take(k); let q = v.take(k + 1);
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == (if j < k { p[j] } else { v[k] }) by {}
  if b is Some { assert(q[b.unwrap().0.0 as int] == p[b.unwrap().0.0 as int]); }
  if b is None { assert forall|j: int| 0 <= j < q.len() && j < k implies !ok(#[trigger] q[j]) by { assert(!ok(p[j])); } }
  else { let (id, s) = b.unwrap(); assert forall|j: int| 0 <= j < q.len() && j < k && ok(#[trigger] q[j]) implies width(s) < width(q[j]) || (width(s) == width(q[j]) && id.0 <= j) by { assert(ok(p[j])); } }
}
/*@fn typecheck-ts/src/db/spans.rs :: expr_at_from_spans
#ret r
#spec
  requires spans@.len() <= u32::MAX,
  ensures chosen(spans@, offset, r),
#loop 0 while=ix
    invariant
      ix <= ix_s.len(), ix_s@ == spans@, spans@.len() <= u32::MAX,
      pick(spans@.take(ix as int), covering(offset), best_containing), pick(spans@.take(ix as int), point(offset), best_empty),
    decreases ix_s.len() - ix,
#at before `if span . start <= offset && offset < span . end`
    proof { pick_step(spans@, ix - 1, covering(offset), best_containing); pick_step(spans@, ix - 1, point(offset), best_empty); }
#entry
  proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
@*/
}
fn main() {}
