#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::string::*;
use std::cmp::Ordering;
use std::cmp::max;
use std::collections::{BTreeSet, HashMap};
use vstd::std_specs::cmp::*;
verus! {
/*@include text.rs@*/

// ---- standard library, assumed -------------------------------------------------
// `text.char_indices()`: the characters with their byte offsets
#[verifier::external_body]
fn char_indices_of(text: &str) -> (r: Vec<(usize, char)>)
  ensures r@.len() == text@.len(), forall|i: int| 0 <= i < text@.len() ==> (#[trigger] r@[i]).1 == text@[i] && r@[i].0 == off(text@, i)
{ text.char_indices().collect() }
pub assume_specification [ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
// `binary_search` on a strictly increasing slice
pub assume_specification<T: Ord> [ <[T]>::binary_search ](s: &[T], x: &T) -> (r: Result<usize, usize>)
  requires T::obeys_cmp_spec(), forall|i: int, j: int| 0 <= i < j < s@.len() ==> (#[trigger] s@[i]).cmp_spec(#[trigger] &s@[j]) == Ordering::Less,
  ensures match r {
    Ok(i) => i < s@.len() && s@[i as int].cmp_spec(x) == Ordering::Equal,
    Err(i) => i <= s@.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] s@[k]).cmp_spec(x) == Ordering::Less)
      && (forall|k: int| i <= k < s@.len() ==> (#[trigger] s@[k]).cmp_spec(x) == Ordering::Greater),
  };

/*@type diagnostics/src/lib.rs :: TextRange
#derive Clone, Copy
@*/
/*@type diagnostics/src/lib.rs :: FileId
#derive Clone, Copy
@*/
/*@type diagnostics/src/lib.rs :: Span
#derive Clone, Copy
@*/
/*@type diagnostics/src/lib.rs :: Label
@*/
/*@type diagnostics/src/render.rs :: RenderOptions
#derive Clone, Copy
@*/
/*@type diagnostics/src/render.rs :: LineHighlight
#derive Clone, Copy
@*/
/*@type diagnostics/src/render.rs :: LineCache
@*/

// ---- specification: lines are separated by the byte 0x0A ------------------------
/// number of line feeds among the first k bytes
spec fn newlines(b: Seq<u8>, k: int) -> int
  decreases k
{ if k <= 0 { 0 } else { newlines(b, k - 1) + if b[k - 1] == 10u8 { 1int } else { 0 } } }

/// `st` lists the byte positions at which lines start
spec fn line_starts(b: Seq<u8>, st: Seq<usize>) -> bool {
  &&& st.len() > 0 && st[0] == 0
  &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> st[i] < st[j]
  &&& forall|i: int| 0 < i < st.len() ==> 0 < #[trigger] st[i] <= b.len() && b[st[i] - 1] == 10u8
  &&& forall|p: int| 0 <= p < b.len() && #[trigger] b[p] == 10u8 ==> exists|i: int| 0 < i < st.len() && #[trigger] st[i] == p + 1
}
proof fn newlines_none(b: Seq<u8>, a: int, k: int)
  requires 0 <= a <= k <= b.len(), forall|p: int| a <= p < k ==> #[trigger] b[p] != 10u8,
  ensures newlines(b, k) == newlines(b, a),
  decreases k
{ if k > a { newlines_none(b, a, k - 1); } }
/// the i-th line starts after exactly i line feeds
proof fn starts_count(b: Seq<u8>, st: Seq<usize>, i: int)
  requires line_starts(b, st), 0 <= i < st.len(),
  ensures newlines(b, st[i] as int) == i, 0 <= st[i] <= b.len(),
  decreases i
{
  if i > 0 {
    starts_count(b, st, i - 1);
    let p = st[i] - 1;
    assert forall|q: int| st[i - 1] <= q < p implies #[trigger] b[q] != 10u8 by {
      if b[q] == 10u8 { let j = choose|j: int| 0 < j < st.len() && #[trigger] st[j] == q + 1; assert(st[i - 1] < st[j] < st[i]);
        if j < i - 1 { assert(st[j] < st[i - 1]); } if j > i { assert(st[i] < st[j]); } }
    }
    assert(st[i - 1] < st[i]);
    newlines_none(b, st[i - 1] as int, p);
  }
}
/// the line of an offset is the number of line feeds before it
proof fn line_of(b: Seq<u8>, st: Seq<usize>, i: int, o: int)
  requires line_starts(b, st), 0 <= i < st.len(), st[i] <= o <= b.len(), i + 1 < st.len() ==> o < st[i + 1],
  ensures newlines(b, o) == i,
{
  starts_count(b, st, i);
  assert forall|q: int| st[i] <= q < o implies #[trigger] b[q] != 10u8 by {
    if b[q] == 10u8 { let j = choose|j: int| 0 < j < st.len() && #[trigger] st[j] == q + 1; assert(st[i] < st[j] <= o); 
      if j < i { assert(st[j] < st[i]); } if j > i + 1 { assert(st[i + 1] < st[j]); } }
  }
  newlines_none(b, st[i] as int, o);
}
proof fn newlines_bound(b: Seq<u8>, k: int)
  requires 0 <= k <= b.len()
  ensures 0 <= newlines(b, k) <= k
  decreases k
{ if k > 0 { newlines_bound(b, k - 1); } }

/// display columns of the first n characters
spec fn columns(s: Seq<char>, n: int, tab: int) -> int
  decreases n
{ if n <= 0 { 0 } else { columns(s, n - 1, tab) + if s[n - 1] == '\t' { tab } else { 1 } } }
/// number of characters of `s` that end at or before byte `t`
spec fn whole_chars(s: Seq<char>, t: int, n: int) -> bool {
  0 <= n <= s.len() && off(s, n) <= t && (n < s.len() ==> t < off(s, n + 1))
}

impl<'a> LineCache<'a> {
  proof fn starts_len(self)
    requires self.wf(),
    ensures self.starts@.len() <= encode_utf8(self.text@).len() + 1,
  { let n = self.starts@.len() - 1; starts_count(encode_utf8(self.text@), self.starts@, n); newlines_bound(encode_utf8(self.text@), self.starts@[n] as int); }
  spec fn wf(self) -> bool { line_starts(encode_utf8(self.text@), self.starts@) }

/*@fn diagnostics/src/render.rs :: LineCache::new
#ret r
#rewrite `text . char_indices ( )` => `char_indices_of(text)`
#spec
  ensures r.wf(), r.text == text,
#entry
  let ghost b = encode_utf8(text@);
  proof { off_ends(text@); text_len(text); }
#loop 0 it=it
  invariant
    b == encode_utf8(text@), b.len() <= usize::MAX, it.seq().len() == text@.len(),
    forall|i: int| 0 <= i < text@.len() ==> (#[trigger] it.seq()[i]).1 == text@[i] && it.seq()[i].0 == off(text@, i),
    starts@.len() > 0 && starts@[0] == 0, off(text@, 0) == 0, off(text@, text@.len() as int) == b.len(),
    forall|i: int, j: int| 0 <= i < j < starts@.len() ==> starts@[i] < starts@[j],
    forall|i: int| 0 < i < starts@.len() ==> 0 < #[trigger] starts@[i] <= off(text@, it.index@) && starts@[i] <= b.len() && b[starts@[i] - 1] == 10u8,
    forall|p: int| 0 <= p < off(text@, it.index@) && #[trigger] b[p] == 10u8 ==> exists|i: int| 0 < i < starts@.len() && #[trigger] starts@[i] == p + 1,
#at before `if ch`
      let ghost k = it.index@;
      let ghost before = starts@;
      proof {
        assert(it.seq()[k].1 == text@[k]);
        off_split(text@, k, k + 1); off_split(text@, k + 1, text@.len() as int); one_char(ch);
        assert(text@.subrange(k, k + 1) =~= seq![ch]);
        assert forall|p: int| off(text@, k) <= p < off(text@, k + 1) implies #[trigger] b[p] == encode_utf8(seq![ch])[p - off(text@, k)] by {
          assert(b.subrange(off(text@, k), off(text@, k + 1))[p - off(text@, k)] == b[p]); }
        assert(ch == '\n' ==> (ch as u8) == 10u8);
        assert(ch != '\n' ==> ch as u32 != 10);
        assert((ch as u32) < 0x80 && ch != '\n' ==> (ch as u8) != 10u8);
        assert(it.index@ == 0 || starts@.last() <= off(text@, k)) by { if starts@.len() > 1 { assert(starts@[starts@.len() - 1] <= off(text@, k)); } };
      }
#at afterblock `if ch`
      proof {
        if ch == '\n' { assert(starts@ =~= before.push((idx + 1) as usize)); assert(off(text@, k + 1) == idx + 1);
        assert forall|i: int, j: int| 0 <= i < j < starts@.len() implies starts@[i] < starts@[j] by { if j == before.len() { if i > 0 { assert(before[i] <= off(text@, k)); } } }
        assert(starts@[before.len() as int] == idx + 1);
        assert forall|p: int| 0 <= p < off(text@, k + 1) && #[trigger] b[p] == 10u8 implies exists|i: int| 0 < i < starts@.len() && #[trigger] starts@[i] == p + 1 by {
          if p < off(text@, k) { let i = choose|i: int| 0 < i < before.len() && #[trigger] before[i] == p + 1; assert(starts@[i] == p + 1); }
        } }
      }
@*/

/*@fn diagnostics/src/render.rs :: LineCache::line_count
#ret r
#spec
  requires self.wf(),
  ensures r > 0, r == self.starts@.len(),
@*/

/*@fn diagnostics/src/render.rs :: LineCache::line_bounds
#ret r
#spec
  requires self.wf(), line_idx < usize::MAX,
  ensures
    r.0 <= r.1 <= encode_utf8(self.text@).len(),
    is_char_boundary(encode_utf8(self.text@), r.0 as int), is_char_boundary(encode_utf8(self.text@), r.1 as int),
    line_idx < self.starts@.len() ==> r.0 == self.starts@[line_idx as int]
      // the line runs to the next line feed or to the end of the text
      && (forall|p: int| r.0 <= p < r.1 ==> #[trigger] encode_utf8(self.text@)[p] != 10u8)
      && (r.1 < encode_utf8(self.text@).len() ==> encode_utf8(self.text@)[r.1 as int] == 10u8),
#entry
  proof {
    let b = encode_utf8(self.text@); let st = self.starts@;
    text_len(self.text);
    ends_are_boundaries(self.text@);
    if line_idx < st.len() && line_idx > 0 { newline_boundary(self.text@, st[line_idx as int] - 1); }
    if line_idx + 1 < st.len() { assert(st[line_idx as int] < st[line_idx + 1]); newline_boundary(self.text@, st[line_idx + 1] - 1); }
    if line_idx < st.len() {
      let e = if line_idx + 1 < st.len() { st[line_idx + 1] - 1 } else { b.len() as int };
      assert forall|p: int| st[line_idx as int] <= p < e implies #[trigger] b[p] != 10u8 by {
        if b[p] == 10u8 { let j = choose|j: int| 0 < j < st.len() && #[trigger] st[j] == p + 1;
          if j <= line_idx { if j < line_idx { assert(st[j] < st[line_idx as int]); } } else if j > line_idx + 1 { assert(st[line_idx + 1] < st[j]); } }
      }
    }
  }
@*/

/*@fn diagnostics/src/render.rs :: LineCache::line_index_at_offset
#ret r
#spec
  requires self.wf(),
  ensures
    r < self.starts@.len(),
    offset <= encode_utf8(self.text@).len() ==> r == newlines(encode_utf8(self.text@), offset as int) && self.starts@[r as int] <= offset,
    offset > encode_utf8(self.text@).len() ==> r == newlines(encode_utf8(self.text@), encode_utf8(self.text@).len() as int),
#entry
  proof { text_len(self.text); }
#at before `match self`
  let found =
#at afterblock `match self`
  ;
  proof {
    let b = encode_utf8(self.text@); let st = self.starts@;
    line_of(b, st, found as int, clamped as int);
  }
  found
@*/
}
// a `str` never spans more than the address space
pub axiom fn text_len(t: &str)
  ensures encode_utf8(t@).len() <= isize::MAX, t.spec_bytes() == encode_utf8(t@);
proof fn newline_boundary(s: Seq<char>, p: int)
  requires 0 <= p < encode_utf8(s).len(), encode_utf8(s)[p] == 10u8,
  ensures is_char_boundary(encode_utf8(s), p), is_char_boundary(encode_utf8(s), p + 1),
{
  let i = char_at(s, p); one_char(s[i]); off_boundary(s, i); off_boundary(s, i + 1);
}
proof fn ends_are_boundaries(s: Seq<char>)
  ensures is_char_boundary(encode_utf8(s), 0), is_char_boundary(encode_utf8(s), encode_utf8(s).len() as int),
{ encode_utf8_valid_utf8(s); is_char_boundary_start_end_of_seq(encode_utf8(s)); }

/// the last character boundary at or before `o`
spec fn floor_at(b: Seq<u8>, o: int, r: int) -> bool {
  &&& 0 <= r <= o && r <= b.len() && is_char_boundary(b, r)
  &&& forall|k: int| r < k <= o && k <= b.len() ==> !is_char_boundary(b, k)
}
spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn tabw(t: usize) -> int { if t == 0 { 1 } else { t as int } }

/*@fn diagnostics/src/render.rs :: clamp_offset_to_char_boundary
#ret r
#spec
  ensures floor_at(encode_utf8(text@), offset as int, r as int),
#loop 0
  invariant
    offset <= encode_utf8(text@).len(), text.spec_bytes() == encode_utf8(text@),
    is_char_boundary(encode_utf8(text@), 0),
    forall|k: int| offset < k <= old_offset && k <= encode_utf8(text@).len() ==> !is_char_boundary(encode_utf8(text@), k),
    offset <= old_offset,
  decreases offset,
#entry
  let ghost old_offset = offset;
  proof { text_len(text); ends_are_boundaries(text@); }
@*/

/*@fn diagnostics/src/render.rs :: clamp_range
#ret r
#spec
  ensures
    r.0 <= r.1 <= encode_utf8(text@).len(),
    floor_at(encode_utf8(text@), min2(range.start as int, encode_utf8(text@).len() as int), r.0 as int),
    range.start <= range.end ==> floor_at(encode_utf8(text@), min2(range.end as int, encode_utf8(text@).len() as int), r.1 as int),
    range.start > range.end ==> r.1 == r.0,
#entry
  proof { text_len(text); }
@*/

proof fn columns_bound(s: Seq<char>, n: int, t: int)
  requires 0 <= n <= s.len(), t >= 1,
  ensures 0 <= columns(s, n, t) <= n * t, n <= off(s, n),
  decreases n
{
  if n > 0 { columns_bound(s, n - 1, t); off_split(s, n - 1, n); one_char(s[n - 1]); assert(s.subrange(n - 1, n) =~= seq![s[n - 1]]);
    assert(n * t == (n - 1) * t + t) by (nonlinear_arith); } else { assert(0 * t == 0) by (nonlinear_arith); off_ends(s); }
}
proof fn columns_mono(s: Seq<char>, m: int, n: int, t: int)
  requires 0 <= m <= n <= s.len(), t >= 1,
  ensures columns(s, m, t) <= columns(s, n, t),
  decreases n
{ if m < n { columns_mono(s, m, n - 1, t); } }

/*@fn diagnostics/src/render.rs :: display_column
#ret r
#rewrite `line_text [ idx . . ] . chars ( ) . next ( ) . unwrap ( )` => `char_from(line_text, idx)`
#spec
  requires encode_utf8(line_text@).len() * tabw(tab_width) <= usize::MAX,
  ensures exists|n: int| #[trigger] whole_chars(line_text@, min2(offset_in_line as int, encode_utf8(line_text@).len() as int), n)
    && r == columns(line_text@, n, tabw(tab_width)),
    r <= encode_utf8(line_text@).len() * tabw(tab_width),
#entry
  proof { text_len(line_text); off_ends(line_text@);
    if line_text@.len() > 0 { off_split(line_text@, 0, 1); one_char(line_text@[0]); assert(line_text@.subrange(0, 1) =~= seq![line_text@[0]]); } }
  let ghost mut n: int = 0;
#loop 0
  invariant
    n < line_text@.len() ==> off(line_text@, n) < off(line_text@, n + 1),
    0 <= n <= line_text@.len(), idx == off(line_text@, n), col == columns(line_text@, n, tabw(tab_width0)), tab_width == tabw(tab_width0),
    encode_utf8(line_text@).len() * tabw(tab_width0) <= usize::MAX,
    target == min2(offset_in_line as int, encode_utf8(line_text@).len() as int),
    off(line_text@, line_text@.len() as int) == encode_utf8(line_text@).len(), encode_utf8(line_text@).len() <= isize::MAX,
    idx <= target,
  ensures
    idx <= target, n < line_text@.len() ==> target < off(line_text@, n + 1),
  decreases target - idx,
#at before `let ch`
    proof {
      assert(n < line_text@.len());
      off_boundary(line_text@, n);
      off_split(line_text@, n, n + 1); one_char(line_text@[n]); off_split(line_text@, n + 1, line_text@.len() as int);
      assert(line_text@.subrange(n, n + 1) =~= seq![line_text@[n]]);
      columns_bound(line_text@, n + 1, tabw(tab_width0));
      assert((n + 1) * tabw(tab_width0) <= encode_utf8(line_text@).len() * tabw(tab_width0)) by (nonlinear_arith)
        requires n + 1 <= encode_utf8(line_text@).len(), tabw(tab_width0) >= 1;
    }
#at after `idx + = ch_len ;`
    proof { n = n + 1; 
      if n < line_text@.len() { off_split(line_text@, n, n + 1); one_char(line_text@[n]); assert(line_text@.subrange(n, n + 1) =~= seq![line_text@[n]]); } }
#at before `let tab_width`
  let ghost tab_width0 = tab_width;
#at afterblock `while idx < target`
  proof {
    assert(whole_chars(line_text@, target as int, n));
    columns_bound(line_text@, n, tabw(tab_width0));
    assert(n * tabw(tab_width0) <= encode_utf8(line_text@).len() * tabw(tab_width0)) by (nonlinear_arith)
        requires n <= encode_utf8(line_text@).len(), tabw(tab_width0) >= 1;
  }
@*/

// `s[idx..].chars().next().unwrap()`: the character that starts at byte idx
#[verifier::external_body]
fn char_from(s: &str, idx: usize) -> (r: char)
  requires is_char_boundary(encode_utf8(s@), idx as int), idx < encode_utf8(s@).len(),
  ensures forall|i: int| 0 <= i < s@.len() && #[trigger] off(s@, i) == idx ==> r == s@[i],
{ s[idx..].chars().next().unwrap() }
// `&s[a..b]`
#[verifier::external_body]
fn str_sub(s: &str, a: usize, b: usize) -> (r: &str)
  requires a <= b <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int), is_char_boundary(encode_utf8(s@), b as int),
  ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int),
{ &s[a..b] }

/// the text of line `i`
spec fn line_text(b: Seq<u8>, st: Seq<usize>, i: int) -> Seq<char> { decode_utf8(b.subrange(st[i] as int, line_end(b, st, i))) }
spec fn line_end(b: Seq<u8>, st: Seq<usize>, i: int) -> int { if i + 1 < st.len() { st[i + 1] - 1 } else { b.len() as int } }
/// column (0-based) of byte `o` of the line text `s`
spec fn is_column(s: Seq<char>, o: int, tab: int, col: int) -> bool {
  exists|n: int| #[trigger] whole_chars(s, min2(o, encode_utf8(s).len() as int), n) && col == columns(s, n, tab)
}
proof fn mul_mono(a: int, b: int, t: int) requires 0 <= a <= b, t >= 1 ensures a * t <= b * t { assert(a * t <= b * t) by (nonlinear_arith) requires 0 <= a <= b, t >= 1; }

/*@fn diagnostics/src/render.rs :: line_and_column
#ret r
#rewrite `& cache . text [ line_start .. line_end ]` => `str_sub(cache.text, line_start, line_end)`
#spec
  requires cache.wf(), encode_utf8(cache.text@).len() * tabw(tab_width) < usize::MAX, offset <= encode_utf8(cache.text@).len(),
  ensures
    r.0 == newlines(encode_utf8(cache.text@), offset as int) + 1,
    r.0 <= cache.starts@.len(),
    is_column(line_text(encode_utf8(cache.text@), cache.starts@, r.0 - 1), offset - cache.starts@[r.0 - 1], tabw(tab_width), r.1 - 1),
#entry
  proof { text_len(cache.text); cache.starts_len(); }
#at before `let col`
  proof {
    let b = encode_utf8(cache.text@);
    mul_mono(line_end - line_start, b.len() as int, tabw(tab_width));
    encode_utf8_decode_utf8_of(b, line_start as int, line_end as int);
  }
@*/
proof fn encode_utf8_decode_utf8_of(b: Seq<u8>, i: int, j: int)
  ensures forall|s: Seq<char>| encode_utf8(s) == b.subrange(i, j) ==> decode_utf8(b.subrange(i, j)) == s,
{
  assert forall|s: Seq<char>| encode_utf8(s) == b.subrange(i, j) implies decode_utf8(b.subrange(i, j)) == s by { encode_utf8_decode_utf8(s); }
}

spec fn covers(start: usize, len: usize, c: int) -> bool { start <= c < start + len }
/*@fn diagnostics/src/render.rs :: highlights_overlap
#ret r
#spec
  requires a.start_col + a.len <= usize::MAX, b.start_col + b.len <= usize::MAX,
  // they share a column
  ensures a.len > 0 && b.len > 0 ==> r == (exists|c: int| #[trigger] covers(a.start_col, a.len, c) && covers(b.start_col, b.len, c)),
#entry
  proof {
    if a.start_col < b.start_col + b.len && b.start_col < a.start_col + a.len {
      let c = if a.start_col > b.start_col { a.start_col as int } else { b.start_col as int };
      assert(a.len > 0 && b.len > 0 ==> covers(a.start_col, a.len, c) && covers(b.start_col, b.len, c));
    }
  }
@*/

/// the characters of `s` with every tab widened
spec fn widened(s: Seq<char>, n: int, tab: int) -> Seq<char>
  decreases n
{ if n <= 0 { Seq::empty() } else { widened(s, n - 1, tab) + (if s[n - 1] == '\t' { spaces(tab as nat) } else { seq![s[n - 1]] }) } }
spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
/// columns and expansion agree: column k of the printed line is where character n is printed
proof fn widened_len(s: Seq<char>, n: int, tab: int)
  requires 0 <= n <= s.len(), tab >= 1,
  ensures widened(s, n, tab).len() == columns(s, n, tab),
  decreases n
{ if n > 0 { widened_len(s, n - 1, tab); } }

/*@fn diagnostics/src/render.rs :: expand_tabs
#ret r
#rewrite `& " " . repeat ( tab_width )` => `&repeat_space(tab_width)`
#spec
  ensures r@ == widened(line@, line@.len() as int, tabw(tab_width)),
#loop 0 it=it
  invariant
    it.seq() == line@, expanded@ == widened(line@, it.index@, tabw(tab_width0)), tab_width == tabw(tab_width0),
#at before `let tab_width`
  let ghost tab_width0 = tab_width;
@*/
#[verifier::external_body]
fn repeat_space(n: usize) -> (r: String) ensures r@ == spaces(n as nat) { " ".repeat(n) }

// ---- which lines of a span are shown -------------------------------------------
pub assume_specification<T: Ord> [ <[T]>::sort_unstable ](v: &mut [T])
  ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
    T::obeys_cmp_spec() ==> forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).cmp_spec(#[trigger] &final(v)@[j]) != Ordering::Greater;
pub assume_specification<T: PartialEq, A: core::alloc::Allocator> [ Vec::<T, A>::dedup ](v: &mut Vec<T, A>)
  ensures (forall|i: int| 0 <= i < old(v)@.len() - 1 ==> #[trigger] old(v)@[i] != old(v)@[i + 1]) ==> final(v)@ == old(v)@;

spec fn shown(start: int, end: int, max: int, k: int) -> bool {
  let total = end - start + 1;
  start <= k <= end && (total <= max || k < start + (max + 1) / 2 || k > end - (max - (max + 1) / 2))
}
spec fn increasing(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j] }

proof fn sorted_same(a: Seq<usize>, b: Seq<usize>)
  requires increasing(a), a.to_multiset() == b.to_multiset(), forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] <= b[j],
  ensures a == b,
  decreases a.len()
{
  a.to_multiset_ensures(); b.to_multiset_ensures();
  assert(a.len() == b.len());
  if a.len() > 0 {
    let n = a.len() - 1;
    assert(a.contains(a[n])); assert(b.contains(b[n]));
    assert(a.to_multiset().count(a[n]) > 0); assert(b.to_multiset().count(b[n]) > 0);
    assert(b.contains(a[n])); assert(a.contains(b[n]));
    let i = choose|i: int| 0 <= i < b.len() && b[i] == a[n]; let j = choose|j: int| 0 <= j < a.len() && a[j] == b[n];
    assert(b[i] <= b[n]); assert(a[j] <= a[n]);
    assert(a =~= a.drop_last().push(a[n])); assert(b =~= b.drop_last().push(b[n]));
    let c = a.drop_last(); let d = b.drop_last();
    c.to_multiset_ensures(); d.to_multiset_ensures();
    assert(a.to_multiset() =~= c.to_multiset().insert(a[n])); assert(b.to_multiset() =~= d.to_multiset().insert(b[n]));
    assert(c.to_multiset() =~= a.to_multiset().remove(a[n])); assert(d.to_multiset() =~= b.to_multiset().remove(b[n]));
    sorted_same(c, d);
  } else { assert(a =~= b); }
}

/*@fn diagnostics/src/render.rs :: visible_lines_for_span
#ret r
#spec
  requires start_line <= end_line < usize::MAX,
  ensures
    increasing(r@),
    forall|i: int| 0 <= i < r@.len() ==> shown(start_line as int, end_line as int, max_lines as int, #[trigger] r@[i] as int),
    r@.len() == min2(end_line - start_line + 1, max_lines as int),
    r@.len() > 0 ==> r@[0] == start_line,
    max_lines >= 2 || max_lines >= end_line - start_line + 1 ==> r@.last() == end_line,
#loop 0 it=it
  invariant
    lines@.len() == it.index@, it.seq().len() == head_count, head_count + tail_count == max_lines, max_lines < end_line - start_line + 1,
    forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
    forall|i: int| 0 <= i < lines@.len() ==> lines@[i] == start_line + i,
  ensures
    lines@.len() == head_count, forall|i: int| 0 <= i < lines@.len() ==> lines@[i] == start_line + i,
#loop 1 it=it
  invariant
    lines@.len() == head_count + it.index@, it.seq().len() == tail_count, head_count + tail_count == max_lines, max_lines < end_line - start_line + 1,
    head_count >= 1,
    forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == end_line - tail_count + 1 + i,
    forall|i: int| 0 <= i < head_count ==> lines@[i] == start_line + i,
    forall|i: int| head_count <= i < lines@.len() ==> lines@[i] == end_line - tail_count + 1 + (i - head_count),
#at before `lines . sort_unstable`
  proof { assert(increasing(lines@)); assert(lines@.len() == max_lines); }
  let ghost before = lines@;
#at after `lines . sort_unstable ( ) ;`
  proof { sorted_same(before, lines@); }
@*/

// ---- which lines and underlines a set of labels produces --------------------------
// `set.into_iter().collect()`: the elements in ascending order
#[verifier::external_body]
fn ascending(s: BTreeSet<usize>) -> (r: Vec<usize>)
  ensures increasing(r@), forall|k: usize| r@.contains(k) <==> s@.contains(k),
{ s.into_iter().collect() }

// `std::cmp::max`
#[verifier::external_body]
fn larger(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { max(a, b) }

type Marks<'a> = Map<usize, Vec<LineHighlight<'a>>>;
#[verifier::opaque]
spec fn grew<'a>(m: Marks<'a>, n: Marks<'a>) -> bool {
  forall|k: usize| #[trigger] m.contains_key(k) ==> n.contains_key(k) && m[k]@.len() <= n[k]@.len() && (forall|j: int| 0 <= j < m[k]@.len() ==> #[trigger] n[k]@[j] == m[k]@[j])
}
/// every underline sits on a printed line, is at least one column wide and within usize
#[verifier::opaque]
spec fn marks_ok<'a>(m: Marks<'a>, lines: Set<usize>, count: int) -> bool {
  &&& forall|k: usize| #[trigger] m.contains_key(k) ==> lines.contains(k)
  &&& forall|k: usize| #[trigger] lines.contains(k) ==> k < count
  &&& forall|k: usize, j: int| m.contains_key(k) && 0 <= j < m[k]@.len() ==> (#[trigger] m[k]@[j]).len >= 1 && m[k]@[j].start_col + m[k]@[j].len <= usize::MAX
}
#[verifier::opaque]
spec fn mark_for<'a>(cache: LineCache<'a>, l: Label, tab: int, h: LineHighlight<'a>, line: int, s: int) -> bool {
  h.is_primary == l.is_primary && h.message.is_some() && h.message.unwrap()@ == l.message@
  && h.marker == (if l.is_primary { '^' } else { '-' })
  && is_column(line_text(encode_utf8(cache.text@), cache.starts@, line), s - cache.starts@[line], tab, h.start_col as int)
}
/// the label's message is attached to the line its span begins on, under the column it begins at
#[verifier::opaque]
spec fn attached<'a>(cache: LineCache<'a>, l: Label, tab: int, m: Marks<'a>) -> bool {
  let b = encode_utf8(cache.text@);
  exists|s: int, j: int| floor_at(b, min2(l.span.range.start as int, b.len() as int), s)
    && m.contains_key(newlines(b, s) as usize) && 0 <= j < m[newlines(b, s) as usize]@.len()
    && #[trigger] mark_for(cache, l, tab, m[newlines(b, s) as usize]@[j], newlines(b, s), s)
}
proof fn marked_line<'a>(m: Marks<'a>, n: Marks<'a>, k: usize, h: LineHighlight<'a>, lines: Set<usize>, count: int)
  requires
    marks_ok(m, lines, count), k < count, h.len >= 1, h.start_col + h.len <= usize::MAX,
    n.dom() == m.dom().insert(k), n[k]@ == (if m.contains_key(k) { m[k]@ } else { Seq::empty() }).push(h),
    forall|q: usize| q != k && m.contains_key(q) ==> #[trigger] n[q] == m[q],
  ensures marks_ok(n, lines.insert(k), count), grew(m, n),
{
  reveal(marks_ok); reveal(grew);
  assert forall|q: usize| #[trigger] n.contains_key(q) implies lines.insert(k).contains(q) by { if q != k { assert(m.contains_key(q)); } }
  assert forall|q: usize, j: int| n.contains_key(q) && 0 <= j < n[q]@.len() implies (#[trigger] n[q]@[j]).len >= 1 && n[q]@[j].start_col + n[q]@[j].len <= usize::MAX by {
    if q != k { assert(m.contains_key(q)); assert(n[q] == m[q]); } else if m.contains_key(k) && j < m[k]@.len() { assert(n[k]@[j] == m[k]@[j]); } else { assert(n[k]@[j] == h); }
  }
  assert forall|q: usize| #[trigger] m.contains_key(q) implies n.contains_key(q) && m[q]@.len() <= n[q]@.len() && (forall|j: int| 0 <= j < m[q]@.len() ==> #[trigger] n[q]@[j] == m[q]@[j]) by {
    if q != k { assert(n[q] == m[q]); }
  }
}
proof fn line_shown<'a>(m: Marks<'a>, k: usize, lines: Set<usize>, count: int)
  requires marks_ok(m, lines, count), k < count,
  ensures marks_ok(m, lines.insert(k), count),
{ reveal(marks_ok); assert forall|q: usize| #[trigger] m.contains_key(q) implies lines.insert(k).contains(q) by { assert(lines.contains(q)); } }
proof fn grew_trans<'a>(l: Marks<'a>, m: Marks<'a>, n: Marks<'a>)
  requires grew(l, m), grew(m, n),
  ensures grew(l, n),
{
  reveal(grew);
  assert forall|q: usize| #[trigger] l.contains_key(q) implies n.contains_key(q) && l[q]@.len() <= n[q]@.len() && (forall|j: int| 0 <= j < l[q]@.len() ==> #[trigger] n[q]@[j] == l[q]@[j]) by {
    assert(m.contains_key(q)); assert forall|j: int| 0 <= j < l[q]@.len() implies #[trigger] n[q]@[j] == l[q]@[j] by { assert(m[q]@[j] == l[q]@[j]); }
  }
}
proof fn attach<'a>(cache: LineCache<'a>, l: Label, tab: int, m: Marks<'a>, s: int, line: usize, j: int)
  requires
    floor_at(encode_utf8(cache.text@), min2(l.span.range.start as int, encode_utf8(cache.text@).len() as int), s),
    line == newlines(encode_utf8(cache.text@), s), m.contains_key(line), 0 <= j < m[line]@.len(),
    mark_for(cache, l, tab, m[line]@[j], line as int, s),
  ensures attached(cache, l, tab, m),
{
  reveal(attached);
  let b = encode_utf8(cache.text@);
  assert(mark_for(cache, l, tab, m[newlines(b, s) as usize]@[j], newlines(b, s), s));
}
proof fn attached_grew<'a>(cache: LineCache<'a>, l: Label, tab: int, m: Marks<'a>, n: Marks<'a>)
  requires attached(cache, l, tab, m), grew(m, n),
  ensures attached(cache, l, tab, n),
{
  reveal(attached); reveal(grew);
  let b = encode_utf8(cache.text@);
  let (s, j) = choose|s: int, j: int| floor_at(b, min2(l.span.range.start as int, b.len() as int), s)
    && m.contains_key(newlines(b, s) as usize) && 0 <= j < m[newlines(b, s) as usize]@.len()
    && #[trigger] mark_for(cache, l, tab, m[newlines(b, s) as usize]@[j], newlines(b, s), s);
  let k = newlines(b, s) as usize;
  assert(n[k]@[j] == m[k]@[j]);
  assert(mark_for(cache, l, tab, n[k]@[j], newlines(b, s), s));
}

/*@fn diagnostics/src/render.rs :: plan_file_render
#ret r
#rewrite `& cache . text [ line_start .. line_end ]` => `str_sub(cache.text, line_start, line_end)`
#rewrite `max ( 1 ,` => `larger(1,`
#rewrite `. or_default ( )` => `.or_insert(Vec::new())`
#rewrite `lines_to_render . into_iter ( ) . collect :: < Vec < _ > > ( )` => `ascending(lines_to_render)`
#rewrite `for & line_idx in` => `for line_idx_ref in`
#spec
  requires
    cache.wf(), encode_utf8(cache.text@).len() * tabw(options.tab_width) < usize::MAX,
  ensures
    increasing(r.0@),
    marks_ok(r.1@, r.0@.to_set(), cache.starts@.len() as int),
    options.max_lines_per_label > 0 ==> forall|i: int| 0 <= i < labels@.len() ==> attached(*cache, #[trigger] labels@[i], tabw(options.tab_width), r.1@),
#entry
  broadcast use vstd::std_specs::hash::group_hash_axioms;
  let ghost b = encode_utf8(cache.text@);
  let ghost tab = tabw(options.tab_width);
  let ghost count = cache.starts@.len() as int;
  proof { text_len(cache.text); cache.starts_len(); reveal(marks_ok); }
#loop 0 while=li
  invariant
    li_s@ == labels@, li <= labels@.len(),
    cache.wf(), b == encode_utf8(cache.text@), tab == tabw(options.tab_width), count == cache.starts@.len(), count <= b.len() + 1, b.len() <= isize::MAX,
    b.len() * tab < usize::MAX, max_line_index == count - 1, count >= 1,
    marks_ok(highlights@, lines_to_render@, count),
    options.max_lines_per_label > 0 ==> forall|i: int| 0 <= i < li ==> attached(*cache, #[trigger] labels@[i], tab, highlights@),
  decreases labels@.len() - li,
#loop 1 it=it
  invariant
    it.seq().len() == visible_lines@.len(), forall|i: int| 0 <= i < visible_lines@.len() ==> *it.seq()[i] == visible_lines@[i],
    increasing(visible_lines@), visible_lines@.len() > 0, visible_lines@[0] == start_line, first_visible == start_line,
    forall|i: int| 0 <= i < visible_lines@.len() ==> start_line <= #[trigger] visible_lines@[i] <= end_line,
    cache.wf(), b == encode_utf8(cache.text@), tab == tabw(options.tab_width), count == cache.starts@.len(), count <= b.len() + 1, b.len() <= isize::MAX,
    b.len() * tab < usize::MAX, max_line_index == count - 1, count >= 1, end_line < count,
    floor_at(b, min2(label.span.range.start as int, b.len() as int), start_offset as int), start_line == newlines(b, start_offset as int),
    cache.starts@[start_line as int] <= start_offset, start_offset <= end_offset <= b.len(),
    start_line + 1 < count ==> start_offset < cache.starts@[start_line + 1],
    marks_ok(highlights@, lines_to_render@, count), grew(highlights0, highlights@),
    it.index@ > 0 ==> attached(*cache, *label, tab, highlights@),
#loop 2 it=it2
  invariant
    forall|i: int| 0 <= i < it2.seq().len() ==> it2.seq()[i] <= ctx_end, ctx_end < count,
    marks_ok(highlights@, lines_to_render@, count), highlights@ == marked,
#at before `lines_to_render . insert ( ctx )`
        proof { line_shown(highlights@, ctx, lines_to_render@, count); }
#at before `for & line_idx in & visible_lines`
    let ghost highlights0 = highlights@;
    proof { reveal(grew); 
      line_after(b, cache.starts@, start_line as int, start_offset as int);
    }
#at before `lines_to_render . insert ( line_idx )`
      let line_idx = *line_idx_ref;
      let ghost before = highlights@;
      let ghost lines0 = lines_to_render@;
      proof { assert(line_idx == visible_lines@[it.index@]); }
#at after `let ( line_start , line_end ) = cache . line_bounds ( line_idx ) ;`
      proof {
        mul_mono(line_end - line_start, b.len() as int, tab);
        encode_utf8_decode_utf8_of(b, line_start as int, line_end as int);
      }
#at before `let ctx_start`
      proof {
        assert(highlights@.contains_key(line_idx));
        let hs = highlights@[line_idx]@;
        let h = hs[hs.len() - 1];
        assert(hs =~= (if before.contains_key(line_idx) { before[line_idx]@ } else { Seq::empty() }).push(h));
        assert(highlights@.dom() =~= before.dom().insert(line_idx));
        marked_line(before, highlights@, line_idx, h, lines0, count);
        grew_trans(highlights0, before, highlights@);
        if it.index@ == 0 {
          reveal(mark_for);
          assert(mark_for(*cache, *label, tab, hs[hs.len() - 1], start_line as int, start_offset as int));
          attach(*cache, *label, tab, highlights@, start_offset as int, start_line, hs.len() - 1);
        } else { attached_grew(*cache, *label, tab, before, highlights@); }
        assert(grew(highlights0, highlights@));
      }
      let ghost marked = highlights@;
#at afterblock `for & line_idx in & visible_lines`
    proof {
      if options.max_lines_per_label > 0 {
      assert forall|i: int| 0 <= i < li implies attached(*cache, #[trigger] labels@[i], tab, highlights@) by {
        if i < li - 1 { attached_grew(*cache, labels@[i], tab, highlights0, highlights@); }
      } }
    }
@*/
/// an offset on line i lies before the next line
proof fn line_after(b: Seq<u8>, st: Seq<usize>, i: int, o: int)
  requires line_starts(b, st), 0 <= i < st.len(), newlines(b, o) == i, 0 <= o <= b.len(),
  ensures i + 1 < st.len() ==> o < st[i + 1],
{
  if i + 1 < st.len() && st[i + 1] <= o { starts_count(b, st, i + 1); newlines_mono(b, st[i + 1] as int, o); }
}
proof fn newlines_mono(b: Seq<u8>, j: int, k: int)
  requires 0 <= j <= k <= b.len(),
  ensures newlines(b, j) <= newlines(b, k),
  decreases k
{ if j < k { newlines_mono(b, j, k - 1); } }
}
fn main() {}
