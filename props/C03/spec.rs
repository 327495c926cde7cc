#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::slice::*;
use vstd::string::*;
verus! {
/*@include text.rs@*/

// ---- standard library, assumed -------------------------------------------------
pub axiom fn text_len(t: &str)
  ensures encode_utf8(t@).len() <= isize::MAX, t.spec_bytes() == encode_utf8(t@);
pub axiom fn string_len(t: &String)
  ensures encode_utf8(t@).len() <= isize::MAX;
pub assume_specification [ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification [ String::reserve ](s: &mut String, n: usize) ensures final(s)@ == old(s)@;
pub assume_specification [ String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
pub assume_specification [ String::truncate ](s: &mut String, n: usize)
  requires n <= encode_utf8(old(s)@).len() ==> is_char_boundary(encode_utf8(old(s)@), n as int),
  ensures encode_utf8(final(s)@) == (if n <= encode_utf8(old(s)@).len() { encode_utf8(old(s)@).take(n as int) } else { encode_utf8(old(s)@) });
pub assume_specification [ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == alpha(*b);
pub assume_specification [ u8::to_ascii_lowercase ](b: &u8) -> (r: u8) ensures r == lower(*b);
// `&s[a..b]`
#[verifier::external_body]
fn str_sub(s: &str, a: usize, b: usize) -> (r: &str)
  requires a <= b <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), a as int), is_char_boundary(encode_utf8(s@), b as int),
  ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int),
{ &s[a..b] }
// `a == b`
#[verifier::external_body]
fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (encode_utf8(a@) == encode_utf8(b@)) { a == b }
// `s.strip_prefix(p)`
#[verifier::external_body]
fn strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
  ensures match r {
    Some(t) => starts(encode_utf8(s@), encode_utf8(p@)) && encode_utf8(t@) == encode_utf8(s@).skip(encode_utf8(p@).len() as int),
    None => !starts(encode_utf8(s@), encode_utf8(p@)),
  }
{ s.strip_prefix(p) }
// `s.ends_with('/')`
#[verifier::external_body]
fn ends_slash(s: &str) -> (r: bool) ensures r == (encode_utf8(s@).len() > 0 && encode_utf8(s@).last() == 0x2f) { s.ends_with('/') }
// `s[..n].rfind('/')`
#[verifier::external_body]
fn rfind_slash(s: &str, n: usize) -> (r: Option<usize>)
  requires n <= encode_utf8(s@).len(), is_char_boundary(encode_utf8(s@), n as int),
  ensures match r {
    Some(p) => p < n && encode_utf8(s@)[p as int] == 0x2f && forall|k: int| p < k < n ==> #[trigger] encode_utf8(s@)[k] != 0x2f,
    None => forall|k: int| 0 <= k < n ==> #[trigger] encode_utf8(s@)[k] != 0x2f,
  }
{ s[..n].rfind('/') }

// ---- specification ---------------------------------------------------------------
spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
pub open spec fn alpha(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a }
pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 32) as u8 } else { b } }
spec fn sep(b: u8) -> bool { b == 0x2f || b == 0x5c }
/// `c:`
spec fn drive(b: Seq<u8>) -> bool { b.len() >= 2 && alpha(b[0]) && b[1] == 0x3a }

/// a path: an optional drive and the kept segments
struct P { drive: Option<u8>, segs: Seq<Seq<u8>> }
spec fn init() -> P { P { drive: None, segs: Seq::empty() } }
/// what one segment does: nothing (`.` or empty), one level up but never above the root, or one level down
spec fn step(p: P, part: Seq<u8>) -> P {
  let d = p.drive.is_none() && p.segs.len() == 0 && drive(part);
  let q = if d { P { drive: Some(lower(part[0])), ..p } } else { p };
  let s = if d { part.skip(2) } else { part };
  if s.len() == 0 || s == seq![0x2eu8] { q }
  else if s == seq![0x2eu8, 0x2eu8] { P { segs: if q.segs.len() > 0 { q.segs.drop_last() } else { q.segs }, ..q } }
  else { P { segs: q.segs.push(s), ..q } }
}
/// state before byte k, and where the current segment started
/// (the name `drive` is taken inside the function)
spec fn drive_(b: Seq<u8>) -> bool { drive(b) }
spec fn go(b: Seq<u8>, p: P, k: int) -> (P, int)
  decreases k
{
  if k <= 0 { (p, 0int) } else {
    let (q, s) = go(b, p, k - 1);
    if sep(b[k - 1]) { (step(q, b.subrange(s, k - 1)), k) } else { (q, s) }
  }
}
spec fn walk(b: Seq<u8>, p: P) -> P { let (q, s) = go(b, p, b.len() as int); step(q, b.subrange(s, b.len() as int)) }
spec fn ext1() -> Seq<u8> { seq![0x5cu8, 0x5cu8, 0x3fu8, 0x5cu8] }
spec fn ext2() -> Seq<u8> { seq![0x2fu8, 0x2fu8, 0x3fu8, 0x2fu8] }
/// Windows extended-length prefixes are dropped
spec fn bare(b: Seq<u8>) -> Seq<u8> { if starts(b, ext1()) || starts(b, ext2()) { b.skip(4) } else { b } }
/// the path a string denotes
spec fn meaning(b: Seq<u8>) -> P { walk(bare(b), init()) }

spec fn root(p: P) -> Seq<u8> { match p.drive { Some(d) => seq![d, 0x3au8, 0x2fu8], None => seq![0x2fu8] } }
spec fn join(s: Seq<Seq<u8>>) -> Seq<u8>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join(s.drop_last()) + seq![0x2fu8] + s.last() } }
/// the canonical spelling
spec fn spell(p: P) -> Seq<u8> { root(p) + join(p.segs) }

spec fn plain(s: Seq<u8>) -> bool {
  s.len() > 0 && s != seq![0x2eu8] && s != seq![0x2eu8, 0x2eu8] && forall|k: int| 0 <= k < s.len() ==> !sep(#[trigger] s[k])
}
/// canonical: a lower-case drive if any, no empty, `.` or `..` segment, no separator inside a segment
spec fn canonical(p: P) -> bool {
  &&& match p.drive { Some(d) => 0x61 <= d <= 0x7a, None => p.segs.len() > 0 ==> !drive(p.segs[0]) }
  &&& forall|i: int| 0 <= i < p.segs.len() ==> plain(#[trigger] p.segs[i])
}

proof fn step_canonical(p: P, part: Seq<u8>)
  requires canonical(p), forall|k: int| 0 <= k < part.len() ==> !sep(#[trigger] part[k]),
  ensures canonical(step(p, part)),
{
  let q = step(p, part);
  let d = p.drive.is_none() && p.segs.len() == 0 && drive(part);
  let s = if d { part.skip(2) } else { part };
  assert forall|k: int| 0 <= k < s.len() implies !sep(#[trigger] s[k]) by { if d { assert(s[k] == part[k + 2]); } }
}
proof fn go_facts(b: Seq<u8>, p: P, k: int)
  requires 0 <= k <= b.len(), canonical(p),
  ensures
    canonical(go(b, p, k).0), 0 <= go(b, p, k).1 <= k,
    go(b, p, k).1 > 0 ==> sep(b[go(b, p, k).1 - 1]),
    forall|j: int| go(b, p, k).1 <= j < k ==> !sep(#[trigger] b[j]),
  decreases k
{
  if k > 0 {
    go_facts(b, p, k - 1);
    let (q, s) = go(b, p, k - 1);
    if sep(b[k - 1]) {
      let part = b.subrange(s, k - 1);
      assert forall|j: int| 0 <= j < part.len() implies !sep(#[trigger] part[j]) by { assert(part[j] == b[s + j]); }
      step_canonical(q, part);
    }
  }
}
proof fn walk_canonical(b: Seq<u8>, p: P)
  requires canonical(p),
  ensures canonical(walk(b, p)),
{
  go_facts(b, p, b.len() as int);
  let (q, s) = go(b, p, b.len() as int);
  let part = b.subrange(s, b.len() as int);
  assert forall|j: int| 0 <= j < part.len() implies !sep(#[trigger] part[j]) by { assert(part[j] == b[s + j]); }
  step_canonical(q, part);
}
/// `go` looks only at the bytes before k
proof fn go_prefix(a: Seq<u8>, b: Seq<u8>, p: P, k: int)
  requires 0 <= k <= a.len(), k <= b.len(), forall|j: int| 0 <= j < k ==> a[j] == b[j], canonical(p),
  ensures go(a, p, k) == go(b, p, k),
  decreases k
{
  if k > 0 {
    go_prefix(a, b, p, k - 1); go_facts(a, p, k - 1);
    let s = go(a, p, k - 1).1;
    assert(a.subrange(s, k - 1) =~= b.subrange(s, k - 1));
  }
}
/// a leading separator changes nothing
proof fn go_shift(b: Seq<u8>, p: P, q: P, n: int, k: int)
  requires 0 <= n <= k <= b.len(), canonical(p), canonical(q), go(b, p, n) == (q, n),
  ensures go(b.skip(n), q, k - n).0 == go(b, p, k).0, go(b.skip(n), q, k - n).1 + n == go(b, p, k).1,
  decreases k
{
  if k > n {
    go_shift(b, p, q, n, k - 1);
    go_facts(b.skip(n), q, k - 1 - n);
    let s = go(b.skip(n), q, k - 1 - n).1;
    assert(b.skip(n)[k - 1 - n] == b[k - 1]);
    assert(b.skip(n).subrange(s, k - 1 - n) =~= b.subrange(s + n, k - 1));
  }
}
proof fn walk_shift(b: Seq<u8>, p: P, q: P, n: int)
  requires 0 <= n <= b.len(), canonical(p), canonical(q), go(b, p, n) == (q, n),
  ensures walk(b.skip(n), q) == walk(b, p),
{
  go_shift(b, p, q, n, b.len() as int);
  go_facts(b.skip(n), q, b.len() - n);
  let s = go(b.skip(n), q, b.len() - n).1;
  assert(b.skip(n).subrange(s, b.len() - n) =~= b.subrange(s + n, b.len() as int));
}
proof fn go_seps(b: Seq<u8>, p: P, k: int)
  requires 0 <= k <= b.len(), forall|j: int| 0 <= j < k ==> sep(#[trigger] b[j]),
  ensures go(b, p, k) == (p, k),
  decreases k
{ if k > 0 { go_seps(b, p, k - 1); assert(b.subrange(k - 1, k - 1) =~= Seq::<u8>::empty()); } }
/// taking the drive off first is what the first segment does anyway
proof fn walk_drive(b: Seq<u8>)
  requires drive(b),
  ensures walk(b.skip(2), P { drive: Some(lower(b[0])), segs: Seq::empty() }) == walk(b, init()),
{
  let q = P { drive: Some(lower(b[0])), segs: Seq::empty() };
  drive_go(b, b.len() as int);
  go_facts(b, init(), b.len() as int); go_facts(b.skip(2), q, b.len() - 2);
  let (r, s) = go(b, init(), b.len() as int);
  if s == 0 { assert(b.subrange(0, b.len() as int).skip(2) =~= b.skip(2).subrange(0, b.len() - 2)); assert(drive(b.subrange(0, b.len() as int))); }
  else { assert(b.subrange(s, b.len() as int) =~= b.skip(2).subrange(s - 2, b.len() - 2)); }
}
proof fn drive_go(b: Seq<u8>, k: int)
  requires drive(b), 2 <= k <= b.len(),
  ensures ({
    let q = P { drive: Some(lower(b[0])), segs: Seq::empty() };
    let (r, s) = go(b, init(), k); let (r2, s2) = go(b.skip(2), q, k - 2);
    if s == 0 { s2 == 0 && r == init() && r2 == q } else { s == s2 + 2 && r == r2 }
  }),
  decreases k
{
  let q = P { drive: Some(lower(b[0])), segs: Seq::empty() };
  if k == 2 { assert(!sep(b[0])); assert(!sep(b[1])); assert(go(b, init(), 0) == (init(), 0int)); assert(go(b, init(), 1) == (init(), 0int)); assert(go(b, init(), 2) == (init(), 0int)); }
  else {
    drive_go(b, k - 1); go_facts(b, init(), k - 1); go_facts(b.skip(2), q, k - 3);
    assert(b.skip(2)[k - 3] == b[k - 1]);
    let s = go(b, init(), k - 1).1;
    if sep(b[k - 1]) {
      if s == 0 { let part = b.subrange(0, k - 1); assert(drive(part)); assert(part.skip(2) =~= b.skip(2).subrange(0, k - 3)); }
      else { assert(b.subrange(s, k - 1) =~= b.skip(2).subrange(s - 2, k - 3)); }
    }
  }
}
/// the canonical spelling denotes the path it spells
proof fn spell_means(p: P)
  requires canonical(p),
  ensures meaning(spell(p)) == p,
{
  let b = spell(p);
  spell_bare(p);
  spell_walk(p);
}
proof fn spell_bare(p: P)
  requires canonical(p),
  ensures bare(spell(p)) == spell(p),
{
  let b = spell(p);
  join_first(p.segs);
  if starts(b, ext1()) { assert(b.take(4)[0] == b[0]); assert(ext1()[0] == 0x5c); }
  if starts(b, ext2()) { assert(b.take(4)[1] == b[1]); assert(b.take(4)[0] == b[0]); if p.drive.is_none() && p.segs.len() > 0 { assert(b[1] == join(p.segs)[0]); } }
}
proof fn join_first(s: Seq<Seq<u8>>)
  requires forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]),
  ensures s.len() > 0 ==> join(s).len() > 0 && !sep(join(s)[0]) && join(s)[0] == s[0][0],
  decreases s.len()
{ if s.len() > 1 { assert forall|i: int| 0 <= i < s.drop_last().len() implies plain(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } join_first(s.drop_last()); assert(s.drop_last()[0] == s[0]); } else if s.len() == 1 { assert(plain(s[0])); } }
spec fn up(p: P) -> P { P { segs: p.segs.drop_last(), ..p } }
/// where the last segment starts
spec fn last_at(p: P) -> int { spell(p).len() - p.segs.last().len() }
proof fn spell_last(p: P)
  requires p.segs.len() > 0,
  ensures
    last_at(p) == (if p.segs.len() == 1 { root(p).len() as int } else { spell(up(p)).len() as int + 1 }),
    spell(p).take(last_at(p)) == (if p.segs.len() == 1 { root(p) } else { spell(up(p)).push(0x2f) }),
    spell(p).skip(last_at(p)) == p.segs.last(),
    p.segs.len() == 1 ==> spell(up(p)) == root(p),
    last_at(p) >= 1, spell(p)[last_at(p) - 1] == 0x2f,
{
  let l = p.segs.last();
  if p.segs.len() == 1 { assert(up(p).segs =~= Seq::<Seq<u8>>::empty()); assert(join(p.segs) == p.segs[0]); assert(spell(p).take(root(p).len() as int) =~= root(p)); assert(spell(p).skip(root(p).len() as int) =~= l); assert(spell(up(p)) =~= root(p)); }
  else {
    assert(spell(p) =~= spell(up(p)).push(0x2f) + l);
    assert(spell(p).take(last_at(p)) =~= spell(up(p)).push(0x2f)); assert(spell(p).skip(last_at(p)) =~= l);
  }
}
proof fn spell_walk(p: P)
  requires canonical(p),
  ensures
    walk(spell(p), init()) == p,
    p.segs.len() > 0 ==> go(spell(p), init(), spell(p).len() as int) == (up(p), last_at(p)),
    p.segs.len() == 0 ==> go(spell(p), init(), spell(p).len() as int) == (p, spell(p).len() as int),
  decreases p.segs.len()
{
  let b = spell(p); let n = b.len() as int;
  if p.segs.len() == 0 {
    assert(b =~= root(p));
    assert(p.segs =~= Seq::<Seq<u8>>::empty());
    match p.drive {
      None => { assert(b.subrange(0, 0) =~= Seq::<u8>::empty()); assert(go(b, init(), 0) == (init(), 0int)); assert(go(b, init(), 1) == (init(), 1int)); assert(p == init()); }
      Some(d) => {
        assert(go(b, init(), 0) == (init(), 0int)); assert(go(b, init(), 1) == (init(), 0int)); assert(go(b, init(), 2) == (init(), 0int));
        let part = b.subrange(0, 2); assert(part =~= seq![d, 0x3au8]); assert(drive(part)); assert(part.skip(2) =~= Seq::<u8>::empty()); assert(lower(d) == d);
        assert(go(b, init(), 3) == (p, 3int));
      }
    }
    assert(b.subrange(n, n) =~= Seq::<u8>::empty());
  } else {
    let u = up(p); let c = spell(u); let m = last_at(p); let l = p.segs.last();
    assert(plain(p.segs[p.segs.len() - 1]));
    assert forall|i: int| 0 <= i < u.segs.len() implies plain(#[trigger] u.segs[i]) by { assert(u.segs[i] == p.segs[i]); }
    assert(canonical(u)) by { if u.drive.is_none() && u.segs.len() > 0 { assert(u.segs[0] == p.segs[0]); } }
    spell_last(p); spell_walk(u);
    assert forall|j: int| 0 <= j < c.len() implies c[j] == b[j] by { assert(b.take(m)[j] == b[j]); if p.segs.len() > 1 { assert(spell(u).push(0x2f)[j] == c[j]); } }
    go_prefix(c, b, init(), c.len() as int);
    // through the separator
    if p.segs.len() > 1 {
      assert(b.take(m)[m - 1] == 0x2f); assert(b[m - 1] == 0x2f);
      let s = last_at(u);
      spell_last(u);
      assert(b.subrange(s, m - 1) =~= c.skip(s)) by { assert forall|j: int| 0 <= j < m - 1 - s implies b.subrange(s, m - 1)[j] == c.skip(s)[j] by { assert(c[s + j] == b[s + j]); } }
      assert(plain(u.segs[u.segs.len() - 1]));
      step_push(up(u), u.segs.last(), u);
      assert(go(b, init(), m) == (u, m));
    } else { assert(u.segs =~= Seq::<Seq<u8>>::empty()); assert(go(b, init(), m) == (u, m)); }
    go_run(b, init(), u, m, n);
    assert(b.subrange(m, n) =~= b.skip(m));
    step_push(u, l, p);
  }
}
proof fn step_push(u: P, l: Seq<u8>, p: P)
  requires plain(l), p.drive == u.drive, p.segs == u.segs.push(l) || (p.segs.len() > 0 && u.segs == p.segs.drop_last() && l == p.segs.last()), canonical(p),
  ensures step(u, l) == p,
{ assert(u.segs.push(l) =~= p.segs); if u.segs.len() == 0 { assert(p.segs[0] == l); } }
/// no separator: the segment goes on
proof fn go_run(b: Seq<u8>, p: P, q: P, m: int, n: int)
  requires 0 <= m <= n <= b.len(), go(b, p, m) == (q, m), forall|j: int| 0 <= j < n - m ==> !sep(#[trigger] b.skip(m)[j]),
  ensures go(b, p, n) == (q, m),
  decreases n
{ if n > m { assert(!sep(b.skip(m)[n - 1 - m])); go_run(b, p, q, m, n - 1); } }

/// P1: the result is canonical.  P2: normalising twice is normalising once.  P3: equal paths have equal spellings only.
proof fn normalisation(b: Seq<u8>)
  ensures canonical(meaning(b)), meaning(spell(meaning(b))) == meaning(b), spell(meaning(spell(meaning(b)))) == spell(meaning(b)),
{ walk_canonical(bare(b), init()); spell_means(meaning(b)); }
proof fn spelling_is_injective(p: P, q: P)
  requires canonical(p), canonical(q), spell(p) == spell(q),
  ensures p == q,
{ spell_means(p); spell_means(q); }

proof fn ascii_boundary(s: Seq<char>, p: int)
  requires 0 <= p < encode_utf8(s).len(), encode_utf8(s)[p] < 0x80,
  ensures is_char_boundary(encode_utf8(s), p), is_char_boundary(encode_utf8(s), p + 1),
{ let i = char_at(s, p); one_char(s[i]); off_boundary(s, i); off_boundary(s, i + 1); }
proof fn end_boundaries(s: Seq<char>)
  ensures is_char_boundary(encode_utf8(s), 0), is_char_boundary(encode_utf8(s), encode_utf8(s).len() as int),
{ encode_utf8_valid_utf8(s); is_char_boundary_start_end_of_seq(encode_utf8(s)); }
proof fn empty_text(s: Seq<char>)
  ensures (s.len() == 0) == (encode_utf8(s).len() == 0),
{ off_ends(s); if s.len() > 0 { off_split(s, 0, 1); off_split(s, 1, s.len() as int); one_char(s[0]); assert(s.subrange(0, 1) =~= seq![s[0]]); } else { assert(s =~= Seq::empty()); } }
proof fn pushed(s: Seq<char>, c: char)
  requires (c as u32) < 0x80,
  ensures encode_utf8(s.push(c)) == encode_utf8(s).push(c as u8),
{ encode_utf8_concat(s, seq![c]); one_char(c); assert(s.push(c) =~= s + seq![c]); assert(encode_utf8(s) + seq![c as u8] =~= encode_utf8(s).push(c as u8)); }


proof fn lead_lemma(b: Seq<u8>, p: P, n: int)
  requires 0 <= n <= b.len(), canonical(p), forall|j: int| 0 <= j < n ==> sep(#[trigger] b[j]),
  ensures walk(b.skip(n), p) == walk(b, p),
{ go_seps(b, p, n); walk_shift(b, p, p, n); }
proof fn meaning_is(b: Seq<u8>) ensures meaning(b) == walk(bare(b), init()) {}
proof fn origin(d: Option<u8>)
  requires d.is_some() ==> 0x61 <= d.unwrap() <= 0x7a,
  ensures canonical(P { drive: d, segs: Seq::empty() }),
{}
proof fn go_zero(b: Seq<u8>, p: P) ensures go(b, p, 0) == (p, 0int) {}
// ---- one segment, as the code handles it ---------------------------------------------
spec fn exposes(p: P, part: Seq<u8>) -> bool { p.drive.is_none() && p.segs.len() == 0 && drive(part) }
spec fn rooted(p: P, part: Seq<u8>) -> P { if exposes(p, part) { P { drive: Some(lower(part[0])), ..p } } else { p } }
spec fn body(p: P, part: Seq<u8>) -> Seq<u8> { if exposes(p, part) { part.skip(2) } else { part } }
proof fn enter_lemma(b: Seq<u8>, p0: P, p1: P, start: int, idx: int)
  requires 0 <= start <= idx <= b.len(), canonical(p1), canonical(p0), go(b, p0, idx) == (p1, start), 
  ensures
    canonical(step(p1, b.subrange(start, idx))),
    idx < b.len() && sep(b[idx]) ==> go(b, p0, idx + 1) == (step(p1, b.subrange(start, idx)), idx + 1),
    idx == b.len() ==> walk(b, p0) == step(p1, b.subrange(start, idx)),
    exposes(p1, b.subrange(start, idx)) == (p1.drive.is_none() && p1.segs.len() == 0 && idx - start >= 2 && alpha(b[start]) && b[start + 1] == 0x3a),
    canonical(rooted(p1, b.subrange(start, idx))),
    rooted(p1, b.subrange(start, idx)).segs == p1.segs,
{
  let part = b.subrange(start, idx);
  go_facts(b, p0, idx);
  assert forall|k: int| 0 <= k < part.len() implies !sep(#[trigger] part[k]) by { assert(part[k] == b[start + k]); }
  step_canonical(p1, part);
}
proof fn stay_lemma(b: Seq<u8>, p0: P, p1: P, start: int, idx: int)
  requires 0 <= start <= idx < b.len(), go(b, p0, idx) == (p1, start), !sep(b[idx]),
  ensures go(b, p0, idx + 1) == (p1, start),
{}
/// the buffer holds nothing but the root exactly when no segment is kept
proof fn root_lemma(q: P)
  requires canonical(q),
  ensures spell(q).len() >= root(q).len(), (spell(q).len() == root(q).len()) == (q.segs.len() == 0), root(q).len() == (if q.drive.is_some() { 3int } else { 1int }),
    q.segs.len() == 0 ==> spell(q) == root(q),
    spell(q).take(root(q).len() as int) == root(q), root(q).last() == 0x2f, root(q)[root(q).len() - 1] == 0x2f, spell(q)[root(q).len() - 1] == 0x2f,
{ join_first(q.segs); if q.segs.len() == 0 { assert(join(q.segs) =~= Seq::<u8>::empty()); assert(spell(q) =~= root(q)); } assert(spell(q).take(root(q).len() as int) =~= root(q)); }
proof fn keep_lemma(p1: P, part: Seq<u8>)
  requires canonical(p1),
  ensures
    body(p1, part).len() == 0 || body(p1, part) == seq![0x2eu8] ==> step(p1, part) == rooted(p1, part),
    body(p1, part) == seq![0x2eu8, 0x2eu8] && p1.segs.len() == 0 ==> step(p1, part) == rooted(p1, part),
{ assert(seq![0x2eu8, 0x2eu8].len() == 2); assert(seq![0x2eu8].len() == 1); }
proof fn pop_lemma(p1: P, part: Seq<u8>)
  requires canonical(p1), body(p1, part) == seq![0x2eu8, 0x2eu8], p1.segs.len() > 0,
  ensures ({
    let n0 = spell(p1); let m = last_at(p1);
    &&& rooted(p1, part) == p1
    &&& root(p1).len() <= m < n0.len() &&& n0[m - 1] == 0x2f &&& n0.last() != 0x2f
    &&& forall|k: int| m <= k < n0.len() ==> #[trigger] n0[k] != 0x2f
    &&& (if m - 1 < root(p1).len() { n0.take(root(p1).len() as int) == spell(step(p1, part)) } else { n0.take(m - 1) == spell(step(p1, part)) })
    &&& root(step(p1, part)) == root(p1)
  }),
{
  let q = p1; let n0 = spell(q);
  assert(seq![0x2eu8, 0x2eu8].len() == 2); assert(seq![0x2eu8].len() == 1);
  assert(seq![0x2eu8, 0x2eu8] != seq![0x2eu8]);
  assert(plain(q.segs[q.segs.len() - 1]));
  spell_last(q); root_lemma(q);
  let l = q.segs.last();
  assert forall|k: int| last_at(q) <= k < n0.len() implies #[trigger] n0[k] != 0x2f by { assert(n0.skip(last_at(q))[k - last_at(q)] == n0[k]); assert(!sep(l[k - last_at(q)])); }
  let p = step(p1, part);
  assert(p == up(q));
  assert(canonical(up(q))) by {
    assert forall|i: int| 0 <= i < up(q).segs.len() implies plain(#[trigger] up(q).segs[i]) by { assert(up(q).segs[i] == q.segs[i]); }
    if up(q).drive.is_none() && up(q).segs.len() > 0 { assert(up(q).segs[0] == q.segs[0]); }
  }
  root_lemma(up(q));
  if q.segs.len() > 1 {
    assert(n0.take(last_at(q) - 1) =~= spell(p)) by { assert(n0.take(last_at(q)).drop_last() =~= n0.take(last_at(q) - 1)); assert(spell(p).push(0x2f).drop_last() =~= spell(p)); }
  }
}
proof fn push_lemma(p1: P, part: Seq<u8>)
  requires canonical(p1), canonical(step(p1, part)), body(p1, part).len() > 0, body(p1, part) != seq![0x2eu8], body(p1, part) != seq![0x2eu8, 0x2eu8],
  ensures ({
    let q = rooted(p1, part); let s = body(p1, part); let n0 = spell(q);
    &&& n0.len() > 0
    &&& spell(step(p1, part)) == (if n0.last() == 0x2f { n0 + s } else { n0.push(0x2f) + s })
    &&& root(step(p1, part)) == root(q)
  }),
{
  let q = rooted(p1, part); let s = body(p1, part); let n0 = spell(q);
  let p = step(p1, part);
  assert(p.segs == q.segs.push(s)); assert(p.segs.drop_last() =~= q.segs); assert(up(p) == q);
  spell_last(p);
  assert(spell(p) =~= spell(p).take(last_at(p)) + s);
  assert(canonical(q)) by { assert forall|i: int| 0 <= i < q.segs.len() implies plain(#[trigger] q.segs[i]) by { assert(q.segs[i] == p1.segs[i]); } }
  root_lemma(q);
  if q.segs.len() > 0 {
    let l = q.segs.last();
    assert(plain(q.segs[q.segs.len() - 1]));
    spell_last(q);
    assert(n0.skip(last_at(q))[l.len() - 1] == n0.last()); assert(!sep(l[l.len() - 1]));
  }
}
proof fn spell_root(p: P)
  requires p.segs.len() == 0,
  ensures spell(p) == root(p),
{ assert(join(p.segs) =~= Seq::<u8>::empty()); assert(spell(p) =~= root(p)); }
/// the root as the code writes it
proof fn root_text(d: Option<u8>)
  requires d.is_some() ==> d.unwrap() < 0x80,
  ensures ({ let e = Seq::<char>::empty(); encode_utf8(match d { Some(x) => e.push(x as char).push(':').push('/'), None => e.push('/') }) == root(P { drive: d, segs: Seq::empty() }) }),
{
  let e = Seq::<char>::empty(); empty_text(e);
  assert(encode_utf8(e) =~= Seq::<u8>::empty());
  match d {
    Some(x) => { let c = x as char; pushed(e, c); pushed(e.push(c), ':'); pushed(e.push(c).push(':'), '/'); assert(encode_utf8(e.push(c).push(':').push('/')) =~= seq![x, 0x3au8, 0x2fu8]); }
    None => { pushed(e, '/'); assert(encode_utf8(e.push('/')) =~= seq![0x2fu8]); }
  }
}

/*@fn diagnostics/src/paths.rs :: normalize_ts_path
#ret r
#spec
  ensures encode_utf8(r@) == spell(meaning(encode_utf8(raw@))), canonical(meaning(encode_utf8(raw@))),
#entry
  proof { text_len(raw); normalisation(encode_utf8(raw@)); }
#rewrite `raw . len ( ) + 1` => `raw.len()`
@*/

/*@fn diagnostics/src/paths.rs :: normalize_ts_path_into
#spec
  ensures encode_utf8(final(normalized)@) == spell(meaning(encode_utf8(raw@))),
#rewrite `raw . strip_prefix ( r"\\?\" ) . or_else ( | | raw . strip_prefix ( "//?/" ) )` => `(match strip(raw, r"\\?\") { Some(t_) => Some(t_), None => strip(raw, "//?/") })`
#rewrite `& raw [ start .. ]` => `str_sub(raw, start, raw.len())`
#rewrite `& rest [ 2 .. ]` => `str_sub(rest, 2, rest.len())`
#rewrite `& rest [ start .. ]` => `str_sub(rest, start, rest.len())`
#rewrite `& rest [ segment_start .. idx ]` => `str_sub(rest, segment_start, idx)`
#rewrite `& part [ 2 .. ]` => `str_sub(part, 2, part.len())`
#rewrite `part == "."` => `str_is(part, ".")`
#rewrite `part == ".."` => `str_is(part, "..")`
#rewrite `normalized . ends_with ( '/' )` => `ends_slash(normalized)`
#rewrite `normalized [ .. search_end ] . rfind ( '/' )` => `rfind_slash(normalized, search_end)`
#rewrite `raw . len ( ) + 1` => `raw.len()`
#entry
  hide(spell); hide(step); hide(go); hide(canonical); hide(root); hide(walk); hide(join); hide(last_at); hide(drive_); hide(meaning);
  let ghost raw0 = encode_utf8(raw@);
  proof { text_len(raw); lits(); }
#at before `let bytes = raw . as_bytes ( ) ;`
  let ghost raw1 = encode_utf8(raw@);
  proof { text_len(raw); end_boundaries(raw@); assert(raw1 == bare(raw0)); }
#loop 0
    invariant
      bytes@ == raw1, start <= raw1.len(), raw1 == encode_utf8(raw@), raw1.len() <= isize::MAX,
      is_char_boundary(raw1, 0), forall|j: int| 0 <= j < start ==> sep(#[trigger] raw1[j]),
    decreases raw1.len() - start,
#at before `let mut rest`
  proof { if start > 0 { ascii_boundary(raw@, start - 1); } }
#at before `let mut drive`
  let ghost rest1 = encode_utf8(rest@);
  proof {
    text_len(rest); end_boundaries(rest@);
    assert(rest1 =~= raw1.skip(start as int));
    origin(None); assert(init().segs =~= Seq::empty()); lead_lemma(raw1, init(), start as int); meaning_is(raw0);
    assert(walk(rest1, init()) == meaning(raw0));
  }
  let ghost mut p0 = init();
#at before `drive = Some`
      proof { walk_drive(rest1); ascii_boundary(rest@, 1); p0 = P { drive: Some(lower(rest1[0])), segs: Seq::empty() }; }
#at before `let bytes = rest . as_bytes ( ) ;` 1
      let ghost rest2 = encode_utf8(rest@);
      proof { text_len(rest); end_boundaries(rest@); assert(rest2 =~= rest1.skip(2)); }
#loop 1
      invariant
        bytes@ == rest2, start <= rest2.len(), rest2 == encode_utf8(rest@), rest2.len() <= isize::MAX,
        is_char_boundary(rest2, 0), forall|j: int| 0 <= j < start ==> sep(#[trigger] rest2[j]),
      decreases rest2.len() - start,
#at before `rest = & rest [ start .. ]`
      proof { if start > 0 { ascii_boundary(rest@, start - 1); } origin(Some(p0.drive.unwrap())); lead_lemma(rest2, p0, start as int); }
#at before `normalized . clear`  0
  let ghost b = encode_utf8(rest@);
  proof {
    text_len(rest); end_boundaries(rest@);
    assert(p0.drive is Some ==> b =~= encode_utf8(rest@));
  }
#at before `let mut root_len`
  proof {
    let e = Seq::<char>::empty();
    assert(p0.drive.is_some() == drive.is_some());
    root_text(p0.drive); spell_root(p0); origin(p0.drive); root_lemma(p0); go_zero(b, p0);
    if drive.is_some() { let d = drive.unwrap(); assert(normalized@ =~= e.push(d).push(':').push('/')); } else { assert(normalized@ =~= e.push('/')); }
    assert(encode_utf8(normalized@) == spell(p0));
    string_len(normalized);
  }
  let ghost mut p = p0;
#loop 2 while=ix
    invariant
      ix_e == b.len(), b == encode_utf8(rest@), bytes@ == b, b.len() <= isize::MAX, ix <= b.len() + 1,
      is_char_boundary(b, 0), is_char_boundary(b, b.len() as int),
      canonical(p), canonical(p0), encode_utf8(normalized@) == spell(p), root_len == root(p).len(),
      ix <= b.len() ==> go(b, p0, ix as int) == (p, segment_start as int) && is_char_boundary(b, segment_start as int),
      ix == b.len() + 1 ==> p == walk(b, p0),
    decreases b.len() + 1 - ix,
#at before `if idx == bytes . len ( ) ||`
      proof { if idx < b.len() { go_facts(b, p0, idx as int); } if idx < b.len() && !sep(b[idx as int]) { stay_lemma(b, p0, p, segment_start as int, idx as int); } }
#at before `let mut part`
      let ghost p1 = p;
      let ghost seg0 = b.subrange(segment_start as int, idx as int);
      proof {
        if idx < b.len() { ascii_boundary(rest@, idx as int); }
        go_facts(b, p0, idx as int);
        enter_lemma(b, p0, p1, segment_start as int, idx as int);
        keep_lemma(p1, seg0);
        root_lemma(p1);
        p = step(p1, seg0);
        string_len(normalized);
      }
      let ghost q = rooted(p1, seg0);
      let ghost s = body(p1, seg0);
#at before `if root_len == 1`
      proof {
        text_len(part);
        assert(encode_utf8(part@) == seg0);
      }
#at before `part = & part [ 2 .. ]`
          proof {
            root_text(Some(lower(seg0[0])));
            assert(normalized@ =~= Seq::<char>::empty().push(lower(seg0[0]) as char).push(':').push('/'));
            spell_root(q); assert(q.segs =~= Seq::<Seq<u8>>::empty());
            ascii_boundary(part@, 1); end_boundaries(part@);
          }
#at before `if part . is_empty`
      proof {
        text_len(part); string_len(normalized); empty_text(part@); root_lemma(q);
        assert(encode_utf8(part@) =~= s);
        assert(encode_utf8(normalized@) == spell(q));
        assert(root_len == root(q).len());
        lits();
      }
      let ghost n0 = encode_utf8(normalized@);
#at before `let end = normalized . len ( ) ;`
        proof {
          pop_lemma(p1, seg0);
          end_boundaries(normalized@);
          ascii_boundary(normalized@, last_at(q) - 1);
          ascii_boundary(normalized@, root_len - 1);
        }
#at before `if ! normalized . ends_with ( '/' )`
      proof {
        push_lemma(p1, seg0);
        pushed(normalized@, '/');
        encode_utf8_concat(normalized@, part@); encode_utf8_concat(normalized@.push('/'), part@);
      }
@*/
proof fn lits()
  ensures encode_utf8(r"\\?\"@) == ext1(), encode_utf8("//?/"@) == ext2(), encode_utf8("."@) == seq![0x2eu8], encode_utf8(".."@) == seq![0x2eu8, 0x2eu8],
{
  reveal_strlit(r"\\?\"); reveal_strlit("//?/"); reveal_strlit("."); reveal_strlit("..");
  let e = Seq::<char>::empty();
  assert(encode_utf8(e) =~= Seq::<u8>::empty()) by { empty_text(e); }
  pushed(e, '.'); pushed(e.push('.'), '.');
  pushed(e, '/'); pushed(e.push('/'), '/'); pushed(e.push('/').push('/'), '?'); pushed(e.push('/').push('/').push('?'), '/');
  pushed(e, '\\'); pushed(e.push('\\'), '\\'); pushed(e.push('\\').push('\\'), '?'); pushed(e.push('\\').push('\\').push('?'), '\\');
  assert("."@ =~= e.push('.')); assert(".."@ =~= e.push('.').push('.'));
  assert("//?/"@ =~= e.push('/').push('/').push('?').push('/'));
  assert(r"\\?\"@ =~= e.push('\\').push('\\').push('?').push('\\'));
  assert(encode_utf8("."@) =~= seq![0x2eu8]); assert(encode_utf8(".."@) =~= seq![0x2eu8, 0x2eu8]);
  assert(encode_utf8("//?/"@) =~= ext2()); assert(encode_utf8(r"\\?\"@) =~= ext1());
}
}
fn main() {}
