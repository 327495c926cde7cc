use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
/*@include order.rs@*/

/*@type diagnostics/src/lib.rs :: FileId
#pub
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type diagnostics/src/lib.rs :: TextRange
#pub
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type diagnostics/src/lib.rs :: Span
#pub
#derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type diagnostics/src/lib.rs :: Severity
#pub
#derive Clone, Copy, PartialEq, Eq
@*/
/*@type diagnostics/src/lib.rs :: Label
#pub
@*/
/*@type diagnostics/src/lib.rs :: DiagnosticCode
#rewrite `Cow < 'static , str >` => `String`
#pub
#derive Clone, PartialEq, Eq, PartialOrd, Ord
@*/
/*@type diagnostics/src/lib.rs :: Diagnostic
#pub
@*/

// what `#[derive(Ord)]` on a one-field struct does
pub assume_specification [ <FileId as Ord>::cmp ](a: &FileId, b: &FileId) -> (r: Ordering)
  ensures r == int_cmp(a.0 as int, b.0 as int);
pub assume_specification [ <DiagnosticCode as Ord>::cmp ](a: &DiagnosticCode, b: &DiagnosticCode) -> (r: Ordering)
  ensures r == seq_cmp(a.0@, b.0@);
// std: cloning a slice of labels / strings yields elements with the same observable content
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
  ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&#[trigger] s@[i],), r@[i]);
// what `#[derive(Clone)]` does
impl Clone for Label {
  #[verifier::external_body]
  fn clone(&self) -> (r: Label) ensures lkey(r) == lkey(*self) { unimplemented!() }
}
pub axiom fn vec_string_order()
  ensures <Vec<String> as OrdSpec>::obeys_cmp_spec(), forall|a: Vec<String>, b: Vec<String>| #[trigger] a.cmp_spec(&b) == lex_cmp(texts(a@), texts(b@), str_le());

// ---- labels: ordered by everything that is observable about them -------------
pub ghost struct LKey { pub sec: bool, pub file: int, pub start: int, pub end: int, pub msg: Seq<char> }
pub open spec fn lkey(l: Label) -> LKey {
  LKey { sec: !l.is_primary, file: l.span.file.0 as int, start: l.span.range.start as int, end: l.span.range.end as int, msg: l.message@ }
}
pub open spec fn ints() -> spec_fn(int, int) -> Ordering { |a: int, b: int| int_cmp(a, b) }
pub open spec fn bools() -> spec_fn(bool, bool) -> Ordering { |a: bool, b: bool| bool_cmp(a, b) }
pub open spec fn str_le() -> spec_fn(Seq<char>, Seq<char>) -> Ordering { |a: Seq<char>, b: Seq<char>| seq_cmp(a, b) }
pub open spec fn lkey_le() -> spec_fn(LKey, LKey) -> Ordering {
  then_order(then_order(then_order(then_order(
    by_key(|k: LKey| k.sec, bools()), by_key(|k: LKey| k.file, ints())), by_key(|k: LKey| k.start, ints())),
    by_key(|k: LKey| k.end, ints())), by_key(|k: LKey| k.msg, str_le()))
}
pub open spec fn lkeyf() -> spec_fn(Label) -> LKey { |l: Label| lkey(l) }
proof fn lkey_order()
  ensures total_order(lkey_le()), antisym(lkey_le()), total_order(by_key(lkeyf(), lkey_le())),
{
  int_total(); seq_cmp_total();
  let a = by_key(|k: LKey| k.sec, bools()); let b = by_key(|k: LKey| k.file, ints()); let c = by_key(|k: LKey| k.start, ints());
  let d = by_key(|k: LKey| k.end, ints()); let e = by_key(|k: LKey| k.msg, str_le());
  by_key_total(|k: LKey| k.sec, bools()); by_key_total(|k: LKey| k.file, ints()); by_key_total(|k: LKey| k.start, ints());
  by_key_total(|k: LKey| k.end, ints()); by_key_total(|k: LKey| k.msg, str_le());
  then_total(a, b); then_total(then_order(a, b), c); then_total(then_order(then_order(a, b), c), d);
  then_total(then_order(then_order(then_order(a, b), c), d), e);
  by_key_total(lkeyf(), lkey_le());
  assert forall|x: LKey, y: LKey| #[trigger] lkey_le()(x, y) == Ordering::Equal implies x == y by { seq_cmp_rev(x.msg, y.msg); }
}

/*@fn diagnostics/src/lib.rs :: label_cmp
#ret r
#spec
  ensures r == lkey_le()(lkey(*a), lkey(*b)),
#entry
  proof { string_order(); bool_order(); }
@*/

/*@fn diagnostics/src/lib.rs :: severity_rank
#ret r
#spec
  ensures r == sev_rank(severity),
@*/
pub open spec fn sev_rank(s: Severity) -> u8 {
  match s { Severity::Error => 0u8, Severity::Warning => 1, Severity::Note => 2, Severity::Help => 3 }
}

// ---- label and note lists: compared as unordered collections ------------------
pub open spec fn lseq(s: Seq<Label>) -> Seq<LKey> { arrange(s.map_values(lkeyf()), lkey_le()) }
pub open spec fn textf() -> spec_fn(String) -> Seq<char> { |s: String| s@ }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(textf()) }
pub open spec fn nseq(s: Seq<String>) -> Seq<Seq<char>> { arrange(texts(s), str_le()) }
proof fn str_le_order()
  ensures total_order(str_le()), antisym(str_le()),
{
  seq_cmp_total();
  assert forall|a: Seq<char>, b: Seq<char>| #[trigger] str_le()(a, b) == Ordering::Equal implies a == b by { seq_cmp_rev(a, b); }
}
proof fn string_sort_order()
  ensures total_order(|a: String, b: String| a.cmp_spec(&b)), <String as OrdSpec>::obeys_cmp_spec(),
    (|a: String, b: String| a.cmp_spec(&b)) =~= by_key(textf(), str_le()),
{
  string_order(); str_le_order(); by_key_total(textf(), str_le());
  assert((|a: String, b: String| a.cmp_spec(&b)) =~= by_key(textf(), str_le()));
}

/*@fn diagnostics/src/lib.rs :: compare_labels
#ret r
#spec
  ensures r == list_order(lkey_le())(lseq(a@), lseq(b@)),
#entry
  proof { lkey_order(); assert(compares(label_cmp, by_key(lkeyf(), lkey_le()))); }
#at before `a_sorted . sort_by`
  let ghost a0 = a_sorted@; let ghost b0 = b_sorted@;
  proof { assert(a0.map_values(lkeyf()) =~= a@.map_values(lkeyf())); assert(b0.map_values(lkeyf()) =~= b@.map_values(lkeyf())); }
#at before `a_sorted . len ( )`
  proof { sorted_keys(a0, a_sorted@, lkeyf(), lkey_le()); sorted_keys(b0, b_sorted@, lkeyf(), lkey_le()); }
  let ghost asv = a_sorted@; let ghost bsv = b_sorted@;
#rewrite `then_with ( || {` => `then_with ( || -> (r: Ordering) requires a_sorted@.len() == b_sorted@.len() ensures r == lex_cmp(a_sorted@.map_values(lkeyf()), b_sorted@.map_values(lkeyf()), lkey_le()) {`
#loop 0 it=it
  invariant
    asv == a_sorted@, bsv == b_sorted@, it.seq().len() == asv.len(), asv.len() == bsv.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == asv[i] && *it.seq()[i].1 == bsv[i],
    forall|i: int| 0 <= i < it.index@ ==> lkey_le()(#[trigger] asv.map_values(lkeyf())[i], bsv.map_values(lkeyf())[i]) == Ordering::Equal,
#at before `let ord =`
      proof { ordering_eq(); assert(*it.seq()[it.index@].0 == asv[it.index@]); assert(*lhs == asv[it.index@]); assert(*rhs == bsv[it.index@]);
        assert(asv.map_values(lkeyf())[it.index@] == lkey(*lhs)); assert(bsv.map_values(lkeyf())[it.index@] == lkey(*rhs));
        lex_at(asv.map_values(lkeyf()), bsv.map_values(lkeyf()), lkey_le(), it.index@); }
#at afterblock `for (`
    proof { lex_at(asv.map_values(lkeyf()), bsv.map_values(lkeyf()), lkey_le(), asv.len() as int); }
@*/

/*@fn diagnostics/src/lib.rs :: compare_notes
#ret r
#spec
  ensures r == list_order(str_le())(nseq(a@), nseq(b@)),
#entry
  proof { string_sort_order(); str_le_order(); vec_string_order(); }
#at before `a_sorted . sort`
  let ghost a0 = a_sorted@; let ghost b0 = b_sorted@;
  proof { assert(texts(a0) =~= texts(a@)); assert(texts(b0) =~= texts(b@)); }
#at before `a_sorted . len ( )`
  proof {
    assert(sorted_by_order(a_sorted@, by_key(textf(), str_le()))); assert(sorted_by_order(b_sorted@, by_key(textf(), str_le())));
    sorted_keys(a0, a_sorted@, textf(), str_le()); sorted_keys(b0, b_sorted@, textf(), str_le());
  }
#rewrite `then_with ( || a_sorted . cmp ( & b_sorted ) )` => `then_with ( || -> (r: Ordering) ensures r == lex_cmp(texts(a_sorted@), texts(b_sorted@), str_le()) { a_sorted . cmp ( & b_sorted ) } )`
@*/

// ---- diagnostics: everything that is observable, labels and notes as collections ----
pub ghost struct RKey { pub file: int, pub start: int, pub end: int, pub code: Seq<char>, pub sev: int, pub msg: Seq<char>, pub labels: Seq<LKey>, pub notes: Seq<Seq<char>> }
pub open spec fn rkey(d: Diagnostic) -> RKey {
  RKey { file: d.primary.file.0 as int, start: d.primary.range.start as int, end: d.primary.range.end as int, code: d.code.0@,
    sev: sev_rank(d.severity) as int, msg: d.message@, labels: lseq(d.labels@), notes: nseq(d.notes@) }
}
pub open spec fn rkeyf() -> spec_fn(Diagnostic) -> RKey { |d: Diagnostic| rkey(d) }
pub open spec fn r1() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.file, ints()) }
pub open spec fn r2() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.start, ints()) }
pub open spec fn r3() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.end, ints()) }
pub open spec fn r4() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.code, str_le()) }
pub open spec fn r5() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.sev, ints()) }
pub open spec fn r6() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.msg, str_le()) }
pub open spec fn r7() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.labels, list_order(lkey_le())) }
pub open spec fn r8() -> spec_fn(RKey, RKey) -> Ordering { by_key(|d: RKey| d.notes, list_order(str_le())) }
/// file, start, end, code, severity, message, labels, notes -- in that order
pub open spec fn rkey_le() -> spec_fn(RKey, RKey) -> Ordering {
  then_order(then_order(then_order(then_order(then_order(then_order(then_order(r1(), r2()), r3()), r4()), r5()), r6()), r7()), r8())
}
pub open spec fn diag_le() -> spec_fn(Diagnostic, Diagnostic) -> Ordering { by_key(rkeyf(), rkey_le()) }
/// The comparison is a total order, and only identical reports tie.
proof fn diag_total()
  ensures total_order(rkey_le()), antisym(rkey_le()), total_order(diag_le()),
{
  int_total(); seq_cmp_total(); lkey_order(); str_le_order(); list_total(lkey_le()); list_total(str_le());
  by_key_total(|d: RKey| d.file, ints()); by_key_total(|d: RKey| d.start, ints()); by_key_total(|d: RKey| d.end, ints());
  by_key_total(|d: RKey| d.code, str_le()); by_key_total(|d: RKey| d.sev, ints()); by_key_total(|d: RKey| d.msg, str_le());
  by_key_total(|d: RKey| d.labels, list_order(lkey_le())); by_key_total(|d: RKey| d.notes, list_order(str_le()));
  then_total(r1(), r2()); let a = then_order(r1(), r2());
  then_total(a, r3()); let b = then_order(a, r3());
  then_total(b, r4()); let c = then_order(b, r4());
  then_total(c, r5()); let d = then_order(c, r5());
  then_total(d, r6()); let e = then_order(d, r6());
  then_total(e, r7()); let f = then_order(e, r7());
  then_total(f, r8());
  by_key_total(rkeyf(), rkey_le());
  assert forall|x: RKey, y: RKey| #[trigger] rkey_le()(x, y) == Ordering::Equal implies x == y by {
    assert(str_le()(x.code, y.code) == Ordering::Equal); assert(str_le()(x.msg, y.msg) == Ordering::Equal);
    assert(list_order(lkey_le())(x.labels, y.labels) == Ordering::Equal); assert(list_order(str_le())(x.notes, y.notes) == Ordering::Equal);
  }
}

/*@fn diagnostics/src/lib.rs :: diagnostic_cmp
#ret r
#spec
  ensures r == diag_le()(*a, *b),
#entry
  proof { string_order(); }
@*/

/*@fn diagnostics/src/lib.rs :: sort_diagnostics
#spec
  ensures
    final(diagnostics)@.to_multiset() == old(diagnostics)@.to_multiset(),
    sorted_by_order(final(diagnostics)@, diag_le()),
    // what is reported, and in which order, is a function of the collection of diagnostics alone
    final(diagnostics)@.map_values(rkeyf()) == arrange(old(diagnostics)@.map_values(rkeyf()), rkey_le()),
#entry
  proof { diag_total(); assert(compares(diagnostic_cmp, diag_le())); }
#end
  proof { sorted_keys(old(diagnostics)@, diagnostics@, rkeyf(), rkey_le()); }
@*/

/*@fn diagnostics/src/lib.rs :: sort_labels
#spec
  ensures final(labels)@.to_multiset() == old(labels)@.to_multiset(),
    final(labels)@.map_values(lkeyf()) == lseq(old(labels)@),
#entry
  proof { lkey_order(); assert(compares(label_cmp, by_key(lkeyf(), lkey_le()))); }
#end
  proof { sorted_keys(old(labels)@, labels@, lkeyf(), lkey_le()); }
@*/

// `impl Ord for Label` (used wherever labels are compared directly); checked here as an inherent method
pub assume_specification [ <Span as Ord>::cmp ](a: &Span, b: &Span) -> (r: Ordering)
  ensures r == then_spec(then_spec(int_cmp(a.file.0 as int, b.file.0 as int), int_cmp(a.range.start as int, b.range.start as int)),
    int_cmp(a.range.end as int, b.range.end as int));
impl Label {
/*@fn diagnostics/src/lib.rs :: Ord for Label::cmp
#ret r
#rewrite `. then_with ( || self . span . cmp ( & other . span ) )` => `.then_with(|| -> (r: Ordering) ensures r == then_spec(then_spec(int_cmp(self.span.file.0 as int, other.span.file.0 as int), int_cmp(self.span.range.start as int, other.span.range.start as int)), int_cmp(self.span.range.end as int, other.span.range.end as int)) { self.span.cmp(&other.span) })`
#rewrite `. then_with ( || self . message . cmp ( & other . message ) )` => `.then_with(|| -> (r: Ordering) ensures r == seq_cmp(self.message@, other.message@) { proof { string_order(); } self.message.cmp(&other.message) })`
#spec
  ensures r == lkey_le()(lkey(*self), lkey(*other)),
#entry
  proof { bool_order(); }
@*/
}

/// A diagnostic in normal form: labels and notes are themselves in sorted order.
pub open spec fn normal(d: Diagnostic) -> bool {
  d.labels@.map_values(lkeyf()) == lseq(d.labels@) && texts(d.notes@) == nseq(d.notes@)
}
/*@fn typecheck-ts/src/codes.rs :: normalize_diagnostic
#spec
  ensures normal(*final(diagnostic)), rkey(*final(diagnostic)) == rkey(*old(diagnostic)),
#entry
  proof { string_sort_order(); str_le_order(); lkey_order(); }
#end
  proof {
    map_permutes(old(diagnostic).labels@, diagnostic.labels@, lkeyf()); arrange_same(old(diagnostic).labels@.map_values(lkeyf()), diagnostic.labels@.map_values(lkeyf()), lkey_le());
    map_permutes(old(diagnostic).notes@, diagnostic.notes@, textf()); arrange_same(texts(old(diagnostic).notes@), texts(diagnostic.notes@), str_le());
    sorted_keys(old(diagnostic).notes@, diagnostic.notes@, textf(), str_le());
  }
@*/

/*@fn typecheck-ts/src/codes.rs :: normalize_diagnostics
#spec
  ensures
    final(diagnostics)@.map_values(rkeyf()) == arrange(old(diagnostics)@.map_values(rkeyf()), rkey_le()),
    forall|i: int| 0 <= i < final(diagnostics)@.len() ==> normal(#[trigger] final(diagnostics)@[i]),
#loop 0 it=it
  invariant
    forall|i: int| 0 <= i < it.index@ ==> normal(*final(#[trigger] it.seq()[i])) && rkey(*final(it.seq()[i])) == rkey(*it.seq()[i]),
#at before `sort_diagnostics`
  let ghost mid = diagnostics@;
  proof { assert(mid.map_values(rkeyf()) =~= old(diagnostics)@.map_values(rkeyf())); }
#end
  proof {
    mid.to_multiset_ensures(); diagnostics@.to_multiset_ensures();
    assert forall|i: int| 0 <= i < diagnostics@.len() implies normal(#[trigger] diagnostics@[i]) by {
      assert(diagnostics@.contains(diagnostics@[i])); assert(mid.to_multiset().count(diagnostics@[i]) > 0); assert(mid.contains(diagnostics@[i]));
    }
  }
@*/

/// The property: whatever order the same diagnostics arrive in, sorting them reports
/// the same thing at every position.
proof fn arrival_order_is_irrelevant(arrived1: Seq<Diagnostic>, arrived2: Seq<Diagnostic>, sorted1: Seq<Diagnostic>, sorted2: Seq<Diagnostic>)
  requires
    arrived1.map_values(rkeyf()).to_multiset() == arrived2.map_values(rkeyf()).to_multiset(),
    sorted1.map_values(rkeyf()) == arrange(arrived1.map_values(rkeyf()), rkey_le()),
    sorted2.map_values(rkeyf()) == arrange(arrived2.map_values(rkeyf()), rkey_le()),
  ensures
    sorted1.map_values(rkeyf()) == sorted2.map_values(rkeyf()),
{
  diag_total();
  arrange_multiset(arrived1.map_values(rkeyf()), rkey_le());
  let t = arrange_exists(arrived1.map_values(rkeyf()), rkey_le());
  arrange_is(arrived1.map_values(rkeyf()), t, rkey_le()); arrange_is(arrived2.map_values(rkeyf()), t, rkey_le());
}
}
fn main() {}
