#![feature(const_destruct)]
use vstd::prelude::*;
use std::cmp::{max, min, Ordering};
use vstd::std_specs::cmp::*;
verus! {
// ---- standard library, assumed -------------------------------------------------
pub assume_specification<T> [ bool::then_some::<T> ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T: Ord + core::marker::Destruct> [ std::cmp::min::<T> ](a: T, b: T) -> (r: T)
  ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
pub assume_specification<T: Ord + core::marker::Destruct> [ std::cmp::max::<T> ](a: T, b: T) -> (r: T)
  ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });

// ---- ranges as sets of offsets ----------------------------------------------------
/// the offsets a half-open pair covers
pub open spec fn within(a: int, b: int, o: int) -> bool { a <= o < b }
/// how many there are
pub open spec fn width(a: int, b: int) -> int { if b > a { b - a } else { 0 } }
/// `width` counts the covered offsets, and nothing is covered exactly when the width is zero
pub proof fn width_counts(a: int, b: int)
  ensures
    vstd::set_lib::set_int_range(a, if b > a { b } else { a }).len() == width(a, b),
    forall|o: int| #[trigger] within(a, b, o) <==> vstd::set_lib::set_int_range(a, if b > a { b } else { a }).contains(o),
    (width(a, b) == 0) == (forall|o: int| !#[trigger] within(a, b, o)),
{
  vstd::set_lib::lemma_int_range(a, if b > a { b } else { a });
  if b > a { assert(within(a, b, a)); }
}
pub mod diag {
  use super::*;
/*@type diagnostics/src/lib.rs :: FileId
#pub
#derive Clone, Copy
@*/
/*@type diagnostics/src/lib.rs :: TextRange
#pub
#derive Clone, Copy
@*/
/*@type diagnostics/src/lib.rs :: Span
#pub
#derive Clone, Copy
@*/
impl TextRange {
/*@fn diagnostics/src/lib.rs :: TextRange::new
#pub
#ret r
#spec
  ensures r.start == start, r.end == end,
@*/
/*@fn diagnostics/src/lib.rs :: TextRange::len
#pub
#ret r
#spec
  ensures r == width(self.start as int, self.end as int),
@*/
/*@fn diagnostics/src/lib.rs :: TextRange::contains
#pub
#ret r
#spec
  ensures r == within(self.start as int, self.end as int, offset as int),
@*/
/*@fn diagnostics/src/lib.rs :: TextRange::is_empty
#pub
#ret r
#spec
  ensures r == (width(self.start as int, self.end as int) == 0),
@*/
}
impl Span {
/*@fn diagnostics/src/lib.rs :: Span::new
#pub
#ret r
#spec
  ensures r.file == file, r.range == range,
@*/
/*@fn diagnostics/src/lib.rs :: Span::contains
#pub
#ret r
#spec
  ensures r == within(self.range.start as int, self.range.end as int, offset as int),
@*/
}
}
use diag::TextRange as DiagnosticTextRange;
use diag::Span as DiagnosticSpan;
use diag::FileId as DiagnosticFileId;

/*@type parse-js/src/loc.rs :: TextRange
#pub
#derive Clone, Copy
@*/
/*@type parse-js/src/loc.rs :: LocOverflow
#pub
#derive Clone, Copy
@*/
/*@type parse-js/src/loc.rs :: Loc
#pub
#derive Clone, Copy
@*/

/// the nearest value a u32 can hold
pub open spec fn clamp32(v: usize) -> u32 { if v > u32::MAX { u32::MAX } else { v as u32 } }
pub open spec fn lost32(v: usize) -> Option<usize> { if v > u32::MAX { Some(v) } else { None } }
pub open spec fn as32(l: Loc) -> TextRange { TextRange { start: clamp32(l.0), end: clamp32(l.1) } }
pub open spec fn over(l: Loc) -> Option<LocOverflow> {
  if l.0 > u32::MAX || l.1 > u32::MAX { Some(LocOverflow { start: lost32(l.0), end: lost32(l.1) }) } else { None }
}
/// the smallest location covering both
pub open spec fn hull(a: Loc, b: Loc) -> Loc { Loc(if a.0 <= b.0 { a.0 } else { b.0 }, if a.1 >= b.1 { a.1 } else { b.1 }) }
pub open spec fn covers(a: Loc, b: Loc) -> bool { a.0 <= b.0 && b.1 <= a.1 }

/// joining locations: an associative, commutative, idempotent least upper bound, so that the location of a node
/// does not depend on the order its parts were joined in
pub proof fn hull_laws(a: Loc, b: Loc, c: Loc)
  ensures
    hull(a, b) == hull(b, a), hull(hull(a, b), c) == hull(a, hull(b, c)), hull(a, a) == a,
    covers(hull(a, b), a), covers(hull(a, b), b), covers(c, a) && covers(c, b) ==> covers(c, hull(a, b)),
    // clamping commutes with joining and keeps what is covered covered
    covers(a, b) ==> as32(a).start <= as32(b).start && as32(b).end <= as32(a).end,
{}
/// nothing is lost when nothing overflows, and the back conversion recovers the location
pub proof fn lossless(l: Loc)
  ensures over(l) is None <==> (as32(l).start == l.0 && as32(l).end == l.1),
    forall|o: u32| over(l) is None ==> (within(l.0 as int, l.1 as int, o as int) <==> #[trigger] within(as32(l).start as int, as32(l).end as int, o as int)),
{}

/*@fn parse-js/src/loc.rs :: clamp_to_u32
#ret r
#spec
  ensures r.0 == clamp32(value), r.1 == lost32(value),
@*/
impl LocOverflow {
/*@fn parse-js/src/loc.rs :: LocOverflow::start_overflowed
#ret r
#spec
  ensures r == self.start.is_some(),
@*/
/*@fn parse-js/src/loc.rs :: LocOverflow::end_overflowed
#ret r
#spec
  ensures r == self.end.is_some(),
@*/
/*@fn parse-js/src/loc.rs :: LocOverflow::any
#ret r
#spec
  ensures r == (self.start.is_some() || self.end.is_some()),
@*/
/*@fn parse-js/src/loc.rs :: LocOverflow::into_option
#ret r
#spec
  ensures r == (if self.start.is_some() || self.end.is_some() { Some(self) } else { None }),
@*/
}
impl TextRange {
/*@fn parse-js/src/loc.rs :: TextRange::new
#ret r
#spec
  ensures r.start == start, r.end == end,
@*/
/*@fn parse-js/src/loc.rs :: TextRange::len
#ret r
#spec
  ensures r == width(self.start as int, self.end as int),
@*/
/*@fn parse-js/src/loc.rs :: TextRange::contains
#ret r
#spec
  ensures r == within(self.start as int, self.end as int, offset as int),
@*/
/*@fn parse-js/src/loc.rs :: TextRange::is_empty
#ret r
#spec
  ensures r == (width(self.start as int, self.end as int) == 0),
@*/
/*@fn parse-js/src/loc.rs :: TextRange::from_loc_saturating
#ret r
#spec
  ensures r.0 == as32(loc), r.1 == over(loc),
@*/
/*@fn parse-js/src/loc.rs :: TextRange::checked_from_loc
#ret r
#spec
  ensures match r { Ok(t) => over(loc) is None && t == as32(loc), Err(e) => over(loc) == Some(e) },
@*/
/*@fn parse-js/src/loc.rs :: TextRange::to_diagnostics
#ret r
#spec
  ensures r.start == self.start, r.end == self.end,
@*/
}
/*@fn parse-js/src/loc.rs :: From for TextRange::from
#ret r
#sig `fn from` => `fn range_of_loc`
#sig `Self` => `TextRange`
#spec
  ensures r == as32(value),
@*/
/*@fn parse-js/src/loc.rs :: From for Loc::from
#ret r
#sig `fn from` => `fn loc_of_range`
#sig `Self` => `Loc`
#spec
  ensures r.0 == range.start, r.1 == range.end,
@*/
impl Loc {
/*@fn parse-js/src/loc.rs :: Loc::start_u32
#ret r
#spec
  ensures r == clamp32(self.0),
@*/
/*@fn parse-js/src/loc.rs :: Loc::end_u32
#ret r
#spec
  ensures r == clamp32(self.1),
@*/
/*@fn parse-js/src/loc.rs :: Loc::as_range
#ret r
#rewrite? `( * self ) . into ( )` => `range_of_loc(*self)`
#spec
  ensures r == as32(*self),
@*/
/*@fn parse-js/src/loc.rs :: Loc::as_range_with_overflow
#ret r
#spec
  ensures r.0 == as32(*self), r.1 == over(*self),
@*/
/*@fn parse-js/src/loc.rs :: Loc::best_effort
#ret r
#rewrite? `Some ( mut start ) , Some ( end )` => `Some(start_), Some(end)`
#rewrite? `start . extend ( end ) ;` => `let mut start = start_; start.extend(end);`
#spec
  ensures r == (match (start, end) { (Some(a), Some(b)) => hull(a, b), (Some(a), None) => a, (None, Some(b)) => b, (None, None) => Loc(0, 0) }),
@*/
/*@fn parse-js/src/loc.rs :: Loc::to_diagnostics_range
#ret r
#spec
  ensures r.start == as32(*self).start, r.end == as32(*self).end,
@*/
/*@fn parse-js/src/loc.rs :: Loc::to_diagnostics_span
#ret r
#spec
  ensures r.range.start == as32(*self).start, r.range.end == as32(*self).end, r.file == file,
@*/
/*@fn parse-js/src/loc.rs :: Loc::is_empty
#ret r
#spec
  ensures r == (width(self.0 as int, self.1 as int) == 0),
@*/
/*@fn parse-js/src/loc.rs :: Loc::len
#ret r
#spec
  ensures r == width(self.0 as int, self.1 as int),
@*/
/*@fn parse-js/src/loc.rs :: Loc::extend
#spec
  ensures *final(self) == hull(*old(self), other),
@*/
/*@fn parse-js/src/loc.rs :: Loc::add_option
#ret r
#spec
  ensures r == (match rhs { Some(b) => hull(self, b), None => self }),
@*/
/*@fn parse-js/src/loc.rs :: Add for Loc::add
#ret r
#sig `Self :: Output` => `Loc`
#spec
  ensures r == hull(self, rhs),
@*/
/*@fn parse-js/src/loc.rs :: AddAssign for Loc::add_assign
#spec
  ensures *final(self) == hull(*old(self), rhs),
@*/
}
}
fn main() {}
