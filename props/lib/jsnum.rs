// ---- numbers: an IEEE 754 double as an ECMAScript Number value (one NaN, two zeros) ------------------
// Assumed: the axioms and external contracts of this file, i.e. that Rust's f64 operators, casts and the
// named std methods are the IEEE 754 ones. `rnd` (round to nearest, ties to even) stays uninterpreted.
mod fl {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::float::*;
#[verifier::ext_equal]
pub enum N { NaN, Inf(bool), Zero(bool), Fin(real) } // true: negative; Fin is never 0
pub uninterp spec fn num(a: f64) -> N;
/// the Number nearest to a real (an overflow is infinite, an underflow a signed zero)
pub uninterp spec fn rnd(x: real) -> N;
pub open spec fn neg_sign(x: N) -> bool { match x { N::NaN => false, N::Inf(s) => s, N::Zero(s) => s, N::Fin(a) => a < 0real } }
pub open spec fn n_int(i: int) -> N { if i == 0 { N::Zero(false) } else { N::Fin(i as real) } }
/// an integer of any size, rounded
pub open spec fn n_big(i: int) -> N { if i == 0 { N::Zero(false) } else { rnd(i as real) } }
pub open spec fn n_neg(x: N) -> N { match x { N::NaN => N::NaN, N::Inf(s) => N::Inf(!s), N::Zero(s) => N::Zero(!s), N::Fin(a) => N::Fin(-a) } }
pub open spec fn n_add(x: N, y: N) -> N {
  match (x, y) {
    (N::NaN, _) => N::NaN, (_, N::NaN) => N::NaN,
    (N::Inf(s), N::Inf(t)) => if s == t { N::Inf(s) } else { N::NaN },
    (N::Inf(s), _) => N::Inf(s), (_, N::Inf(t)) => N::Inf(t),
    (N::Zero(s), N::Zero(t)) => N::Zero(s && t),
    (N::Zero(_), y) => y, (x, N::Zero(_)) => x,
    (N::Fin(a), N::Fin(b)) => if a + b == 0real { N::Zero(false) } else { rnd(a + b) },
  }
}
pub open spec fn n_sub(x: N, y: N) -> N { n_add(x, n_neg(y)) }
pub open spec fn n_mul(x: N, y: N) -> N {
  let s = neg_sign(x) != neg_sign(y);
  match (x, y) {
    (N::NaN, _) => N::NaN, (_, N::NaN) => N::NaN,
    (N::Inf(_), N::Zero(_)) => N::NaN, (N::Zero(_), N::Inf(_)) => N::NaN,
    (N::Inf(_), _) => N::Inf(s), (_, N::Inf(_)) => N::Inf(s),
    (N::Zero(_), _) => N::Zero(s), (_, N::Zero(_)) => N::Zero(s),
    (N::Fin(a), N::Fin(b)) => rnd(a * b),
  }
}
pub open spec fn n_div(x: N, y: N) -> N {
  let s = neg_sign(x) != neg_sign(y);
  match (x, y) {
    (N::NaN, _) => N::NaN, (_, N::NaN) => N::NaN,
    (N::Inf(_), N::Inf(_)) => N::NaN, (N::Zero(_), N::Zero(_)) => N::NaN,
    (N::Inf(_), _) => N::Inf(s), (_, N::Zero(_)) => N::Inf(s),
    (_, N::Inf(_)) => N::Zero(s), (N::Zero(_), _) => N::Zero(s),
    (N::Fin(a), N::Fin(b)) => rnd(a / b),
  }
}
/// towards zero
pub open spec fn r_trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
/// Number::remainder
pub open spec fn n_rem(x: N, y: N) -> N {
  match (x, y) {
    (N::NaN, _) => N::NaN, (_, N::NaN) => N::NaN,
    (N::Inf(_), _) => N::NaN, (x, N::Inf(_)) => x,
    (_, N::Zero(_)) => N::NaN, (N::Zero(s), _) => N::Zero(s),
    (N::Fin(a), N::Fin(b)) => {
      let r = a - b * (r_trunc(a / b) as real);
      if r == 0real { N::Zero(a < 0real) } else { N::Fin(r) }
    },
  }
}
/// Number::exponentiate, for the cases it leaves to the implementation
pub uninterp spec fn n_powf(x: N, y: N) -> N;
pub open spec fn n_pow(x: N, y: N) -> N {
  if y is NaN { N::NaN }
  else if y is Zero { n_int(1) }
  else if y is Inf && (x == n_int(1) || x == n_int(-1)) { N::NaN }
  else { n_powf(x, y) }
}
pub open spec fn n_eq(x: N, y: N) -> bool { match (x, y) { (N::NaN, _) => false, (N::Zero(_), N::Zero(_)) => true, _ => x == y } }
pub open spec fn r_val(x: N) -> real { match x { N::Fin(a) => a, _ => 0real } }
pub open spec fn n_lt(x: N, y: N) -> bool {
  match (x, y) {
    (N::NaN, _) => false, (_, N::NaN) => false,
    (N::Inf(s), N::Inf(t)) => s && !t, (N::Inf(s), _) => s, (_, N::Inf(t)) => !t,
    _ => r_val(x) < r_val(y),
  }
}
pub open spec fn n_cmp(x: N, y: N) -> Option<core::cmp::Ordering> {
  if x is NaN || y is NaN { None } else if n_lt(x, y) { Some(core::cmp::Ordering::Less) } else if n_eq(x, y) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
}
/// n is the integer i
pub open spec fn is_int(n: N, i: int) -> bool { if i == 0 { n is Zero } else { n == N::Fin(i as real) } }
/// the integer part
pub open spec fn n_trunc(x: N) -> int { r_trunc(r_val(x)) }

pub broadcast axiom fn f_wf(a: f64)
  ensures (#[trigger] num(a)) matches N::Fin(x) ==> x != 0real && rnd(x) == N::Fin(x) && rnd(-x) == N::Fin(-x);
pub broadcast axiom fn f_lits(a: f64)
  ensures #![trigger num(a)]
    num(0.0f64) == n_int(0) && num(1.0f64) == n_int(1) && num(4294967296.0f64) == n_int(4294967296) && num(0.5f64) == N::Fin(0.5real);
// the operators never panic
pub broadcast axiom fn r_add(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn r_sub(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn r_mul(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn r_div(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn f_add(a: f64, b: f64, r: f64) ensures #[trigger] add_ensures(a, b, r) ==> num(r) == n_add(num(a), num(b));
pub broadcast axiom fn f_sub(a: f64, b: f64, r: f64) ensures #[trigger] sub_ensures(a, b, r) ==> num(r) == n_sub(num(a), num(b));
pub broadcast axiom fn f_mul(a: f64, b: f64, r: f64) ensures #[trigger] mul_ensures(a, b, r) ==> num(r) == n_mul(num(a), num(b));
pub broadcast axiom fn f_div(a: f64, b: f64, r: f64) ensures #[trigger] div_ensures(a, b, r) ==> num(r) == n_div(num(a), num(b));
pub broadcast axiom fn f_eq(a: f64, b: f64, r: bool) ensures #[trigger] eq_ensures(a, b, r) ==> r == n_eq(num(a), num(b));
pub broadcast axiom fn f_ne(a: f64, b: f64, r: bool) ensures #[trigger] ne_ensures(a, b, r) ==> r == !n_eq(num(a), num(b));
pub broadcast axiom fn f_lt(a: f64, b: f64, r: bool) ensures #[trigger] lt_ensures(a, b, r) ==> r == n_lt(num(a), num(b));
pub broadcast axiom fn f_gt(a: f64, b: f64, r: bool) ensures #[trigger] gt_ensures(a, b, r) ==> r == n_lt(num(b), num(a));
pub broadcast axiom fn f_le(a: f64, b: f64, r: bool) ensures #[trigger] le_ensures(a, b, r) ==> r == (n_lt(num(a), num(b)) || n_eq(num(a), num(b)));
pub broadcast axiom fn f_ge(a: f64, b: f64, r: bool) ensures #[trigger] ge_ensures(a, b, r) ==> r == (n_lt(num(b), num(a)) || n_eq(num(a), num(b)));
pub broadcast axiom fn f_cmp(a: f64, b: f64, r: Option<core::cmp::Ordering>) ensures #[trigger] partial_cmp_ensures(a, b, r) ==> r == n_cmp(num(a), num(b));
pub broadcast axiom fn f_i32(a: i32, r: f64) ensures #[trigger] float_cast_spec::<i32, f64>(a, r) ==> num(r) == n_int(a as int);
pub broadcast axiom fn f_u32(a: u32, r: f64) ensures #[trigger] float_cast_spec::<u32, f64>(a, r) ==> num(r) == n_int(a as int);
pub broadcast axiom fn f_u8(a: u8, r: f64) ensures #[trigger] float_cast_spec::<u8, f64>(a, r) ==> num(r) == n_int(a as int);
// `as u32` of an integer in range (out of range it saturates: unspecified here)
pub broadcast axiom fn f_to_u32(a: f64, r: u32, i: int)
  ensures #![trigger float_cast_spec::<f64, u32>(a, r), is_int(num(a), i)] float_cast_spec::<f64, u32>(a, r) && is_int(num(a), i) && 0 <= i <= u32::MAX ==> r == i;
pub broadcast group floats { r_add, r_sub, r_mul, r_div, f_wf, f_lits, f_add, f_sub, f_mul, f_div, f_eq, f_ne, f_lt, f_gt, f_le, f_ge, f_cmp, f_i32, f_u32, f_u8, f_to_u32 }
}
use fl::*;
broadcast use fl::floats;

pub assume_specification [f64::is_nan] (a: f64) -> (r: bool) ensures r == (num(a) is NaN);
pub assume_specification [f64::is_finite] (a: f64) -> (r: bool) ensures r == (num(a) is Fin || num(a) is Zero);
pub assume_specification [f64::is_infinite] (a: f64) -> (r: bool) ensures r == (num(a) is Inf);
pub assume_specification [f64::is_sign_positive] (a: f64) -> (r: bool) ensures !(num(a) is NaN) ==> r == !neg_sign(num(a));
pub assume_specification [f64::is_sign_negative] (a: f64) -> (r: bool) ensures !(num(a) is NaN) ==> r == neg_sign(num(a));
pub open spec fn n_abs(x: N) -> N { if neg_sign(x) { n_neg(x) } else { x } }
pub assume_specification [f64::abs] (a: f64) -> (r: f64) ensures num(r) == n_abs(num(a));
pub open spec fn signed_int(i: int, neg: bool) -> N { if i == 0 { N::Zero(neg) } else { N::Fin(i as real) } }
pub assume_specification [f64::trunc] (a: f64) -> (r: f64)
  ensures num(r) == match num(a) { N::Fin(x) => signed_int(r_trunc(x), x < 0real), n => n },
    num(a) is Fin || num(a) is Zero ==> is_int(num(r), n_trunc(num(a)));
/// to the nearest integer, halves away from zero
pub open spec fn r_near(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
pub assume_specification [f64::round] (a: f64) -> (r: f64)
  ensures num(r) == match num(a) { N::Fin(x) => signed_int(r_near(x), x < 0real), n => n };
pub assume_specification [f64::copysign] (a: f64, b: f64) -> (r: f64)
  ensures !(num(b) is NaN) ==> num(r) == (if neg_sign(num(a)) == neg_sign(num(b)) { num(a) } else { n_neg(num(a)) });
pub assume_specification [f64::rem_euclid] (a: f64, b: f64) -> (r: f64)
  // of integers, by a positive one (where the result is exact)
  ensures forall|i: int, m: int| m > 0 && #[trigger] is_int(num(a), i) && #[trigger] is_int(num(b), m) ==> is_int(num(r), i % m);
pub assume_specification [f64::powf] (a: f64, b: f64) -> (r: f64)
  ensures num(b) is Zero ==> num(r) == n_int(1),
    // pow(1, NaN) is 1, pow(±1, ±inf) is 1
    !(num(b) is Zero || num(b) is NaN || (num(b) is Inf && (num(a) == n_int(1) || num(a) == n_int(-1)))) ==> num(r) == n_powf(num(a), num(b));
#[verifier::external_body]
fn nan() -> (r: f64) ensures num(r) is NaN { f64::NAN }
#[verifier::external_body]
fn infinity() -> (r: f64) ensures num(r) == N::Inf(false) { f64::INFINITY }
#[verifier::external_body]
fn minus(a: f64) -> (r: f64) ensures num(r) == n_neg(num(a)) { -a }
#[verifier::external_body]
fn rem(a: f64, b: f64) -> (r: f64) ensures num(r) == n_rem(num(a), num(b)) { a % b }
/// the fraction of a double is a double, and so is its distance from the nearest integer
axiom fn fraction_exact(a: f64)
  ensures num(a) matches N::Fin(x) ==> (x - r_trunc(x) as real != 0real ==> rnd(x - r_trunc(x) as real) == N::Fin(x - r_trunc(x) as real))
    && (x - r_near(x) as real != 0real ==> rnd(x - r_near(x) as real) == N::Fin(x - r_near(x) as real));
proof fn by_one(v: f64)
  ensures n_mul(n_int(1), num(v)) == num(v), n_mul(n_int(-1), num(v)) == n_neg(num(v)),
{
  if num(v) is Fin {
    let x = num(v)->Fin_0;
    assert(1real * x == x) by (nonlinear_arith);
    assert(-1real * x == -x) by (nonlinear_arith);
    assert((1int as real) == 1real); assert((-1int) as real == -1real);
  }
}
proof fn floor_is(x: real, i: int) requires i as real <= x, x < i as real + 1real ensures x.floor() == i {}
proof fn floor_of(x: real) ensures x.floor() as real <= x, x < x.floor() as real + 1real {}
proof fn trunc_int(i: int) ensures r_trunc(i as real) == i, (i as real).floor() == i, r_trunc(0real) == 0
{ floor_is(i as real, i); floor_is((-i) as real, -i); floor_is(0real, 0); assert((-i) as real == -(i as real)); }
proof fn near_neg(x: real, r: int)
  requires x < 0real, r == -((-x + 0.5real).floor()),
  ensures x - r as real == 0.5real ==> (x + 0.5real).floor() == r + 1, x - r as real != 0.5real ==> (x + 0.5real).floor() == r,
{
  let y = -x + 0.5real; let f = y.floor();
  floor_of(y); assert(r as real == -(f as real));
  if x - r as real == 0.5real { assert((r + 1) as real == r as real + 1real); floor_is(x + 0.5real, r + 1); } else { floor_is(x + 0.5real, r); }
}
proof fn near_int(i: int) ensures r_near(i as real) == i
{ floor_is(i as real + 0.5real, i); assert((-i) as real == -(i as real)); floor_is((-i) as real + 0.5real, -i); }
proof fn near(x: real)
  ensures x >= 0real ==> r_near(x) == (x + 0.5real).floor() && x - r_near(x) as real != 0.5real,
    x < 0real && x - r_near(x) as real == 0.5real ==> (x + 0.5real).floor() == r_near(x) + 1,
    x < 0real && x - r_near(x) as real != 0.5real ==> (x + 0.5real).floor() == r_near(x),
    x == x.floor() as real ==> r_near(x) as real == x,
{
  if x >= 0real { floor_of(x + 0.5real); } else { near_neg(x, r_near(x)); }
  if x == x.floor() as real { near_int(x.floor()); }
}
pub open spec fn pow2(n: int) -> int
  decreases n
{ if n <= 0 { 1 } else { 2 * pow2(n - 1) } }
pub open spec fn signed32(u: int) -> int { let m = u % 4294967296; if m >= 2147483648 { m - 4294967296 } else { m } }
pub assume_specification [core::cmp::Ordering::is_lt] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Less);
pub assume_specification [core::cmp::Ordering::is_le] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_gt] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_ge] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Less);
// `wrapping_shl` and `wrapping_shr`, by less than the width
trait Shifts: Sized { fn wshl(self, n: u32) -> Self; fn wshr(self, n: u32) -> Self; }
impl Shifts for i32 {
  #[verifier::external_body]
  fn wshl(self, n: u32) -> (r: i32) ensures n < 32 ==> r == signed32(self * pow2(n as int)) { self.wrapping_shl(n) }
  #[verifier::external_body]
  fn wshr(self, n: u32) -> (r: i32) ensures n < 32 ==> r == (self as int) / pow2(n as int) { self.wrapping_shr(n) }
}
impl Shifts for u32 {
  #[verifier::external_body]
  fn wshl(self, n: u32) -> (r: u32) ensures n < 32 ==> r == (self * pow2(n as int)) % 4294967296 { self.wrapping_shl(n) }
  #[verifier::external_body]
  fn wshr(self, n: u32) -> (r: u32) ensures n < 32 ==> r == (self as int) / pow2(n as int) { self.wrapping_shr(n) }
}
