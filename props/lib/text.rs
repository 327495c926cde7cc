// ---- lib/text.rs: byte offsets of characters ---------------------------------
/// byte offset of the i-th character
pub open spec fn off(s: Seq<char>, i: int) -> int { encode_utf8(s.take(i)).len() as int }

pub proof fn off_ends(s: Seq<char>)
  ensures off(s, 0) == 0, off(s, s.len() as int) == encode_utf8(s).len(),
{ assert(s.take(0) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s); encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
  assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty()); }

pub proof fn off_split(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= s.len(),
  ensures
    off(s, j) == off(s, i) + off(s.skip(i), j - i),
    encode_utf8(s).subrange(off(s, i), off(s, j)) == encode_utf8(s.subrange(i, j)),
    0 <= off(s, i) <= off(s, j) <= encode_utf8(s).len(),
{
  let a = s.take(i); let b = s.subrange(i, j); let c = s.skip(j);
  assert(s.take(j) =~= a + b); assert(s =~= (a + b) + c); assert(s.skip(i).take(j - i) =~= b);
  encode_utf8_concat(a, b); encode_utf8_concat(a + b, c);
  assert(encode_utf8(s).subrange(off(s, i), off(s, j)) =~= encode_utf8(b));
}
pub proof fn one_char(c: char)
  ensures
    1 <= encode_utf8(seq![c]).len() <= 4,
    encode_utf8(seq![c]).len() == c.len_utf8(),
    (c as u32) < 0x80 ==> encode_utf8(seq![c]) == seq![c as u8],
    (c as u32) >= 0x80 ==> forall|k: int| 0 <= k < encode_utf8(seq![c]).len() ==> #[trigger] encode_utf8(seq![c])[k] >= 0x80,
    !is_continuation_byte(encode_utf8(seq![c])[0]),
    forall|k: int| 1 <= k < encode_utf8(seq![c]).len() ==> is_continuation_byte(#[trigger] encode_utf8(seq![c])[k]),
{
  reveal_with_fuel(encode_utf8, 2);
  let v = c as u32;
  assert(seq![c].drop_first() =~= Seq::<char>::empty());
  assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
  assert(encode_utf8(seq![c]) =~= encode_scalar(v));
  let b1 = leading_byte_width_1(v); let b2 = leading_byte_width_2(v); let b3 = leading_byte_width_3(v); let b4 = leading_byte_width_4(v);
  let l1 = last_continuation_byte(v); let l2 = second_last_continuation_byte(v); let l3 = third_last_continuation_byte(v);
  assert(b1 == (v & 0x7F) as u8);
  assert(v < 0x80 ==> (v & 0x7F) as u8 == v as u8) by (bit_vector);
  assert(l1 == 0x80u8 | ((v & 0x3F) as u8)); assert(l2 == 0x80u8 | (((v >> 6) & 0x3F) as u8)); assert(l3 == 0x80u8 | (((v >> 12) & 0x3F) as u8));
  assert(b2 == 0xC0u8 | (((v >> 6) & 0x1F) as u8)); assert(b3 == 0xE0u8 | (((v >> 12) & 0x0F) as u8)); assert(b4 == 0xF0u8 | (((v >> 18) & 0x07) as u8));
  assert(forall|x: u8| (0x80u8 | x) >= 0x80u8) by (bit_vector);
  assert(forall|x: u32| (0x80u8 | ((x & 0x3F) as u8)) <= 0xBFu8) by (bit_vector);
  assert(forall|x: u8| (0xC0u8 | x) >= 0xC0u8) by (bit_vector);
  assert(forall|x: u8| (0xE0u8 | x) >= 0xC0u8) by (bit_vector);
  assert(forall|x: u8| (0xF0u8 | x) >= 0xC0u8) by (bit_vector);
}
/// character starts are exactly the char boundaries
pub proof fn off_boundary(s: Seq<char>, i: int)
  requires 0 <= i <= s.len(),
  ensures is_char_boundary(encode_utf8(s), off(s, i)),
{
  let b = encode_utf8(s);
  off_ends(s); encode_utf8_valid_utf8(s);
  if i < s.len() {
    off_split(s, i, i + 1); one_char(s[i]);
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    assert(b.subrange(off(s, i), off(s, i + 1))[0] == b[off(s, i)]);
    is_char_boundary_iff_not_is_continuation_byte(b, off(s, i));
  } else { is_char_boundary_start_end_of_seq(b); }
}
/// the character a byte belongs to
pub proof fn char_at(s: Seq<char>, k: int) -> (i: int)
  requires 0 <= k < encode_utf8(s).len(),
  ensures 0 <= i < s.len(), off(s, i) <= k < off(s, i + 1),
    encode_utf8(s)[k] == encode_utf8(seq![s[i]])[k - off(s, i)], off(s, i + 1) - off(s, i) == encode_utf8(seq![s[i]]).len(),
{ off_ends(s); char_at_from(s, k, s.len() as int) }
proof fn char_at_from(s: Seq<char>, k: int, n: int) -> (i: int)
  requires 0 <= k < off(s, n), 0 <= n <= s.len(),
  ensures 0 <= i < s.len(), off(s, i) <= k < off(s, i + 1),
    encode_utf8(s)[k] == encode_utf8(seq![s[i]])[k - off(s, i)], off(s, i + 1) - off(s, i) == encode_utf8(seq![s[i]]).len(),
  decreases n,
{
  off_ends(s);
  if k < off(s, n - 1) { char_at_from(s, k, n - 1) } else {
    let i = n - 1;
    off_split(s, i, i + 1); 
    assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    assert(encode_utf8(s).subrange(off(s, i), off(s, i + 1))[k - off(s, i)] == encode_utf8(s)[k]);
    i
  }
}
pub proof fn boundary_off(s: Seq<char>, k: int) -> (i: int)
  requires is_char_boundary(encode_utf8(s), k), 0 <= k <= encode_utf8(s).len(),
  ensures 0 <= i <= s.len(), off(s, i) == k,
{
  let b = encode_utf8(s);
  off_ends(s); encode_utf8_valid_utf8(s);
  if k == b.len() { s.len() as int } else {
    let i = char_at(s, k);
    one_char(s[i]);
    is_char_boundary_iff_not_is_continuation_byte(b, k);
    i
  }
}
// ---- end lib/text.rs ----------------------------------------------------------
