"""C17: where a parse error is (crates/hcl-edit/src/parser/error.rs)."""
import re
import rx
import libchain
from libeval import pub_fields
NAME = "locate"
USES = "use vstd::utf8::*;\nuse vstd::seq::*;\nuse vstd::slice::*;\n"
E = "crates/hcl-edit/src/parser/error.rs"

PRELUDE = libchain.PRELUDE + r"""
global size_of usize == 8;
// winnow's ParseError: the input, all of it valid UTF-8, and an offset on a character border in it
pub struct XParseError { pub bytes: Vec<u8>, pub at: usize }
impl XParseError {
    pub open spec fn ok(&self) -> bool { self.bytes@.len() < usize::MAX && valid_utf8(self.bytes@) && self.at <= self.bytes@.len() && border(self.bytes@, self.at as int) }
    pub fn x_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { self.bytes.as_slice() }
    pub fn offset(&self) -> (r: usize) ensures r == self.at { self.at }
}
pub open spec fn border(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && valid_utf8(s.take(i)) && valid_utf8(s.skip(i)) }
pub fn x_sub(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { slice_subrange(s, a, b) }
pub fn x_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ---- what is reported --------------------------------------------------------------------------------
pub open spec fn newlines(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { newlines(s.drop_last()) + if s.last() == 10 { 1nat } else { 0 } } }
// no line feed between a and b
pub open spec fn one_line(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] s[i] != 10 }
pub open spec fn starts_line(s: Seq<u8>, a: int) -> bool { 0 <= a <= s.len() && (a == 0 || s[a - 1] == 10) }
pub open spec fn ends_line(s: Seq<u8>, b: int) -> bool { 0 <= b <= s.len() && (b == s.len() || s[b] == 10) }
pub open spec fn begins_char(b: u8) -> bool { !(0x80 <= b <= 0xbf) }
pub open spec fn chars_begun(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { chars_begun(s.drop_last()) + if begins_char(s.last()) { 1nat } else { 0 } } }

pub open spec fn reported(s: Seq<u8>, at: int, line: Seq<u8>, l: Location) -> bool {
    exists|a: int, b: int| #[trigger] starts_line(s, a) && #[trigger] ends_line(s, b) && shown(s, at, a, b, line, l)
}
// [a, b) is the line: the error is in it, on its line break or at the end of the input; the column is
// the number of characters in front of the error
pub open spec fn shown(s: Seq<u8>, at: int, a: int, b: int, line: Seq<u8>, l: Location) -> bool {
    &&& starts_line(s, a) && ends_line(s, b) && a <= b && one_line(s, a, b)
    &&& a <= at && (at <= b || at == s.len()) && a <= l.offset && l.offset <= b && (l.offset == at || at == s.len())
    &&& line == s.subrange(a, b)
    &&& l.line == 1 + newlines(s.take(a))
    &&& l.column == 1 + chars_begun(s.subrange(a, at))
    // .. which is the number of characters of the text in front of it
    &&& forall|t: Seq<char>| #[trigger] encode_utf8(t) == s.subrange(a, at) ==> l.column == 1 + t.len()
}
proof fn begun_concat(a: Seq<u8>, b: Seq<u8>) ensures chars_begun(a + b) == chars_begun(a) + chars_begun(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { begun_concat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn begun_one(c: char) ensures chars_begun(encode_scalar(c as u32)) == 1
{
    let s = encode_scalar(c as u32);
    assert(1 <= s.len() <= 4);
    encode_utf8_valid_utf8(seq![c]);
    assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); assert(encode_utf8(seq![c]) =~= s);
    assert(valid_first_scalar(s));
    assert(forall|b: u8| (#[trigger] (b & 0xc0u8) == 0x80u8) <==> (0x80u8 <= b && b <= 0xbfu8)) by (bit_vector);
    assert(begins_char(s[0]));
    let u = c as u32;
    assert(0x80 <= last_continuation_byte(u) && last_continuation_byte(u) <= 0xbf) by (bit_vector);
    assert(0x80 <= second_last_continuation_byte(u) && second_last_continuation_byte(u) <= 0xbf) by (bit_vector);
    assert(0x80 <= third_last_continuation_byte(u) && third_last_continuation_byte(u) <= 0xbf) by (bit_vector);
    assert(forall|i: int| 1 <= i < s.len() ==> !begins_char(#[trigger] s[i]));
    reveal_with_fuel(chars_begun, 6);
}
proof fn begun_text(t: Seq<char>) ensures chars_begun(encode_utf8(t)) == t.len() decreases t.len()
{
    if t.len() == 0 { assert(encode_utf8(t) =~= Seq::<u8>::empty()); } else {
        begun_text(t.drop_first()); begun_one(t[0]);
        assert(encode_utf8(t) == encode_scalar(t[0] as u32) + encode_utf8(t.drop_first()));
        begun_concat(encode_scalar(t[0] as u32), encode_utf8(t.drop_first()));
    }
}
proof fn begun_texts() ensures forall|t: Seq<char>| #[trigger] chars_begun(encode_utf8(t)) == t.len()
{ assert forall|t: Seq<char>| #[trigger] chars_begun(encode_utf8(t)) == t.len() by { begun_text(t); } }
"""


def build(repo):
    src = rx.File(f"{repo}/{E}")
    out = [PRELUDE, pub_fields(src.item("struct", "Location"))]
    f = src.fn("is_continuation_byte")
    f.vis = "pub "
    f.at("start", "assert(b & 0b1100_0000u8 == 0b1000_0000u8 <==> (0x80u8 <= b && b <= 0xbfu8)) by (bit_vector);")
    f.spec("ensures r == !begins_char(b)")
    g = src.fn("locate_error")
    g.vis = "pub "
    g.attrs = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
    g.sig_rewrite("ParseError<Input<'a>, ContextError>", "XParseError")
    g.rewrite("err.input().as_bytes()", "err.x_bytes()", "the input of winnow's error", must=False)
    g.rewrite("$a.offset().min($b_s)", "x_min($a.offset(), $b_s)", "usize::min", must=False)
    g.rewrite("&input[$a..$b_s]", "x_sub(input, $a, $b_s)", "slice indexing to its contract", must=False)
    g.rewrite("input[..$b]", "x_sub(input, 0, $b)", "slice indexing to its contract", must=False)
    g.rewrite("&x_sub(input, $a, )", "x_sub(input, $a, input.len())", "", must=False)
    g.rewrite("x_sub(input, $a, )", "x_sub(input, $a, input.len())", "", must=False)
    g.rewrite("input[$a..]", "x_sub(input, $a, input.len())", "slice indexing to its contract", must=False)
    g.rewrite("input[$a..$b_s]", "x_sub(input, $a, $b_s)", "slice indexing to its contract", must=False)
    libchain.chains(g)
    libchain.options(g)
    g.loop(0, """invariant x_i0 <= x_b0@.len(), x_b0@ == input@.take(offset as int), one_line(input@, offset - x_i0, offset as int), x_r0 is None,
ensures one_line(input@, offset - (if x_r0 is Some { x_r0->Some_0 as int } else { offset as int }), offset as int), x_r0 is Some ==> x_r0->Some_0 < offset && input@[offset - x_r0->Some_0 - 1] == 10
decreases x_b0@.len() - x_i0""")
    g.loop(1, """invariant x_i1 <= x_b1@.len(), x_b1@ == input@.skip(line_begin as int), one_line(input@, line_begin as int, line_begin + x_i1), x_r1 is None,
ensures x_r1 is Some ==> line_begin + x_r1->Some_0 < input@.len() && input@[line_begin + x_r1->Some_0] == 10 && one_line(input@, line_begin as int, line_begin + x_r1->Some_0),
    x_r1 is None ==> one_line(input@, line_begin as int, input@.len() as int)
decreases x_b1@.len() - x_i1""")
    g.loop(2, """invariant x_i2 <= x_b2@.len(), x_b2@ == input@.take(line_begin as int), x_r2 == newlines(input@.take(x_i2 as int)), x_r2 <= x_i2
decreases x_b2@.len() - x_i2""", start="proof { assert(input@.take(x_i2 + 1).drop_last() =~= input@.take(x_i2 as int)); assert(input@.take(x_i2 + 1).last() == x_b2@[x_i2 as int]); }", after="proof { assert(input@.take(x_i2 as int) =~= input@.take(line_begin as int)); }")
    g.loop(3, """invariant x_i3 <= x_b3@.len(), x_b3@ == input@.subrange(line_begin as int, err.at as int), x_r3 == chars_begun(x_b3@.take(x_i3 as int)), x_r3 <= x_i3
decreases x_b3@.len() - x_i3""", start="proof { assert(x_b3@.take(x_i3 + 1).drop_last() =~= x_b3@.take(x_i3 as int)); }",
           after="""proof { let s = err.bytes@; let a = line_begin as int; let b = line_begin + line_context@.len(); assert(input@ == s); assert(starts_line(s, a)); assert(ends_line(s, b)); assert(one_line(s, a, b)); assert(line_context@ =~= s.subrange(a, b));
    assert(x_b3@.take(x_i3 as int) =~= s.subrange(a, err.at as int)); assert(a <= offset); assert(offset <= b) by { if b < offset { assert(s[b] == 10); } } }""")
    g.at("start", "proof { begun_texts(); assert(starts_line(err.bytes@, 0)); assert(ends_line(err.bytes@, err.bytes@.len() as int)); if err.bytes@.len() == 0 { assert(err.bytes@.subrange(0, 0) =~= err.bytes@); assert(err.bytes@.take(0) =~= err.bytes@); } }")
    g.at("end", "")
    g.spec("requires err.ok()\nensures reported(err.bytes@, err.at as int, r.0@, r.1)")
    for x in (f, g):
        out.append(x.render())
    return out, [f, g]
