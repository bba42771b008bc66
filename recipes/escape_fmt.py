"""C05: hcl-rs' write_escaped_string (crates/hcl-rs/src/format/{mod,escape}.rs)."""
import ast, re
import rx, libstr, libescape

NAME = "escape_fmt"
MOD = "crates/hcl-rs/src/format/mod.rs"
ESC = "crates/hcl-rs/src/format/escape.rs"
USES = libstr.USES

PRELUDE = r'''
// ---- trusted: a byte sink; a write that succeeds appended exactly its bytes ---------------------------
#[verifier::external_body]
pub struct XOut { s: Vec<u8> }
impl View for XOut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct XError;
pub type XResult = Result<(), XError>;
#[verifier::external_body]
pub fn x_write_arr<const N: usize>(w: &mut XOut, b: &[u8; N]) -> (r: XResult) ensures r is Ok ==> final(w)@ == old(w)@ + b@ { unimplemented!() }
impl XOut {
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: XResult) ensures r is Ok ==> final(self)@ == old(self)@ + b@ { unimplemented!() }
}
// decided by the recipe template_markers (C04)
#[verifier::external_body]
pub fn x_escape_markers(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
#[verifier::external_body]
pub fn x_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
pub struct Fmt { pub writer: XOut }

pub open spec fn hexb(n: int) -> u8 { hex_digit(n, false) as u8 }
// what one byte becomes
pub open spec fn bpiece(b: u8) -> Seq<u8> {
    if tab(b) == 0 { seq![b] } else if tab(b) == 117 { seq![92u8, 117u8, 48u8, 48u8, hexb(b as int / 16), hexb(b as int % 16)] } else { seq![92u8, tab(b)] }
}
pub open spec fn bwritten(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { bwritten(s.drop_last()) + bpiece(s.last()) }
}
proof fn bwritten_push(s: Seq<u8>, b: u8) ensures bwritten(s.push(b)) == bwritten(s) + bpiece(b)
{ assert(s.push(b).drop_last() =~= s); }
proof fn bwritten_concat(a: Seq<u8>, b: Seq<u8>) ensures bwritten(a + b) == bwritten(a) + bwritten(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bwritten(a) + bwritten(b) =~= bwritten(a)); }
    else {
        bwritten_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(bwritten(a + b) =~= bwritten(a) + bwritten(b));
    }
}
// untouched bytes
proof fn bwritten_plain(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> tab(#[trigger] s[i]) == 0 ensures bwritten(s) == s decreases s.len()
{ if s.len() > 0 { bwritten_plain(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); assert(tab(s[s.len() - 1]) == 0); } }
proof fn enc1(c: char) ensures encode_utf8(seq![c]) == encode_scalar(c as u32)
{ enc_step(seq![c]); assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
proof fn enc_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8
    decreases s.len()
{
    if s.len() > 0 {
        enc_step(s); let t = s.drop_first();
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
        enc_ascii(t);
        assert(encode_utf8(s) == seq![s[0] as u8] + encode_utf8(t));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] encode_utf8(s)[i] == s[i] as u8 by { if i > 0 { assert(encode_utf8(s)[i] == encode_utf8(t)[i - 1]); assert(t[i - 1] == s[i]); } }
    } else { assert(encode_utf8(s) =~= Seq::<u8>::empty()); }
}
// the bytes written for a character are the encoding of what the round trip is proved for
proof fn bpiece_char(c: char) ensures bwritten(encode_scalar(c as u32)) == encode_utf8(piece(c, false, false))
{
    let p = piece(c, false, false);
    enc1(c);
    enc_step(seq![c]);
    if (c as u32) < 0x80 {
        let b = c as u8;
        assert(encode_scalar(c as u32) == seq![b]);
        assert(seq![b].drop_last() =~= Seq::<u8>::empty());
        assert(bwritten(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + bpiece(b) =~= bpiece(b));
        assert(bwritten(seq![b]) == bwritten(seq![b].drop_last()) + bpiece(seq![b].last()));
        if p != seq![c] {
            let (h, l) = (c as int / 16, c as int % 16);
            assert(hex_digit(h, false) as u32 <= 0x66 && hex_digit(l, false) as u32 <= 0x66);
            enc_ascii(p);
        } else { assert(p == seq![c]); }
        assert(bpiece(b) =~= encode_utf8(p));
    } else {
        let e = encode_scalar(c as u32);
        assert(p == seq![c]);
        assert forall|i: int| 0 <= i < e.len() implies tab(#[trigger] e[i]) == 0 by { assert(e[i] >= 0x80); }
        bwritten_plain(e);
    }
}
proof fn bwritten_text(s: Seq<char>) ensures bwritten(encode_utf8(s)) == encode_utf8(written(s, false, false)) decreases s.len()
{
    if s.len() == 0 {
        assert(encode_utf8(s) =~= Seq::<u8>::empty());
        assert(written(s, false, false) =~= Seq::<char>::empty());
        assert(encode_utf8(written(s, false, false)) =~= Seq::<u8>::empty());
    } else {
        enc_step(s);
        let t = s.drop_first();
        bwritten_text(t);
        bwritten_concat(encode_scalar(s[0] as u32), encode_utf8(t));
        bpiece_char(s[0]);
        encode_utf8_concat(piece(s[0], false, false), written(t, false, false));
    }
}
proof fn boundary_after(s: Seq<char>, p: int)
    requires 0 <= p < encode_utf8(s).len(), encode_utf8(s)[p] < 0x80
    ensures is_char_boundary(encode_utf8(s), p), is_char_boundary(encode_utf8(s), p + 1)
{
    let k = split_at_byte(s, p);
    char_to_byte(s, k);
    encode_utf8_valid_utf8(s);
    if p + 1 < encode_utf8(s).len() {
        pos_step(s, k);
        assert(k + 1 < s.len()) by { if k + 1 == s.len() { assert(s.take(k + 1) =~= s); } }
        pos_step(s, k + 1);
        enc_step(s.skip(k + 1));
        let q = p + 1;
        encode_utf8_valid_utf8(s.take(k + 1));
        is_char_boundary_at(s, k + 1);
    } else { encode_utf8_valid_utf8(s); is_char_boundary_start_end_of_seq(encode_utf8(s)); }
}
proof fn is_char_boundary_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len() ensures is_char_boundary(encode_utf8(s), pos(s, k))
    decreases k
{
    encode_utf8_valid_utf8(s);
    if k == 0 { assert(s.take(0) =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); is_char_boundary_start_end_of_seq(encode_utf8(s)); }
    else if k == s.len() { assert(s.take(k) =~= s); is_char_boundary_start_end_of_seq(encode_utf8(s)); }
    else {
        pos_step(s, k);
        enc_step(s.skip(k));
        assert(s.skip(k)[0] == s[k]);
        let b = encode_utf8(s)[pos(s, k)];
        assert(encode_utf8(s).subrange(pos(s, k), pos(s, k + 1))[0] == b);
        let c = s[k] as u32;
        char_is_scalar(s[k]);
        if c < 0x80 { assert(is_leading_byte_width_1(leading_byte_width_1(c))) by (bit_vector) requires c < 0x80; }
        else if c < 0x800 { assert(is_leading_byte_width_2(leading_byte_width_2(c))) by (bit_vector) requires c < 0x800; }
        else if c < 0x10000 { assert(is_leading_byte_width_3(leading_byte_width_3(c))) by (bit_vector) requires c < 0x10000; }
        else { assert(is_leading_byte_width_4(leading_byte_width_4(c))) by (bit_vector) requires c <= 0x10ffff; }
        is_char_boundary_iff_is_leading_byte(encode_utf8(s), pos(s, k));
    }
}
'''


def table(repo):
    """ESCAPE and the constants it is written with, evaluated from the source text."""
    f = rx.File(f"{repo}/{ESC}")
    consts = {}
    for m in re.finditer(r"const (\w+): u8 = (b'(?:\\.|[^\\'])'|\d+);", f.text):
        consts[m.group(1)] = ast.literal_eval(m.group(2))[0] if m.group(2).startswith("b") else int(m.group(2))
    m = re.search(r"static ESCAPE: \[u8; 256\] = \[([^\]]*)\];", f.text)
    if not m:
        raise rx.Lost("ESCAPE: table not recognised")
    names = [x.strip() for x in m.group(1).split(",") if x.strip()]
    if len(names) != 256 or any(n not in consts for n in names):
        raise rx.Lost("ESCAPE: table entries not recognised")
    vals = [consts[n] for n in names]
    body = "".join(f"if b == {i} {{ {v} }} else " for i, v in enumerate(vals) if v)
    t = f"// evaluated from {ESC}::ESCAPE\npub open spec fn tab(b: u8) -> u8 {{ {body}{{ 0 }} }}\n"
    t += f"pub fn x_table(b: u8) -> (r: u8) ensures r == tab(b) {{ {body}{{ 0 }} }}\n"
    return f, consts, t


def lit(s):
    return "[" + ", ".join(f"{b}u8" for b in ast.literal_eval(s)) + "]"


def build(repo):
    rtable, _ = libescape.reader_table(repo)
    esc, consts, tab = table(repo)
    out, fns = [libstr.PRELUDE, rtable, libescape.SPEC, tab, PRELUDE], []
    out.append("pub " + esc.item("enum", "CharEscape").removeprefix("pub "))
    out.append("""impl CharEscape { pub open spec fn bytes(self) -> Seq<u8> { match self {
    CharEscape::Quote => seq![92u8, 34u8], CharEscape::ReverseSolidus => seq![92u8, 92u8], CharEscape::Backspace => seq![92u8, 98u8],
    CharEscape::FormFeed => seq![92u8, 102u8], CharEscape::LineFeed => seq![92u8, 110u8], CharEscape::CarriageReturn => seq![92u8, 114u8],
    CharEscape::Tab => seq![92u8, 116u8],
    CharEscape::AsciiControl(b) => seq![92u8, 117u8, 48u8, 48u8, hexb(b as int / 16), hexb(b as int % 16)] } } }""")
    body = []
    f = esc.fn("from_escape_table", "impl CharEscape")
    for n, v in consts.items():
        f.rewrite(f"self::{n}", f"{v}u8", "constants evaluated", must=False)
    f.rewrite("unreachable!()", "vstd::pervasive::unreached()", "unreachable! must be unreachable", must=False)
    f.spec("requires escape == tab(byte), escape != 0\nensures r.bytes() == bpiece(byte)")
    fns.append(f); body.append(f.render())
    f = esc.fn("write_escaped", "impl CharEscape")
    f.sig = f.sig.replace("<W>", "").split("where")[0]
    f.sig_rewrite("&mut W", "&mut XOut", "the writer's bytes")
    f.sig_rewrite("io::Result<()>", "XResult")
    f.body = re.sub(r'b"(?:\\.|[^"\\])*"', lambda m: lit(m.group(0)), f.body)
    f.body = re.sub(r"b'(?:\\.|[^'\\])'", lambda m: f"{ast.literal_eval(m.group(0))[0]}u8", f.body)
    f.rewrite("(byte >> $n)", "(*byte >> $n)", "deref of a bound reference", must=False)
    f.rewrite("(byte & $n)", "(*byte & $n)", "deref of a bound reference", must=False)
    f.rewrite("static $n: $t = *$v;", "let $n: $t = $v;", "static array as a local", must=False)
    f.rewrite("writer.write_all($b)", "x_write_arr(writer, $b)", "write_all of an array", must=False)
    f.rewrite("x_write_arr(writer, s)", "x_write_arr(writer, &s)", "arrays by value", must=False)
    f.spec("ensures r is Ok ==> final(writer)@ == old(writer)@ + self.bytes()")
    f.at("start", "proof { match self { CharEscape::AsciiControl(b) => { let v = *b; assert((v >> 4) as int == v as int / 16 && (v & 0xF) as int == v as int % 16 && (v >> 4) < 16 && (v & 0xF) < 16) by { assert(v >> 4 == v / 16 && v & 0xF == v % 16) by (bit_vector); } }, _ => {} } }")
    fns.append(f); body.append(f.render())
    out.append("impl CharEscape {\n" + "\n".join(body) + "\n}")

    src = rx.File(f"{repo}/{MOD}")
    body = []

    def common(name, spec):
        f = src.fn(name, "impl<W> Formatter<'_, W>")
        f.sig_rewrite("Result<()>", "XResult")
        f.body = re.sub(r'b"(?:\\.|[^"\\])*"', lambda m: "&" + lit(m.group(0)), f.body)
        f.spec(spec)
        fns.append(f)
        return f

    f = common("write_bytes", "ensures r is Ok ==> final(self).writer@ == old(self).writer@ + buf@")
    body.append(f.render())
    f = common("write_string_fragment", "ensures r is Ok ==> final(self).writer@ == old(self).writer@ + encode_utf8(s@)")
    body.append(f.render())
    f = common("write_escaped_string", "ensures r is Ok ==> final(self).writer@ == old(self).writer@ + encode_utf8(written(esc(value@), false, false))")
    f.rewrite("escape_markers(value)", "x_escape_markers(value)", "contract proved in template_markers", must=False)
    f.rewrite("let value = x_escape_markers(value);", "let ghost v0 = value@; let x_value = x_escape_markers(value); let value = x_str(&x_value);", "deref to str", must=False)
    f.rewrite("ESCAPE[$i as usize]", "x_table($i)", "table lookup; the table is evaluated from the source", must=False)
    f.rewrite_fn("for ($i, &$b) in $s.iter().enumerate() $body", lambda b: f"let mut x_i: usize = 0; while x_i < {b['s']}.len() {{ let {b['i']} = x_i; x_i = x_i + 1; let {b['b']} = {b['s']}[{b['i']}]; {b['body'][1:]}",
                 "enumerate() as an indexed while loop", must=False)
    f.rewrite("&$s[$a..$b]", "x_slice($s, $a, $b)", "str slicing to its contract", must=False)
    f.rewrite("&$s[$a..]", "x_slice_from($s, $a)", "str slicing to its contract", must=False)
    f.before_loop(0, "let ghost o0 = self.writer@; let ghost B = bytes@; proof { encode_utf8_valid_utf8(value@); is_char_boundary_start_end_of_seq(B); assert(B.take(0) =~= Seq::empty()); assert(bwritten(B.take(0)) =~= Seq::empty()); assert(o0 + Seq::<u8>::empty() =~= o0); assert(B.subrange(0, 0) =~= Seq::empty()); bwritten_text(value@); }")
    f.loop(0, """invariant bytes@ == B, B == encode_utf8(value@), start <= x_i <= B.len(), boundary(value, start as int),
forall|j: int| start <= j < x_i ==> tab(#[trigger] B[j]) == 0,
self.writer@ == o0 + bwritten(B.take(start as int))
decreases B.len() - x_i""",
           start="proof { let i = x_i; assert(B.take(i as int).push(B[i as int]) =~= B.take(i + 1)); if tab(B[i as int]) != 0 { boundary_after(value@, i as int); "
                 "bwritten_concat(B.take(start as int), B.subrange(start as int, i as int)); assert(B.take(start as int) + B.subrange(start as int, i as int) =~= B.take(i as int)); bwritten_plain(B.subrange(start as int, i as int)); bwritten_push(B.take(i as int), B[i as int]); "
                 "assert(o0 + bwritten(B.take(start as int)) + B.subrange(start as int, i as int) =~= o0 + bwritten(B.take(i as int))); assert(o0 + bwritten(B.take(i as int)) + bpiece(B[i as int]) =~= o0 + bwritten(B.take(i + 1))); } }",
           after="proof { let n = B.len() as int; bwritten_concat(B.take(start as int), B.subrange(start as int, n)); assert(B.take(start as int) + B.subrange(start as int, n) =~= B); bwritten_plain(B.subrange(start as int, n)); assert(o0 + bwritten(B.take(start as int)) + B.subrange(start as int, n) =~= o0 + bwritten(B)); assert(B.take(n) =~= B); assert(boundary(value, n)); }")
    body.append(f.render())
    f = common("write_quoted_string_escaped", """ensures r is Ok ==> exists|e: Seq<char>| final(self).writer@ == old(self).writer@ + encode_utf8(seq!['"'] + e + seq!['"']) && read(e) == Some(s@) && clean(e)""")
    f.at("start", """proof { round_trip(s@, false, false); let e = written(esc(s@), false, false); let q = seq!['"'];
enc1('"'); enc_step(seq!['"']); encode_utf8_concat(q, e); encode_utf8_concat(q + e, q);
assert(encode_utf8(q) =~= seq![34u8]);
assert(old(self).writer@ + seq![34u8] + encode_utf8(e) + seq![34u8] =~= old(self).writer@ + encode_utf8(q + e + q)); }""")
    body.append(f.render())
    out.append("impl Fmt {\n" + "\n".join(body) + "\n}")
    return out, fns
