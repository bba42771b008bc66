"""C05: hcl-edit's encode_quoted_string / encode_escaped (crates/hcl-edit/src/encode/mod.rs)."""
import rx, libstr, libescape

NAME = "escape_edit"
SRC = "crates/hcl-edit/src/encode/mod.rs"
USES = libstr.USES

PRELUDE = r'''
// ---- trusted: a text sink; a write that succeeds appended exactly its text ---------------------------
#[verifier::external_body]
pub struct XSink { s: String }
impl View for XSink { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct XError;
pub type XResult = Result<(), XError>;
impl XSink {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: XResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: XResult) ensures r is Ok ==> final(self)@ == old(self)@.push(c) { unimplemented!() }
}
// write!(buf, "\\u{:04X}", n) for n < 0x100
#[verifier::external_body]
pub fn x_write_hex(b: &mut XSink, n: u32) -> (r: XResult) requires n < 0x100
    ensures r is Ok ==> final(b)@ == old(b)@ + seq!['\\', 'u', '0', '0', hex_digit(n as int / 16, true), hex_digit(n as int % 16, true)]
{ unimplemented!() }
// decided by the recipe template_markers (C04)
#[verifier::external_body]
pub fn x_escape_markers(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
#[verifier::external_body]
pub fn x_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
'''


def build(repo):
    table, rf = libescape.reader_table(repo)
    out, fns = [libstr.PRELUDE, table, libescape.SPEC, PRELUDE], []
    src = rx.File(f"{repo}/{SRC}")

    def common(f):
        f.sig_rewrite("&mut dyn fmt::Write", "&mut XSink", "the sink's text")
        f.sig_rewrite("fmt::Result", "XResult")
        f.rewrite("write!(buf, $fmt, ch as u32)", "x_write_hex$fmt(buf, ch as u32)", "write! of four upper-case hex digits", must=False)
        f.rewrite("for $c in $x.chars() $body", "let mut x_it = x_chars($x);\nwhile let Some($c) = x_it.next() $body", "for over chars as while let", must=False)
        f.rewrite("escape_markers(value)", "x_escape_markers(value)", "contract proved in template_markers", must=False)
        f.rewrite("encode_escaped(buf, &value)", "encode_escaped(buf, x_str(&value))", "deref to str", must=False)
        f.body = f.body.replace('x_write_hex"\\\\u{:04X}"', "x_write_hex")
        fns.append(f)
        return f

    f = common(src.fn("encode_escaped"))
    f.spec("ensures r is Ok ==> final(buf)@ == old(buf)@ + written(value@, true, true)")
    lits = "".join(f'reveal_strlit("{x}"); ' for x in ("\\\\b", "\\\\t", "\\\\n", "\\\\f", "\\\\r", '\\\\\\"', "\\\\\\\\"))
    f.at("start", "proof { " + lits + " assert(written(Seq::<char>::empty(), true, true) =~= Seq::empty()); assert(old(buf)@ + Seq::<char>::empty() =~= old(buf)@); } let ghost b0 = old(buf)@; let ghost mut k: int = 0; proof { assert(value@.take(0) =~= Seq::<char>::empty()); assert(value@.skip(0) =~= value@); }")
    f.loop(0, """invariant 0 <= k <= value@.len(), x_it@ == value@.skip(k), buf@ == b0 + written(value@.take(k), true, true),
ensures k == value@.len(), buf@ == b0 + written(value@.take(k), true, true)
decreases value@.len() - k""",
           start="""let ghost bk = buf@; proof { """ + lits + """ assert(ch == value@[k]); assert(value@.take(k).push(ch) =~= value@.take(k + 1)); assert(value@.skip(k).drop_first() =~= value@.skip(k + 1));
written_push(value@.take(k), ch, true, true);
assert forall|p: Seq<char>| #[trigger] (bk + p) =~= b0 + (written(value@.take(k), true, true) + p) by {}
}""",
           end="proof { assert(buf@ =~= bk + piece(ch, true, true)); assert(bk + piece(ch, true, true) =~= b0 + written(value@.take(k + 1), true, true)); k = k + 1; }",
           after="proof { assert(value@.take(k) =~= value@); }")
    out.append(f.render())
    f = common(src.fn("encode_quoted_string"))
    f.spec("""ensures r is Ok ==> exists|e: Seq<char>| final(buf)@ == old(buf)@ + (seq!['"'] + e + seq!['"']) && read(e) == Some(value@) && clean(e)""")
    f.at("start", """proof { round_trip(value@, true, true); let e = written(esc(value@), true, true);
assert(old(buf)@.push('"') + e =~= old(buf)@ + (seq!['"'] + e));
assert((old(buf)@.push('"') + e).push('"') =~= old(buf)@ + (seq!['"'] + e + seq!['"'])); }""")
    out.append(f.render())
    return out, fns
