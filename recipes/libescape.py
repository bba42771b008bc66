"""What a quoted HCL string says: the reader's escape table is extracted from the parser, the
writers' output is proved to read back as the text they were given."""
import re
import rx

PARSER = "crates/hcl-edit/src/parser/string.rs"


def reader_table(repo):
    """`dispatch!` arms of escaped_char as a spec function, extracted on every run."""
    f = rx.File(f"{repo}/{PARSER}").fn("escaped_char")
    arms = re.findall(r"('(?:\\.|[^\\'])')\s*=>\s*empty\.value\(('(?:\\u\{[0-9A-Fa-f]+\}|\\.|[^\\'])')\)", f.body)
    hexes = dict(re.findall(r"'([uU])'\s*=>\s*cut_err\(hexescape::<(\d+)>\)", f.body))
    if len(arms) < 4 or "u" not in hexes or f.body.count("=>") != len(arms) + len(hexes) + 1:
        raise rx.Lost("escaped_char: dispatch table not recognised")
    body = "".join(f"if c == {a} {{ Some({b}) }} else " for a, b in arms)
    return (f"// extracted from {PARSER}::escaped_char\n"
            f"pub open spec fn simple_escape(c: char) -> Option<char> {{ {body}{{ None }} }}\n"
            f"pub open spec fn hex_len() -> int {{ {hexes['u']} }}\n"), f


SPEC = r'''
pub open spec fn hex_val(c: char) -> int {
    if '0' <= c <= '9' { c as int - 48 } else if 'a' <= c <= 'f' { c as int - 87 } else if 'A' <= c <= 'F' { c as int - 55 } else { -1 }
}
pub open spec fn hex4(s: Seq<char>, i: int) -> int {
    if i + 4 <= s.len() && hex_val(s[i]) >= 0 && hex_val(s[i + 1]) >= 0 && hex_val(s[i + 2]) >= 0 && hex_val(s[i + 3]) >= 0 {
        ((hex_val(s[i]) * 16 + hex_val(s[i + 1])) * 16 + hex_val(s[i + 2])) * 16 + hex_val(s[i + 3])
    } else { -1 }
}
pub open spec fn sigil(c: char) -> bool { c == '$' || c == '%' }
pub open spec fn marker(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && sigil(s[i]) && s[i + 1] == '{' }
pub open spec fn escaped(s: Seq<char>, i: int) -> bool {
    0 <= i && i + 2 < s.len() && sigil(s[i]) && s[i + 1] == s[i] && s[i + 2] == '{'
}
pub open spec fn cons(c: char, r: Option<Seq<char>>) -> Option<Seq<char>> {
    match r { Some(t) => Some(seq![c] + t), None => None }
}
// Reading the text between the quotes, as the fragments of hcl-edit's string parser are tried: an
// escaped marker, a literal character that starts neither a marker nor an escape nor ends the
// string, an escape sequence.  None: not a (complete) string without templates.
pub open spec fn read(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) }
    else if escaped(s, 0) { cons(s[0], cons('{', read(s.skip(3)))) }
    else if marker(s, 0) || s[0] == '"' { None }
    else if s[0] == '\\' {
        if s.len() < 2 { None }
        else if simple_escape(s[1]) is Some { cons(simple_escape(s[1])->Some_0, read(s.skip(2))) }
        else if s[1] == 'u' && hex_len() == 4 && 0 <= hex4(s, 2) < 0xD800 { cons(char_of(hex4(s, 2)), read(s.skip(6))) }
        else { None }
    }
    else { cons(s[0], read(s.drop_first())) }
}
pub open spec fn char_of(n: int) -> char { n as u8 as char }   // only used below 0x80
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if marker(s, 0) { seq![s[0], s[0]] + esc(s.drop_first()) } else { seq![s[0]] + esc(s.drop_first()) }
}
// no raw line break, quote or other control character
pub open spec fn clean(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 >= 0x20 }

pub open spec fn hex_digit(n: int, upper: bool) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' }
    else if n == 10 { if upper { 'A' } else { 'a' } } else if n == 11 { if upper { 'B' } else { 'b' } }
    else if n == 12 { if upper { 'C' } else { 'c' } } else if n == 13 { if upper { 'D' } else { 'd' } }
    else if n == 14 { if upper { 'E' } else { 'e' } } else { if upper { 'F' } else { 'f' } }
}
// how one character is written, `upper`/`del`: spelling of the hex digits, whether U+007F is escaped
pub open spec fn piece(c: char, upper: bool, del: bool) -> Seq<char> {
    if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{9}' { seq!['\\', 't'] } else if c == '\u{a}' { seq!['\\', 'n'] }
    else if c == '\u{c}' { seq!['\\', 'f'] } else if c == '\u{d}' { seq!['\\', 'r'] }
    else if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] }
    else if (c as u32) < 0x20 || (del && c == '\u{7f}') {
        seq!['\\', 'u', '0', '0', hex_digit(c as int / 16, upper), hex_digit(c as int % 16, upper)]
    } else { seq![c] }
}
pub open spec fn written(s: Seq<char>, upper: bool, del: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { piece(s[0], upper, del) + written(s.drop_first(), upper, del) }
}
pub proof fn written_cons(c: char, t: Seq<char>, u: bool, d: bool)
    ensures written(seq![c] + t, u, d) == piece(c, u, d) + written(t, u, d)
{ assert((seq![c] + t).drop_first() =~= t); }
pub proof fn written_push(s: Seq<char>, c: char, u: bool, d: bool)
    ensures written(s.push(c), u, d) == written(s, u, d) + piece(c, u, d)
    decreases s.len()
{
    let e = Seq::<char>::empty();
    assert(written(e, u, d) =~= e);
    if s.len() == 0 {
        assert(s.push(c) =~= seq![c] + e);
        written_cons(c, e, u, d);
        assert(piece(c, u, d) + e =~= e + piece(c, u, d));
        assert(s =~= e);
    } else {
        let t = s.drop_first();
        assert(s.push(c) =~= seq![s[0]] + t.push(c));
        assert(s =~= seq![s[0]] + t);
        written_push(t, c, u, d);
        written_cons(s[0], t.push(c), u, d);
        written_cons(s[0], t, u, d);
        assert(piece(s[0], u, d) + (written(t, u, d) + piece(c, u, d)) =~= (piece(s[0], u, d) + written(t, u, d)) + piece(c, u, d));
    }
}
// ---- the property: what is written reads back as the original text ---------------------------------
pub proof fn first_written(s: Seq<char>, u: bool, d: bool)
    requires s.len() > 0
    ensures written(s, u, d).len() > 0,
        sigil(s[0]) || s[0] == '{' ==> written(s, u, d)[0] == s[0] && piece(s[0], u, d) == seq![s[0]],
        !sigil(s[0]) ==> !sigil(written(s, u, d)[0]),
        s[0] != '{' ==> written(s, u, d)[0] != '{',
{}
pub proof fn esc_first(s: Seq<char>)
    ensures s.len() > 0 ==> esc(s).len() > 0 && esc(s)[0] == s[0], s.len() == 0 ==> esc(s).len() == 0
{}
pub proof fn read_literal(c: char, w: Seq<char>)
    requires !escaped(seq![c] + w, 0), !marker(seq![c] + w, 0), c != '"', c != '\\'
    ensures read(seq![c] + w) == cons(c, read(w))
{ assert((seq![c] + w).drop_first() =~= w); }
pub proof fn read_marker(c: char, w: Seq<char>)
    requires sigil(c)
    ensures read(seq![c, c, '{'] + w) == cons(c, cons('{', read(w)))
{ assert((seq![c, c, '{'] + w).skip(3) =~= w); assert(escaped(seq![c, c, '{'] + w, 0)); }
pub proof fn read_simple(x: char, w: Seq<char>)
    requires simple_escape(x) is Some
    ensures read(seq!['\\', x] + w) == cons(simple_escape(x)->Some_0, read(w))
{ let e = seq!['\\', x] + w; assert(e.skip(2) =~= w); assert(e[0] == '\\' && e[1] == x); assert(!escaped(e, 0) && !marker(e, 0)); }
pub proof fn read_hex(c: char, w: Seq<char>, u: bool)
    requires (c as u32) < 0x80, hex_len() == 4, simple_escape('u') is None
    ensures read(seq!['\\', 'u', '0', '0', hex_digit(c as int / 16, u), hex_digit(c as int % 16, u)] + w) == cons(c, read(w))
{
    let (h, l) = (c as int / 16, c as int % 16);
    let e = seq!['\\', 'u', '0', '0', hex_digit(h, u), hex_digit(l, u)] + w;
    assert(e.skip(6) =~= w);
    assert(0 <= h < 8 && 0 <= l < 16) by (nonlinear_arith) requires h == c as int / 16, l == c as int % 16, 0 <= c as int <= 0x7f;
    assert(hex_val(hex_digit(h, u)) == h && hex_val(hex_digit(l, u)) == l);
    assert(e[0] == '\\' && e[1] == 'u' && e[2] == '0' && e[3] == '0' && e[4] == hex_digit(h, u) && e[5] == hex_digit(l, u));
    assert(!escaped(e, 0) && !marker(e, 0));
    assert(hex4(e, 2) == h * 16 + l);
    assert(h * 16 + l == c as int) by (nonlinear_arith) requires h == c as int / 16, l == c as int % 16, 0 <= c as int <= 0x7f;
    assert(char_of(hex4(e, 2)) == c);
}
pub proof fn piece_clean(c: char, u: bool, d: bool)
    ensures clean(piece(c, u, d))
{
    let (h, l) = (c as int / 16, c as int % 16);
    assert((hex_digit(h, u) as u32) >= 0x20 && (hex_digit(l, u) as u32) >= 0x20);
}
// a sigil that is no marker stays none, and makes no escaped marker, whatever follows it
pub proof fn still_literal(c: char, t: Seq<char>, u: bool, d: bool)
    requires !marker(seq![c] + t, 0), piece(c, u, d) == seq![c]
    ensures !marker(seq![c] + written(esc(t), u, d), 0), !escaped(seq![c] + written(esc(t), u, d), 0)
{
    let w = written(esc(t), u, d);
    let e = seq![c] + w;
    esc_first(t);
    if t.len() > 0 && sigil(c) {
        first_written(esc(t), u, d);
        assert((seq![c] + t)[1] == t[0]);
        assert(t[0] != '{');
        assert(w[0] != '{');
        if escaped(e, 0) {
            assert(w[0] == c && w[1] == '{');
            let tt = t.drop_first();
            esc_first(tt);
            if marker(t, 0) {
                assert(esc(t) =~= seq![t[0]] + (seq![t[0]] + esc(tt)));
                written_cons(t[0], seq![t[0]] + esc(tt), u, d);
                written_cons(t[0], esc(tt), u, d);
                assert(piece(t[0], u, d) == seq![t[0]]);
                assert(w[1] == t[0]);
            } else {
                assert(esc(t) =~= seq![t[0]] + esc(tt));
                written_cons(t[0], esc(tt), u, d);
                assert(sigil(t[0]));
                assert(w =~= seq![t[0]] + written(esc(tt), u, d));
                if esc(tt).len() > 0 { first_written(esc(tt), u, d); assert(t[1] == tt[0]); }
                else { assert(written(esc(tt), u, d).len() == 0); }
            }
        }
    } else if t.len() == 0 {
        assert(w.len() == 0);
    }
}
pub proof fn round_trip(v: Seq<char>, u: bool, d: bool)
    requires hex_len() == 4
    ensures read(written(esc(v), u, d)) == Some(v), clean(written(esc(v), u, d)),
    decreases v.len()
{
    if v.len() > 0 {
        let t = v.drop_first();
        let c = v[0];
        assert(v =~= seq![c] + t);
        round_trip(t, u, d);
        let w = written(esc(t), u, d);
        let e = written(esc(v), u, d);
        if marker(v, 0) {
            let tt = t.drop_first();
            round_trip(tt, u, d);
            let wt = written(esc(tt), u, d);
            assert(t[0] == '{' && !marker(t, 0));
            assert(esc(t) =~= seq!['{'] + esc(tt));
            assert(esc(v) =~= seq![c] + (seq![c] + (seq!['{'] + esc(tt))));
            written_cons(c, seq![c] + (seq!['{'] + esc(tt)), u, d);
            written_cons(c, seq!['{'] + esc(tt), u, d);
            written_cons('{', esc(tt), u, d);
            assert(piece(c, u, d) == seq![c] && piece('{', u, d) == seq!['{']);
            assert(e =~= seq![c, c, '{'] + wt);
            read_marker(c, wt);
            assert(seq![c] + (seq!['{'] + tt) =~= v);
        } else {
            assert(esc(v) =~= seq![c] + esc(t));
            written_cons(c, esc(t), u, d);
            let p = piece(c, u, d);
            assert(e == p + w);
            piece_clean(c, u, d);
            assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]) as u32 >= 0x20 by {
                if i < p.len() { assert(e[i] == p[i]); } else { assert(e[i] == w[i - p.len()]); }
            }
            if p == seq![c] && c != '"' && c != '\\' {
                still_literal(c, t, u, d);
                read_literal(c, w);
            } else if p.len() == 2 {
                read_simple(p[1], w);
                assert(p =~= seq!['\\', p[1]]);
            } else {
                read_hex(c, w, u);
            }
        }
    } else {
        assert(esc(v) =~= Seq::<char>::empty());
        assert(written(esc(v), u, d) =~= Seq::<char>::empty());
        assert(v =~= Seq::<char>::empty());
    }
}
'''
