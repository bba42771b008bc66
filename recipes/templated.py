"""C05: is_templated (crates/hcl-rs/src/util.rs) tells text with a template from text without."""
import rx, libstr

NAME = "templated"
SRC = "crates/hcl-rs/src/util.rs"
USES = libstr.USES

PRELUDE = r'''
pub open spec fn sigil(c: char) -> bool { c == '$' || c == '%' }
pub open spec fn marker(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && sigil(s[i]) && s[i + 1] == '{' }
pub open spec fn escaped(s: Seq<char>, i: int) -> bool {
    0 <= i && i + 2 < s.len() && sigil(s[i]) && s[i + 1] == s[i] && s[i + 2] == '{'
}
// an unescaped start marker that something follows
pub open spec fn templated(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { false } else if escaped(s, 0) { templated(s.skip(3)) } else { (marker(s, 0) && s.len() > 2) || templated(s.drop_first()) }
}
pub open spec fn bsigil(c: u8) -> bool { c == 36 || c == 37 }
pub open spec fn btempl(s: Seq<u8>) -> bool decreases s.len() {
    if s.len() < 3 { false } else if bsigil(s[0]) && s[1] == s[0] && s[2] == 123 { btempl(s.skip(2)) } else { (bsigil(s[0]) && s[1] == 123) || btempl(s.drop_first()) }
}
proof fn btempl_plain(a: Seq<u8>, b: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> !bsigil(#[trigger] a[i])
    ensures btempl(a + b) == btempl(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let t = a.drop_first();
        assert((a + b).drop_first() =~= t + b);
        assert(!bsigil(a[0]));
        assert forall|i: int| 0 <= i < t.len() implies !bsigil(#[trigger] t[i]) by { assert(t[i] == a[i + 1]); }
        btempl_plain(t, b);
        if (a + b).len() < 3 { assert(b.len() < 3); }
    }
}
proof fn enc_nonempty(s: Seq<char>) requires s.len() > 0 ensures encode_utf8(s).len() > 0 { enc_step(s); }
proof fn enc_len(s: Seq<char>) ensures encode_utf8(s).len() >= s.len() decreases s.len()
{ if s.len() > 0 { enc_step(s); enc_len(s.drop_first()); } else { assert(encode_utf8(s) =~= Seq::<u8>::empty()); } }
proof fn enc_two(s: Seq<char>) requires s.len() > 1, (s[0] as u32) < 0x80
    ensures encode_utf8(s) == seq![s[0] as u8] + encode_utf8(s.drop_first()), encode_utf8(s.drop_first()).len() > 0,
        (encode_utf8(s)[1] < 0x80) == ((s[1] as u32) < 0x80), (s[1] as u32) < 0x80 ==> encode_utf8(s)[1] == s[1] as u8,
{ enc_step(s); enc_step(s.drop_first()); assert(s.drop_first()[0] == s[1]); assert(encode_utf8(s)[1] == encode_utf8(s.drop_first())[0]); }
proof fn btempl_chars(s: Seq<char>) ensures btempl(encode_utf8(s)) == templated(s) decreases s.len()
{
    let e = encode_utf8(s);
    if s.len() == 0 { assert(e =~= Seq::<u8>::empty()); return; }
    enc_step(s);
    let t = s.drop_first();
    btempl_chars(t);
    if !sigil(s[0]) {
        let a = encode_scalar(s[0] as u32);
        assert forall|i: int| 0 <= i < a.len() implies !bsigil(#[trigger] a[i]) by { if (s[0] as u32) < 0x80 { assert(a[i] == s[0] as u8); } else { assert(a[i] >= 0x80); } }
        btempl_plain(a, encode_utf8(t));
        return;
    }
    if s.len() == 1 { assert(t =~= Seq::<char>::empty()); assert(encode_utf8(t) =~= Seq::<u8>::empty()); assert(e.len() == 1); assert(!templated(t)); return; }
    enc_two(s);
    let tt = t.drop_first();
    if s.len() == 2 {
        assert(tt =~= Seq::<char>::empty()); assert(encode_utf8(tt) =~= Seq::<u8>::empty());
        enc_step(t);
        if (s[1] as u32) < 0x80 { assert(e.len() == 2); assert(!templated(tt)); assert(!templated(t)); assert(!templated(s)); }
        else { assert(e[1] >= 0x80); assert(e.drop_first() =~= encode_utf8(t)); }
        return;
    }
    enc_len(s);
    assert(e.drop_first() =~= encode_utf8(t));
    if s[1] == '{' {
        assert(e.len() >= 3);
    } else if sigil(s[1]) && s[1] == s[0] {
        enc_two(t);
        assert(t[1] == s[2]);
        assert(e[2] == encode_utf8(t)[1]);
        if s[2] == '{' {
            let w = s.skip(3);
            assert(tt.drop_first() =~= w);
            enc_step(tt);
            assert(tt[0] == '{');
            assert(e =~= seq![s[0] as u8, s[1] as u8] + encode_utf8(tt));
            assert(e.skip(2) =~= encode_utf8(tt));
            btempl_chars(tt);
            assert(!marker(tt, 0) && !escaped(tt, 0));
            assert(templated(tt) == templated(w));
        }
    }
}
// text without templates escapes to text without templates, and is never mistaken for one
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if marker(s, 0) { seq![s[0], s[0]] + esc(s.drop_first()) } else { seq![s[0]] + esc(s.drop_first()) }
}
proof fn literal_text_is_not_templated(s: Seq<char>)
    ensures !templated(esc(s)), s.len() > 0 ==> esc(s).len() > 0 && esc(s)[0] == s[0],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        let e = esc(s);
        literal_text_is_not_templated(t);
        if marker(s, 0) {
            assert(t[0] == '{' && !marker(t, 0));
            let tt = t.drop_first();
            literal_text_is_not_templated(tt);
            assert(esc(t) == seq!['{'] + esc(tt));
            assert(e =~= seq![s[0], s[0], '{'] + esc(tt));
            assert(escaped(e, 0));
            assert(e.skip(3) =~= esc(tt));
        } else {
            assert(e.drop_first() =~= esc(t));
            assert(!marker(e, 0)) by { if t.len() > 0 { assert(e[1] == t[0]); } }
            assert(!escaped(e, 0)) by {
                if escaped(e, 0) {
                    assert(t.len() > 0 && t[0] == s[0]);
                    if marker(t, 0) { assert(esc(t)[1] == t[0]); assert(e[2] == t[0]); }
                    else {
                        let tt = t.drop_first();
                        literal_text_is_not_templated(tt);
                        assert(esc(t) =~= seq![t[0]] + esc(tt));
                        assert(e[2] == esc(tt)[0]);
                        assert(tt[0] == t[1]);
                    }
                    assert(false);
                }
            }
        }
    }
}
'''


def build(repo):
    src = rx.File(f"{repo}/{SRC}")
    out, fns = [libstr.PRELUDE, PRELUDE], []
    f = libstr.desugar(src.fn("is_templated"))
    f.rewrite("s.len()", "x_len(s)", "str::len to its contract", must=False)
    f.rewrite_fn("for $w in $s.as_bytes().windows($n) $body",
                 lambda b: f"let x_b = {b['s']}.as_bytes(); let mut x_i: usize = 0;\nwhile x_i < x_windows(x_b, {b['n']}) {{ let {b['w']} = x_window(x_b, x_i, {b['n']}); x_i = x_i + 1; {b['body'][1:]}",
                 "windows() as an indexed while loop", must=False)
    libstr.slice_match(f, "window")
    f.spec("ensures r == templated(s@)")
    f.at("start", "proof { btempl_chars(s@); }")
    f.before_loop(0, "proof { assert(encode_utf8(s@).skip(0) =~= encode_utf8(s@)); }")
    f.loop(0, """invariant x_b@ == encode_utf8(s@), btempl(encode_utf8(s@)) == templated(s@), x_b@.len() >= 3,
    0 <= x_i <= x_b@.len() - 2, skip_next ==> x_i <= x_b@.len() - 2 && x_i > 0,
    btempl(x_b@) == btempl(x_b@.skip(x_i + if skip_next { 1int } else { 0 })),
decreases x_b@.len() - x_i""",
           start="proof { let i = x_i as int; assert(x_b@.skip(i).drop_first() =~= x_b@.skip(i + 1)); assert(x_b@.skip(i).skip(2) =~= x_b@.skip(i + 2)); }",
           after="proof { assert(x_b@.skip(x_i + if skip_next { 1int } else { 0 }).len() < 3); }")
    fns.append(f)
    out.append(f.render())
    return out, fns
