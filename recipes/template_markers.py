"""C04: escape_markers / unescape_markers (crates/hcl-primitives/src/template.rs)."""
import rx, libstr

NAME = "template_markers"
SRC = "crates/hcl-primitives/src/template.rs"
USES = libstr.USES

PRELUDE = libstr.PRELUDE + r'''
// ---- specification -------------------------------------------------------------------------------
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn text(self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
}
pub open spec fn sigil(c: char) -> bool { c == '$' || c == '%' }
// an interpolation or directive start marker at position i ...
pub open spec fn marker(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && sigil(s[i]) && s[i + 1] == '{' }
// ... and an escaped one
pub open spec fn escaped(s: Seq<char>, i: int) -> bool {
    0 <= i && i + 2 < s.len() && sigil(s[i]) && s[i + 1] == s[i] && s[i + 2] == '{'
}
// escaping: the first character of every marker is doubled
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if marker(s, 0) { seq![s[0], s[0]] + esc(s.drop_first()) } else { seq![s[0]] + esc(s.drop_first()) }
}
// unescaping: the second character of every escaped marker is dropped
pub open spec fn unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if escaped(s, 0) { seq![s[0]] + unesc(s.skip(2)) } else { seq![s[0]] + unesc(s.drop_first()) }
}
// HCL reads `$${` and `%%{` as literal text; any other `${` or `%{` starts an interpolation or directive
pub open spec fn has_marker(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { false } else if escaped(s, 0) { has_marker(s.skip(3)) } else { marker(s, 0) || has_marker(s.drop_first()) }
}

// ---- the property --------------------------------------------------------------------------------
proof fn unescaping_undoes_escaping(s: Seq<char>)
    ensures unesc(esc(s)) == s, !has_marker(esc(s)),
        s.len() > 0 ==> esc(s).len() > 0 && esc(s)[0] == s[0],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        unescaping_undoes_escaping(t);
        if marker(s, 0) {
            let e = esc(s);
            assert(t[0] == '{' && !marker(t, 0));
            let tt = t.drop_first();
            unescaping_undoes_escaping(tt);
            assert(esc(t) == seq!['{'] + esc(tt));
            assert(e =~= seq![s[0], s[0], '{'] + esc(tt));
            assert(escaped(e, 0));
            assert(e.skip(2) =~= esc(t));
            assert(e.skip(3) =~= esc(tt));
            assert(unesc(e) =~= seq![s[0]] + t);
            assert(seq![s[0]] + t =~= s);
        } else {
            let e = esc(s);
            assert(e.drop_first() =~= esc(t));
            assert(!marker(e, 0)) by { if t.len() > 0 { assert(e[1] == t[0]); } }
            assert(!escaped(e, 0)) by {
                if escaped(e, 0) {
                    // e[1] == e[0] is a sigil, so t starts with it and is no marker, hence e[2] is t[1]
                    assert(t.len() > 0 && t[0] == s[0]);
                    if marker(t, 0) { assert(esc(t)[1] == t[0]); assert(e[2] == t[0]); }
                    else {
                        let tt = t.drop_first();
                        unescaping_undoes_escaping(tt);
                        assert(esc(t) =~= seq![t[0]] + esc(tt));
                        assert(e[2] == esc(tt)[0]);
                        assert(tt[0] == t[1]);
                    }
                    assert(false);
                }
            }
            assert(unesc(e) =~= seq![s[0]] + t);
            assert(seq![s[0]] + t =~= s);
        }
    }
}
// text without markers is its own escaped form; a prefix without markers is passed through
proof fn esc_prefix(a: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> !marker(a + b, i)
    ensures esc(a + b) == a + esc(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + esc(b) =~= esc(b)); }
    else {
        let t = a.drop_first();
        assert((a + b).drop_first() =~= t + b);
        assert forall|i: int| 0 <= i < t.len() implies !marker(t + b, i) by { assert(!marker(a + b, i + 1)); }
        esc_prefix(t, b);
        assert(!marker(a + b, 0));
        assert(esc(a + b) =~= a + esc(b));
    }
}
proof fn unesc_prefix(a: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> !escaped(a + b, i)
    ensures unesc(a + b) == a + unesc(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + unesc(b) =~= unesc(b)); }
    else {
        let t = a.drop_first();
        assert((a + b).drop_first() =~= t + b);
        assert forall|i: int| 0 <= i < t.len() implies !escaped(t + b, i) by { assert(!escaped(a + b, i + 1)); }
        unesc_prefix(t, b);
        assert(!escaped(a + b, 0));
        assert(unesc(a + b) =~= a + unesc(b));
    }
}
// no window of the bytes matches: no marker among the characters
proof fn no_window_no_marker(s: Seq<char>, p: int)
    requires forall|i: int| #![trigger encode_utf8(s)[i]] 0 <= i < p && i + 1 < encode_utf8(s).len() ==> !((encode_utf8(s)[i] == 36 || encode_utf8(s)[i] == 37) && encode_utf8(s)[i + 1] == 123)
    ensures forall|k: int| 0 <= k < s.len() && pos(s, k) < p ==> !marker(s, k)
{
    assert forall|k: int| 0 <= k < s.len() && pos(s, k) < p implies !marker(s, k) by {
        if marker(s, k) { char_to_byte(s, k); char_to_byte(s, k + 1); assert(encode_utf8(s)[pos(s, k)] == 36 || encode_utf8(s)[pos(s, k)] == 37); }
    }
}
proof fn no_window_no_escaped(s: Seq<char>, p: int)
    requires forall|i: int| #![trigger encode_utf8(s)[i]] 0 <= i < p && i + 2 < encode_utf8(s).len() ==> !((encode_utf8(s)[i] == 36 || encode_utf8(s)[i] == 37) && encode_utf8(s)[i + 1] == encode_utf8(s)[i] && encode_utf8(s)[i + 2] == 123)
    ensures forall|k: int| 0 <= k < s.len() && pos(s, k) < p ==> !escaped(s, k)
{
    assert forall|k: int| 0 <= k < s.len() && pos(s, k) < p implies !escaped(s, k) by {
        if escaped(s, k) { char_to_byte(s, k); char_to_byte(s, k + 1); char_to_byte(s, k + 2); assert(encode_utf8(s)[pos(s, k)] == 36 || encode_utf8(s)[pos(s, k)] == 37); }
    }
}
proof fn pos_monotone(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures pos(s, i) < pos(s, j)
    decreases j - i
{
    pos_step(s, j - 1);
    enc_step(seq![s[j - 1]]);
    if i < j - 1 { pos_monotone(s, i, j - 1); }
}
'''


def build(repo):
    src = rx.File(f"{repo}/{SRC}")
    out, fns = [PRELUDE], []
    cow = lambda f: f.sig_rewrite("Cow<'_, str>", "Cow<'_>", "Cow of str only")

    f = libstr.desugar(src.fn("split_buf"))
    f.spec('''requires (idx as int) < encode_utf8(s@).len(), encode_utf8(s@)[idx as int] < 0x80
ensures r.0@ + r.1@ == s@, encode_utf8(r.0@).len() == idx, pos(s@, r.0@.len() as int) == idx,
    r.1@.len() > 0, r.1@[0] as u32 == encode_utf8(s@)[idx as int]''')
    f.at("start", '''let ghost k;
proof { k = split_at_byte(s@, idx as int); 
    assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == encode_utf8(s@.take(k)) implies t == s@.take(k) by { enc_injective(t, s@.take(k)); }
    assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == encode_utf8(s@.skip(k)) implies t == s@.skip(k) by { enc_injective(t, s@.skip(k)); }
    assert(Seq::<char>::empty() + s@.take(k) =~= s@.take(k)); assert(s@.take(k) + s@.skip(k) =~= s@); }''')
    fns.append(f)
    out.append(f.render())

    f = libstr.desugar(src.fn("escape_markers_owned"))
    f.spec('''requires (idx as int) < encode_utf8(literal@).len(), encode_utf8(literal@)[idx as int] == 36 || encode_utf8(literal@)[idx as int] == 37,
    forall|k: int| 0 <= k < literal@.len() && pos(literal@, k) < idx ==> !marker(literal@, k)
ensures r@ == esc(literal@)''')
    f.before_loop(0, "proof { assert(buf@ + rest@ == literal@); assert forall|i: int| 0 <= i < buf@.len() implies !marker(buf@ + rest@, i) by { pos_monotone(literal@, i, buf@.len() as int); } esc_prefix(buf@, rest@); assert(esc(Seq::<char>::empty()) =~= Seq::<char>::empty()); }")
    f.loop(0, "invariant buf@ + esc(chars@) == esc(literal@) ensures buf@ + esc(chars@) == esc(literal@), chars@.len() == 0 decreases chars@.len()",
           start="let ghost rest0 = seq![ch] + chars@; proof { assert forall|p: Seq<char>| p.len() > 0 && p[0] == ch && #[trigger] p.drop_first() == chars@ implies p == rest0 by { assert(p =~= rest0); } assert(rest0.drop_first() =~= chars@); assert(buf@ + esc(rest0) == esc(literal@)); assert(esc(rest0).len() >= 1); }",
           end="proof { assert(marker(rest0, 0) == (chars@.len() > 0 && chars@[0] == '{')); }",
           after="proof { assert(esc(chars@) =~= Seq::empty()); }")
    # the loop body's start is before the pushes: the entry state is what `buf` held
    fns.append(f)
    out.append(f.render())

    f = libstr.desugar(src.fn("unescape_markers_owned"))
    f.spec('''requires (idx as int) < encode_utf8(literal@).len(), encode_utf8(literal@)[idx as int] == 36 || encode_utf8(literal@)[idx as int] == 37,
    forall|k: int| 0 <= k < literal@.len() && pos(literal@, k) < idx ==> !escaped(literal@, k)
ensures r@ == unesc(literal@)''')
    f.before_loop(0, "proof { assert(buf@ + rest@ == literal@); assert forall|i: int| 0 <= i < buf@.len() implies !escaped(buf@ + rest@, i) by { pos_monotone(literal@, i, buf@.len() as int); } unesc_prefix(buf@, rest@); assert(unesc(Seq::<char>::empty()) =~= Seq::<char>::empty()); }")
    f.loop(0, "invariant buf@ + unesc(chars@) == unesc(literal@) ensures buf@ + unesc(chars@) == unesc(literal@), chars@.len() == 0 decreases chars@.len()",
           start="let ghost rest0 = seq![ch] + chars@; let ghost buf0 = buf@; proof { assert forall|p: Seq<char>| p.len() > 0 && p[0] == ch && #[trigger] p.drop_first() == chars@ implies p == rest0 by { assert(p =~= rest0); } assert(rest0.drop_first() =~= chars@); if chars@.len() > 0 { assert(rest0.skip(2) =~= chars@.drop_first()); } assert(buf0 + unesc(rest0) == unesc(literal@)); assert(buf0 + (seq![ch] + unesc(rest0.drop_first())) =~= buf0.push(ch) + unesc(rest0.drop_first())); if rest0.len() > 1 { assert(buf0 + (seq![ch] + unesc(rest0.skip(2))) =~= buf0.push(ch) + unesc(rest0.skip(2))); } }",
           after="proof { assert(unesc(chars@) =~= Seq::empty()); }")
    fns.append(f)
    out.append(f.render())

    for name, w, spec, lemma in (("escape_markers", 2, "esc", "no_window_no_marker"), ("unescape_markers", 3, "unesc", "no_window_no_escaped")):
        f = libstr.desugar(src.fn(name))
        cow(f)
        f.rewrite("literal.len()", "x_len(literal)", "str::len to its contract", must=False)
        f.spec(f"ensures r.text() == {spec}(literal@)")
        hit = "(x_b@[i] == 36 || x_b@[i] == 37) && " + ("x_b@[i + 1] == 123" if w == 2 else "x_b@[i + 1] == x_b@[i] && x_b@[i + 2] == 123")
        none = f"""{lemma}(literal@, encode_utf8(literal@).len() as int);
            assert forall|k: int| 0 <= k < literal@.len() implies pos(literal@, k) < encode_utf8(literal@).len() by {{ pos_monotone(literal@, k, literal@.len() as int); assert(literal@.take(literal@.len() as int) =~= literal@); }}
            {spec}_prefix(literal@, Seq::empty()); assert(literal@ + Seq::empty() =~= literal@); assert({spec}(Seq::<char>::empty()) =~= Seq::empty());"""
        f.at("start", f"proof {{ if encode_utf8(literal@).len() < {w} {{ {none} }} }}")
        f.loop(0, f"""invariant x_b@ == encode_utf8(literal@),
            forall|i: int| #![trigger x_b@[i]] 0 <= i < idx && i + {w - 1} < x_b@.len() ==> !({hit}),""",
               start=f"proof {{ {lemma}(literal@, idx as int); }}",
               after=f"proof {{ {none} }}")
        fns.append(f)
        out.append(f.render())
    return out, fns
