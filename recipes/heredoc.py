r"""C16: indentation of heredocs (crates/hcl-edit/src/util.rs, template/mod.rs, encode/template.rs)."""
import re
import rx
import libchain
import libstr
import template_markers
from libeval import pub_fields
NAME = "heredoc"
USES = libstr.USES + "use std::ops::Range;\n"
UTIL = "crates/hcl-edit/src/util.rs"
TPL = "crates/hcl-edit/src/template/mod.rs"
ENC = "crates/hcl-edit/src/encode/template.rs"

PRELUDE = libstr.PRELUDE + r"""
global size_of usize == 8;
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn text(self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
}
// deref to the text
pub trait XText { spec fn txt(&self) -> Seq<char>; fn x_str(&self) -> (r: &str) ensures r@ == self.txt(); }
impl<'a> XText for Cow<'a> { open spec fn txt(&self) -> Seq<char> { self.text() } fn x_str(&self) -> (r: &str) { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } } }
impl XText for str { open spec fn txt(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self } }
impl XText for String { open spec fn txt(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self.as_str() } }
impl XText for Spanned<String> { open spec fn txt(&self) -> Seq<char> { self.value@ } fn x_str(&self) -> (r: &str) { self.value.as_str() } }
#[verifier::external_body] pub struct Interpolation { e: Box<u8> }
#[verifier::external_body] pub struct Directive { e: Box<u8> }
pub struct Spanned<T> { pub value: T, pub span: Option<u64> }
// ---- std -----------------------------------------------------------------------------------------------
pub uninterp spec fn ws(c: char) -> bool;   // Unicode White_Space
pub axiom fn ws_facts() ensures ws('\n'), ws('\r'), ws(' '), !ws('$'), !ws('%'), !ws('{');
// how many characters of white space a text starts with
pub open spec fn nws(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || !ws(s[0]) { 0 } else { 1 + nws(s.drop_first()) } }
#[verifier::external_body] pub fn x_trim_start<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@.skip(nws(s@) as int) { s.trim_start() }
#[verifier::external_body] pub fn x_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn x_ends_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body] pub fn x_strip_suffix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures r is Some == (s@.len() > 0 && s@.last() == c), r is Some ==> r->Some_0@ == s@.drop_last() { s.strip_suffix(c) }
pub open spec fn at(s: Seq<char>, p: int, k: int) -> bool { 0 <= k <= s.len() && pos(s, k) == p }
#[verifier::external_body] pub fn x_split_at<'a>(s: &'a str, p: usize) -> (r: (&'a str, &'a str)) requires exists|k: int| at(s@, p as int, k)
    ensures forall|k: int| #[trigger] at(s@, p as int, k) ==> r.0@ == s@.take(k) && r.1@ == s@.skip(k) { s.split_at(p) }
#[verifier::external_body] pub fn x_from<'a>(s: &'a str, p: usize) -> (r: &'a str) requires exists|k: int| at(s@, p as int, k)
    ensures forall|k: int| #[trigger] at(s@, p as int, k) ==> r@ == s@.skip(k) { &s[p..] }
#[verifier::external_body] pub fn x_take_chars(s: &str, n: usize) -> (r: String) ensures r@ == s@.take(if n <= s@.len() { n as int } else { s@.len() as int }) { s.chars().take(n).collect() }
#[verifier::external_body] pub fn x_blen(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= isize::MAX { s.len() }
#[verifier::external_body] pub fn x_count(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn x_repeat(s: &str, n: usize) -> (r: String) ensures s@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| s@[0]) { s.repeat(n) }
pub fn x_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body] pub struct XLines<'a> { it: std::str::SplitInclusive<'a, char> }
impl<'a> XLines<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<char>>;
    pub fn x_into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && r->Some_0@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
    { self.it.next() }
}
#[verifier::external_body] pub fn x_split_inclusive<'a>(s: &'a str, c: char) -> (r: XLines<'a>) ensures r.left() == pieces(s@, c), r.left().len() <= isize::MAX { XLines { it: s.split_inclusive(c) } }
// where the first piece of a text ends: after the first `c`
pub open spec fn piece_end(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 1 } else { 1 + piece_end(s.drop_first(), c) } }
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = piece_end(s, c);
    if s.len() == 0 || k <= 0 || k > s.len() { seq![] } else { seq![s.take(k)] + pieces(s.skip(k), c) }
}
// the prefixes that are left
#[verifier::external_body] pub struct XPrefixes<'a> { it: std::slice::Iter<'a, String> }
impl<'a> XPrefixes<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a String>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && r->Some_0@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
    { self.it.next() }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body] pub fn x_prefixes<'a>(v: &'a [String]) -> (r: XPrefixes<'a>) ensures r.left() == texts(v@) { XPrefixes { it: v.iter() } }

// ---- indentation ---------------------------------------------------------------------------------------
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> { pieces(s, '\n') }
pub open spec fn ends(s: Seq<char>, c: char) -> bool { s.len() > 0 && s.last() == c }
pub open spec fn chop(s: Seq<char>, c: char) -> Seq<char> { if ends(s, c) { s.drop_last() } else { s } }
// a line without its ending
pub open spec fn content(l: Seq<char>) -> Seq<char> { chop(chop(l, '\n'), '\r') }
// the white space it starts with; its ending is none
pub open spec fn lead(l: Seq<char>) -> nat { nws(content(l)) }
pub open spec fn blank(l: Seq<char>) -> bool { ends(l, '\n') && nws(l) == l.len() }
// what is taken off a line
pub open spec fn cut(l: Seq<char>, n: nat) -> nat { if n <= lead(l) { n } else { lead(l) } }
// the first line is no line of the heredoc's own if `skip`
pub open spec fn s_ded(ls: Seq<Seq<char>>, n: nat, skip: bool) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { seq![] } else { (if skip { ls[0] } else { ls[0].skip(cut(ls[0], n) as int) }) + s_ded(ls.drop_first(), n, false) }
}
pub open spec fn removed(ls: Seq<Seq<char>>, n: nat, skip: bool) -> Seq<Seq<char>> decreases ls.len() {
    if ls.len() == 0 { seq![] } else if skip { removed(ls.drop_first(), n, false) } else { seq![ls[0].take(cut(ls[0], n) as int)] + removed(ls.drop_first(), n, false) }
}
pub open spec fn least(a: Option<nat>, b: nat) -> Option<nat> { match a { Some(m) => if m <= b { Some(m) } else { Some(b) }, None => Some(b) } }
pub open spec fn smallest(ls: Seq<Seq<char>>, skip: bool, acc: Option<nat>) -> Option<nat> decreases ls.len() {
    if ls.len() == 0 { acc } else { smallest(ls.drop_first(), false, if skip || blank(ls[0]) { acc } else { least(acc, lead(ls[0])) }) }
}
pub open spec fn nat_of(o: Option<usize>) -> Option<nat> { match o { Some(n) => Some(n as nat), None => None } }
pub open spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
// the indentation of a line that had `p` removed
pub open spec fn restored(n: nat, b: bool, p: Option<Seq<char>>) -> Seq<char> {
    if p is Some && (p->Some_0.len() == n || b && p->Some_0.len() < n) { p->Some_0 } else if b { seq![] } else { spaces(n) }
}
pub open spec fn head(ps: Seq<Seq<char>>) -> Option<Seq<char>> { if ps.len() == 0 { None } else { Some(ps[0]) } }
pub open spec fn tail(ps: Seq<Seq<char>>) -> Seq<Seq<char>> { if ps.len() == 0 { ps } else { ps.drop_first() } }
pub open spec fn s_ind(ls: Seq<Seq<char>>, n: nat, skip: bool, ps: Seq<Seq<char>>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { seq![] }
    else if skip { ls[0] + s_ind(ls.drop_first(), n, false, ps) }
    else { restored(n, blank(ls[0]), head(ps)) + ls[0] + s_ind(ls.drop_first(), n, false, tail(ps)) }
}
pub open spec fn unused(ls: Seq<Seq<char>>, skip: bool, ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ls.len() {
    if ls.len() == 0 { ps } else { unused(ls.drop_first(), false, if skip { ps } else { tail(ps) }) }
}
pub proof fn nws_le(s: Seq<char>) ensures nws(s) <= s.len() decreases s.len() { if s.len() > 0 { nws_le(s.drop_first()); } }
pub proof fn suffix_len(s: Seq<char>, k: int) requires 0 <= k <= s.len()
    ensures encode_utf8(s).len() - encode_utf8(s.skip(k)).len() == pos(s, k), at(s, pos(s, k), k)
{ assert(s.take(k) + s.skip(k) =~= s); encode_utf8_concat(s.take(k), s.skip(k)); }
pub proof fn prefix_pos(s: Seq<char>, m: int, k: int) requires 0 <= k <= m <= s.len() ensures pos(s.take(m), k) == pos(s, k)
{ assert(s.take(m).take(k) =~= s.take(k)); }
"""

# `sigil`, `marker`, `escaped` and `esc`: the text template_markers proves escape_markers against
_T = template_markers.PRELUDE
ESC = _T[_T.index("pub open spec fn sigil"):_T.index("// unescaping:")]

LEMMAS = r"""
// ---- the least indentation -----------------------------------------------------------------------------
pub open spec fn own(ls: Seq<Seq<char>>, skip: bool, i: int) -> bool { 0 <= i < ls.len() && !(i == 0 && skip) && !blank(ls[i]) }
pub proof fn smallest_is_least(ls: Seq<Seq<char>>, skip: bool, acc: Option<nat>)
    ensures ({
        let r = smallest(ls, skip, acc);
        &&& r is None ==> acc is None && forall|i: int| !own(ls, skip, i)
        &&& r is Some ==> (forall|i: int| #[trigger] own(ls, skip, i) ==> r->Some_0 <= lead(ls[i])) && (acc is Some ==> r->Some_0 <= acc->Some_0)
        &&& r is Some ==> r == acc || exists|i: int| #[trigger] own(ls, skip, i) && r->Some_0 == lead(ls[i])
    })
    decreases ls.len()
{
    if ls.len() > 0 {
        let t = ls.drop_first();
        let a = if skip || blank(ls[0]) { acc } else { least(acc, lead(ls[0])) };
        smallest_is_least(t, false, a);
        let r = smallest(ls, skip, acc);
        assert forall|i: int| #[trigger] own(ls, skip, i) implies r is Some && r->Some_0 <= lead(ls[i]) by { if i > 0 { assert(own(t, false, i - 1)); } }
        if r is Some && r != a { let i = choose|i: int| #[trigger] own(t, false, i) && r->Some_0 == lead(t[i]); assert(own(ls, skip, i + 1)); }
        else if r is Some && r != acc { assert(own(ls, skip, 0)); }
    }
}
// ---- lines ---------------------------------------------------------------------------------------------
// one whole line with its ending
pub open spec fn single(l: Seq<char>) -> bool { ends(l, '\n') && forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] l[i] != '\n' }
pub proof fn piece_end_is(s: Seq<char>)
    ensures 0 <= piece_end(s, '\n') <= s.len(), s.len() > 0 ==> piece_end(s, '\n') > 0,
        piece_end(s, '\n') == s.len() || single(s.take(piece_end(s, '\n'))),
        forall|i: int| 0 <= i < piece_end(s, '\n') - 1 ==> #[trigger] s[i] != '\n',
    decreases s.len()
{
    if s.len() > 0 && s[0] != '\n' {
        let t = s.drop_first();
        piece_end_is(t);
        let k = piece_end(t, '\n');
        assert forall|i: int| 0 <= i < k implies #[trigger] s[i] != '\n' by { if i > 0 { assert(t[i - 1] != '\n'); } }
        if k < t.len() { assert(t.take(k).last() == '\n'); assert(s.take(k + 1).last() == s[k] && s[k] == t[k - 1]); }
    }
}
pub proof fn piece_end_single(l: Seq<char>, t: Seq<char>) requires single(l) ensures piece_end(l + t, '\n') == l.len() decreases l.len()
{
    let s = l + t;
    if l.len() > 1 {
        assert(l[0] != '\n');
        let m = l.drop_first();
        assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != '\n' by { assert(l[i + 1] != '\n'); }
        piece_end_single(m, t);
        assert(s.drop_first() =~= m + t);
    }
}
pub proof fn lines_cons(l: Seq<char>, t: Seq<char>) requires single(l) ensures lines(l + t) == seq![l] + lines(t), (l + t).len() > 0
{ piece_end_single(l, t); assert((l + t).take(l.len() as int) =~= l); assert((l + t).skip(l.len() as int) =~= t); }
pub open spec fn flat(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub proof fn lines_flat(s: Seq<char>) requires flat(s), s.len() > 0 ensures lines(s) == seq![s]
{
    piece_end_is(s);
    let k = piece_end(s, '\n');
    if k < s.len() { assert(s.take(k).last() == s[k - 1]); }
    assert(s.take(k) =~= s);
    assert(s.skip(k) =~= Seq::<char>::empty());
    assert(pieces(s.skip(k), '\n') =~= Seq::<Seq<char>>::empty());
    assert(lines(s) =~= seq![s]);
}
// a text is empty, one line without an ending, or a line and more text
pub proof fn first_line(s: Seq<char>) -> (l: Seq<char>)
    ensures s.len() == 0 || (l == s && flat(s)) || (single(l) && s == l + s.skip(l.len() as int) && l.len() > 0)
{
    piece_end_is(s);
    let k = piece_end(s, '\n');
    if s.len() == 0 { s } else if k < s.len() { assert(s =~= s.take(k) + s.skip(k)); s.take(k) }
    else if s.last() == '\n' { assert(s =~= s + s.skip(s.len() as int)); s }
    else { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { } s }
}
// ---- escaping, line by line ----------------------------------------------------------------------------
pub proof fn nws_is(s: Seq<char>) ensures nws(s) <= s.len(), forall|i: int| 0 <= i < nws(s) ==> ws(#[trigger] s[i]), nws(s) < s.len() ==> !ws(s[nws(s) as int]) decreases s.len()
{
    if s.len() > 0 && ws(s[0]) {
        let t = s.drop_first();
        nws_is(t);
        assert forall|i: int| 0 <= i < nws(s) implies ws(#[trigger] s[i]) by { if i > 0 { assert(ws(t[i - 1])); } }
        if nws(s) < s.len() { assert(!ws(t[nws(t) as int])); }
    }
}
pub proof fn nws_skip(s: Seq<char>, k: int) requires 0 <= k <= nws(s) ensures nws(s.skip(k)) == nws(s) - k decreases k
{
    nws_is(s);
    if k > 0 { nws_skip(s.drop_first(), k - 1); assert(s.drop_first().skip(k - 1) =~= s.skip(k)); } else { assert(s.skip(0) =~= s); }
}
pub proof fn esc_blank(w: Seq<char>, x: Seq<char>)
    requires forall|i: int| 0 <= i < w.len() ==> ws(#[trigger] w[i])
    ensures esc(w + x) == w + esc(x)
    decreases w.len()
{
    ws_facts();
    if w.len() == 0 { assert(w + x =~= x); assert(w + esc(x) =~= esc(x)); } else {
        let t = w.drop_first();
        assert(ws(w[0]));
        assert forall|i: int| 0 <= i < t.len() implies ws(#[trigger] t[i]) by { assert(ws(w[i + 1])); }
        esc_blank(t, x);
        assert((w + x).drop_first() =~= t + x);
        assert(seq![w[0]] + (t + esc(x)) =~= w + esc(x));
    }
}
pub proof fn esc_concat(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, !sigil(a.last())
    ensures esc(a + b) == esc(a) + esc(b), esc(a).len() > 0, esc(a).last() == a.last()
    decreases a.len()
{
    let t = a.drop_first();
    assert((a + b).drop_first() =~= t + b);
    if a.len() == 1 {
        assert(t =~= Seq::<char>::empty());
        assert(esc(t) =~= Seq::<char>::empty());
        assert(esc(a) =~= a);
        assert(t + b =~= b);
    } else {
        esc_concat(t, b);
        assert(marker(a + b, 0) == marker(a, 0));
        assert(seq![a[0]] + (esc(t) + esc(b)) =~= seq![a[0]] + esc(t) + esc(b));
        assert(seq![a[0], a[0]] + (esc(t) + esc(b)) =~= seq![a[0], a[0]] + esc(t) + esc(b));
        assert((seq![a[0]] + esc(t)).last() == esc(t).last());
        assert((seq![a[0], a[0]] + esc(t)).last() == esc(t).last());
    }
}
pub proof fn esc_chars(s: Seq<char>)
    ensures flat(s) ==> flat(esc(s)), single(s) ==> single(esc(s)), nws(esc(s)) == nws(s), nws(s) == s.len() ==> esc(s) == s, (s.len() == 0) == (esc(s).len() == 0), esc(s).len() >= s.len(), s.len() > 0 ==> esc(s)[0] == s[0]
    decreases s.len()
{
    ws_facts();
    if s.len() > 0 {
        let t = s.drop_first();
        esc_chars(t);
        let e = esc(s);
        if flat(s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' by { assert(s[i + 1] != '\n'); } assert(s[0] != '\n');
            assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != '\n' by { if marker(s, 0) { if i > 1 { assert(esc(t)[i - 2] != '\n'); } } else if i > 0 { assert(esc(t)[i - 1] != '\n'); } } }
        if single(s) {
            if s.len() == 1 { assert(esc(t) =~= Seq::<char>::empty()); assert(e =~= s); } else {
                assert(s[0] != '\n');
                assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t[i] != '\n' by { assert(s[i + 1] != '\n'); }
                assert(single(t));
                assert(single(esc(t)));
                assert(e.last() == esc(t).last());
                assert forall|i: int| 0 <= i < e.len() - 1 implies #[trigger] e[i] != '\n' by { if marker(s, 0) { if i > 1 { assert(esc(t)[i - 2] != '\n'); } } else if i > 0 { assert(esc(t)[i - 1] != '\n'); } }
            }
        }
        if !marker(s, 0) { assert(e.drop_first() =~= esc(t)); } else { assert(!ws(s[0])); }
        nws_le(t);
        if nws(s) == s.len() { assert(e =~= s); }
    } else { assert(esc(s) =~= s); }
}
// ---- trailing marker characters ------------------------------------------------------------------------
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
// the text in front of the characters that are written as an interpolation, which must not be escaped by a `$` either
pub open spec fn text_of(s: Seq<char>, c: Option<char>) -> Seq<char> { match c { Some(c) => { let t = trim_end(s, c); if t.len() < s.len() { trim_end(t, '$') } else { s } }, None => s } }
pub open spec fn marks_of(s: Seq<char>, c: Option<char>) -> Seq<char> { s.skip(text_of(s, c).len() as int) }
pub proof fn trim_is(s: Seq<char>, c: char) ensures trim_end(s, c).len() <= s.len(), trim_end(s, c) == s.take(trim_end(s, c).len() as int), forall|i: int| trim_end(s, c).len() <= i < s.len() ==> #[trigger] s[i] == c,
    trim_end(s, c).len() > 0 ==> trim_end(s, c).last() != c decreases s.len()
{
    if s.len() > 0 && s.last() == c {
        let t = s.drop_last();
        trim_is(t, c);
        let k = trim_end(t, c).len() as int;
        assert(t.take(k) =~= s.take(k));
        assert forall|i: int| k <= i < s.len() implies #[trigger] s[i] == c by { if i < t.len() { assert(t[i] == c); } }
    } else { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn trim_unique(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == c, k > 0 ==> s[k - 1] != c
    ensures trim_end(s, c) == s.take(k)
{
    trim_is(s, c);
    let m = trim_end(s, c).len() as int;
    if m < k { assert(s[k - 1] == c); }
    if k < m { assert(s[m - 1] == c); assert(trim_end(s, c).last() == s[m - 1]); }
}
pub proof fn pos_less(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures pos(s, k) <= pos(s, s.len() as int), k < s.len() ==> pos(s, k) < pos(s, s.len() as int), s.take(s.len() as int) == s
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(k) + s.skip(k) =~= s);
    encode_utf8_concat(s.take(k), s.skip(k));
    if k < s.len() { reveal_with_fuel(encode_utf8, 2); }
}
pub proof fn trim_cons(l: Seq<char>, t: Seq<char>, c: char)
    requires l.len() > 0, l.last() != c
    ensures trim_end(l + t, c) == l + trim_end(t, c)
{
    trim_is(t, c);
    let k = trim_end(t, c).len() as int;
    let s = l + t;
    assert forall|i: int| l.len() + k <= i < s.len() implies #[trigger] s[i] == c by { assert(t[i - l.len()] == c); }
    if k > 0 { assert(s[l.len() + k - 1] == t[k - 1]); assert(trim_end(t, c).last() == t[k - 1]); } else { assert(s[l.len() - 1] == l.last()); }
    trim_unique(s, c, l.len() + k);
    assert(s.take(l.len() + k) =~= l + t.take(k));
}
pub proof fn trim_skip(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] != c
    ensures trim_end(s.skip(k), c) == trim_end(s, c).skip(k), k <= trim_end(s, c).len() <= s.len(), trim_end(s, c) == s.take(trim_end(s, c).len() as int)
{
    trim_is(s, c);
    let a = trim_end(s, c);
    let d = s.skip(k);
    assert(a.len() >= k) by { if a.len() < k { assert(s[a.len() as int] == c); } }
    assert forall|i: int| a.len() - k <= i < d.len() implies #[trigger] d[i] == c by { assert(s[i + k] == c); }
    if a.len() > k { assert(a.last() == s[a.len() - 1]); assert(d[a.len() - k - 1] == s[a.len() - 1]); }
    trim_unique(d, c, a.len() - k);
    assert(d.take(a.len() - k) =~= a.skip(k));
}
pub proof fn text_is(s: Seq<char>, c: Option<char>)
    ensures text_of(s, c).len() <= s.len(), text_of(s, c) == s.take(text_of(s, c).len() as int)
{
    assert(s.take(s.len() as int) =~= s);
    if c is Some { trim_is(s, c->Some_0); let t = trim_end(s, c->Some_0); trim_is(t, '$'); let k = trim_end(t, '$').len() as int; assert(t.take(k) =~= s.take(k)); }
}
pub proof fn text_skip(s: Seq<char>, c: Option<char>, k: int)
    requires mark_char(c), 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> ws(#[trigger] s[i])
    ensures text_of(s.skip(k), c) == text_of(s, c).skip(k), marks_of(s.skip(k), c) == marks_of(s, c), text_of(s, c).len() >= k
{
    ws_facts();
    text_is(s, c);
    let d = s.skip(k);
    if c is Some {
        trim_skip(s, c->Some_0, k);
        let t = trim_end(s, c->Some_0);
        assert forall|i: int| 0 <= i < k implies #[trigger] t[i] != '$' by { assert(t[i] == s[i]); }
        trim_skip(t, '$', k);
    }
    assert(text_of(d, c) =~= text_of(s, c).skip(k));
    assert(marks_of(d, c) =~= marks_of(s, c));
}
pub proof fn text_cons(l: Seq<char>, t: Seq<char>, c: Option<char>)
    requires l.len() > 0, l.last() != '$', c is Some ==> l.last() != c->Some_0
    ensures text_of(l + t, c) == l + text_of(t, c), marks_of(l + t, c) == marks_of(t, c)
{
    text_is(t, c);
    if c is Some {
        trim_cons(l, t, c->Some_0);
        trim_cons(l, trim_end(t, c->Some_0), '$');
    }
    let k = text_of(t, c).len() as int;
    assert((l + t).skip(l.len() + k) =~= t.skip(k));
}
pub open spec fn mark_char(c: Option<char>) -> bool { c is None || c == Some('$') || c == Some('%') }
// ---- a literal of an indented heredoc ------------------------------------------------------------------
pub uninterp spec fn mark(b: Seq<char>, quoted: bool) -> Seq<char>;   // what encode_marker_chars writes
pub axiom fn mark_empty() ensures forall|q: bool| #[trigger] mark(seq![], q) == Seq::<char>::empty();
pub struct Out { pub text: Seq<char>, pub ps: Seq<Seq<char>>, pub start: bool }
pub open spec fn lit_ind(d: Seq<char>, c: Option<char>, n: nat, ps: Seq<Seq<char>>, start: bool) -> Out {
    let a = text_of(d, c);
    let b = marks_of(d, c);
    let x = s_ind(lines(esc(a)), n, !start, ps);
    let ps1 = unused(lines(esc(a)), !start, ps);
    let at_start = ends(a, '\n') || (start && a.len() == 0);
    if at_start && b.len() > 0 { Out { text: x + restored(n, false, head(ps1)) + mark(b, false), ps: tail(ps1), start: false } }
    else { Out { text: x + mark(b, false), ps: ps1, start: at_start } }
}
pub open spec fn lit_plain(s: Seq<char>, c: Option<char>) -> Seq<char> { esc(text_of(s, c)) + mark(marks_of(s, c), false) }
pub proof fn lit_cons(l: Seq<char>, t: Seq<char>, c: Option<char>, n: nat, ps: Seq<Seq<char>>, start: bool)
    requires single(l), mark_char(c)
    ensures ({
        let o = lit_ind(l + t, c, n, ps, start);
        let r = lit_ind(t, c, n, if start { tail(ps) } else { ps }, true);
        &&& o.text == (if start { restored(n, blank(l), head(ps)) } else { seq![] }) + esc(l) + r.text
        &&& o.ps == r.ps && o.start == r.start
    }), lit_plain(l + t, c) == esc(l) + lit_plain(t, c)
{
    text_cons(l, t, c);
    let at = text_of(t, c);
    let a = text_of(l + t, c);
    assert(a == l + at);
    esc_concat(l, at);
    esc_chars(l);
    lines_cons(esc(l), esc(at));
    let ls = lines(esc(a));
    assert(ls.drop_first() =~= lines(esc(at)));
    assert(ls[0] == esc(l));
    nws_le(l); nws_le(esc(l));
    assert(blank(esc(l)) == blank(l)) by { if nws(esc(l)) == esc(l).len() { assert(nws(l) == l.len()); } }
    assert(ends(a, '\n') == (ends(at, '\n') || at.len() == 0)) by { if at.len() > 0 { assert(a.last() == at.last()); } else { assert(a =~= l); } }
    let o = lit_ind(l + t, c, n, ps, start);
    let r = lit_ind(t, c, n, if start { tail(ps) } else { ps }, true);
    let p = if start { restored(n, blank(l), head(ps)) } else { seq![] };
    let b = marks_of(t, c);
    let rp = restored(n, false, head(r.ps));
    let x0 = s_ind(lines(esc(at)), n, false, if start { tail(ps) } else { ps });
    assert(s_ind(ls, n, !start, ps) =~= p + esc(l) + x0);
    let ps1 = unused(lines(esc(at)), false, if start { tail(ps) } else { ps });
    assert(o.text =~= p + esc(l) + r.text);
    assert(lit_plain(l + t, c) =~= esc(l) + lit_plain(t, c));
}
// the lines that the heredoc owns have at least `n` characters of white space
pub open spec fn deep(ls: Seq<Seq<char>>, n: nat, skip: bool) -> bool { forall|i: int| #[trigger] own(ls, skip, i) ==> n <= lead(ls[i]) }
pub open spec fn pending(o: Out, rest: Seq<Seq<char>>, n: nat) -> bool { o.start && o.ps.len() == rest.len() + 1 && o.ps.drop_first() == rest && o.ps[0].len() == n }
// ... one line without an ending
pub proof fn lit_flat(s: Seq<char>, c: Option<char>, n: nat, skip: bool, rest: Seq<Seq<char>>)
    requires mark_char(c), deep(lines(s), n, skip), s.len() > 0, flat(s)
    ensures ({ let o = lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip);
        if o.start { pending(o, rest, n) && o.text + o.ps[0] == lit_plain(s, c) } else { o.text == lit_plain(s, c) && o.ps == rest } })
{
    ws_facts();
    mark_empty();
    let o = lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip);
    lines_flat(s);
        let ls = lines(s);
        assert(ls.drop_first() =~= Seq::<Seq<char>>::empty());
        assert(s_ded(ls.drop_first(), n, false) =~= Seq::<char>::empty());
        assert(removed(ls.drop_first(), n, false) =~= Seq::<Seq<char>>::empty());
        assert(s.last() != '\n');
        assert(!blank(s));
        if !skip { assert(own(ls, skip, 0)); }
        let k: int = if skip { 0 } else { n as int };
        let p = s.take(k);
        let cs = content(s);
        nws_is(cs); nws_is(s);
        assert(k <= nws(s)) by { if !skip { assert(n <= nws(cs)); lead_le(s); } }
        let d = s_ded(ls, n, skip);
        assert(s.skip(0) =~= s);
        assert(d =~= s.skip(k));
        let rm = removed(ls, n, skip) + rest;
        if skip { assert(rm =~= rest); } else { assert(rm =~= seq![p] + rest); assert(rm.drop_first() =~= rest); }
        let a = text_of(s, c);
        let b = marks_of(s, c);
        text_is(s, c);
        assert forall|i: int| 0 <= i < k implies ws(#[trigger] s[i]) by { assert(i < nws(s)); }
        text_skip(s, c, k);
        assert(text_of(d, c) =~= a.skip(k));
        assert(marks_of(d, c) =~= b);
        let ad = a.skip(k);
        assert(p =~= a.take(k));
        assert(a =~= p + ad);
        esc_blank(p, ad);
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '\n' by { assert(s[i] != '\n'); }
        assert(flat(ad));
        if ad.len() > 0 {
            esc_chars(ad);
            lines_flat(esc(ad));
            let es = lines(esc(ad));
            assert(es.drop_first() =~= Seq::<Seq<char>>::empty());
            assert(!blank(es[0]));
            let ps1 = if skip { rm } else { tail(rm) };
            assert(unused(es, skip, rm) == ps1) by { reveal_with_fuel(unused, 2); }
            assert(s_ind(es, n, skip, rm) =~= p + esc(ad)) by { reveal_with_fuel(s_ind, 2); }
            assert(o.ps == rest && !o.start);
            assert(o.text =~= lit_plain(s, c));
        } else {
            assert(esc(ad) =~= Seq::<char>::empty());
            assert(lines(esc(ad)) =~= seq![]);
            assert(s_ind(lines(esc(ad)), n, skip, rm) =~= Seq::<char>::empty());
            assert(unused(lines(esc(ad)), skip, rm) == rm);
            assert(esc(a) =~= p);
            if b.len() == 0 { assert(b =~= Seq::<char>::empty()); }
            if skip { assert(p =~= Seq::<char>::empty()); assert(o.text =~= lit_plain(s, c)); }
            else if b.len() > 0 { assert(o.text =~= lit_plain(s, c)); }
            else { assert(o.text + o.ps[0] =~= lit_plain(s, c)); }
        }
}
pub proof fn lit_none(c: Option<char>, n: nat, skip: bool, rest: Seq<Seq<char>>)
    ensures ({ let s = Seq::<char>::empty(); let o = lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip); o.text == lit_plain(s, c) && o.ps == rest && o.start == !skip })
{
    mark_empty();
    let s = Seq::<char>::empty();
    let o = lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip);
    assert(lines(s) =~= seq![]);
    assert(removed(lines(s), n, skip) + rest =~= rest);
    if c is Some { trim_is(s, c->Some_0); }
    assert(text_of(s, c) =~= s);
    assert(marks_of(s, c) =~= s);
    assert(esc(s) =~= s);
    assert(s_ded(lines(s), n, skip) =~= s);
    assert(o.text =~= lit_plain(s, c));
}
// printing the lines that were taken off again
pub proof fn lit_step(s: Seq<char>, c: Option<char>, n: nat, skip: bool, rest: Seq<Seq<char>>) -> (o: Out)
    requires mark_char(c), deep(lines(s), n, skip)
    ensures o == lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip),
        s.len() > 0 && s.last() == '\n' ==> o.text == lit_plain(s, c) && o.ps == rest && o.start,
        s.len() > 0 && s.last() != '\n' ==> if o.start { pending(o, rest, n) && o.text + o.ps[0] == lit_plain(s, c) } else { o.text == lit_plain(s, c) && o.ps == rest },
        s.len() == 0 ==> o.text == lit_plain(s, c) && o.ps == rest && o.start == !skip,
    decreases s.len()
{
    hide(lit_ind); hide(lit_plain); hide(esc); hide(text_of); hide(marks_of); hide(s_ind); hide(unused); hide(trim_end);
    let o = lit_ind(s_ded(lines(s), n, skip), c, n, removed(lines(s), n, skip) + rest, !skip);
    let l = first_line(s);
    if s.len() == 0 {
        lit_none(c, n, skip, rest);
        assert(s =~= Seq::<char>::empty());
    } else if l == s && flat(s) {
        lit_flat(s, c, n, skip, rest);
        lines_flat(s);
        assert(s.last() != '\n');
    } else {
        let t = s.skip(l.len() as int);
        lines_cons(l, t);
        let ls = lines(s);
        assert(ls.drop_first() =~= lines(t));
        assert forall|i: int| #[trigger] own(lines(t), false, i) implies n <= lead(lines(t)[i]) by { assert(own(ls, skip, i + 1)); }
        let r = lit_step(t, c, n, false, rest);
        let k: int = if skip { 0 } else { cut(l, n) as int };
        let p = l.take(k);
        let cs = content(l);
        nws_is(cs); nws_is(l);
        lead_le(l);
        let m = l.skip(k);
        assert(l.skip(0) =~= l);
        assert(single(m)) by { assert(cs.len() < l.len()); assert(m.last() == l.last()); assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != '\n' by { assert(l[i + k] != '\n'); } }
        let rm = removed(ls, n, skip) + rest;
        let rt = removed(lines(t), n, false) + rest;
        if skip { assert(rm =~= rt); } else { assert(rm =~= seq![p] + rt); assert(rm.drop_first() =~= rt); assert(head(rm) == Some(p)); }
        lit_cons(m, s_ded(lines(t), n, false), c, n, rm, !skip);
        lit_cons(l, t, c, n, rm, !skip);
        assert(l =~= p + m);
        esc_blank(p, m);
        nws_skip(l, k);
        if !skip {
            assert(blank(m) == blank(l));
            if !blank(l) { assert(own(ls, skip, 0)); }
            assert(restored(n, blank(m), head(rm)) == p);
        } else { assert(p =~= Seq::<char>::empty()); }
        assert(o.text =~= esc(l) + r.text);
        if t.len() > 0 { assert(t.last() == s.last()); }
        else { assert(t =~= Seq::<char>::empty()); assert(s.last() == l.last()); }
        assert(lit_plain(s, c) == esc(l) + lit_plain(t, c));
        if o.start && s.last() != '\n' { assert(o.text + o.ps[0] =~= esc(l) + (r.text + r.ps[0])); }
    }
    o
}
pub proof fn lead_le(l: Seq<char>) ensures lead(l) <= nws(l), content(l).len() <= l.len(), content(l) == l.take(content(l).len() as int), ends(l, '\n') ==> content(l).len() < l.len()
{
    let c = content(l);
    assert(c =~= l.take(c.len() as int));
    nws_prefix(l, c.len() as int);
}
pub proof fn nws_prefix(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures nws(s.take(k)) <= nws(s) decreases s.len()
{ if k > 0 { assert(s.take(k).drop_first() =~= s.drop_first().take(k - 1)); nws_prefix(s.drop_first(), k - 1); } }
// a prefix whose line went away with it
pub proof fn lit_pending(d: Seq<char>, c: Option<char>, n: nat, p: Seq<char>, ps: Seq<Seq<char>>)
    requires d.len() > 0, p.len() == n, mark_char(c)
    ensures ({ let o = lit_ind(d, c, n, seq![p] + ps, true); let r = lit_ind(d, c, n, ps, false); o.text == p + r.text && o.ps == r.ps && o.start == r.start })
{
    let a = text_of(d, c);
    let b = marks_of(d, c);
    text_is(d, c);
    let q = seq![p] + ps;
    assert(q.drop_first() =~= ps);
    let ls = lines(esc(a));
    esc_chars(a);
    if a.len() > 0 {
        piece_end_is(esc(a));
        assert(ls.len() > 0);
        let o = lit_ind(d, c, n, q, true);
        let r = lit_ind(d, c, n, ps, false);
        assert(s_ind(ls, n, false, q) =~= p + s_ind(ls, n, true, ps));
        assert(o.text =~= p + r.text);
    } else {
        assert(esc(a) =~= Seq::<char>::empty());
        assert(ls =~= seq![]);
        assert(lit_ind(d, c, n, q, true).text =~= p + lit_ind(d, c, n, ps, false).text);
    }
}
// ---- templates -----------------------------------------------------------------------------------------
pub enum E { Lit(Seq<char>), Tag(Element) }
pub uninterp spec fn enc(e: Element, quoted: bool) -> Seq<char>;   // what Element::encode writes
// the character that would escape the element behind a literal
pub open spec fn guard(es: Seq<E>, directive_follows: bool) -> Option<char> {
    if es.len() == 0 { if directive_follows { Some('%') } else { None } } else { match es[0] { E::Lit(_) => None, E::Tag(Element::Interpolation(_)) => Some('$'), E::Tag(Element::Directive(_)) => Some('%'), E::Tag(_) => None } }
}
pub open spec fn plain(es: Seq<E>, df: bool) -> Seq<char> decreases es.len() {
    if es.len() == 0 { seq![] } else { (match es[0] { E::Lit(s) => lit_plain(s, guard(es.drop_first(), df)), E::Tag(e) => enc(e, false) }) + plain(es.drop_first(), df) }
}
pub open spec fn t_ind(es: Seq<E>, n: nat, ps: Seq<Seq<char>>, start: bool) -> Seq<char> decreases es.len() {
    if es.len() == 0 { seq![] } else { match es[0] {
        E::Lit(d) => { let o = lit_ind(d, guard(es.drop_first(), false), n, ps, start); o.text + t_ind(es.drop_first(), n, o.ps, o.start) },
        E::Tag(e) => (if start { restored(n, false, head(ps)) } else { seq![] }) + enc(e, false) + t_ind(es.drop_first(), n, if start { tail(ps) } else { ps }, false),
    } }
}
pub open spec fn t_ded(es: Seq<E>, n: nat, skip: bool) -> Seq<E> decreases es.len() {
    if es.len() == 0 { seq![] } else { match es[0] { E::Lit(s) => seq![E::Lit(s_ded(lines(s), n, skip))] + t_ded(es.drop_first(), n, !ends(s, '\n')), E::Tag(e) => seq![es[0]] + t_ded(es.drop_first(), n, skip) } }
}
pub open spec fn t_removed(es: Seq<E>, n: nat, skip: bool) -> Seq<Seq<char>> decreases es.len() {
    if es.len() == 0 { seq![] } else { match es[0] { E::Lit(s) => removed(lines(s), n, skip) + t_removed(es.drop_first(), n, !ends(s, '\n')), E::Tag(e) => t_removed(es.drop_first(), n, skip) } }
}
// None: an element starts a line
pub open spec fn t_smallest(es: Seq<E>, skip: bool, acc: Option<nat>) -> Option<Option<nat>> decreases es.len() {
    if es.len() == 0 { Some(acc) } else { match es[0] {
        E::Lit(s) => t_smallest(es.drop_first(), !ends(s, '\n'), match smallest(lines(s), skip, None) { Some(k) => least(acc, k), None => acc }),
        E::Tag(_) => if skip { t_smallest(es.drop_first(), skip, acc) } else { None },
    } }
}
pub open spec fn t_deep(es: Seq<E>, n: nat, skip: bool) -> bool decreases es.len() {
    es.len() == 0 || match es[0] { E::Lit(s) => deep(lines(s), n, skip) && t_deep(es.drop_first(), n, !ends(s, '\n')), E::Tag(_) => skip && t_deep(es.drop_first(), n, skip) }
}
pub proof fn smallest_deep(es: Seq<E>, skip: bool, acc: Option<nat>, n: nat)
    requires t_smallest(es, skip, acc) == Some(Some(n))
    ensures t_deep(es, n, skip), acc is Some ==> n <= acc->Some_0
    decreases es.len()
{
    if es.len() > 0 { match es[0] {
        E::Lit(s) => {
            let m = smallest(lines(s), skip, None);
            smallest_is_least(lines(s), skip, None);
            smallest_deep(es.drop_first(), !ends(s, '\n'), match m { Some(k) => least(acc, k), None => acc }, n);
        }
        E::Tag(_) => { smallest_deep(es.drop_first(), skip, acc, n); }
    } }
}
// the parser makes no empty literal, and what a heredoc holds ends with a line ending or an element
pub open spec fn parsed(es: Seq<E>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]) is Lit ==> es[i]->Lit_0.len() > 0)) && (es.len() > 0 && es.last() is Lit ==> ends(es.last()->Lit_0, '\n'))
}
// Printing a template with the indentation that was removed from it is printing the template.
pub proof fn indentation_is_restored(es: Seq<E>, n: nat, skip: bool, pend: Option<Seq<char>>)
    requires t_deep(es, n, skip), parsed(es), pend is Some ==> skip && pend->Some_0.len() == n && es.len() > 0
    ensures t_ind(t_ded(es, n, skip), n, (if pend is Some { seq![pend->Some_0] } else { seq![] }) + t_removed(es, n, skip), !skip || pend is Some)
        == (if pend is Some { pend->Some_0 } else { seq![] }) + plain(es, false)
    decreases es.len()
{
    let none = Seq::<Seq<char>>::empty();
    let pp = if pend is Some { pend->Some_0 } else { seq![] };
    let qs = if pend is Some { seq![pend->Some_0] } else { none };
    let rm = t_removed(es, n, skip);
    let de = t_ded(es, n, skip);
    let start = !skip || pend is Some;
    if es.len() == 0 {
        assert(t_ind(de, n, qs + rm, start) =~= pp + plain(es, false));
    } else {
        let rest = es.drop_first();
        assert(parsed(rest)) by { assert forall|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]) is Lit implies rest[i]->Lit_0.len() > 0 by { assert(rest[i] == es[i + 1]); } if rest.len() > 0 { assert(rest.last() == es.last()); } }
        match es[0] {
            E::Tag(e) => {
                let dr = t_ded(rest, n, skip);
                assert(de.drop_first() =~= dr);
                indentation_is_restored(rest, n, skip, None);
                assert(none + rm =~= rm);
                if pend is Some { assert((qs + rm).drop_first() =~= rm); } else { assert(qs + rm =~= rm); }
                assert(Seq::<char>::empty() + plain(rest, false) =~= plain(rest, false));
                assert(t_ind(de, n, qs + rm, start) =~= pp + plain(es, false));
            }
            E::Lit(s) => {
                let skip2 = !ends(s, '\n');
                let dr = t_ded(rest, n, skip2);
                assert(de.drop_first() =~= dr);
                let d = s_ded(lines(s), n, skip);
                assert(de[0] == E::Lit(d));
                same_guard(rest, n, skip2);
                let c = guard(rest, false);
                let rr = t_removed(rest, n, skip2);
                assert(es[0]->Lit_0.len() > 0);
                let r = lit_step(s, c, n, skip, rr);
                let o = lit_ind(d, c, n, qs + rm, start);
                if pend is Some {
                    piece_end_is(s);
                    assert(d.len() > 0) by { assert(lines(s).len() > 0 && lines(s)[0].len() > 0); }
                    lit_pending(d, c, n, pend->Some_0, rm);
                    assert(o.text == pp + r.text);
                } else { assert(qs + rm =~= rm); assert(o.text =~= pp + r.text); }
                assert(o.ps == r.ps && o.start == r.start);
                let pend2 = if r.start && s.last() != '\n' { Some(r.ps[0]) } else { None };
                if pend2 is Some { assert(rest.len() > 0); assert(r.ps =~= seq![pend2->Some_0] + rr); } else { assert(none + rr =~= rr); }
                indentation_is_restored(rest, n, skip2, pend2);
                let p2 = if pend2 is Some { pend2->Some_0 } else { seq![] };
                assert(Seq::<char>::empty() + plain(rest, false) =~= plain(rest, false));
                assert(t_ind(dr, n, o.ps, o.start) == p2 + plain(rest, false));
                assert(t_ind(de, n, qs + rm, start) == o.text + t_ind(dr, n, o.ps, o.start));
                assert(r.text + p2 =~= lit_plain(s, c));
                assert(o.text + (p2 + plain(rest, false)) =~= pp + ((r.text + p2) + plain(rest, false)));
            }
        }
    }
}
pub proof fn same_guard(es: Seq<E>, n: nat, skip: bool) ensures guard(t_ded(es, n, skip), false) == guard(es, false), mark_char(guard(es, false)) {}
"""

HOST = r"""
#[verifier::external_body] pub struct Ident { e: Box<u8> }
#[verifier::external_body] pub struct RawString { e: Box<u8> }
#[verifier::external_body] pub struct Decor { e: Box<u8> }
impl Spanned<String> {
    pub fn x_set(&mut self, s: String) ensures final(self).value == s { self.value = s; }
}
pub open spec fn e_of(e: Element) -> E { match e { Element::Literal(l) => E::Lit(l.value@), _ => E::Tag(e) } }
pub open spec fn es_of(v: Seq<Element>) -> Seq<E> { v.map_values(|e: Element| e_of(e)) }
pub uninterp spec fn raw(r: RawString) -> Seq<char>;   // the decor as it is written
pub uninterp spec fn id(i: Ident) -> Seq<char>;
impl Ident { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == id(*self) { unimplemented!() } }
impl RawString { #[verifier::external_body] pub fn encode_with_default(&self, buf: &mut XBuf, d: &str) -> (r: Result<(), XErr>) ensures r is Ok && d@.len() == 0 ==> final(buf).out == old(buf).out + raw(*self), final(buf).escape == old(buf).escape { unimplemented!() } }
pub open spec fn heredoc_text(h: HeredocTemplate) -> Seq<char> {
    let es = es_of(h.template.elements@);
    "<<"@ + (if h.indent is Some { seq!['-'] } else { seq![] }) + id(h.delimiter) + raw(h.intro_suffix) + seq!['\n'] + body_text(h) + raw(h.trailing) + id(h.delimiter)
}
pub open spec fn body_text(h: HeredocTemplate) -> Seq<char> {
    let es = es_of(h.template.elements@);
    match h.indent { Some(n) => t_ind(es, n as nat, texts(h.prefixes@), true), None => plain(es, false) }
}
// what HeredocTemplate::dedent ensures
pub open spec fn dedents(h: HeredocTemplate, d: HeredocTemplate) -> bool {
    let es = es_of(h.template.elements@);
    &&& d.delimiter == h.delimiter && d.intro_suffix == h.intro_suffix && d.trailing == h.trailing
    &&& match t_smallest(es, false, None) {
        Some(Some(n)) => if n > 0 { nat_of(d.indent) == Some(n) && texts(d.prefixes@) == t_removed(es, n, false) && es_of(d.template.elements@) == t_ded(es, n, false) } else { d.indent is None && d.template.elements == h.template.elements },
        _ => d.indent is None && d.template.elements == h.template.elements,
    }
}
// the property: taking the indentation off does not change what is printed
pub proof fn dedent_prints_the_same(h: HeredocTemplate, d: HeredocTemplate)
    requires dedents(h, d), h.indent is None, parsed(es_of(h.template.elements@))
    ensures body_text(d) == body_text(h)
{
    let es = es_of(h.template.elements@);
    if d.indent is Some {
        let n = d.indent->Some_0 as nat;
        smallest_deep(es, false, None, n);
        indentation_is_restored(es, n, false, None);
        assert(Seq::<Seq<char>>::empty() + t_removed(es, n, false) =~= t_removed(es, n, false));
        assert(Seq::<char>::empty() + plain(es, false) =~= plain(es, false));
    }
}
pub fn x_replace(b: &mut bool, v: bool) -> (r: bool) ensures r == *old(b), *final(b) == v { let r = *b; *b = v; r }
// moved out while it is changed
pub struct XErr;
// the encoder: the text written so far and whether literals are escaped for quotes; a writer that
// fails leaves it open what was written
pub struct XBuf { pub ghost out: Seq<char>, pub escape: bool }
impl XBuf {
    pub fn escape(&self) -> (r: bool) ensures r == self.escape { self.escape }
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), XErr>) ensures r is Ok ==> final(self).out == old(self).out + s@, final(self).escape == old(self).escape { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: Result<(), XErr>) ensures r is Ok ==> final(self).out == old(self).out.push(c), final(self).escape == old(self).escape { unimplemented!() }
}
impl Element {
    #[verifier::external_body] pub fn encode(&self, buf: &mut XBuf) -> (r: Result<(), XErr>) ensures r is Ok ==> final(buf).out == old(buf).out + enc(*self, old(buf).escape), final(buf).escape == old(buf).escape { unimplemented!() }
}
#[verifier::external_body] pub fn encode_escaped(buf: &mut XBuf, value: &str) -> (r: Result<(), XErr>) { unimplemented!() }
#[verifier::external_body] pub fn encode_marker_chars(chars: &str, buf: &mut XBuf) -> (r: Result<(), XErr>) ensures r is Ok ==> final(buf).out == old(buf).out + mark(chars@, old(buf).escape), final(buf).escape == old(buf).escape { unimplemented!() }
// proved as C04 (template_markers)
#[verifier::external_body] pub fn escape_markers<'a>(s: &'a str) -> (r: Cow<'a>) ensures r.text() == esc(s@) { unimplemented!() }
#[verifier::external_body] pub fn x_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trim_end(s@, c) { s.trim_end_matches(c) }
#[verifier::external_body] pub fn x_unzip<A, B>(o: Option<(A, B)>) -> (r: (Option<A>, Option<B>)) ensures o is Some ==> r.0 == Some(o->Some_0.0) && r.1 == Some(o->Some_0.1), o is None ==> r.0 is None && r.1 is None { o.unzip() }
#[verifier::external_body] pub fn x_or_empty<T>(o: Option<Vec<T>>) -> (r: Vec<T>) ensures o is Some ==> r == o->Some_0, o is None ==> r@.len() == 0 { o.unwrap_or_default() }
// std::iter::Peekable over the elements
#[verifier::external_body] pub struct XElements<'a> { it: std::slice::Iter<'a, u8> }
impl<'a> XElements<'a> {
    pub uninterp spec fn left(&self) -> Seq<E>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Element>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && e_of(*r->Some_0) == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
    { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&'a Element>)
        ensures self.left().len() == 0 ==> r is None, self.left().len() > 0 ==> r is Some && e_of(*r->Some_0) == self.left()[0] { unimplemented!() }
}
#[verifier::external_body] pub fn x_elements<'a>(t: &'a Template) -> (r: XElements<'a>) ensures r.left() == es_of(t.elements@) { unimplemented!() }
pub open spec fn guard_of(next: Option<&Element>, df: bool) -> Option<char> { guard(match next { Some(e) => seq![e_of(*e)], None => seq![] }, df) }
pub open spec fn piece(es: Seq<E>, df: bool) -> Seq<char> { match es[0] { E::Lit(s) => lit_plain(s, guard(es.drop_first(), df)), E::Tag(e) => enc(e, false) } }
#[verifier::external_body] pub fn x_elem(v: &Vec<Element>, i: usize) -> (r: Element) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
"""

ELEM = """let ghost x_l = elements.left(); let ghost x_a = seq![e_of(*element)] + x_l; let ghost x_o = buf.out;
proof {
    assert forall|p: Seq<E>| p.len() > 0 && p[0] == e_of(*element) && #[trigger] p.drop_first() == x_l implies p == x_a by { assert(p =~= x_a); }
    assert(x_a.drop_first() =~= x_l);
}
"""

_one = lambda name: (lambda r, a: f"{name}({r + '.x_str()' if r.isidentifier() else r}{''.join(', ' + x for x in a)})" if not r.endswith("[i]") else None)
STR = {k: _one(v) for k, v in (("trim_start", "x_trim_start"), ("strip_suffix", "x_strip_suffix"), ("split_at", "x_split_at"), ("ends_with", "x_ends_with"), ("is_empty", "x_is_empty"), ("trim_end_matches", "x_trim_end"))}


def desugar(f):
    libchain.methods(f, STR)
    f.rewrite("$s.chars().take($n_s).collect()", "x_take_chars($s, $n_s)", "std to its contract", must=False)
    f.rewrite("$s.chars().count()", "x_count($s)", "std to its contract", must=False)
    f.rewrite("$s.split_inclusive($c)", "x_split_inclusive($s, $c).into_iter()", "std to its contract", must=False)
    f.rewrite("&$s[$a_s..]", "x_from($s, $a_s)", "str slicing to its contract", must=False)
    f.rewrite("$s.repeat($n).into()", "Cow::Owned(x_repeat($s, $n))", "conversion to Cow", must=False)
    f.rewrite("prefix.into()", "Cow::Borrowed(prefix.as_str())", "conversion to Cow", must=False)
    f.rewrite('"".into()', 'Cow::Borrowed("")', "conversion to Cow", must=False)
    f.rewrite("$a.min($b)", "x_min($a, $b)", "std to its contract", must=False)
    for v in ("content", "prefix", "line", "s"):
        f.rewrite(f"{v}.len()", "x_blen(&prefix)" if v == "prefix" else f"x_blen({v})", "std to its contract", must=False)
    f.rewrite("x_blen(content) - x_trim_start(content).len()", "x_blen(content) - x_blen(x_trim_start(content))", "std to its contract", must=False)
    f.rewrite("&line_indent($a_s)", "line_indent($a_s).x_str()", "deref coercion", must=False)
    libchain.options(f)
    libchain.for_loops(f)
    f.rewrite("String::with_capacity($n_s)", "x_with_capacity($n_s)", "std to its contract", must=False)
    f.rewrite("$b.push_str($s_s)", "x_push_str(&mut $b, $s_s)", "std to its contract", must=False)
    return f


# the state before a line was taken off the iterator
POPPED = """let ghost x_l = x_it0.left(); let ghost x_a = seq![x_e0@] + x_l;
proof {
    assert forall|p: Seq<Seq<char>>| p.len() > 0 && p[0] == x_e0@ && #[trigger] p.drop_first() == x_l implies p == x_a by { assert(p =~= x_a); }
    assert(x_a.drop_first() =~= x_l);
    nws_le(content(x_e0@));
}"""


def build(repo):
    u = rx.File(f"{repo}/{UTIL}")
    out, fns = [PRELUDE + ESC + LEMMAS], []

    def take(f, contract):
        f.vis = "pub "
        f.spec(contract)
        fns.append(f)
        out.append(f.render())

    f = desugar(u.fn("split_leading_whitespace"))
    f.at("start", """proof {
    let c = content(line@); nws_le(c); let k = nws(c) as int;
    suffix_len(c, k); assert(c =~= line@.take(c.len() as int)); prefix_pos(line@, c.len() as int, k); assert(at(line@, pos(line@, k), k));
}""")
    take(f, "ensures r.0@ == line@.take(lead(line@) as int), r.1@ == line@.skip(lead(line@) as int)")
    f = desugar(u.fn("is_blank_line"))
    f.at("start", "proof { nws_le(line@); }")
    take(f, "ensures r == blank(line@)")
    f = desugar(u.fn("line_indent"))
    f.sig_rewrite("Cow<'_, str>", "Cow<'_>", "Cow of str only")
    f.at("start", "proof { reveal_strlit(\"\"); reveal_strlit(\" \"); assert(\"\"@ =~= Seq::<char>::empty()); assert(Seq::new(n as nat, |i: int| \" \"@[0]) =~= spaces(n as nat)); }")
    take(f, "ensures r.text() == restored(n as nat, blank, match prefix { Some(p) => Some(p@), None => None })")
    f = desugar(u.fn("dedent_by"))
    f.loop(0, """invariant x_i0 + x_it0.left().len() <= usize::MAX,
    dedented@ + s_ded(x_it0.left(), n as nat, x_i0 == 0 && skip_first) == s_ded(lines(s@), n as nat, skip_first),
    texts(prefixes@) + removed(x_it0.left(), n as nat, x_i0 == 0 && skip_first) == texts(old(prefixes)@) + removed(lines(s@), n as nat, skip_first)
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""", start=POPPED + """let ghost x_p = prefixes@; let ghost x_d = dedented@; let ghost x_k = cut(x_e0@, n as nat) as int;
proof {
    assert(at(x_e0@, pos(x_e0@, x_k), x_k));
    assert(x_e0@.take(lead(x_e0@) as int).take(x_k) =~= x_e0@.take(x_k));
    assert(x_e0@.skip(0) =~= x_e0@);
}""", end="""proof {
    let p = x_e0@.take(x_k);
    assert(texts(prefixes@) =~= texts(x_p).push(p));
    assert(x_d + (x_e0@.skip(x_k) + s_ded(x_l, n as nat, false)) =~= x_d + x_e0@.skip(x_k) + s_ded(x_l, n as nat, false));
    assert(texts(x_p) + (seq![p] + removed(x_l, n as nat, false)) =~= texts(x_p).push(p) + removed(x_l, n as nat, false));
}""")
    take(f, "ensures r@ == s_ded(lines(s@), n as nat, skip_first), texts(final(prefixes)@) == texts(old(prefixes)@) + removed(lines(s@), n as nat, skip_first)")
    f = desugar(u.fn("min_leading_whitespace"))
    f.loop(0, """invariant x_i0 + x_it0.left().len() <= usize::MAX,
    smallest(x_it0.left(), x_i0 == 0 && skip_first, nat_of(min)) == smallest(lines(s@), skip_first, None)
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""", start=POPPED)
    take(f, "ensures nat_of(r) == smallest(lines(s@), skip_first, None)")
    f = desugar(u.fn("indent_by"))
    f.sig_rewrite("prefixes: &mut impl Iterator<Item = &'a String>", "prefixes: &mut XPrefixes<'a>", "iterator over the prefixes")
    f.loop(0, """invariant x_i0 + x_it0.left().len() <= usize::MAX,
    indented@ + s_ind(x_it0.left(), n as nat, x_i0 == 0 && skip_first, prefixes.left()) == s_ind(lines(s@), n as nat, skip_first, old(prefixes).left()),
    unused(x_it0.left(), x_i0 == 0 && skip_first, prefixes.left()) == unused(lines(s@), skip_first, old(prefixes).left())
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""", start=POPPED)
    take(f, "ensures r@ == s_ind(lines(s@), n as nat, skip_first, old(prefixes).left()), final(prefixes).left() == unused(lines(s@), skip_first, old(prefixes).left())")
    t = rx.File(f"{repo}/{TPL}")
    e = rx.File(f"{repo}/{ENC}")
    out.append(HOST)
    for k, n in (("enum", "Element"), ("struct", "Template"), ("struct", "HeredocTemplate")):
        x = pub_fields(t.item(k, n)) if k == "struct" else t.item(k, n)
        out.append(x if x.startswith("pub ") else "pub " + x)

    def lit_str(f, *names):
        """deref coercion of a literal to its text"""
        for nm in names:
            f.body = re.sub(r"(\w\()\s*%s\s*," % nm, r"\1%s.x_str()," % nm, f.body)
            f.body = re.sub(r"\b%s\.is_empty\(\)" % nm, "x_is_empty(%s.x_str())" % nm, f.body)
        return f

    def take_in(impl, f, contract, ret="r"):
        f.vis = "pub "
        f.spec(contract, ret)
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    f = t.fn("dedent", "impl Template")
    f.rewrite("*$l.as_mut() = $v;", "$l.x_set($v);", "replace the text of a literal", must=False)
    f.rewrite("$o.filter(|&$v| $c_s)?", "(match $o { Some($v) => if $c_s { Some($v) } else { None }, None => None })?", "`.filter(..)` as the match std defines it", must=False)
    m = re.search(r"for (\w+) in &mut self\.elements \{", f.body)
    if not m:
        raise rx.Lost("no loop over the elements to change")
    toks = rx.lex(f.body)
    o = next(i for i, tk in enumerate(toks) if tk.a == m.end() - 1)
    c = rx.match_close(toks, o)
    b = f.body[toks[o].b:toks[c].a]
    if re.search(r"\b(continue|break|return)\b|\?", b):
        raise rx.Lost("the loop over the elements is left early")
    f.body = f.body[:m.start()] + "let mut x_j: usize = 0; while x_j < self.elements.len() { let mut x_m = x_elem(&self.elements, x_j); let %s = &mut x_m;" % m.group(1) + b + " self.elements.set(x_j, x_m); x_j = x_j + 1; }" + f.body[toks[c].b:]
    f.rewrites.append("dedent: the elements are changed one by one by index")
    lit_str(desugar(f), "literal")
    f.loop(0, """invariant x_i0 <= self.elements@.len(), self.elements == old(self).elements,
    t_smallest(es_of(self.elements@).skip(x_i0 as int), skip_first_line, nat_of(indent)) == t_smallest(es_of(self.elements@), false, None)
decreases self.elements@.len() - x_i0""", start="""let ghost x_s = es_of(self.elements@).skip(x_i0 as int); proof { assert(x_s.drop_first() =~= es_of(self.elements@).skip(x_i0 + 1)); assert(x_s[0] == e_of(self.elements@[x_i0 as int])); }""",
           after="""let ghost es = es_of(self.elements@); proof { assert(es.skip(es.len() as int) =~= Seq::<E>::empty()); }""")
    f.before_loop(0, "proof { assert(es_of(self.elements@).skip(0) =~= es_of(self.elements@)); }")
    f.before_loop(1, "proof { assert(es.skip(0) =~= es); assert(es.take(0) =~= Seq::<E>::empty()); assert(texts(prefixes@) =~= Seq::<Seq<char>>::empty()); assert(Seq::<E>::empty() + t_ded(es, indent as nat, false) =~= t_ded(es, indent as nat, false)); assert(Seq::<Seq<char>>::empty() + t_removed(es, indent as nat, false) =~= t_removed(es, indent as nat, false)); }")
    f.loop(1, """invariant x_j <= self.elements@.len(), self.elements@.len() == es.len(), forall|i: int| x_j <= i < es.len() ==> e_of(#[trigger] self.elements@[i]) == es[i],
    es_of(self.elements@).take(x_j as int) + t_ded(es.skip(x_j as int), indent as nat, skip_first_line) == t_ded(es, indent as nat, false),
    texts(prefixes@) + t_removed(es.skip(x_j as int), indent as nat, skip_first_line) == t_removed(es, indent as nat, false),
decreases self.elements@.len() - x_j""", start="""let ghost x_s = es.skip(x_j as int); let ghost x_p = texts(prefixes@); let ghost x_v = self.elements@; let ghost x_k = skip_first_line;
proof { assert(x_s.drop_first() =~= es.skip(x_j + 1)); assert(x_s[0] == es[x_j as int]); }""",
           end="""proof {
    let n = indent as nat;
    assert(es_of(self.elements@).take(x_j as int) =~= es_of(x_v).take(x_j - 1).push(e_of(self.elements@[x_j - 1])));
    let r = t_ded(es.skip(x_j as int), n, skip_first_line);
    assert(es_of(x_v).take(x_j - 1) + (seq![e_of(self.elements@[x_j - 1])] + r) =~= es_of(x_v).take(x_j - 1).push(e_of(self.elements@[x_j - 1])) + r);
    let q = t_removed(es.skip(x_j as int), n, skip_first_line);
    if let E::Lit(s) = es[x_j - 1] { assert(x_p + (removed(lines(s), n, x_k) + q) =~= x_p + removed(lines(s), n, x_k) + q); }
}""", after="proof { assert(es.skip(x_j as int) =~= Seq::<E>::empty()); assert(es_of(self.elements@).take(x_j as int) =~= es_of(self.elements@)); assert(es_of(self.elements@) + Seq::<E>::empty() =~= es_of(self.elements@)); assert(texts(prefixes@) + Seq::<Seq<char>>::empty() =~= texts(prefixes@)); }")
    take_in("impl Template", f, """ensures ({
    let es = es_of(old(self).elements@);
    match t_smallest(es, false, None) {
        Some(Some(n)) => if n > 0 { r is Some && r->Some_0.0 == n && texts(r->Some_0.1@) == t_removed(es, n, false) && es_of(final(self).elements@) == t_ded(es, n, false) } else { r is None && final(self).elements == old(self).elements },
        _ => r is None && final(self).elements == old(self).elements,
    }
})""")
    f = t.fn("dedent", "impl HeredocTemplate")
    f.rewrite("$t.unwrap_or_default()", "x_or_empty($t)", "std to its contract", must=False)
    f.rewrite("self.template.dedent().unzip()", "x_unzip(self.template.dedent())", "std to its contract", must=False)
    take_in("impl HeredocTemplate", f, "ensures dedents(*old(self), *final(self))")
    for nm in ("indent", "intro_suffix", "trailing"):
        take_in("impl HeredocTemplate", t.fn(nm, "impl HeredocTemplate"), f"ensures r == {'' if nm == 'indent' else '&'}self.{nm}")
    take_in("impl HeredocTemplate", t.fn("prefixes", "impl HeredocTemplate"), "ensures r@ == self.prefixes@")

    def writer(f):
        f.sig_rewrite("fmt::Result", "Result<(), XErr>", must=False)
        f.sig_rewrite("&mut EncodeState", "&mut XBuf", must=False)
        f.sig_rewrite("Option<&&Element>", "Option<&Element>", must=False)
        f.rewrite("$t.iter().peekable()", "x_elements($t)", "std to its contract", must=False)
        f.rewrite("rest.len()", "x_blen(rest)", "std to its contract", must=False)
        if f.name == "split_marker_chars":
            f.rewrite("lit.len()", "x_blen(lit)", "std to its contract", must=False)
        libchain.methods(f, STR)
        f.rewrite("prefixes.iter()", "x_prefixes(prefixes)", "std to its contract", must=False)
        if f.name.startswith("encode_") and f.name != "encode_literal":
            f.body = re.sub(r"(split_marker_chars\()\s*lit,", r"\1lit.x_str(),", f.body)
            f.body = re.sub(r"\blit\.(ends_with|is_empty)\(", r"lit.x_str().\1(", f.body)
        f.rewrite("&indent_by(&$e, $a_s)", "indent_by($e.x_str(), $a_s).as_str()", "deref coercion", must=False)
        f.rewrite("&line_indent($a_s)", "line_indent($a_s).x_str()", "deref coercion", must=False)
        f.rewrite("buf.write_str(&escaped)", "buf.write_str(escaped.x_str())", "deref coercion", must=False)
        f.rewrite("encode_escaped(buf, &escaped)", "encode_escaped(buf, escaped.x_str())", "deref coercion", must=False)
        return f

    f = writer(e.fn("split_marker_chars"))
    f.at("start", """proof { if let Some(c) = guard_of(next, directive_follows) { trim_is(lit@, c); trim_is(trim_end(lit@, c), '$'); let t = trim_end(lit@, c); pos_less(lit@, t.len() as int); let k = t.len() as int; assert(at(lit@, pos(lit@, k), k)); } text_is(lit@, guard_of(next, directive_follows)); let k = text_of(lit@, guard_of(next, directive_follows)).len() as int; assert(lit@.take(lit@.len() as int) =~= lit@); assert(at(lit@, pos(lit@, k), k)); }""")
    take(f, "ensures !escape ==> r.0@ == text_of(lit@, guard_of(next, directive_follows)) && r.1@ == marks_of(lit@, guard_of(next, directive_follows))")
    f = writer(e.fn("encode_literal"))
    take(f, "ensures r is Ok && !old(buf).escape ==> final(buf).out == old(buf).out + esc(lit@) && final(buf).escape == old(buf).escape")
    f = writer(e.fn("encode_elements"))
    f.loop(0, """invariant mark_char(Some('$')), old(buf).escape || (buf.escape == old(buf).escape && buf.out + plain(elements.left(), directive_follows) == old(buf).out + plain(es_of(template.elements@), directive_follows))
ensures elements.left().len() == 0
decreases elements.left().len()""", start=ELEM, end="proof { if !old(buf).escape { assert(buf.out =~= x_o + piece(x_a, directive_follows)); assert(x_o + (piece(x_a, directive_follows) + plain(x_l, directive_follows)) =~= x_o + piece(x_a, directive_follows) + plain(x_l, directive_follows)); } }")
    take(f, "ensures r is Ok && !old(buf).escape ==> final(buf).escape == old(buf).escape && final(buf).out == old(buf).out + plain(es_of(template.elements@), directive_follows)")
    f = writer(e.fn("encode_indented"))
    f.loop(0, """invariant !buf.escape, buf.out + t_ind(elements.left(), n as nat, prefixes.left(), line_start) == old(buf).out + t_ind(es_of(template.elements@), n as nat, texts(x_prefixes0), true)
ensures elements.left().len() == 0
decreases elements.left().len()""", start=ELEM + "let ghost x_q = prefixes.left(); let ghost x_s = line_start;", end="""proof {
    match x_a[0] {
        E::Lit(d) => {
            let o = lit_ind(d, guard(x_l, false), n as nat, x_q, x_s);
            mark_empty();
            assert(buf.out =~= x_o + o.text);
            assert(o.ps == prefixes.left() && o.start == line_start);
            assert(x_o + (o.text + t_ind(x_l, n as nat, o.ps, o.start)) =~= x_o + o.text + t_ind(x_l, n as nat, o.ps, o.start));
        }
        E::Tag(e) => {
            let p = if x_s { restored(n as nat, false, head(x_q)) } else { seq![] };
            assert(buf.out =~= x_o + p + enc(e, false));
            let r = t_ind(x_l, n as nat, prefixes.left(), line_start);
            assert(x_o + (p + enc(e, false) + r) =~= x_o + p + enc(e, false) + r);
        }
    }
}""")
    f.at("start", "let ghost x_prefixes0 = prefixes@;")
    take(f, "requires !old(buf).escape ensures r is Ok ==> final(buf).escape == old(buf).escape && final(buf).out == old(buf).out + t_ind(es_of(template.elements@), n as nat, texts(prefixes@), true)")
    # EncodeState::with_escape and its two users, as the body they run with the closure put in place
    st = rx.File(f"{repo}/crates/hcl-edit/src/encode/mod.rs")
    we = st.fn("with_escape", "impl<'a> EncodeState<'a>")
    if "f(self)" not in we.body or not re.search(r"escape: bool", we.sig):
        raise rx.Lost("with_escape has changed")
    run = re.sub(r"\bself\b", "buf", we.body.replace("f(self)", "($b_s)"))
    run = re.sub(r"std::mem::replace\(", "x_replace(", run)
    f = writer(e.fn("encode", "impl Encode for HeredocTemplate"))
    for nm, flag in (("unescaped", "false"), ("escaped", "true")):
        body = " ".join(st.fn(nm, "impl<'a> EncodeState<'a>").body.split())
        if body != "{ self.with_escape(%s, f) }" % flag:
            raise rx.Lost(f"{nm} has changed")
        f.rewrite("buf.%s(|buf| $b_s)" % nm, "(" + re.sub(r"\bescape\b(?!:)(?<!\.escape)", flag, run) + ")", "closure put in place", must=False)
    f.rewrite('write!(buf, "{}", $x_s)', "buf.write_str($x_s)", "formatting a string is writing it", must=False)
    f.rewrite("self.template.encode(buf)", "encode_elements(&self.template, false, buf)", "Encode for Template, checked below", must=False)
    te = " ".join(e.fn("encode", "impl Encode for Template").body.split())
    if te != "{ encode_elements(self, false, buf) }":
        raise rx.Lost("Encode for Template has changed")
    f.at("start", 'proof { reveal_strlit("<<"); reveal_strlit(""); }')
    take_in("impl HeredocTemplate", f, "ensures r is Ok ==> final(buf).escape == old(buf).escape && final(buf).out == old(buf).out + heredoc_text(*self)")
    return out, fns
