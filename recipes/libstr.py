"""Contracts for the parts of std's strings that the recipes need, and the desugarings onto them.

vstd specifies `str::as_bytes`, `str` slicing, `is_char_boundary` and UTF-8 itself; char iterators
with lookahead, `windows` and byte string patterns are given here.  Everything marked
`external_body` is a thin wrapper around the std function of the same name and is trusted.
"""
import rx

USES = "use vstd::utf8::*;\nuse vstd::string::*;\nuse vstd::seq::*;\n"

PRELUDE = r'''
// ---- trusted wrappers around std ---------------------------------------------------------------
// std::str::Chars, plain and peekable: the characters that are left.
#[verifier::external_body]
pub struct XChars<'a> { it: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> View for XChars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> XChars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<char>)
        ensures final(self)@ == old(self)@,
            r == (if old(self)@.len() == 0 { None::<char> } else { Some(old(self)@[0]) }),
    { self.it.peek().copied() }
    // Iterator::all, verified
    pub fn all<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|c: char| #[trigger] f.requires((c,))
        ensures r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false),
    {
        let ghost s0 = self@;
        let ghost mut k: int = 0;
        loop
            invariant forall|c: char| #[trigger] f.requires((c,)), 0 <= k <= s0.len(), self@ == s0.skip(k), s0 == old(self)@,
                forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s0[i],), true),
            decreases s0.len() - k
        {
            match self.next() {
                None => { return true; }
                Some(c) => {
                    assert(s0.skip(k).drop_first() =~= s0.skip(k + 1));
                    assert(c == s0[k]);
                    if !f(c) { return false; }
                    proof { k = k + 1; }
                }
            }
        }
    }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: XChars<'a>) ensures r@ == self@ { XChars { it: self.it.clone() } }
}
#[verifier::external_body]
pub fn x_chars<'a>(s: &'a str) -> (r: XChars<'a>) ensures r@ == s@ { XChars { it: s.chars().peekable() } }
// std::iter::Enumerate<Chars>: the characters that are left and the index of the next one
#[verifier::external_body]
pub struct XCharsEnum<'a> { it: std::iter::Enumerate<std::str::Chars<'a>> }
impl<'a> XCharsEnum<'a> {
    pub uninterp spec fn left(&self) -> Seq<char>;
    pub uninterp spec fn index(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left() && final(self).index() == old(self).index(),
            old(self).left().len() > 0 ==> r == Some((old(self).index() as usize, old(self).left()[0])) && 0 <= old(self).index() <= usize::MAX
                && final(self).left() == old(self).left().drop_first() && final(self).index() == old(self).index() + 1,
    { self.it.next() }
}
#[verifier::external_body]
pub fn x_chars_enum<'a>(s: &'a str) -> (r: XCharsEnum<'a>) ensures r.left() == s@, r.index() == 0 { XCharsEnum { it: s.chars().enumerate() } }
#[verifier::external_body]
pub fn x_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body]
pub fn x_push_str(b: &mut String, s: &str) ensures final(b)@ == old(b)@ + s@ { b.push_str(s) }
#[verifier::external_body]
pub fn x_push(b: &mut String, c: char) ensures final(b)@ == old(b)@.push(c) { b.push(c) }
#[verifier::external_body]
pub fn x_is(a: Option<char>, b: Option<char>) -> (r: bool) ensures r == (a == b) { a == b }

// str slicing: the bounds are char boundaries, the bytes of the result are those of the range
pub open spec fn boundary(s: &str, n: int) -> bool { 0 <= n <= encode_utf8(s@).len() && is_char_boundary(encode_utf8(s@), n) }
#[verifier::external_body]
pub fn x_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires a <= b, boundary(s, a as int), boundary(s, b as int)
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int)
{ &s[a..b] }
#[verifier::external_body]
pub fn x_slice_to<'a>(s: &'a str, b: usize) -> (r: &'a str) requires boundary(s, b as int)
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(0, b as int)
{ &s[..b] }
#[verifier::external_body]
pub fn x_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str) requires boundary(s, a as int)
    ensures encode_utf8(r@) == encode_utf8(s@).subrange(a as int, encode_utf8(s@).len() as int)
{ &s[a..] }
#[verifier::external_body]
pub fn x_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.len() }
// equal bytes are equal text
pub proof fn enc_injective(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }

// std::slice::windows, as an indexed loop
pub fn x_windows(b: &[u8], n: usize) -> (r: usize) requires n > 0
    ensures r as int == (if b@.len() < n { 0 } else { b@.len() - n + 1 })
{ if b.len() < n { 0 } else { b.len() - n + 1 } }
pub fn x_window(b: &[u8], i: usize, n: usize) -> (r: &[u8]) requires i + n <= b@.len(),
    ensures r@ == b@.subrange(i as int, i + n)
{ assert(b@.len() == b.len()); vstd::slice::slice_subrange(b, i, i + n) }

// ---- lemmas about UTF-8 --------------------------------------------------------------------------
pub open spec fn pos(s: Seq<char>, k: int) -> int { encode_utf8(s.take(k)).len() as int }
pub proof fn enc_step(s: Seq<char>)
    requires s.len() > 0
    ensures encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()),
        encode_scalar(s[0] as u32).len() >= 1,
        (s[0] as u32) < 0x80 ==> encode_scalar(s[0] as u32) == seq![s[0] as u8],
        (s[0] as u32) >= 0x80 ==> forall|i: int| 0 <= i < encode_scalar(s[0] as u32).len() ==> #[trigger] encode_scalar(s[0] as u32)[i] >= 0x80,
{
    let c = s[0] as u32;
    char_is_scalar(s[0]);
    assert(encode_scalar(c).len() >= 1);
    if c < 0x80 {
        assert(leading_byte_width_1(c) == c as u8) by (bit_vector) requires c < 0x80;
    } else {
        assert(leading_byte_width_2(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert(leading_byte_width_3(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert(leading_byte_width_4(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert(last_continuation_byte(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert(second_last_continuation_byte(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert(third_last_continuation_byte(c) >= 0x80) by (bit_vector) requires c >= 0x80;
        assert forall|i: int| 0 <= i < encode_scalar(c).len() implies #[trigger] encode_scalar(c)[i] >= 0x80 by {
            assert(i == 0 || i == encode_scalar(c).len() - 1 || i == encode_scalar(c).len() - 2 || i == encode_scalar(c).len() - 3);
        }
    }
}
// the byte position of character k
pub proof fn pos_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures pos(s, k) + encode_scalar(s[k] as u32).len() == pos(s, k + 1), pos(s, k + 1) <= encode_utf8(s).len(),
        encode_utf8(s).subrange(pos(s, k), pos(s, k + 1)) == encode_scalar(s[k] as u32),
        encode_utf8(s) == encode_utf8(s.take(k)) + encode_utf8(s.skip(k)),
{
    assert(s.take(k) + s.skip(k) =~= s);
    assert(s.take(k + 1) + s.skip(k + 1) =~= s);
    assert(s.take(k) + seq![s[k]] =~= s.take(k + 1));
    encode_utf8_concat(s.take(k), s.skip(k));
    encode_utf8_concat(s.take(k + 1), s.skip(k + 1));
    encode_utf8_concat(s.take(k), seq![s[k]]);
    enc_step(seq![s[k]]);
    assert(seq![s[k]].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(encode_utf8(seq![s[k]]) =~= encode_scalar(s[k] as u32));
    assert(encode_utf8(s).subrange(pos(s, k), pos(s, k + 1)) =~= encode_scalar(s[k] as u32));
}
// an ASCII character is found in the bytes at its position ...
pub proof fn char_to_byte(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 0x80
    ensures pos(s, k + 1) == pos(s, k) + 1, 0 <= pos(s, k) < encode_utf8(s).len(), encode_utf8(s)[pos(s, k)] == s[k] as u8
{
    pos_step(s, k);
    enc_step(s.skip(k));
    assert(s.skip(k)[0] == s[k]);
    assert(encode_utf8(s).subrange(pos(s, k), pos(s, k + 1))[0] == s[k] as u8);
}
// ... and an ASCII byte is such a character.
pub proof fn byte_to_char(s: Seq<char>, p: int) -> (k: int)
    requires 0 <= p < encode_utf8(s).len(), encode_utf8(s)[p] < 0x80
    ensures 0 <= k < s.len(), pos(s, k) == p, s[k] as u32 == encode_utf8(s)[p] as u32
    decreases s.len()
{
    assert(s.len() > 0) by { if s.len() == 0 { assert(encode_utf8(s) =~= Seq::<u8>::empty()); } }
    enc_step(s);
    let n = encode_scalar(s[0] as u32).len();
    assert(encode_utf8(s.take(0)) =~= Seq::<u8>::empty()) by { assert(s.take(0) =~= Seq::<char>::empty()); }
    if p < n {
        assert(encode_utf8(s)[p] == encode_scalar(s[0] as u32)[p]);
        assert((s[0] as u32) < 0x80);
        0
    } else {
        let t = s.drop_first();
        assert(encode_utf8(s)[p] == encode_utf8(t)[p - n]);
        let k = byte_to_char(t, p - n);
        assert(seq![s[0]] + t.take(k) =~= s.take(k + 1));
        encode_utf8_concat(seq![s[0]], t.take(k));
        enc_step(seq![s[0]]);
        assert(seq![s[0]].drop_first() =~= Seq::<char>::empty());
        assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        k + 1
    }
}
// slicing at the position of an ASCII byte
pub proof fn split_at_byte(s: Seq<char>, p: int) -> (k: int)
    requires 0 <= p < encode_utf8(s).len(), encode_utf8(s)[p] < 0x80
    ensures 0 <= k < s.len(), pos(s, k) == p, s[k] as u32 == encode_utf8(s)[p] as u32,
        is_char_boundary(encode_utf8(s), p),
        encode_utf8(s).subrange(0, p) == encode_utf8(s.take(k)),
        encode_utf8(s).subrange(p, encode_utf8(s).len() as int) == encode_utf8(s.skip(k)),
{
    let k = byte_to_char(s, p);
    pos_step(s, k);
    encode_utf8_valid_utf8(s);
    is_char_boundary_iff_is_leading_byte(encode_utf8(s), p);
    let b = encode_utf8(s)[p];
    assert(is_leading_byte_width_1(b)) by (bit_vector) requires b < 0x80;
    assert(encode_utf8(s).subrange(0, p) =~= encode_utf8(s.take(k)));
    assert(encode_utf8(s).subrange(p, encode_utf8(s).len() as int) =~= encode_utf8(s.skip(k)));
    k
}
'''


def byte_lits(pats):
    """`b"${" | b"%{"` as a condition on `window`."""
    alts = [p.strip() for p in pats.split("|")]
    out = []
    for a in alts:
        if not (a.startswith('b"') and a.endswith('"') and "\\" not in a):
            raise rx.Lost(f"byte pattern {a}")
        b = a[2:-1].encode()
        out.append(" && ".join([f"$w.len() == {len(b)}"] + [f"$w[{i}] == {c}u8" for i, c in enumerate(b)]))
    return " || ".join(f"({o})" for o in out)


def desugar(f):
    f.rewrite("$x.chars().peekable()", "x_chars($x)", "std char iterator to its contract", must=False)
    f.rewrite("for ($i, $c) in $x.chars().enumerate() $body", "let mut x_it = x_chars_enum($x);\nwhile let Some(($i, $c)) = x_it.next() $body", "for over chars().enumerate() as while let", must=False)
    f.rewrite("$x.chars()", "x_chars($x)", "std char iterator to its contract", must=False)
    f.rewrite("$i.peek() == Some(&$c)", "x_is($i.peek(), Some($c))", "Option<&char> equality", must=False)
    f.rewrite("$i.next() == Some($c)", "x_is($i.next(), Some($c))", "Option<char> equality", must=False)
    f.rewrite("String::with_capacity($n)", "x_with_capacity$n", "std to its contract", must=False)
    f.rewrite("String::with_capacity($n_s)", "x_with_capacity($n_s)", "std to its contract", must=False)
    f.rewrite("&$s[..$b_s]", "x_slice_to($s, $b_s)", "str slicing to its contract", must=False)
    f.rewrite("&$s[$a..]", "x_slice_from($s, $a)", "str slicing to its contract", must=False)
    f.rewrite("$b.push_str($s_s)", "x_push_str(&mut $b, $s_s)", "std to its contract", must=False)
    f.rewrite("$b.push($c_s)", "x_push(&mut $b, $c_s)", "std to its contract", must=False)
    f.rewrite_fn("for ($i, $w) in $s.as_bytes().windows($n).enumerate() $body",
                 lambda b: f"let x_b = {b['s']}.as_bytes();\n for {b['i']} in 0..x_windows(x_b, {b['n']}) {{ let {b['w']} = x_window(x_b, {b['i']}, {b['n']}); {b['body'][1:]}",
                 "windows().enumerate() as an indexed loop", must=False)
    f.rewrite_fn("if let $p_s = window $body",
                 lambda b: "if " + byte_lits(b["p_s"]).replace("$w", "window") + " " + b["body"],
                 "byte string patterns as comparisons", must=False)
    return f


def slice_match(f, var):
    """`match var { [b'x' | b'y', _, ..] | [..] => body, .. _ => body }` as an if-chain."""
    toks = rx.lex(f.body)
    for i, t in enumerate(toks):
        if t.s == "match" and toks[i + 1].s == var and toks[i + 2].s == "{":
            break
    else:
        return f
    end = rx.match_close(toks, i + 2)
    src = f.body
    out, j = [], i + 3
    while j < end:
        conds, top = [], False
        while toks[j].s != "=>":
            if toks[j].s == "|":
                j += 1
            elif toks[j].s == "_":
                top = True
                j += 1
            elif toks[j].s == "[":
                e = rx.match_close(toks, j)
                elems, cur = [], []
                for k in range(j + 1, e):
                    if toks[k].s == ",":
                        elems.append(cur)
                        cur = []
                    elif toks[k].s != "|":
                        cur.append(toks[k].s)
                if cur:
                    elems.append(cur)
                c = [f"{var}.len() == {len(elems)}"]
                for n, alts in enumerate(elems):
                    if alts == ["_"]:
                        continue
                    c.append("(" + " || ".join(f"{var}[{n}] == {byte(a)}" for a in alts) + ")")
                conds.append("(" + " && ".join(c) + ")")
                j = e + 1
            else:
                raise rx.Lost(f"{f.name}: slice pattern `{toks[j].s}`")
        j += 1
        if toks[j].s == "{":
            e = rx.match_close(toks, j)
            body = src[toks[j].a:toks[e].b]
            j = e + 1
            if toks[j].s == ",":
                j += 1
        else:
            s = j
            d = 0
            while j < end and not (d == 0 and toks[j].s == ","):
                d += toks[j].s in ("(", "[", "{")
                d -= toks[j].s in (")", "]", "}")
                j += 1
            body = "{ " + src[toks[s].a:toks[j - 1].b] + " }"
            j += 1
        out.append(body if top else f"if {' || '.join(conds)} {body}")
    f.body = src[:toks[i].a] + " else ".join(out) + src[toks[end].b:]
    f.rewrites.append(f"{f.name}: match on slice patterns as an if-chain")
    return f


def byte(a):
    if not (a.startswith("b'") and a.endswith("'") and len(a) == 4):
        raise rx.Lost(f"byte literal {a}")
    return f"{ord(a[2])}u8"
