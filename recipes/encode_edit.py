r"""C19: the printing half of lossless editing.

What is under contract: crates/hcl-edit/src/encode/{mod,expr,structure,template}.rs, the accessors it reads the tree
with, and every `despan` of the tree.  The text of a tree is defined with the source text its unresolved spans refer
to: text(x, Some(input)) reads a span from the input, text(x, None) has the default in its place.  Proved: encoding
writes text(x, None), and despan(input) turns a tree whose text was text(x, Some(input)) into one with the same
text(x', None) - so printing what parse_body, parse_expr or parse_template returned gives text(raw tree, Some(input)),
every token, decor and stored spelling in its place.  That the raw tree of the grammar reads back as the input itself
is the bounded part of C19."""
import re
import rx
import libchain
from rx import File, Lost
from libeval import pub_fields
NAME = "encode_edit"
USES = "use vstd::seq::*;\nuse vstd::string::*;\nuse std::ops::Range;\n"
E = "crates/hcl-edit/src/"
SPIN = "#[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] "

PRELUDE = libchain.PRELUDE + r"""
global size_of usize == 8;
// ---- trusted: a writer that appends the text it is given -----------------------------------------------
#[verifier::external_body] pub struct XOut { s: Vec<u8> }
impl View for XOut { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Error { e: Box<u8> }
pub type XResult = Result<(), Error>;
impl XOut { #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: XResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() } }
#[verifier::external_body] pub fn x_replace(a: &mut bool, b: bool) -> (r: bool) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
// what is not looked into
#[verifier::external_body] pub struct Ident { s: String }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Ident { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct InternalString { s: String }
impl View for InternalString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl InternalString { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn from(s: &str) -> (r: InternalString) ensures r@ == s@ { unimplemented!() } }
#[verifier::external_body] pub struct Number { n: u64 }
pub uninterp spec fn num_text(n: Number) -> Seq<char>;       // C01, C02
pub uninterp spec fn int_text(n: u64) -> Seq<char>;
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;     // C05: encode_escaped
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;         // C04: escape_markers
pub uninterp spec fn u4(c: char) -> Seq<char>;               // \uXXXX
#[verifier::external_body] pub fn escape_markers(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
// the text between the given bytes
pub uninterp spec fn slice(s: Seq<char>, r: Range<usize>) -> Seq<char>;
#[verifier::external_body] pub fn x_slice<'a>(s: &'a str, r: Range<usize>) -> (x: &'a str) ensures x@ == slice(s@, r) { unimplemented!() }
#[verifier::external_body] pub fn x_range(r: &Range<usize>) -> (x: Range<usize>) ensures x == *r { r.clone() }
#[verifier::external_body] pub fn x_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
#[verifier::external_body] pub fn x_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trim_end(s@, c) { s.trim_end_matches(c) }
// `a` is what is left of `b` after characters were cut off its end
#[verifier::external_body] pub fn x_shorter(a: &str, b: &str) -> (r: bool) requires a@.len() <= b@.len(), a@ == b@.take(a@.len() as int) ensures r == (a@.len() < b@.len()) { a.len() < b.len() }
#[verifier::external_body] pub fn x_split_at<'a>(s: &'a str, t: &str) -> (r: (&'a str, &'a str)) requires t@.len() <= s@.len(), t@ == s@.take(t@.len() as int) ensures r.0@ == t@, r.1@ == s@.skip(t@.len() as int) { s.split_at(t.len()) }
#[verifier::external_body] pub fn x_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
// deref to the text
pub trait XText { spec fn tx(&self) -> Seq<char>; fn x_str(&self) -> (r: &str) ensures r@ == self.tx(); }
impl XText for str { open spec fn tx(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self } }
impl XText for String { open spec fn tx(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self.as_str() } }
impl XText for Spanned<String> { open spec fn tx(&self) -> Seq<char> { self.value@ } fn x_str(&self) -> (r: &str) { self.value.as_str() } }
impl XText for Decorated<String> { open spec fn tx(&self) -> Seq<char> { self.value@ } fn x_str(&self) -> (r: &str) { self.value.as_str() } }
pub fn x_text<T: XText + ?Sized>(t: &T) -> (r: &str) ensures r@ == t.tx() { t.x_str() }
// std's Peekable over a slice
#[verifier::external_body] pub struct XPeek<'a> { v: &'a [Element] }
impl<'a> XPeek<'a> {
    pub uninterp spec fn left(&self) -> Seq<Element>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Element>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(), old(self).left().len() > 0 ==> r is Some && *r->Some_0 == old(self).left()[0] && final(self).left() == old(self).left().drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&'a Element>)
        ensures self.left().len() == 0 ==> r is None, self.left().len() > 0 ==> r is Some && *r->Some_0 == self.left()[0] { unimplemented!() }
}
#[verifier::external_body] pub fn x_peekable<'a>(v: &'a Vec<Element>) -> (r: XPeek<'a>) ensures r.left() == v@ { unimplemented!() }
// vecmap-rs: an object is the list of its entries
pub struct XMap<K, V> { pub entries: Vec<(K, V)> }
// what a loop walks over: the list behind `iter()`
pub trait XL: Sized { type T; spec fn l(&self) -> Seq<Self::T>;
    fn x_l(&self) -> (r: &Vec<Self::T>) ensures r@ == self.l(); }
impl<T> XL for Vec<T> { type T = T; open spec fn l(&self) -> Seq<T> { self@ } fn x_l(&self) -> (r: &Vec<T>) { self } }
"""

REL = r"""
// one write after the other: `wrote` is what a function promises, `sofar` what it has done since it started
pub open spec fn origin(o: Seq<char>) -> bool { true }
pub open spec fn non() -> Seq<char> { Seq::empty() }
#[verifier::opaque] pub open spec fn wrote(o: Seq<char>, p: Seq<char>, w: Seq<char>) -> bool { w =~= o + p }
#[verifier::opaque] pub open spec fn sofar(o: Seq<char>, p: Seq<char>, w: Seq<char>) -> bool { w =~= o + p }
pub broadcast proof fn begin(o: Seq<char>) ensures #![trigger origin(o)] sofar(o, non(), o) { reveal(sofar); assert(o + non() =~= o); }
pub broadcast proof fn total(o: Seq<char>, p: Seq<char>, w: Seq<char>) ensures #![trigger origin(o), wrote(o, p, w)] wrote(o, p, w) == sofar(o, p, w) { reveal(sofar); reveal(wrote); }
pub broadcast proof fn step(o: Seq<char>, p: Seq<char>, m: Seq<char>, q: Seq<char>, w: Seq<char>) requires sofar(o, p, m), wrote(m, q, w) ensures #![trigger sofar(o, p, m), wrote(m, q, w)] sofar(o, cat(p, q), w)
{ reveal(sofar); reveal(wrote); reveal(cat); assert(o + p + q =~= o + (p + q)); }
// the concatenation of texts, without what Seq knows about its elements
#[verifier::opaque] pub open spec fn cat(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
pub broadcast proof fn cat_none(p: Seq<char>) ensures #[trigger] cat(p, non()) == p { reveal(cat); assert(p + non() =~= p); }
pub broadcast proof fn cat_first(p: Seq<char>) ensures #[trigger] cat(non(), p) == p { reveal(cat); assert(non() + p =~= p); }
pub broadcast proof fn cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] cat(a, cat(b, c)) == cat(cat(a, b), c) { reveal(cat); assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn cat_blank(p: Seq<char>) ensures #[trigger] cat(p, ""@) == p { reveal(cat); reveal_strlit(""); assert(p + ""@ =~= p); }
pub broadcast group steps { begin, total, step, cat_none, cat_first, cat_assoc, cat_blank }
"""


def cats(s):
    """a & b & c as cat(cat(a, b), c), inside any bracket"""
    toks = rx.lex(s)

    def go(lo, hi):
        """render tokens lo..hi, at one bracket level, as pieces separated by , ; { } and & """
        k, cur, ops, outp = lo, "", [], ""

        def flush():
            nonlocal ops, cur, outp
            if ops:
                acc = ops[0].strip()
                for o in ops[1:] + [cur]:
                    acc = f"cat({acc}, {o.strip()})"
                outp += " " + acc
            else:
                outp += cur
            ops, cur = [], ""
        last = toks[lo].a if lo < hi else 0
        while k < hi:
            t = toks[k]
            cur += s[last:t.a]
            if t.s in "([{" and t.k == "p":
                e = rx.match_close(toks, k)
                cur += t.s + go(k + 1, e) + s[toks[e - 1].b if e > k + 1 else t.b:toks[e].a] + toks[e].s
                last, k = toks[e].b, e + 1
                continue
            if t.s == "&" and t.k == "p":
                ops.append(cur)
                cur = ""
            elif t.s in (",", ";"):
                flush()
                outp += t.s
            elif t.s in ("=>", "=") and t.k == "p":
                outp, cur = outp + cur + t.s, ""
            else:
                cur += s[t.a:t.b]
            last, k = t.b, k + 1
        flush()
        return outp
    return go(0, len(toks))


# ---- the text of a tree: written `a & b` for cat(a, b) ------------------------------------------------------
def text_spec(boxed):
    st = lambda t, v, x: f"*{x}" if boxed(t, v) else x

    o = []

    def fn(sig, body, dec=""):
        o.append(f"pub open spec fn {sig}" + (f" decreases {dec}" if dec else "") + " { " + cats(body) + " }\n")
    o.append(r"""
pub type I = Option<Seq<char>>;
pub type D = (Seq<char>, Seq<char>);
pub open spec fn dd(d: (&str, &str)) -> D { (d.0@, d.1@) }
pub open spec fn NO() -> D { (""@, ""@) }
pub open spec fn LEAD() -> D { (" "@, ""@) }
pub open spec fn TRAIL() -> D { (""@, " "@) }
pub open spec fn BOTH() -> D { (" "@, " "@) }
pub open spec fn raw(r: RawString, d: Seq<char>, i: I) -> Seq<char> { match r.0 { RawStringInner::Empty => ""@, RawStringInner::Explicit(s) => s@, RawStringInner::Spanned(p) => match i { None => d, Some(s) => slice(s, p) } } }
pub open spec fn pre(x: Decor, d: D, i: I) -> Seq<char> { match x.prefix { Some(r) => raw(r, d.0, i), None => d.0 } }
pub open spec fn suf(x: Decor, d: D, i: I) -> Seq<char> { match x.suffix { Some(r) => raw(r, d.1, i), None => d.1 } }
pub open spec fn un_text(o: UnaryOperator) -> Seq<char> { match o { UnaryOperator::Neg => "-"@, UnaryOperator::Not => "!"@ } }
pub open spec fn bin_text(o: BinaryOperator) -> Seq<char> {
    match o { BinaryOperator::Eq => "=="@, BinaryOperator::NotEq => "!="@, BinaryOperator::LessEq => "<="@, BinaryOperator::GreaterEq => ">="@, BinaryOperator::Less => "<"@, BinaryOperator::Greater => ">"@,
        BinaryOperator::Plus => "+"@, BinaryOperator::Minus => "-"@, BinaryOperator::Mul => "*"@, BinaryOperator::Div => "/"@, BinaryOperator::Mod => "%"@, BinaryOperator::And => "&&"@, BinaryOperator::Or => "||"@ }
}
""")
    fn("quoted(s: Seq<char>) -> Seq<char>", '"\\""@ & escaped(esc(s)) & "\\""@')
    # leaves
    for k, t, x in LEAF:
        fn(f"t_{k}(x: {t}, i: I) -> Seq<char>", x)
        fn(f"d_{k}(x: {t}, d: D, i: I) -> Seq<char>", f"pre(x.decor, d, i) & t_{k}(x, i) & suf(x.decor, d, i)")
    for k, t in DECORATED:
        fn(f"d_{k}(x: {t}, d: D, i: I) -> Seq<char>", f"pre(x.decor, d, i) & t_{k}(x, i) & suf(x.decor, d, i)", "x, 2nat")
    fn("d_expr(e: Expression, d: D, i: I) -> Seq<char>", "match e { " + ", ".join(f"Expression::{v}(x) => d_{k}({st('Expression', v, 'x')}, d, i)" for v, k in EXPR) + " }", "e, 3nat")
    many = lambda nm, el, body: fn(f"{nm}(v: Vec<{el}>, m: nat, i: I) -> Seq<char>", "if m == 0 || m > v@.len() { non() } else { " + f"{nm}(v, (m - 1) as nat, i) & {body}" + " }", "v, m")
    T = lambda k, t, body: fn(f"t_{k}(x: {t}, i: I) -> Seq<char>", body, "x, 1nat")
    T("parenthesis", "Parenthesis", '"("@ & d_expr(x.inner, NO(), i) & ")"@')
    many("items", "Expression", '(if m == 1 { d_expr(v@[m - 1], NO(), i) } else { ","@ & d_expr(v@[m - 1], LEAD(), i) })')
    T("array", "Array", '"["@ & items(x.values, x.values@.len(), i) & (if x.values@.len() > 0 && x.trailing_comma { ","@ } else { non() }) & raw(x.trailing, ""@, i) & "]"@')
    T("object", "Object", '"{"@ & entries(x.items.entries, x.items.entries@.len(), i) & raw(x.trailing, ""@, i) & "}"@')
    many("entries", "(ObjectKey, ObjectValue)", "d_key(v@[m - 1].0, TRAIL(), i) & t_value(v@[m - 1].1, i)")
    fn("d_key(k: ObjectKey, d: D, i: I) -> Seq<char>", "match k { ObjectKey::Ident(x) => d_ident(x, d, i), ObjectKey::Expression(e) => d_expr(e, d, i) }", "k, 4nat")
    T("value", "ObjectValue", '(match x.assignment { ObjectValueAssignment::Colon => ":"@, ObjectValueAssignment::Equals => "="@ }) & d_expr(x.expr, LEAD(), i) & (match x.terminator { ObjectValueTerminator::Comma => ","@, ObjectValueTerminator::Newline => "\\n"@, ObjectValueTerminator::None => non() })')
    T("for", "ForExpr", """(if x.key_expr is Some { "{"@ & d_intro(x.intro, NO(), i) & d_expr(x.key_expr->Some_0, BOTH(), i) & "=>"@ & d_expr(x.value_expr, LEAD(), i) & (if x.grouping { "..."@ } else { non() }) & (match x.cond { Some(c) => d_cond(c, LEAD(), i), None => non() }) & raw(x.trailing, ""@, i) & "}"@ }
        else { "["@ & d_intro(x.intro, NO(), i) & d_expr(x.value_expr, LEAD(), i) & (match x.cond { Some(c) => d_cond(c, LEAD(), i), None => non() }) & "]"@ })""")
    T("intro", "ForIntro", '"for"@ & (match x.key_var { Some(k) => d_ident(k, LEAD(), i) & ","@, None => non() }) & d_ident(x.value_var, LEAD(), i) & "in"@ & d_expr(x.collection_expr, BOTH(), i) & ":"@')
    T("cond", "ForCond", '"if"@ & d_expr(x.expr, LEAD(), i)')
    T("conditional", "Conditional", 'd_expr(x.cond_expr, TRAIL(), i) & "?"@ & d_expr(x.true_expr, BOTH(), i) & ":"@ & d_expr(x.false_expr, LEAD(), i)')
    fn("t_fname(x: FuncName, i: I) -> Seq<char>", "spaces(x.namespace, x.namespace@.len(), i) & d_ident(x.name, NO(), i)")
    many("spaces", "Decorated<Ident>", 'd_ident(v@[m - 1], NO(), i) & "::"@')
    T("call", "FuncCall", "t_fname(x.name, i) & d_args(x.args, NO(), i)")
    T("args", "FuncArgs", '"("@ & items(x.args, x.args@.len(), i) & (if x.args@.len() > 0 && x.expand_final { "..."@ } else if x.args@.len() > 0 && x.trailing_comma { ","@ } else { non() }) & raw(x.trailing, ""@, i) & ")"@')
    T("unary", "UnaryOp", "un_text(x.operator.value) & d_expr(x.expr, NO(), i)")
    T("binary", "BinaryOp", "d_expr(x.lhs_expr, NO(), i) & d_binop(x.operator, BOTH(), i) & d_expr(x.rhs_expr, NO(), i)")
    T("trav", "Traversal", "d_expr(x.expr, NO(), i) & opers(x.operators, x.operators@.len(), i)")
    many("opers", "Decorated<TraversalOperator>", "d_oper(v@[m - 1], NO(), i)")
    fn("d_oper(x: Decorated<TraversalOperator>, d: D, i: I) -> Seq<char>", "pre(x.decor, d, i) & t_op(x.value, i) & suf(x.decor, d, i)", "x, 2nat")
    T("op", "TraversalOperator", """match x { TraversalOperator::FullSplat(y) => "["@ & d_splat(y, NO(), i) & "]"@, TraversalOperator::AttrSplat(y) => "."@ & d_splat(y, NO(), i), TraversalOperator::GetAttr(y) => "."@ & d_ident(y, NO(), i),
        TraversalOperator::Index(y) => "["@ & d_expr(y, NO(), i) & "]"@, TraversalOperator::LegacyIndex(y) => "."@ & d_u64(y, NO(), i) }""")
    # bodies
    fn("structs(x: Body, m: nat, i: I) -> Seq<char>", 'if m == 0 || m > x.structures@.len() { non() } else { structs(x, (m - 1) as nat, i) & d_structure(x.structures@[m - 1], NO(), i) & (if m < x.structures@.len() || !x.prefer_omit_trailing_newline { "\\n"@ } else { non() }) }', "x, m")
    fn("t_body(x: Body, i: I) -> Seq<char>", "structs(x, x.structures@.len(), i)", "x, x.structures@.len() + 1")
    fn("d_structure(s: Structure, d: D, i: I) -> Seq<char>", "match s { Structure::Attribute(x) => d_attr(" + st("Structure", "Attribute", "x") + ", d, i), Structure::Block(x) => d_block(" + st("Structure", "Block", "x") + ", d, i) }", "s, 3nat")
    T("attr", "Attribute", 'd_ident(x.key, TRAIL(), i) & "="@ & d_expr(x.value, LEAD(), i)')
    fn("lines(x: Body, m: nat, i: I) -> Seq<char>", 'if m == 0 || m > x.structures@.len() { non() } else { lines(x, (m - 1) as nat, i) & d_structure(x.structures@[m - 1], NO(), i) & "\\n"@ }', "x, m")
    fn("inner(x: Body, i: I) -> Seq<char>", 'if x.prefer_oneline && (x.structures@.len() == 0 || x.structures@.len() == 1 && x.structures@[0] is Attribute) { if x.structures@.len() > 0 { d_attr(' + st("Structure", "Attribute", "x.structures@[0]->Attribute_0") + ', BOTH(), i) } else { non() } } else { "\\n"@ & lines(x, x.structures@.len(), i) }', "x, x.structures@.len() + 1")
    T("block", "Block", 'd_ident(x.ident, TRAIL(), i) & labels(x.labels, x.labels@.len(), i) & "{"@ & (pre(x.body.decor, NO(), i) & inner(x.body, i) & suf(x.body.decor, NO(), i)) & "}"@')
    many("labels", "BlockLabel", "d_label(v@[m - 1], TRAIL(), i)")
    fn("d_label(l: BlockLabel, d: D, i: I) -> Seq<char>", "match l { BlockLabel::Ident(x) => d_ident(x, d, i), BlockLabel::String(x) => d_string(x, d, i) }")
    # templates
    fn("wl(s: Seq<char>, e: bool) -> Seq<char>", "if e { escaped(esc(s)) } else { esc(s) }")
    fn("uni(s: Seq<char>, m: nat) -> Seq<char>", "if m == 0 || m > s.len() { non() } else { uni(s, (m - 1) as nat) & u4(s[m - 1]) }", "m")
    fn("marks(s: Seq<char>, e: bool) -> Seq<char>", 'if s.len() == 0 { non() } else if e { uni(s, s.len()) } else { "${\\""@ & s & "\\"}"@ }')
    fn("part(s: Seq<char>, next: Option<Element>, dir: bool, e: bool) -> Seq<char>", "let p = match next { Some(Element::Interpolation(_)) => trim_end(s, '$'), Some(Element::Directive(_)) => trim_end(s, '%'), Some(Element::Literal(_)) => s, None => if dir { trim_end(s, '%') } else { s } }; if p.len() < s.len() && !e { trim_end(p, '$') } else { p }")
    fn("lit(s: Seq<char>, next: Option<Element>, dir: bool, e: bool) -> Seq<char>", "wl(part(s, next, dir, e), e) & marks(s.skip(part(s, next, dir, e).len() as int), e)")
    fn("elems(v: Seq<Element>, m: nat, dir: bool, e: bool, i: I) -> Seq<char>", "if m == 0 || m > v.len() { non() } else { elems(v, (m - 1) as nat, dir, e, i) & (match v[m - 1] { Element::Literal(s) => lit(s.value@, if m < v.len() { Some(v[m as int]) } else { None }, dir, e), Element::Interpolation(x) => t_interp(x, i), Element::Directive(x) => t_direc(*x, e, i) }) }", "v, m")
    fn("t_elem(x: Element, e: bool, i: I) -> Seq<char>", "match x { Element::Literal(s) => wl(s.value@, e), Element::Interpolation(x) => t_interp(x, i), Element::Directive(x) => t_direc(*x, e, i) }")
    fn("tmpl(x: Template, dir: bool, e: bool, i: I) -> Seq<char>", "elems(x.elements@, x.elements@.len(), dir, e, i)", "x, 1nat")
    T("stemplate", "StringTemplate", '"\\""@ & tmpl(x.template, false, true, i) & "\\""@')
    o.append("pub ghost enum El { L(Seq<char>), X(Seq<char>, bool) }\npub uninterp spec fn indented(v: Seq<El>, n: usize, p: Seq<String>) -> Seq<char>;   // C17\n")
    o.append("pub open spec fn els(v: Seq<Element>, m: nat, i: I) -> Seq<El> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { els(v, (m - 1) as nat, i).push(match v[m - 1] { Element::Literal(s) => El::L(s.value@), Element::Interpolation(x) => El::X(t_interp(x, i), true), Element::Directive(x) => El::X(t_direc(*x, false, i), false) }) } }\n")
    T("heredoc", "HeredocTemplate", '"<<"@ & (if x.indent is Some { "-"@ } else { non() }) & x.delimiter@ & raw(x.intro_suffix, ""@, i) & "\\n"@ & (match x.indent { Some(n) => indented(els(x.template.elements@, x.template.elements@.len(), i), n, x.prefixes@), None => tmpl(x.template, false, false, i) }) & raw(x.trailing, ""@, i) & x.delimiter@')
    fn("opens(s: Strip) -> Seq<char>", 'if s is Start || s is Both { "~"@ } else { non() }')
    fn("closes(s: Strip) -> Seq<char>", 'if s is End || s is Both { "~"@ } else { non() }')
    fn("tag(m: Seq<char>, s: Strip, p: Seq<char>) -> Seq<char>", 'm & opens(s) & p & closes(s) & "}"@')
    T("interp", "Interpolation", 'tag("${"@, x.strip, d_expr(x.expr, BOTH(), i))')
    TE = lambda k, t, body, dec="x, 2nat": fn(f"t_{k}(x: {t}, e: bool, i: I) -> Seq<char>", body, dec)
    TE("direc", "Directive", "match x { Directive::If(y) => t_if(y, e, i), Directive::For(y) => t_ford(y, e, i) }")
    TE("if", "IfDirective", "t_ife(x.if_expr, e, i) & (match x.else_expr { Some(y) => t_else(y, e, i), None => non() }) & t_endif(x.endif_expr, i)")
    TE("ife", "IfTemplateExpr", 'tag("%{"@, x.strip, raw(x.preamble, " "@, i) & "if"@ & d_expr(x.cond_expr, TRAIL(), i)) & tmpl(x.template, true, e, i)')
    TE("else", "ElseTemplateExpr", 'tag("%{"@, x.strip, raw(x.preamble, " "@, i) & "else"@ & raw(x.trailing, " "@, i)) & tmpl(x.template, true, e, i)')
    fn("t_endif(x: EndifTemplateExpr, i: I) -> Seq<char>", 'tag("%{"@, x.strip, raw(x.preamble, " "@, i) & "endif"@ & raw(x.trailing, " "@, i))')
    TE("ford", "ForDirective", "t_fore(x.for_expr, e, i) & t_endfor(x.endfor_expr, i)")
    TE("fore", "ForTemplateExpr", 'tag("%{"@, x.strip, raw(x.preamble, " "@, i) & "for"@ & (match x.key_var { Some(k) => d_ident(k, LEAD(), i) & ","@, None => non() }) & d_ident(x.value_var, BOTH(), i) & "in"@ & d_expr(x.collection_expr, BOTH(), i)) & tmpl(x.template, true, e, i)')
    fn("t_endfor(x: EndforTemplateExpr, i: I) -> Seq<char>", 'tag("%{"@, x.strip, raw(x.preamble, " "@, i) & "endfor"@ & raw(x.trailing, " "@, i))')
    o.append(r"""
pub proof fn trimmed(s: Seq<char>, c: char) ensures trim_end(s, c).len() <= s.len(), trim_end(s, c) == s.take(trim_end(s, c).len() as int) decreases s.len()
{ if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c); assert(s.drop_last().take(trim_end(s, c).len() as int) =~= s.take(trim_end(s, c).len() as int)); } else { assert(s.take(s.len() as int) =~= s); } }
""")
    return o


# kind, type, text
LEAF = [("ident", "Decorated<Ident>", "x.value@"), ("null", "Decorated<Null>", '"null"@'), ("bool", "Decorated<bool>", 'if x.value { "true"@ } else { "false"@ }'), ("u64", "Decorated<u64>", "int_text(x.value)"),
        ("number", "Formatted<Number>", 'match x.repr { Some(r) => raw(r, ""@, None), None => num_text(x.value) }'), ("string", "Decorated<String>", "quoted(x.value@)"), ("splat", "Decorated<Splat>", '"*"@'),
        ("binop", "Decorated<BinaryOperator>", "bin_text(x.value)")]
DECORATED = [("array", "Array"), ("object", "Object"), ("stemplate", "StringTemplate"), ("heredoc", "HeredocTemplate"), ("parenthesis", "Parenthesis"), ("for", "ForExpr"), ("intro", "ForIntro"), ("cond", "ForCond"), ("conditional", "Conditional"),
             ("call", "FuncCall"), ("args", "FuncArgs"), ("unary", "UnaryOp"), ("binary", "BinaryOp"), ("trav", "Traversal"), ("attr", "Attribute"), ("block", "Block"), ("body", "Body")]
EXPR = [("Null", "null"), ("Bool", "bool"), ("Number", "number"), ("String", "string"), ("Array", "array"), ("Object", "object"), ("StringTemplate", "stemplate"), ("HeredocTemplate", "heredoc"), ("Parenthesis", "parenthesis"), ("Variable", "ident"),
        ("ForExpr", "for"), ("Conditional", "conditional"), ("FuncCall", "call"), ("UnaryOp", "unary"), ("BinaryOp", "binary"), ("Traversal", "trav")]


def build(repo):
    files, fns, out, boxes = {}, [], [PRELUDE], {}
    boxed = lambda t, v: (t, v) in boxes

    def F(path):
        if path not in files:
            files[path] = File(f"{repo}/{path}")
        return files[path]

    def item(path, kind, name):
        t = F(path).item(kind, name)
        t = re.sub(r"\bVecMap\s*<", "XMap<", t)
        if kind == "struct" and "{" in t:
            t = pub_fields(t)
        elif "(" in t and kind == "struct":
            t = "pub " + re.sub(r"\(\s*(?:pub(?:\([^)]*\))?\s+)?", "(pub ", t, count=1)
        else:
            t = "pub " + t
        if kind == "enum":
            for v in re.findall(r"\b(\w+)\(\s*Box<", t):
                boxes[(name, v)] = 1
        out.append(re.sub(r"^(pub )+", "pub ", t) + "\n")

    R, X, T, S, N = "crates/hcl-primitives/src/", E + "expr/", E + "template/", E + "structure/", E + "encode/"
    item(R + "template.rs", "enum", "Strip")
    item(R + "expr.rs", "enum", "UnaryOperator")
    item(R + "expr.rs", "enum", "BinaryOperator")
    item(E + "raw_string.rs", "struct", "RawString")
    item(E + "raw_string.rs", "enum", "RawStringInner")
    for n in ("Decor", "Spanned", "Decorated", "Formatted"):
        item(E + "repr.rs", "struct", n)
    for path, kind, names in [(X + "mod.rs", "enum", ["Expression"]), (X + "mod.rs", "struct", ["Parenthesis", "Null"]), (X + "array.rs", "struct", ["Array"]), (X + "object.rs", "struct", ["Object", "ObjectValue"]),
                              (X + "object.rs", "enum", ["ObjectKey", "ObjectValueAssignment", "ObjectValueTerminator"]), (X + "conditional.rs", "struct", ["Conditional"]), (X + "for_expr.rs", "struct", ["ForExpr", "ForIntro", "ForCond"]),
                              (X + "func_call.rs", "struct", ["FuncName", "FuncCall", "FuncArgs"]), (X + "operation.rs", "struct", ["UnaryOp", "BinaryOp"]), (X + "traversal.rs", "struct", ["Traversal", "Splat"]), (X + "traversal.rs", "enum", ["TraversalOperator"]),
                              (T + "mod.rs", "struct", ["Template", "StringTemplate", "HeredocTemplate", "Interpolation", "IfDirective", "IfTemplateExpr", "ElseTemplateExpr", "EndifTemplateExpr", "ForDirective", "ForTemplateExpr", "EndforTemplateExpr"]),
                              (T + "mod.rs", "enum", ["Element", "Directive"]), (S + "mod.rs", "enum", ["Structure"]), (S + "attribute.rs", "struct", ["Attribute"]),
                              (S + "block.rs", "struct", ["Block"]), (S + "block.rs", "enum", ["BlockLabel"]), (S + "body.rs", "struct", ["Body"])]:
        for nm in names:
            item(path, kind, nm)
    for n in ("UnaryOperator", "BinaryOperator", "Strip", "ObjectValueAssignment", "ObjectValueTerminator"):
        out.append(f"impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {n} {{}}\n")
    out.append("pub struct EncodeState { pub buf: XOut, pub escape: bool }\n")
    if not re.search(r"buf\s*:\s*&'a mut dyn fmt::Write\s*,\s*escape\s*:\s*bool\s*,?\s*\}", F(N + "mod.rs").item("struct", "EncodeState")):
        raise Lost("EncodeState: an unexpected form")
    out.append(REL)
    out.extend(text_spec(boxed))

    # ---- constants, as functions ----
    consts = {}
    for n in ("mod", "template", "expr", "structure"):
        for m in re.finditer(r"\bconst\s+([A-Z_]+)\s*:\s*(&(?:'static )?str|\(&(?:'static )?str,\s*&(?:'static )?str\))\s*=\s*(.*?);", F(N + f"{n}.rs").text):
            nm, ty, v = m.groups()
            lits = re.findall(r'"(?:[^"\\]|\\.)*"', v)
            if len(lits) != (2 if ty.startswith("(") else 1):
                raise Lost(f"{nm}: an unexpected constant")
            consts[nm] = 1
            e = f"r.0@ == {lits[0]}@, r.1@ == {lits[1]}@" if len(lits) == 2 else f"r@ == {lits[0]}@"
            out.append(f"pub fn c_{nm}() -> (r: {ty.replace('&str', chr(38) + chr(39) + 'static str')}) ensures {e} {{ {v} }}\n")

    # ---- the text of the code, as Verus reads it ----
    def common(f):
        f.sig = re.sub(r"\bwhere\b.*$", "", f.sig, flags=re.S).strip()
        f.sig = re.sub(r"&mut dyn (?:fmt::)?Write\b", "&mut EncodeState", f.sig)
        f.sig = re.sub(r"\b(?:std::)?fmt::Result\b", "XResult", f.sig)
        b = f.body
        b = re.sub(r"(?<![\w:])(" + "|".join(consts) + r")\b", r"c_\1()", b)
        b = re.sub(r"write_char\(\s*'((?:[^'\\]|\\.))'\s*\)", lambda m: 'write_str("%s")' % ('\\"' if m[1] == '"' else m[1].replace("\\'", "'")), b)
        b = re.sub(r'write!\(\s*(\w+)\s*,\s*"\{:04X\}"', "BAD", b)
        b = re.sub(r'write!\(\s*(\w+)\s*,\s*"\\\\u\{:04X\}"\s*,\s*(\w+) as u32\s*\)', r"x_u4(\1, \2)", b)
        b = re.sub(r'write!\(\s*(\w+)\s*,\s*"\{self\}"\s*\)', r"x_show(self, \1)", b)
        b = re.sub(r'write!\(\s*(\w+)\s*,\s*"\{\}"\s*,\s*([^;{}]*?)\s*\)(?=\s*(?:\?|;|\}))', r"\1.write_str(\2)", b)

        def fmtstr(m):
            parts = [x for x in re.split(r"(\{\w+\})", m[2].replace("{{", "\1").replace("}}", "\2")) if x]
            parts = [p[1:-1] if p[0] == "{" else '"' + p.replace("\1", "{").replace("\2", "}") + '"' for p in parts]
            return "{ " + " ".join(f"{m[1]}.write_str({p})?;" for p in parts[:-1]) + f" {m[1]}.write_str({parts[-1]}) }}"
        b = re.sub(r'write!\(\s*(\w+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*\)', fmtstr, b)
        if b != f.body:
            f.rewrites.append(f"{f.name}: constants as functions, write! and write_char of literals as write_str")
        f.body = b
        for h in ("encode_quoted_string", "encode_escaped"):
            f.rewrite(f"{h}(buf, &$x_s)", f"{h}(buf, x_text(&$x_s))", "deref to the text", must=False)
            f.rewrite(f"{h}(buf, $x)", f"{h}(buf, x_text($x))", "deref to the text", must=False)
        f.rewrite("buf.write_str(&$x_s)", "buf.write_str(x_text(&$x_s))", "deref to the text", must=False)
        f.rewrite("escape_markers($x)", "escape_markers(x_text($x))", "deref to the text", must=False)
        f.rewrite("encode_literal($x, buf)", "encode_literal(x_text($x), buf)", "deref to the text", must=False)
        f.rewrite("split_marker_chars($x, $y_s)", "split_marker_chars(x_text($x), $y_s)", "deref to the text", must=False)
        f.rewrite("(**self)", "self.deref()", "deref", must=False)
        return f

    def emit(f, impl=None, steps=None, attrs=SPIN):
        f.attrs, f.vis = attrs, "pub "
        if steps:
            f.at("start", f"broadcast use steps; assert(origin(old({steps}).buf@));")
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    def ok(text, b="buf"):
        return f"ensures final({b}).escape == old({b}).escape, r is Ok ==> wrote(old({b}).buf@, {text}, final({b}).buf@)"

    # ---- the state ----
    ST = "impl EncodeState"
    f = common(F(N + "mod.rs").fn("write_str", "impl fmt::Write for EncodeState<'_>"))
    f.spec(ok("s@", "self"))
    f.at("start", "reveal(wrote);")
    emit(f, ST)
    f = common(F(N + "mod.rs").fn("escape", "impl<'a> EncodeState<'a>"))
    f.spec("ensures r == self.escape")
    emit(f, ST)
    out.append("#[verifier::external_body] pub fn x_u4(buf: &mut EncodeState, c: char) -> (r: XResult) " + ok("u4(c)") + " { unimplemented!() }\n")
    out.append("#[verifier::external_body] pub fn encode_escaped(buf: &mut EncodeState, value: &str) -> (r: XResult) " + ok("escaped(value@)") + " { unimplemented!() }\n")
    out.append("pub trait XShow { spec fn shown(&self) -> Seq<char>; fn fmt(&self, f: &mut EncodeState) -> (r: XResult) " + ok("self.shown()", "f") + "; }\n"
               "pub fn x_show<T: XShow>(t: &T, buf: &mut EncodeState) -> (r: XResult) " + ok("t.shown()") + " { t.fmt(buf) }\n")
    for t, s in (("bool", 'if *self { "true"@ } else { "false"@ }'), ("u64", "int_text(*self)"), ("Number", "num_text(*self)")):
        out.append(f"impl XShow for {t} {{ open spec fn shown(&self) -> Seq<char> {{ {s} }} #[verifier::external_body] fn fmt(&self, f: &mut EncodeState) -> (r: XResult) {{ unimplemented!() }} }}\n")
    for t, p, s in (("Null", X + "mod.rs", '"null"@'), ("Splat", X + "traversal.rs", '"*"@')):
        f = common(F(p).fn("fmt", f"impl fmt::Display for {t}"))
        f.sig = "fn fmt(&self, f: &mut EncodeState) -> XResult"
        f.spec("")
        f.attrs, f.vis = "", ""
        fns.append(f)
        out.append(f"impl XShow for {t} {{ open spec fn shown(&self) -> Seq<char> {{ {s} }}\n{f.render()}}}\n")

    # ---- accessors ----
    def acc(path, name, inside, impl, contract, sig=None, prep=None):
        f = F(path).fn(name, inside)
        if sig:
            f.sig = sig
        libchain.options(f, result=())
        if prep:
            prep(f)
        f.spec(contract)
        emit(f, impl)
    RP = E + "repr.rs"
    for n in ("Spanned", "Decorated", "Formatted"):
        i = f"impl<T> {n}<T>"
        keep = "*final(self) == (" + n + " { value: *final(r), ..*old(self) })"
        for nm, tr, c in (("value", i, "ensures *r == self.value"), ("value_mut", i, f"ensures *r == old(self).value, {keep}"), ("as_ref", f"impl<T> AsRef<T> for {n}<T>", "ensures *r == self.value"),
                          ("as_mut", f"impl<T> AsMut<T> for {n}<T>", f"ensures *r == old(self).value, {keep}"), ("deref", f"impl<T> Deref for {n}<T>", "ensures *r == self.value"), ("deref_mut", f"impl<T> DerefMut for {n}<T>", f"ensures *r == old(self).value, {keep}")):
            acc(RP, nm, tr, i, c)
        if n != "Spanned":
            acc(RP, "decor", f"impl<T> Decorate for {n}<T>", i, "ensures *r == self.decor")
            acc(RP, "decor_mut", f"impl<T> Decorate for {n}<T>", i, f"ensures *r == old(self).decor, *final(self) == ({n} {{ decor: *final(r), ..*old(self) }})")
    f = F(RP).fn("as_repr", "impl<T> Formatted<T>")
    f.body = re.sub(r"self\s*\.\s*repr\s*\.\s*as_ref\(\)", "match &self.repr { Some(x_a) => Some(x_a), None => None }", f.body)
    f.spec("ensures r is Some <==> self.repr is Some, r is Some ==> *r->Some_0 == self.repr->Some_0")
    emit(f, "impl<T> Formatted<T>")
    for t, fld in (("Decor", "prefix"), ("Decor", "suffix")):
        f = F(RP).fn(fld, "impl Decor")
        f.body = re.sub(r"self\s*\.\s*(\w+)\s*\.\s*as_ref\(\)", r"match &self.\1 { Some(x_a) => Some(x_a), None => None }", f.body)
        f.spec(f"ensures r is Some <==> self.{fld} is Some, r is Some ==> *r->Some_0 == self.{fld}->Some_0")
        emit(f, "impl Decor")
    DECL = {"array": X + "array.rs", "object": X + "object.rs", "func_call": X + "func_call.rs"}
    for t, p, names in (("Array", X + "array.rs", ("trailing", "trailing_comma")), ("Object", X + "object.rs", ("trailing",)), ("ObjectValue", X + "object.rs", ("expr", "assignment", "terminator")), ("FuncArgs", X + "func_call.rs", ("trailing", "trailing_comma", "expand_final")),
                        ("ForExpr", X + "for_expr.rs", ("trailing",)), ("Parenthesis", X + "mod.rs", ("inner",)), ("HeredocTemplate", T + "mod.rs", ("trailing", "intro_suffix", "indent")), ("IfTemplateExpr", T + "mod.rs", ("preamble",)),
                        ("ElseTemplateExpr", T + "mod.rs", ("preamble", "trailing")), ("EndifTemplateExpr", T + "mod.rs", ("preamble", "trailing")), ("ForTemplateExpr", T + "mod.rs", ("preamble",)), ("EndforTemplateExpr", T + "mod.rs", ("preamble", "trailing")),
                        ("Body", S + "body.rs", ("prefer_oneline", "prefer_omit_trailing_newline"))):
        for nm in names:
            f = F(p).fn(nm, f"impl {t}")
            ref = re.search(r"->\s*&", f.sig)
            f.spec(f"ensures {'*' if ref else ''}r == self.{nm}")
            emit(f, f"impl {t}")
    f = F(T + "mod.rs").fn("prefixes", "impl HeredocTemplate")
    f.sig = "fn prefixes(&self) -> &Vec<String>"
    f.spec("ensures r@ == self.prefixes@")
    emit(f, "impl HeredocTemplate")
    acc(T + "mod.rs", "deref", "impl Deref for StringTemplate", "impl StringTemplate", "ensures *r == self.template", sig="fn deref(&self) -> &Template")
    for t, p, fld in (("Array", X + "array.rs", "values"), ("FuncArgs", X + "func_call.rs", "args"), ("Body", S + "body.rs", "structures"), ("Object", X + "object.rs", "items"), ("Template", T + "mod.rs", "elements")):
        vec = fld + (".entries" if t == "Object" else "")
        f = F(p).fn("is_empty", f"impl {t}")
        f.body = re.sub(rf"\bself\s*\.\s*items\s*\.\s*is_empty\(\)", "self.items.entries.is_empty()", f.body)
        f.spec(f"ensures r == (self.{vec}@.len() == 0)")
        f.body = re.sub(r"([\w.]+)\.is_empty\(\)", r"\1.len() == 0", f.body)
        f.rewrites.append("is_empty as len() == 0")
        emit(f, f"impl {t}")
        if t != "Body":
            f = F(p).fn("len", f"impl {t}")
            f.body = re.sub(r"\bself\s*\.\s*items\s*\.\s*len\(\)", "self.items.entries.len()", f.body)
            f.spec(f"ensures r == self.{vec}@.len()")
            emit(f, f"impl {t}")
        elem = {"Array": "Expression", "FuncArgs": "Expression", "Body": "Structure", "Object": "(ObjectKey, ObjectValue)", "Template": "Element"}[t]
        f = F(p).fn("iter", f"impl {t}")
        m = re.match(r"\{\s*Box::new\(\s*(self(?:\s*\.\s*\w+)*?)\s*\.\s*iter\(\)\s*,?\s*\)\s*\}$", f.body)
        if not m:
            raise Lost(f"{t}::iter: not an iterator over a field")
        f.rewrites.append(f"{t}::iter: the iterator as the list it walks over")
        f.sig, f.body = f"fn iter(&self) -> &Vec<{elem}>", "{ &" + m.group(1) + (".entries" if t == "Object" else "") + " }"
        f.spec(f"ensures *r == self.{vec}")
        emit(f, f"impl {t}")
        g = F(p).fn("into_iter", f"impl<'a> IntoIterator for &'a {t}")
        g.name, g.sig, g.attrs = "x_l", f"fn x_l(&self) -> &Vec<{elem}>", SPIN
        g.spec("")
        fns.append(g)
        out.append(f"impl XL for {t} {{ type T = {elem}; open spec fn l(&self) -> Seq<{elem}> {{ self.{vec}@ }}\n{g.render()}}}\n")
    B = "impl Body"
    acc(S + "body.rs", "len", B, B, "ensures r == self.structures@.len()")

    def get(f):
        f.rewrite("self.structures.get($i)", "if $i < self.structures.len() { Some(&self.structures[$i]) } else { None }", "get as an index in bounds", must=False)
    acc(S + "body.rs", "get", B, B, "ensures r is Some <==> index < self.structures@.len(), r is Some ==> *r->Some_0 == self.structures@[index as int]", prep=get)
    acc(S + "mod.rs", "is_attribute", "impl Structure", "impl Structure", "ensures r == (*self is Attribute)", prep=lambda f: f.rewrite("self.as_attribute().is_some()", "matches!(self, Structure::Attribute(_))", "", must=False))
    acc(S + "mod.rs", "as_attribute", "impl Structure", "impl Structure", "ensures r is Some <==> *self is Attribute, r is Some ==> *r->Some_0 == " + ("*" if boxed("Structure", "Attribute") else "") + "self->Attribute_0")

    def single(f):
        f.body = re.sub(r"self\s*\.\s*get\(0\)\s*\.\s*is_some_and\(\s*Structure::is_attribute\s*\)", "(match self.get(0) { Some(x_a) => Structure::is_attribute(x_a), None => false })", f.body)
    acc(S + "body.rs", "has_single_attribute", B, B, "ensures r == (self.structures@.len() == 1 && self.structures@[0] is Attribute)", prep=single)
    for ty, spec in (("UnaryOperator", "un_text"), ("BinaryOperator", "bin_text")):
        f = F(R + "expr.rs").fn("as_str", f"impl {ty}")
        f.spec(f"ensures r@ == {spec}({'*self' if '&self' in f.sig else 'self'})")
        emit(f, f"impl {ty}")
    for nm, a in (("strip_start", "Start"), ("strip_end", "End")):
        f = F(R + "template.rs").fn(nm, "impl Strip")
        f.spec(f"ensures r == (self is {a} || self is Both)")
        emit(f, "impl Strip")

    # ---- decor ----
    mac = F(E + "macros.rs")

    def macro_fn(mac_name, name, subst):
        text = mac.macro_rules(mac_name)
        m = re.search(r"impl\s+\$crate::Decorate\s+for\s+\$ty\s*(\{.*)", text, re.S)
        if not m:
            raise Lost(f"macro {mac_name}")
        toks = rx.lex(m.group(1))
        t = "impl Q " + m.group(1)[:toks[rx.match_close(toks, 0)].b].replace("$crate::", "")
        return File(E + "macros.rs", text=subst(t)).fn(name, "impl Q")
    for k, t in DECORATED:
        uses = [p for p in F_all(repo) if re.search(r"\bdecorate_impl!\s*[({\[][^)}\]]*\b" + t + r"\b", F(p).text)]
        uses = [p for p in uses if re.search(r"(?<!forward_)decorate_impl!\s*[({\[][^)}\]]*\b" + t + r"\b", F(p).text)]
        if len(uses) != 1:
            raise Lost(f"decorate_impl! for {t}")
        for nm, c in (("decor", "ensures *r == self.decor"), ("decor_mut", f"ensures *r == old(self).decor, *final(self) == ({t} {{ decor: *final(r), ..*old(self) }})")):
            f = macro_fn("decorate_impl", nm, lambda s: s)
            f.sig = re.sub(r"\$crate::", "", f.sig)
            f.spec(c)
            f.rewrites.append("decorate_impl! expanded")
            emit(f, f"impl {t}")

    # ---- forwarding decor ----
    for t, p, arms in (("Expression", X + "mod.rs", EXPR), ("ObjectKey", X + "object.rs", [("Ident", ""), ("Expression", "")]), ("BlockLabel", S + "block.rs", [("Ident", ""), ("String", "")]), ("Structure", S + "mod.rs", [("Attribute", ""), ("Block", "")])):
        pass   # used by no printing function

    # ---- printing ----
    HOFS = ("encode_decorated", "encode_strip", "escaped", "unescaped")

    def loops(f, texts):
        """for loops over a list as while loops; texts: what is written when the index is reached"""
        k = 0
        while True:
            toks = rx.lex(f.body)
            i = next((i for i, t in enumerate(toks) if t.k == "id" and t.s == "for" and toks[i + 1].s != "<"), None)
            if i is None:
                break
            j = i
            while toks[j].s != "in":
                j += 1
            b = j
            while toks[b].s != "{":
                b = rx.match_close(toks, b) if toks[b].s in ("(", "[") and toks[b].k == "p" else b
                b += 1
            pat, src = f.body[toks[i].b:toks[j].a].strip(), f.body[toks[j].b:toks[b].a].strip()
            m = re.match(r"\((\w+),\s*(.*)\)$", pat, re.S)
            n = re.sub(r"\s*\.\s*enumerate\(\)$", "", src)
            if n != src and m:
                bind, pat, src = f"let {m[1]} = x_i{k}; ", m[2], n
            else:
                bind = ""
            src = re.sub(r"\s*\.\s*iter\(\)$", "", src)
            root = re.sub(r"^&\s*", "", src).strip()
            chars = root.endswith(".chars()")
            m = re.match(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)$", pat)
            bind += f"let {m[1]} = &x_v{k}[x_i{k}].0; let {m[2]} = &x_v{k}[x_i{k}].1;" if m else f"let {pat} = {'' if chars else '&'}x_v{k}[x_i{k}];"
            head = f"let x_v{k} = x_chars({root[:-8]});" if chars else f"let x_v{k} = ({root}).x_l();"
            if k >= len(texts):
                raise Lost(f"{f.name}: more loops than contracts")
            f.body = f.body[:toks[i].a] + f"{head} let mut x_i{k}: usize = 0; while x_i{k} < x_v{k}.len() {{ {bind} x_i{k} = x_i{k} + 1;" + f.body[toks[b].b:]
            f.loop(k, f"invariant x_i{k} <= x_v{k}@.len(), buf.escape == old(buf).escape, sofar(old(buf).buf@, {cats(texts[k](f'x_i{k} as nat'))}, buf.buf@)")
            f.rewrites.append(f"{f.name}: `for {pat} in {src}` as a loop over the indices")
            k += 1

    def lift(f, tag, item=None, own=None, texts=(), inner=()):
        """closures as functions of what they capture.  item: type of the printed item, own: of self; texts[n](c): what
        closure n writes when it captured c ("self" or "item"); inner[n]: the loops in it"""
        n = 0
        while True:
            toks = rx.lex(f.body)
            hit = None
            for i in range(len(toks) - 1):
                if toks[i].s in HOFS and toks[i + 1].s == "(":
                    a, e = libchain.split_args(f.body, toks, i + 1)
                    c = libchain.closure(a[-1]) if a else None
                    if c:
                        hit = (i, e, a, c)
                        break
            if not hit:
                return f
            i, e, a, (params, cbody) = hit
            nm, cn = toks[i].s, f"x_{tag}_c{n}"
            if len(params) != 1 or n >= len(texts):
                raise Lost(f"{f.name}: closures of {nm}")
            b = cbody if cbody.strip().startswith("{") else "{ " + cbody + " }"
            cap = "self" if re.search(r"\bself\b", b) else "item"
            name = "self" if cap == "self" else a[0].strip()
            if not re.fullmatch(r"\w+", name):
                raise Lost(f"{f.name}: what the closure of {nm} captures")
            ty = own if cap == "self" else item
            b = re.sub(rf"\b{name}\b", "x_s", b)
            if params != ["buf"]:
                b = re.sub(rf"\b{params[0]}\b", "buf", b)
            cf = rx.Fn(cn, f"fn {cn}(x_s: &{ty}, buf: &mut EncodeState) -> XResult", b, f.path)
            cf.rewrites.append(f"{f.name}: the closure passed to {nm} as a function of what it captures")
            common(cf)
            cf.rewrite("encode_elements(x_s, $d, buf)", "encode_elements(x_s.deref(), $d, buf)", "deref", must=False)
            cf.rewrite("(*x_s).encode(buf)", "x_s.encode(buf)", "", must=False)
            text = texts[n](cap)
            loops(cf, inner[n] if n < len(inner) and inner[n] else [])
            if nm == "unescaped" or nm == "escaped":
                pass
            libchain.options(cf, result=())
            cf.spec((f"requires old(buf).escape == {'true' if nm == 'escaped' else 'false'} " if nm in ("escaped", "unescaped") else "") + ok(cats(text)))
            emit(cf, None, "buf")
            inst = instance(nm, cn, f"{tag}_{n}", ty, item, text)
            if nm in ("escaped", "unescaped"):
                j = libchain.receiver(toks, i - 1)
                f.body = f.body[:toks[j].a] + f"{inst}({name}, {f.body[toks[j].a:toks[i - 1].a].strip()})" + f.body[toks[e].b:]
            else:
                f.body = f.body[:toks[i].a] + f"{inst}({', '.join([name] + [x.strip() for x in a[:-1]])})" + f.body[toks[e].b:]
            n += 1

    def instance(nm, cn, tag, ty, item, text, value=None):
        state = nm in ("escaped", "unescaped", "with_escape")
        hf = F(N + ("template.rs" if nm == "encode_strip" else "mod.rs")).fn(nm, "impl<'a> EncodeState<'a>" if state else None)
        m = re.search(r"(\w+)\s*:\s*F\b", hf.sig)
        if not m:
            raise Lost(f"{nm}: no closure parameter")
        fp, name = m.group(1), f"x_{tag}_{nm}"
        hf.name = name
        common(hf)
        if state:
            hf.sig = f"fn {name}(x_s: &{ty}, buf: &mut EncodeState" + (", escape: bool" if nm == "with_escape" else "") + ") -> XResult"
            hf.body = re.sub(r"\bself\b", "buf", hf.body)
            hf.rewrite("std::mem::replace($x_s)", "x_replace($x_s)", "mem::replace", must=False)
            m = re.search(r"buf\s*\.\s*with_escape\(\s*(\w+)\s*,\s*" + fp + r"\s*\)", hf.body)
            if m:
                inner = instance("with_escape", cn, tag + "_w", ty, item, text, m.group(1))
                hf.body = hf.body[:m.start()] + f"{inner}(x_s, buf, {m.group(1)})" + hf.body[m.end():]
            pre = f"requires escape == {value} " if nm == "with_escape" else ""
            hf.spec(pre + ok(cats(text)))
        elif nm == "encode_strip":
            hf.sig = f"fn {name}(x_s: &{ty}, buf: &mut EncodeState, start_marker: &str, strip: Strip) -> XResult"
            hf.spec(ok(cats(f"tag(start_marker@, strip, {text})")))
        else:
            hf.sig = f"fn {name}(x_s: &{ty}, item: &{item}, buf: &mut EncodeState, default_decor: (&str, &str)) -> XResult"
            t = text
            hf.spec(ok(cats(f"pre(item.decor, dd(default_decor), None) & {t} & suf(item.decor, dd(default_decor), None)")))
        hf.body = re.sub(rf"\b{fp}\(\s*(\w+)\s*\)", rf"{cn}(x_s, \1)", hf.body)
        emit(hf, None, "buf")
        return name

    def en(path, name, inside, impl, text, prep=None, loopt=(), req="", **kw):
        f = common(F(path).fn(name, inside))
        if prep:
            prep(f)
        if kw:
            lift(f, **kw)
        loops(f, list(loopt))
        libchain.options(f, result=())
        f.spec(req + ok(cats(text)))
        emit(f, impl, "buf")

    # raw strings and decor
    f = F(E + "raw_string.rs").fn("as_str", "impl RawString")
    f.spec('ensures r@ == (match self.0 { RawStringInner::Explicit(s) => s@, _ => ""@ })')
    emit(f, "impl RawString")
    en(E + "raw_string.rs", "encode_with_default", "impl RawString", "impl RawString", "raw(*self, default@, None)")
    for a in ("prefix", "suffix"):
        en(RP, f"encode_{a}", "impl Decor", "impl Decor", f"(match self.{a} {{ Some(x) => raw(x, default@, None), None => default@ }})")
    en(N + "mod.rs", "encode_quoted_string", None, None, "quoted(value@)")
    # leaves
    out.append("pub trait XEnc { spec fn xt(&self) -> Seq<char>; fn encode(&self, buf: &mut EncodeState) -> (r: XResult) " + ok("self.xt()") + "; }\n")
    for t, s in (("bool", 'if *self { "true"@ } else { "false"@ }'), ("u64", "int_text(*self)"), ("Ident", "self@"), ("Null", '"null"@'), ("Splat", '"*"@'), ("Number", "num_text(*self)"), ("BinaryOperator", "bin_text(*self)")):
        f = common(F(N + ("expr.rs" if t in ("Null", "Splat", "BinaryOperator") else "mod.rs")).fn("encode", f"impl Encode for {t}"))
        f.at("start", "broadcast use steps; assert(origin(old(buf).buf@));")
        f.attrs = f.vis = ""
        f.spec("")
        fns.append(f)
        out.append(f"impl XEnc for {t} {{ open spec fn xt(&self) -> Seq<char> {{ {s} }}\n{f.render()}}}\n")

    def blanket(k, t, text):
        en(N + "mod.rs", "encode_decorated", "impl<T> EncodeDecorated for T", f"impl {t}", f"d_{k}(*self, dd(default_decor), None)", tag=f"ed_{k}", item=t, own=t, texts=[lambda c: text])
    for k, t, _ in LEAF:
        if k == "string":
            continue
        w = t.split("<")[0]
        en(N + "mod.rs", "encode", f"impl<T> Encode for {w}<T>", f"impl {t}", f"t_{k}(*self, None)")
        blanket(k, t, f"t_{k}(*x_s, None)")
    for k, t in DECORATED:
        blanket(k, t, f"t_{k}(*x_s, None)")
    en(N + "mod.rs", "encode", "impl<T> Encode for Decorated<T>", "impl Decorated<TraversalOperator>", "t_op(self.value, None)")
    blanket("oper", "Decorated<TraversalOperator>", "t_op(x_s.value, None)")

    EX, SX, TX = N + "expr.rs", N + "structure.rs", N + "template.rs"
    TT = lambda k, t, p=EX, **kw: en(p, "encode", f"impl Encode for {t}", f"impl {t}", f"t_{k}(*self, None)", **kw)
    en(EX, "encode_decorated", "impl EncodeDecorated for Expression", "impl Expression", "d_expr(*self, dd(default_decor), None)", tag="expr_s", item="Decorated<String>", own="Expression", texts=[lambda c: "quoted(x_s.value@)" if c == "item" else "BAD"])
    TT("parenthesis", "Parenthesis")
    TT("array", "Array", loopt=[lambda i: f'"["@ & items(self.values, {i}, None)'])
    TT("object", "Object", loopt=[lambda i: '"{"@ & entries(self.items.entries, ' + i + ', None)'])
    en(EX, "encode_decorated", "impl EncodeDecorated for ObjectKey", "impl ObjectKey", "d_key(*self, dd(default_decor), None)")
    TT("value", "ObjectValue")
    TT("for", "ForExpr")
    TT("intro", "ForIntro")
    TT("cond", "ForCond")
    TT("conditional", "Conditional")
    TT("call", "FuncCall")
    TT("fname", "FuncName", loopt=[lambda i: f"spaces(self.namespace, {i}, None)"])
    TT("args", "FuncArgs", loopt=[lambda i: f'"("@ & items(self.args, {i}, None)'])
    TT("unary", "UnaryOp", prep=lambda f: f.rewrite("self.operator.as_str()", "self.operator.deref().as_str()", "deref", must=False))
    TT("binary", "BinaryOp")
    TT("trav", "Traversal", loopt=[lambda i: f"d_expr(self.expr, NO(), None) & opers(self.operators, {i}, None)"])
    TT("op", "TraversalOperator")
    # bodies
    TT("body", "Body", SX, loopt=[lambda i: f"structs(*self, {i}, None)"])
    en(SX, "encode_decorated", "impl EncodeDecorated for Structure", "impl Structure", "d_structure(*self, dd(default_decor), None)")
    TT("attr", "Attribute", SX)
    BT = {"item": "inner(*x_s, None)", "self": "inner(x_s.body, None)"}
    TT("block", "Block", SX, loopt=[lambda i: f"d_ident(self.ident, TRAIL(), None) & labels(self.labels, {i}, None)"], tag="block", item="Body", own="Block", texts=[lambda c: BT[c]],
       inner=[[lambda i: f'"\\n"@ & lines(*x_s, {i}, None)']])
    en(SX, "encode_decorated", "impl EncodeDecorated for BlockLabel", "impl BlockLabel", "d_label(*self, dd(default_decor), None)", tag="label_s", item="Decorated<String>", own="BlockLabel", texts=[lambda c: "quoted(x_s.value@)" if c == "item" else "BAD"])
    # templates
    TT("stemplate", "StringTemplate", TX, tag="stemplate", own="StringTemplate", texts=[lambda c: "tmpl(x_s.template, false, true, None)"])
    out.append("#[verifier::external_body] pub fn encode_indented(template: &Template, n: usize, prefixes: &Vec<String>, buf: &mut EncodeState) -> (r: XResult) requires !old(buf).escape " + ok("indented(els(template.elements@, template.elements@.len(), None), n, prefixes@)") + " { unimplemented!() }\n")
    TT("heredoc", "HeredocTemplate", TX, tag="heredoc", own="HeredocTemplate", texts=[lambda c: "(match x_s.indent { Some(n) => indented(els(x_s.template.elements@, x_s.template.elements@.len(), None), n, x_s.prefixes@), None => tmpl(x_s.template, false, false, None) })"])
    EE = ("t_{0}(*self, old(buf).escape, None)").format
    en(TX, "encode", "impl Encode for Template", "impl Template", "tmpl(*self, false, old(buf).escape, None)")
    en(TX, "encode", "impl Encode for Element", "impl Element", EE("elem"))
    en(TX, "encode_literal", None, None, "wl(lit@, old(buf).escape)")
    en(TX, "encode_marker_chars", None, None, "marks(chars@, old(buf).escape)", loopt=[lambda i: f"uni(chars@, {i})"],
       prep=lambda f: f.rewrite("chars.is_empty()", "x_is_empty(chars)", "str", must=False))

    def split(f):
        f.sig = f.sig.replace("&&Element", "&Element")
        f.rewrite("$l.trim_end_matches($c)", "x_trim_end($l, $c)", "str", must=False)
        f.rewrite("$a.len() < $b.len()", "x_shorter($a, $b)", "the shorter text", must=False)
        f.rewrite("$l.split_at($r.len())", "x_split_at($l, $r)", "split_at", must=False)
    f = common(F(TX).fn("split_marker_chars"))
    split(f)
    f.spec("ensures r.0@ == part(lit@, (match next { Some(x) => Some(*x), None => None }), directive_follows, escape), r.1@ == lit@.skip(r.0@.len() as int)")
    f.at("start", "proof { let s = lit@; trimmed(s, '$'); trimmed(s, '%'); trimmed(trim_end(s, '$'), '$'); trimmed(trim_end(s, '%'), '$'); let n1 = trim_end(s, '$').len() as int; let n2 = trim_end(s, '%').len() as int; "
         "assert(s.take(n1).take(trim_end(trim_end(s, '$'), '$').len() as int) =~= s.take(trim_end(trim_end(s, '$'), '$').len() as int)); assert(s.take(n2).take(trim_end(trim_end(s, '%'), '$').len() as int) =~= s.take(trim_end(trim_end(s, '%'), '$').len() as int)); assert(s.take(s.len() as int) =~= s); }")
    f.at("hide", "hide(trim_end);")
    emit(f, None)
    f = common(F(TX).fn("encode_elements"))
    f.body = re.sub(r"template\.iter\(\)\.peekable\(\)", "x_peekable(template.iter())", f.body)
    f.at("start", "let ghost v = template.elements@;")
    f.before_loop(0, "proof { assert(v.skip(0) =~= v); }")
    f.loop(0, """invariant v == template.elements@, buf.escape == old(buf).escape, elements.left().len() <= v.len(), elements.left() == v.skip(v.len() - elements.left().len()), sofar(old(buf).buf@, elems(v, (v.len() - elements.left().len()) as nat, directive_follows, old(buf).escape, None), buf.buf@)
ensures elements.left().len() == 0""", start="proof { let i = v.len() - elements.left().len() - 1; assert(v.skip(i)[0] == v[i]); assert(v.skip(i).drop_first() =~= v.skip(i + 1)); if elements.left().len() > 0 { assert(elements.left()[0] == v[i + 1]); } }")
    f.spec(ok("tmpl(*template, directive_follows, old(buf).escape, None)"))
    emit(f, None, "buf", SPIN + "#[verifier::allow_complex_invariants] ")
    one = lambda text: [lambda c: text]
    TT("interp", "Interpolation", TX, tag="interp", own="Interpolation", texts=one("d_expr(x_s.expr, BOTH(), None)"))
    en(TX, "encode", "impl Encode for Directive", "impl Directive", EE("direc"))
    en(TX, "encode", "impl Encode for IfDirective", "impl IfDirective", EE("if"))
    en(TX, "encode", "impl Encode for IfTemplateExpr", "impl IfTemplateExpr", EE("ife"), tag="ife", own="IfTemplateExpr", texts=one('raw(x_s.preamble, " "@, None) & "if"@ & d_expr(x_s.cond_expr, TRAIL(), None)'))
    en(TX, "encode", "impl Encode for ElseTemplateExpr", "impl ElseTemplateExpr", EE("else"), tag="else", own="ElseTemplateExpr", texts=one('raw(x_s.preamble, " "@, None) & "else"@ & raw(x_s.trailing, " "@, None)'))
    en(TX, "encode", "impl Encode for EndifTemplateExpr", "impl EndifTemplateExpr", "t_endif(*self, None)", tag="endif", own="EndifTemplateExpr", texts=one('raw(x_s.preamble, " "@, None) & "endif"@ & raw(x_s.trailing, " "@, None)'))
    en(TX, "encode", "impl Encode for ForDirective", "impl ForDirective", EE("ford"))
    en(TX, "encode", "impl Encode for ForTemplateExpr", "impl ForTemplateExpr", EE("fore"), tag="fore", own="ForTemplateExpr", texts=one('raw(x_s.preamble, " "@, None) & "for"@ & (match x_s.key_var { Some(k) => d_ident(k, LEAD(), None) & ","@, None => non() }) & d_ident(x_s.value_var, BOTH(), None) & "in"@ & d_expr(x_s.collection_expr, BOTH(), None)'))
    en(TX, "encode", "impl Encode for EndforTemplateExpr", "impl EndforTemplateExpr", "t_endfor(*self, None)", tag="endfor", own="EndforTemplateExpr", texts=one('raw(x_s.preamble, " "@, None) & "endfor"@ & raw(x_s.trailing, " "@, None)'))
    # ---- spans of the input, resolved ----------------------------------------------------------------------
    despan(F, common, emit, out, boxed, (RP, X, T, S))
    # ---- what the entry points print ----
    if not re.search(r"EncodeState\s*\{\s*buf\s*,\s*escape\s*:\s*false\s*,?\s*\}", F(N + "mod.rs").fn("new", "impl<'a> EncodeState<'a>").body):
        raise Lost("EncodeState::new: an unexpected form")
    for t, p, text in (("Body", S + "body.rs", "d_body(*self, NO(), None)"), ("Expression", X + "mod.rs", "d_expr(*self, NO(), None)"), ("Template", T + "mod.rs", "tmpl(*self, false, false, None)")):
        f = common(F(p).fn("fmt", f"impl fmt::Display for {t}"))
        f.sig = "fn fmt(&self, f: &mut EncodeState) -> XResult"
        f.rewrite("let mut state = EncodeState::new(f);", "", "the state is made of the formatter")
        f.body = re.sub(r"&mut state\b", "f", f.body)
        libchain.options(f, result=())
        f.spec("requires !old(f).escape " + ok(text, "f"))
        f.at("start", "broadcast use steps; assert(origin(old(f).buf@));")
        emit(f, f"impl {t}")
    PM = E + "parser/mod.rs"
    for nm, t, ens in (("body", "Body", "same_body"), ("expr", "Expression", "same_expr"), ("template", "Template", "same_tmpl")):
        out.append(f"pub uninterp spec fn raw_{nm}(s: Seq<char>) -> {t};\n#[verifier::external_body] pub fn x_parse_{nm}(input: &str) -> (r: Result<{t}, Error>) ensures r is Ok ==> r->Ok_0 == raw_{nm}(input@) {{ unimplemented!() }}\n")
        f = F(PM).fn(f"parse_{nm}")
        f.rewrite(f"parse_complete(input, {nm})", f"x_parse_{nm}(input)", "the grammar, trusted: a tree with spans of the input")
        libchain.options(f, result=())
        f.spec(f"ensures r is Ok ==> {ens}(r->Ok_0, raw_{nm}(input@), input@)")
        emit(f)
    return out, fns


# kinds with the text d_K, by type; and the fields a text is put together of
SAME = {"Parenthesis": ["d_expr(x.inner, NO(), i)"], "Array": ["@items(x.values)", 'raw(x.trailing, ""@, i)'], "Object": ["@entries(x.items.entries)", 'raw(x.trailing, ""@, i)'],
        "ForExpr": ["d_intro(x.intro, NO(), i)", "d_expr(x.key_expr->Some_0, BOTH(), i) ? x.key_expr is Some", "d_expr(x.value_expr, LEAD(), i)", "d_cond(x.cond->Some_0, LEAD(), i) ? x.cond is Some", 'raw(x.trailing, ""@, i)'],
        "ForIntro": ["d_ident(x.key_var->Some_0, LEAD(), i) ? x.key_var is Some", "d_ident(x.value_var, LEAD(), i)", "d_expr(x.collection_expr, BOTH(), i)"], "ForCond": ["d_expr(x.expr, LEAD(), i)"],
        "Conditional": ["d_expr(x.cond_expr, TRAIL(), i)", "d_expr(x.true_expr, BOTH(), i)", "d_expr(x.false_expr, LEAD(), i)"], "FuncCall": ["t_fname(x.name, i)", "d_args(x.args, NO(), i)"],
        "FuncArgs": ["@items(x.args)", 'raw(x.trailing, ""@, i)'], "UnaryOp": ["d_expr(x.expr, NO(), i)"], "BinaryOp": ["d_expr(x.lhs_expr, NO(), i)", "d_binop(x.operator, BOTH(), i)", "d_expr(x.rhs_expr, NO(), i)"],
        "Traversal": ["d_expr(x.expr, NO(), i)", "@opers(x.operators)"], "Attribute": ["d_ident(x.key, TRAIL(), i)", "d_expr(x.value, LEAD(), i)"], "Block": ["d_ident(x.ident, TRAIL(), i)", "@labels(x.labels)", "pre(x.body.decor, NO(), i)", "inner(x.body, i)", "suf(x.body.decor, NO(), i)"],
        "StringTemplate": ["tmpl(x.template, false, true, i)"],
        "HeredocTemplate": ['raw(x.intro_suffix, ""@, i)', "els(x.template.elements@, x.template.elements@.len(), i)", "tmpl(x.template, false, false, i)", 'raw(x.trailing, ""@, i)'],
        "ObjectValue": ["d_expr(x.expr, LEAD(), i)"], "FuncName": ["@spaces(x.namespace)", "d_ident(x.name, NO(), i)"], "Interpolation": ["d_expr(x.expr, BOTH(), i)"],
        "EndifTemplateExpr": ['raw(x.preamble, " "@, i)', 'raw(x.trailing, " "@, i)'], "EndforTemplateExpr": ['raw(x.preamble, " "@, i)', 'raw(x.trailing, " "@, i)'],
        "IfDirective": ["t_ife(x.if_expr, e, i)", "t_else(x.else_expr->Some_0, e, i) ? x.else_expr is Some", "t_endif(x.endif_expr, i)"],
        "IfTemplateExpr": ['raw(x.preamble, " "@, i)', "d_expr(x.cond_expr, TRAIL(), i)", "tmpl(x.template, true, e, i)"], "ElseTemplateExpr": ['raw(x.preamble, " "@, i)', 'raw(x.trailing, " "@, i)', "tmpl(x.template, true, e, i)"],
        "ForDirective": ["t_fore(x.for_expr, e, i)", "t_endfor(x.endfor_expr, i)"],
        "ForTemplateExpr": ['raw(x.preamble, " "@, i)', "d_ident(x.key_var->Some_0, LEAD(), i) ? x.key_var is Some", "d_ident(x.value_var, BOTH(), i)", "d_expr(x.collection_expr, BOTH(), i)", "tmpl(x.template, true, e, i)"]}
# list: its elements, their kind, the text of one
LISTS = {"items": ("Expression", "expr"), "entries": ("(ObjectKey, ObjectValue)", "entry"), "spaces": ("Decorated<Ident>", "ident"), "opers": ("Decorated<TraversalOperator>", "oper"), "labels": ("BlockLabel", "label")}
LMENT = {"items": ["d_expr(x@[m - 1], NO(), i)", "d_expr(x@[m - 1], LEAD(), i)"], "entries": ["d_key(x@[m - 1].0, TRAIL(), i)", "t_value(x@[m - 1].1, i)"], "spaces": ["d_ident(x@[m - 1], NO(), i)"], "opers": ["d_oper(x@[m - 1], NO(), i)"], "labels": ["d_label(x@[m - 1], TRAIL(), i)"]}
KINDS = {"ObjectValue": "value", "FuncName": "fname", "TraversalOperator": "op", "Interpolation": "interp", "EndifTemplateExpr": "endif", "EndforTemplateExpr": "endfor", "Directive": "direc", "IfDirective": "if", "IfTemplateExpr": "ife",
         "ElseTemplateExpr": "else", "ForDirective": "ford", "ForTemplateExpr": "fore", "Template": "tmpl", "Element": "elem", "Expression": "expr", "ObjectKey": "key", "Structure": "structure", "BlockLabel": "label", "Decor": "decor", "RawString": "raw"}


def despan(F, common, emit, out, boxed, paths):
    RP, X, T, S = paths
    kind = dict(KINDS, **{t: k for k, t in DECORATED})
    sub = lambda t, x, i, more=(): re.sub(r"\bi\b", i, re.sub(r"\bx\b", x, t))
    eq = lambda t: f"{sub(t, 'a', 'None')} == {sub(t, 'b', 'Some(s)')}"
    ment = lambda t: (lambda c, g: f"assert(" + (f"{sub(g[0], 'a', 'None')} ==> " if g else "") + eq(c) + ");")(t.split(" ? ")[0], t.split(" ? ")[1:])

    def same(k, t, body):
        out.append(f"pub open spec fn same_{k}(a: {t}, b: {t}, s: Seq<char>) -> bool {{ {body} }}\n")
    d = lambda c: f"(forall|d: D| #[trigger] {sub(c, 'a', 'None')} == {sub(c, 'b', 'Some(s)')})"
    same("raw", "RawString", "forall|d: Seq<char>| #[trigger] raw(a, d, None) == raw(b, d, Some(s))")
    same("decor", "Decor", d("pre(x, d, i)") + " && " + d("suf(x, d, i)"))
    for k, t in [(k, t) for k, t, _ in LEAF] + [x for x in DECORATED if x[0] != "body"] + [("expr", "Expression"), ("key", "ObjectKey"), ("label", "BlockLabel"), ("oper", "Decorated<TraversalOperator>")]:
        same(k, t, d(f"d_{k}(x, d, i)"))
    same("structure", "Structure", "(a is Attribute) == (b is Attribute) && " + d("d_structure(x, d, i)"))
    same("body", "Body", "same_decor(a.decor, b.decor, s) && " + eq("t_body(x, i)") + " && " + eq("inner(x, i)") + " && " + d("d_body(x, d, i)"))
    for k, t in (("value", "ObjectValue"), ("fname", "FuncName"), ("op", "TraversalOperator"), ("interp", "Interpolation"), ("endif", "EndifTemplateExpr"), ("endfor", "EndforTemplateExpr")):
        same(k, t, eq(f"t_{k}(x, i)"))
    for k, t in (("direc", "Directive"), ("if", "IfDirective"), ("ife", "IfTemplateExpr"), ("else", "ElseTemplateExpr"), ("ford", "ForDirective"), ("fore", "ForTemplateExpr")):
        same(k, t, f"forall|e: bool| #[trigger] {sub(f't_{k}(x, e, i)', 'a', 'None')} == {sub(f't_{k}(x, e, i)', 'b', 'Some(s)')}")
    same("tmpl", "Template", "(forall|dir: bool, e: bool| #[trigger] tmpl(a, dir, e, None) == tmpl(b, dir, e, Some(s))) && " + eq("els(x.elements@, x.elements@.len(), i)"))
    same("elem", "Element", "match a { Element::Literal(_) => a == b, Element::Interpolation(x) => b is Interpolation && same_interp(x, b->Interpolation_0, s), Element::Directive(x) => b is Directive && same_direc(*x, *b->Directive_0, s) }")
    same("entry", "(ObjectKey, ObjectValue)", "same_key(a.0, b.0, s) && same_value(a.1, b.1, s)")
    # lists, by induction
    for l, (el, k) in LISTS.items():
        out.append(f"pub proof fn same_{l}(a: Vec<{el}>, b: Vec<{el}>, m: nat, s: Seq<char>) requires a@.len() == b@.len(), forall|j: int| 0 <= j < a@.len() ==> same_{k}(#[trigger] a@[j], b@[j], s) ensures {eq(f'{l}(x, m, i)')} decreases m\n"
                   f"{{ if m == 0 || m > a@.len() {{}} else {{ same_{l}(a, b, (m - 1) as nat, s); assert(same_{k}(a@[m - 1], b@[m - 1], s)); {' '.join(ment(t) for t in LMENT[l])} }} }}\n")
    for l, el in (("structs", "d_structure(x.structures@[m - 1], NO(), i)"), ("lines", "d_structure(x.structures@[m - 1], NO(), i)")):
        out.append(f"pub proof fn same_{l}(a: Body, b: Body, m: nat, s: Seq<char>) requires a.prefer_omit_trailing_newline == b.prefer_omit_trailing_newline, a.structures@.len() == b.structures@.len(), forall|j: int| 0 <= j < a.structures@.len() ==> same_structure(#[trigger] a.structures@[j], b.structures@[j], s) ensures {eq(f'{l}(x, m, i)')} decreases m\n"
                   f"{{ if m == 0 || m > a.structures@.len() {{}} else {{ same_{l}(a, b, (m - 1) as nat, s); assert(same_structure(a.structures@[m - 1], b.structures@[m - 1], s)); {ment(el)} }} }}\n")
    req = "requires a.len() == b.len(), forall|j: int| 0 <= j < a.len() ==> same_elem(#[trigger] a[j], b[j], s)"
    out.append(f"pub proof fn same_elems(a: Seq<Element>, b: Seq<Element>, m: nat, dir: bool, e: bool, s: Seq<char>) {req} ensures {eq('elems(x, m, dir, e, i)')} decreases m\n"
               "{ if m == 0 || m > a.len() {} else { same_elems(a, b, (m - 1) as nat, dir, e, s); assert(same_elem(a[m - 1], b[m - 1], s)); if m < a.len() { assert(same_elem(a[m as int], b[m as int], s)); }\n"
               "  match a[m - 1] { Element::Literal(x) => { let na = if m < a.len() { Some(a[m as int]) } else { None }; let nb = if m < b.len() { Some(b[m as int]) } else { None }; assert(part(x.value@, na, dir, e) == part(x.value@, nb, dir, e)); assert(lit(x.value@, na, dir, e) == lit(x.value@, nb, dir, e)); }\n"
               "    Element::Interpolation(x) => { assert(t_interp(x, None) == t_interp(b[m - 1]->Interpolation_0, Some(s))); } Element::Directive(x) => { assert(t_direc(*x, e, None) == t_direc(*b[m - 1]->Directive_0, e, Some(s))); } } } }\n"
               f"pub proof fn same_els(a: Seq<Element>, b: Seq<Element>, m: nat, s: Seq<char>) {req} ensures {eq('els(x, m, i)')} decreases m\n"
               "{ if m == 0 || m > a.len() {} else { same_els(a, b, (m - 1) as nat, s); assert(same_elem(a[m - 1], b[m - 1], s));\n"
               "  match a[m - 1] { Element::Literal(x) => {} Element::Interpolation(x) => { assert(t_interp(x, None) == t_interp(b[m - 1]->Interpolation_0, Some(s))); } Element::Directive(x) => { assert(t_direc(*x, false, None) == t_direc(*b[m - 1]->Directive_0, false, Some(s))); } } } }\n")
    HEAD = "let ghost a = *self; let ghost b = *old(self); let ghost s = input@;"

    def lemma(t):
        l, v = re.match(r"@(\w+)\((.*)\)", t).groups()
        return f"same_{l}({sub(v, 'a', '')}, {sub(v, 'b', '')}, {sub(v, 'a', '')}@.len(), s); {ment(f'{l}({v}, {v}@.len(), i)')}"

    def end(t):
        k = kind[t]
        decor = lambda k: f"assert forall|d: D| #[trigger] d_{k}(a, d, None) == d_{k}(b, d, Some(s)) by {{ assert(pre(a.decor, d, None) == pre(b.decor, d, Some(s))); assert(suf(a.decor, d, None) == suf(b.decor, d, Some(s))); assert(t_{k}(a, None) == t_{k}(b, Some(s))); }}"
        if t in ("Expression", "Structure", "ObjectKey", "BlockLabel"):
            names = EXPR if t == "Expression" else [("Attribute", "attr"), ("Block", "block")] if t == "Structure" else [("Ident", "ident"), ("Expression", "expr")] if t == "ObjectKey" else [("Ident", "ident"), ("String", "string")]
            st = lambda v, x: f"*{x}" if boxed(t, v) else x
            return (f"assert forall|d: D| #[trigger] d_{k}(a, d, None) == d_{k}(b, d, Some(s)) by {{ match a {{ " +
                    " ".join(f"{t}::{v}(x) => {{ assert(b is {v}); assert(d_{q}({st(v, 'x')}, d, None) == d_{q}({st(v, f'b->{v}_0')}, d, Some(s))); }}" for v, q in names) + " } }")
        if t == "TraversalOperator":
            return ("match a { " + " ".join(f"TraversalOperator::{v}(x) => {{ assert(b is {v}); assert(d_{q}(x, NO(), None) == d_{q}(b->{v}_0, NO(), Some(s))); }}" for v, q in
                    (("FullSplat", "splat"), ("AttrSplat", "splat"), ("GetAttr", "ident"), ("Index", "expr"), ("LegacyIndex", "u64"))) + " } assert(t_op(a, None) == t_op(b, Some(s)));")
        if t == "Element":
            return ""
        if t == "Directive":
            return "assert forall|e: bool| #[trigger] t_direc(a, e, None) == t_direc(b, e, Some(s)) by { match a { Directive::If(x) => { assert(t_if(x, e, None) == t_if(b->If_0, e, Some(s))); } Directive::For(x) => { assert(t_ford(x, e, None) == t_ford(b->For_0, e, Some(s))); } } }"
        if t == "Template":
            return "same_els(a.elements@, b.elements@, a.elements@.len(), s); assert forall|dir: bool, e: bool| #[trigger] tmpl(a, dir, e, None) == tmpl(b, dir, e, Some(s)) by { same_elems(a.elements@, b.elements@, a.elements@.len(), dir, e, s); }"
        if t == "Body":
            n = "a.structures@.len()"
            return (f"same_structs(a, b, {n}, s); same_lines(a, b, {n}, s); assert(t_body(a, None) == t_body(b, Some(s))); if {n} == 1 && a.structures@[0] is Attribute {{ assert(same_structure(a.structures@[0], b.structures@[0], s)); assert(d_structure(a.structures@[0], BOTH(), None) == d_structure(b.structures@[0], BOTH(), Some(s))); }}\n"
                    "assert(inner(a, None) == inner(b, Some(s))); " + decor("body"))
        ms = SAME[t]
        pieces = " ".join(lemma(m) if m[0] == "@" else ment(m) for m in ms)
        if any(re.search(r"\be\b", m) for m in ms):
            return f"assert forall|e: bool| #[trigger] t_{k}(a, e, None) == t_{k}(b, e, Some(s)) by {{ {pieces} }}"
        return pieces + (f" assert(t_{k}(a, None) == t_{k}(b, Some(s)));" if k in ("value", "fname", "interp", "endif", "endfor") else decor(k))

    # a loop over the list of a field
    ELEMS = {"values": "expr", "args": "expr", "namespace": "ident", "operators": "oper", "structures": "structure", "labels": "label", "elements": "elem", "items": "entry"}

    def loops(f):
        k = 0
        while True:
            toks = rx.lex(f.body)
            i = next((i for i, t in enumerate(toks) if t.s == "for" and t.k == "id"), None)
            if i is None:
                return
            j = next(n for n in range(i, len(toks)) if toks[n].s == "in")
            b = next(n for n in range(j, len(toks)) if toks[n].s == "{")
            pat, src = f.body[toks[i].b:toks[j].a].strip(), f.body[toks[j].b:toks[b].a].strip()
            m = re.fullmatch(r"&\s*mut\s+self\s*\.\s*(\w+)|self\s*\.\s*(\w+)\s*\.\s*iter_mut2?\(\)", src) or (re.fullmatch(r"self\s*\.\s*iter_mut\(\)|&\s*mut\s+\*?self", src) and None)
            fld = (m.group(1) or m.group(2)) if m else None
            if fld not in ELEMS:
                raise Lost(f"{f.name}: a loop over {src}")
            q = ELEMS[fld]
            vec = "self.items.entries" if fld == "items" else f"self.{fld}"
            p = re.fullmatch(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)", pat)
            if not p and not re.fullmatch(r"\w+", pat):
                raise Lost(f"{f.name}: a loop with {pat}")
            bind = f"let x_e{k} = &mut x_v{k}[x_i{k}]; let {p[1]} = &mut x_e{k}.0; let {p[2]} = &mut x_e{k}.1;" if p else f"let {pat} = &mut x_v{k}[x_i{k}];"
            f.body = f.body[:toks[i].a] + f"let x_v{k} = &mut {vec}; let ghost x_l{k} = x_v{k}@; let mut x_i{k}: usize = 0; while x_i{k} < x_v{k}.len() {{ {bind} x_i{k} = x_i{k} + 1;" + f.body[toks[b].b:]
            f.loop(k, f"invariant x_i{k} <= x_v{k}@.len(), x_v{k}@.len() == x_l{k}.len(), forall|j: int| 0 <= j < x_i{k} ==> same_{q}(#[trigger] x_v{k}@[j], x_l{k}[j], input@), forall|j: int| x_i{k} <= j < x_l{k}.len() ==> #[trigger] x_v{k}@[j] == x_l{k}[j]")
            f.rewrites.append(f"{f.name}: `for {pat} in {src}` as a loop over the indices")
            k += 1

    # raw strings
    RS = E + "raw_string.rs"
    f = F(RS).fn("from", "impl From<InternalString> for RawString")
    f.name, f.sig = "x_from_internal", "fn x_from_internal(inner: InternalString) -> RawString"
    f.spec("ensures r == RawString(RawStringInner::Explicit(inner))")
    emit(f, "impl RawString")
    f = F(RS).fn("from", "impl From<&str> for RawString")
    f.name, f.sig = "x_from_str", "fn x_from_str(s: &str) -> RawString"
    f.rewrite("s.is_empty()", "x_is_empty(s)", "str", must=False)
    f.rewrite("RawString::from(InternalString::from(s))", "RawString::x_from_internal(InternalString::from(s))", "one name per source type", must=False)
    f.spec('ensures forall|d: Seq<char>, i: I| #[trigger] raw(r, d, i) == s@')
    f.at("start", 'proof { reveal_strlit(""); if s@.len() == 0 { assert(s@ =~= ""@); } }')
    emit(f, "impl RawString")
    f = F(RS).fn("despan", "impl RawString")
    f.rewrite("input.get($x_s).unwrap_or_else($y_s)", "x_slice(input, $x_s)", "a span of the input", must=False)
    f.rewrite("span.clone()", "x_range(span)", "Range::clone", must=False)
    f.rewrite("RawString::from($x_s)", "RawString::x_from_str($x_s)", "one name per source type", must=False)
    f.spec("ensures same_raw(*final(self), *old(self), input@)")
    emit(f, "impl RawString")
    f = F(RP).fn("despan", "impl Decor")
    f.spec("ensures same_decor(*final(self), *old(self), input@)")
    emit(f, "impl Decor")
    where = {X + "mod.rs": ["Expression", "Parenthesis"], X + "array.rs": ["Array"], X + "object.rs": ["Object", "ObjectKey", "ObjectValue"], X + "conditional.rs": ["Conditional"], X + "for_expr.rs": ["ForExpr", "ForIntro", "ForCond"],
             X + "func_call.rs": ["FuncName", "FuncCall", "FuncArgs"], X + "operation.rs": ["UnaryOp", "BinaryOp"], X + "traversal.rs": ["Traversal", "TraversalOperator"], S + "attribute.rs": ["Attribute"], S + "block.rs": ["Block", "BlockLabel"],
             S + "body.rs": ["Body"], S + "mod.rs": ["Structure"], T + "mod.rs": ["StringTemplate", "HeredocTemplate", "Template", "Element", "Interpolation", "Directive", "IfDirective", "IfTemplateExpr", "ElseTemplateExpr", "EndifTemplateExpr",
                                                                                      "ForDirective", "ForTemplateExpr", "EndforTemplateExpr"]}
    for p, ts in where.items():
        for t in ts:
            f = F(p).fn("despan", f"impl {t}")
            libchain.or_patterns(f)
            if t == "Traversal":
                f.rewrite("operator.despan(input)", "operator.deref_mut().despan(input)", "deref", must=False)
            loops(f)
            libchain.options(f, result=())
            if not re.search(r"[;}]\s*\}$", f.body):
                f.body = f.body[:-1].rstrip() + "; }"
            e = end(t)
            f.at("end", f"proof {{ {HEAD.replace('let ghost', 'let')} {e} }}")
            f.spec(f"ensures same_{kind[t]}(*final(self), *old(self), input@)" + (", final(self).value == old(self).value" if False else ""))
            emit(f, f"impl {t}")


def F_all(repo):
    import os
    r = []
    for d, _, fs in os.walk(f"{repo}/{E}"):
        r += [os.path.relpath(os.path.join(d, x), repo) for x in fs if x.endswith(".rs")]
    return sorted(r)
