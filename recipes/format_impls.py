r"""C18, C20: the formatter (crates/hcl-rs/src/format/{mod,impls}.rs): what every construct is printed as."""
import re
import rx
import libchain
from libeval import pub_fields
NAME = "format_impls"
USES = "use vstd::seq::*;\nuse vstd::string::*;\n"
R = "crates/hcl-rs/src/"
C = "cfg({0}.config), {0}.current_indent as nat, {0}.compact_mode_level > 0"
CO = C.format("old(fmt)")

PRELUDE = libchain.PRELUDE + r'''
global size_of usize == 8;
// ---- trusted: a writer that appends the text it is given -----------------------------------------------
#[verifier::external_body] pub struct XOut { s: Vec<u8> }
impl View for XOut { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Error { e: Box<u8> }
pub type XResult = Result<(), Error>;
pub uninterp spec fn chars_of(b: Seq<u8>) -> Seq<char>;
impl XOut { #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: XResult) ensures r is Ok ==> final(self)@ == old(self)@ + chars_of(b@) { unimplemented!() } }
impl XOut { #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Vec<u8>) requires n <= old(self)@.len() ensures n == 0 ==> chars_of(r@) == old(self)@ && final(self)@.len() == 0 { unimplemented!() } }
// b"..": the bytes of the literal
#[verifier::external_body] pub fn x_lit(s: &'static str) -> (r: &'static [u8]) ensures chars_of(r@) == s@ { s.as_bytes() }
#[verifier::external_body] pub fn x_bytes(s: &str) -> (r: &[u8]) ensures chars_of(r@) == s@ { s.as_bytes() }
// nesting stays below 2^64
#[verifier::external_body] pub fn x_inc(n: &mut usize) ensures *final(n) == *old(n) + 1 { *n += 1 }
#[verifier::external_body] pub fn x_inc64(n: &mut u64) ensures *final(n) == *old(n) + 1 { *n += 1 }
// what is not looked into
#[verifier::external_body] pub struct Identifier { s: String }
impl View for Identifier { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// C06: an identifier is a non-empty text on one line
pub broadcast axiom fn ident_line(i: Identifier) ensures #[trigger] i@.len() > 0, !i@.contains('\n');
#[verifier::external_body] pub struct Variable { s: String }
impl View for Variable { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Number { n: u64 }
pub uninterp spec fn num_text(n: Number) -> Seq<char>;      // C01, C02
impl Number { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == num_text(*self) { unimplemented!() } }
pub uninterp spec fn int_text(n: int) -> Seq<char>;
#[verifier::external_body] pub fn x_itoa(n: u64) -> (r: String) ensures r@ == int_text(n as int) { n.to_string() }
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;     // C05: write_escaped_string
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;         // C04: escape_markers
pub uninterp spec fn templated(s: Seq<char>) -> bool;        // C05: is_templated
pub uninterp spec fn is_id(s: Seq<char>) -> bool;            // C06: is_ident
pub uninterp spec fn as_template(s: Seq<char>) -> Option<Seq<char>>;   // the template between quotes, None if it is none
#[verifier::external_body] pub fn escape_markers(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_templated(s: &str) -> (r: bool) ensures r == templated(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_ident(s: &str) -> (r: bool) ensures r == is_id(s@) { unimplemented!() }
#[verifier::external_body] pub fn x_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
pub open spec fn keyword(s: Seq<char>) -> bool { s == "for"@ || s == "null"@ || s == "true"@ || s == "false"@ }
// a key that means itself without quotes
pub open spec fn bare(s: Seq<char>) -> bool { is_id(s) && !keyword(s) }
#[verifier::external_body] pub fn quoted_template(s: &str) -> (r: Option<String>) ensures (match r { Some(t) => Some(t@), None => None }) == as_template(s@) { unimplemented!() }
// deref to the text
pub trait XText { spec fn txt(&self) -> Seq<char>; fn x_str(&self) -> (r: &str) ensures r@ == self.txt(); }
impl XText for str { open spec fn txt(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self } }
impl XText for String { open spec fn txt(&self) -> Seq<char> { self@ } fn x_str(&self) -> (r: &str) { self.as_str() } }
impl XText for Identifier { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_str(&self) -> (r: &str) { unimplemented!() } }
impl XText for Variable { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_str(&self) -> (r: &str) { unimplemented!() } }
pub fn x_text<T: XText + ?Sized>(t: &T) -> (r: &str) ensures r@ == t.txt() { t.x_str() }
#[verifier::external_body] pub fn x_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn x_ends_with<T: XText + ?Sized>(s: &T, c: char) -> (r: bool) ensures r == (s.txt().len() > 0 && s.txt().last() == c) { s.x_str().ends_with(c) }
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
#[verifier::external_body] pub fn x_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trim_end(s@, c) { s.trim_end_matches(c) }
#[verifier::external_body] pub fn x_tail<'a>(s: &'a str, t: &str) -> (r: &'a str) requires t@.len() <= s@.len(), t@ == s@.take(t@.len() as int) ensures r@ == s@.skip(t@.len() as int) { &s[t.len()..] }
#[verifier::external_body] pub fn x_is_empty_str(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn x_cat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{a}{b}{c}") }
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn one_line(s: Seq<char>) requires s.len() > 0, !s.contains('\n') ensures #[trigger] lines_of(s) == seq![s];
#[verifier::external_body] pub fn x_lines(s: &str) -> (r: Vec<&str>) ensures r@.map_values(|l: &str| l@) == lines_of(s@) { s.lines().collect() }
// std's Peekable over a slice
#[verifier::external_body] pub struct XPeek<'a> { v: &'a [Element] }
impl<'a> XPeek<'a> {
    pub uninterp spec fn left(&self) -> Seq<Element>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Element>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(), old(self).left().len() > 0 ==> r is Some && *r->Some_0 == old(self).left()[0] && final(self).left() == old(self).left().drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&'a Element>)
        ensures self.left().len() == 0 ==> r is None, self.left().len() > 0 ==> r is Some && *r->Some_0 == self.left()[0] { unimplemented!() }
}
#[verifier::external_body] pub fn x_peekable<'a>(v: &'a Vec<Element>) -> (r: XPeek<'a>) ensures r.left() == v@ { unimplemented!() }
// maps: their entries in order
pub struct Object<K, T> { pub entries: Vec<(K, T)> }
pub struct Map<K, T> { pub entries: Vec<(K, T)> }
'''

SPEC = r'''
// ---- what is printed: parts that carry meaning, and gaps that are layout ----------------------------------
pub enum Gap { ArrStart, ArrSep, ArrEnd, ObjStart, ObjSep, ObjEnd, Open, Between, Indent, Closing }
pub ghost enum Part { T(Seq<char>), K(Seq<char>, bool), G(Gap, Seq<char>) }
pub open spec fn t(s: Seq<char>) -> Seq<Part> { seq![Part::T(s)] }
pub open spec fn g(k: Gap, s: Seq<char>) -> Seq<Part> { seq![Part::G(k, s)] }
pub open spec fn none() -> Seq<Part> { Seq::empty() }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { "\""@ + escaped(s) + "\""@ }
pub open spec fn shown(p: Part) -> Seq<char> { match p { Part::T(s) => s, Part::K(s, bare) => if bare { s } else { quoted(s) }, Part::G(_, s) => s } }
pub open spec fn join(p: Seq<Part>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { join(p.drop_last()) + shown(p.last()) } }
pub broadcast proof fn join_add(a: Seq<Part>, b: Seq<Part>) ensures #[trigger] join(a + b) == join(a) + join(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(join(a) + join(b) =~= join(a)); } else { join_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(join(a + b) =~= join(a) + join(b)); } }
pub broadcast proof fn join_one(p: Part) ensures #[trigger] join(seq![p]) == shown(p)
{ assert(seq![p].drop_last() =~= Seq::<Part>::empty()); assert(join(Seq::<Part>::empty()) =~= Seq::<char>::empty()); assert(join(seq![p]) =~= shown(p)); }
pub broadcast proof fn join_none() ensures #[trigger] join(Seq::<Part>::empty()) == Seq::<char>::empty() {}

// one write after the other: `wrote` is what a function promises, `sofar` what it has done since it started
pub open spec fn origin(o: Seq<char>) -> bool { true }
#[verifier::opaque] pub open spec fn wrote(o: Seq<char>, p: Seq<Part>, w: Seq<char>) -> bool { w =~= o + join(p) }
#[verifier::opaque] pub open spec fn sofar(o: Seq<char>, p: Seq<Part>, w: Seq<char>) -> bool { w =~= o + join(p) }
pub broadcast proof fn begin(o: Seq<char>) ensures #![trigger origin(o)] sofar(o, none(), o) { reveal(sofar); assert(o + join(none()) =~= o); }
pub broadcast proof fn total(o: Seq<char>, p: Seq<Part>, w: Seq<char>) ensures #![trigger origin(o), wrote(o, p, w)] wrote(o, p, w) == sofar(o, p, w) { reveal(sofar); reveal(wrote); }
pub broadcast proof fn step(o: Seq<char>, p: Seq<Part>, m: Seq<char>, q: Seq<Part>, w: Seq<char>) requires sofar(o, p, m), wrote(m, q, w) ensures #![trigger sofar(o, p, m), wrote(m, q, w)] sofar(o, p + q, w)
{ reveal(sofar); reveal(wrote); join_add(p, q); assert(o + join(p) + join(q) =~= o + (join(p) + join(q))); }
pub broadcast proof fn add_none(p: Seq<Part>) ensures #[trigger] (p + Seq::empty()) == p { assert(p + Seq::empty() =~= p); }
pub broadcast proof fn assoc(a: Seq<Part>, b: Seq<Part>, c: Seq<Part>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn cassoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn cnone(a: Seq<char>) ensures #[trigger] (a + Seq::empty()) == a { assert(a + Seq::empty() =~= a); }
broadcast group joins { join_add, join_one, join_none }
broadcast group steps { begin, total, step, add_none, assoc }

// ---- the options and the layout they choose -------------------------------------------------------------
pub ghost struct Cfg { pub indent: Seq<char>, pub dense: bool, pub ca: bool, pub co: bool, pub ids: bool }
pub open spec fn cfg(f: FormatConfig<'_>) -> Cfg { Cfg { indent: chars_of(f.indent@), dense: f.dense, ca: f.compact_arrays, co: f.compact_objects, ids: f.prefer_ident_keys } }
pub open spec fn ind(c: Cfg, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { ind(c, (n - 1) as nat) + c.indent } }
pub open spec fn fa(c: Cfg, k: bool) -> bool { c.ca || k }
pub open spec fn fo(c: Cfg, k: bool) -> bool { c.co || k }
pub open spec fn na(c: Cfg, n: nat, k: bool) -> nat { if fa(c, k) { n } else { n + 1 } }
pub open spec fn no(c: Cfg, n: nat, k: bool) -> nat { if fo(c, k) { n } else { n + 1 } }
pub open spec fn arr_gap(first: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> {
    if first { g(Gap::ArrStart, if fa(c, k) { Seq::empty() } else { "\n"@ + ind(c, n) }) } else { g(Gap::ArrSep, if fa(c, k) { ", "@ } else { ",\n"@ + ind(c, n) }) }
}
pub open spec fn arr_end(any: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> { if any { g(Gap::ArrEnd, if fa(c, k) { Seq::empty() } else { "\n"@ + ind(c, n) }) } else { none() } }
pub open spec fn obj_gap(first: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> {
    if first { g(Gap::ObjStart, if fo(c, k) { " "@ } else { "\n"@ + ind(c, n) }) } else { g(Gap::ObjSep, if fo(c, k) { ", "@ } else { "\n"@ + ind(c, n) }) }
}
pub open spec fn obj_end(any: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> { if any { g(Gap::ObjEnd, if fo(c, k) { " "@ } else { "\n"@ + ind(c, n) }) } else { none() } }
// the line break in front of a structure, by what was written last
pub open spec fn gap_line(st: FormatState, next: FormatState, c: Cfg) -> Seq<Part> {
    if st is BlockBodyStart { g(Gap::Open, "\n"@) }
    else if !c.dense && (st is AttributeEnd && next is BlockStart || st is BlockEnd && (next is BlockStart || next is AttributeStart)) { g(Gap::Between, "\n"@) }
    else { g(Gap::Between, Seq::empty()) }
}

// ---- every construct -------------------------------------------------------------------------------------
pub open spec fn val(v: Value, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases v, 0nat {
    match v {
        Value::Null => t("null"@), Value::Bool(b) => t(if b { "true"@ } else { "false"@ }), Value::Number(x) => t(num_text(x)),
        Value::String(s) => t(if templated(s@) && as_template(s@) is Some { as_template(s@)->Some_0 } else { quoted(s@) }),
        Value::Array(a) => t("["@) + vals(a, a@.len(), c, na(c, n, k), k) + arr_end(a@.len() > 0, c, n, k) + t("]"@),
        Value::Object(o) => t("{"@) + val_entries(o, o.entries@.len(), c, no(c, n, k), k) + obj_end(o.entries@.len() > 0, c, n, k) + t("}"@),
    }
}
pub open spec fn vals(a: Vec<Value>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases a, m {
    if m == 0 || m > a@.len() { none() } else { vals(a, (m - 1) as nat, c, n, k) + arr_gap(m == 1, c, n, k) + val(a@[m - 1], c, n, k) }
}
pub open spec fn str_key(s: Seq<char>, c: Cfg) -> Seq<Part> { seq![Part::K(s, c.ids && bare(s))] }
pub open spec fn val_entries(o: Map<String, Value>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases o, m {
    if m == 0 || m > o.entries@.len() { none() } else { val_entries(o, (m - 1) as nat, c, n, k) + obj_gap(m == 1, c, n, k) + str_key(o.entries@[m - 1].0@, c) + t(" = "@) + val(o.entries@[m - 1].1, c, n, k) }
}
pub open spec fn expr(e: Expression, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases e, 0nat {
    match e {
        Expression::Null => t("null"@), Expression::Bool(b) => t(if b { "true"@ } else { "false"@ }), Expression::Number(x) => t(num_text(x)), Expression::String(s) => t(quoted(s@)),
        Expression::Array(a) => t("["@) + exprs(a, a@.len(), c, na(c, n, k), k) + arr_end(a@.len() > 0, c, n, k) + t("]"@),
        Expression::Object(o) => t("{"@) + entries(o, o.entries@.len(), c, no(c, n, k), k) + obj_end(o.entries@.len() > 0, c, n, k) + t("}"@),
        Expression::TemplateExpr(x) => texpr(*x, c, n, k), Expression::Variable(v) => t(v@), Expression::Traversal(x) => trav(*x, c, n, k), Expression::FuncCall(f) => call(*f, c, n, k),
        Expression::Parenthesis(x) => t("("@) + expr(*x, c, n, k) + t(")"@), Expression::Conditional(x) => cond(*x, c, n, k), Expression::Operation(o) => oper(*o, c, n, k), Expression::ForExpr(f) => for_expr(*f, c, n, k),
    }
}
pub open spec fn exprs(a: Vec<Expression>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases a, m {
    if m == 0 || m > a@.len() { none() } else { exprs(a, (m - 1) as nat, c, n, k) + arr_gap(m == 1, c, n, k) + expr(a@[m - 1], c, n, k) }
}
pub open spec fn key(o: ObjectKey, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases o, 1nat {
    match o { ObjectKey::Identifier(i) => t(i@), ObjectKey::Expression(e) => if e is String { str_key(e->String_0@, c) } else { expr(e, c, n, k) } }
}
pub open spec fn entries(o: Object<ObjectKey, Expression>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases o, m {
    if m == 0 || m > o.entries@.len() { none() } else { entries(o, (m - 1) as nat, c, n, k) + obj_gap(m == 1, c, n, k) + key(o.entries@[m - 1].0, c, n, k) + t(" = "@) + expr(o.entries@[m - 1].1, c, n, k) }
}
pub open spec fn texpr(x: TemplateExpr, c: Cfg, n: nat, k: bool) -> Seq<Part> {
    match x { TemplateExpr::QuotedString(s) => t(match as_template(s@) { Some(q) => q, None => "\""@ + s@ + "\""@ }), TemplateExpr::Heredoc(h) => heredoc(h, c, n, k) }
}
pub open spec fn heredoc(h: Heredoc, c: Cfg, n: nat, k: bool) -> Seq<Part> {
    t(if h.strip is None { "<<"@ } else { "<<-"@ }) + t(h.delimiter@) + t("\n"@) + t(h.template@) + (if h.template@.len() > 0 && h.template@.last() != '\n' { t("\n"@) } else { none() })
    + (if h.strip is None { none() } else { g(Gap::Closing, ind(c, n)) }) + t(h.delimiter@)
}
pub open spec fn trav(x: Traversal, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases x, 1nat { expr(x.expr, c, n, k) + travs(x.operators, x.operators@.len(), c, n, k) }
pub open spec fn travs(v: Vec<TraversalOperator>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases v, m { if m == 0 || m > v@.len() { none() } else { travs(v, (m - 1) as nat, c, n, k) + trav_op(v@[m - 1], c, n, k) } }
pub open spec fn trav_op(o: TraversalOperator, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases o, 1nat {
    match o { TraversalOperator::AttrSplat => t(".*"@), TraversalOperator::FullSplat => t("[*]"@), TraversalOperator::GetAttr(i) => t("."@) + t(i@), TraversalOperator::LegacyIndex(i) => t("."@) + t(int_text(i as int)), TraversalOperator::Index(e) => t("["@) + expr(e, c, n, k) + t("]"@) }
}
pub open spec fn args(v: Vec<Expression>, m: nat, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases v, m {
    if m == 0 || m > v@.len() { none() } else { args(v, (m - 1) as nat, c, n, k) + (if m == 1 { none() } else { t(", "@) }) + expr(v@[m - 1], c, n, k) }
}
pub open spec fn spaces(v: Vec<Identifier>, m: nat) -> Seq<Part> decreases m { if m == 0 || m > v@.len() { none() } else { spaces(v, (m - 1) as nat) + t(v@[m - 1]@) + t("::"@) } }
pub open spec fn fname(f: FuncName) -> Seq<Part> { spaces(f.namespace, f.namespace@.len()) + t(f.name@) }
pub open spec fn call(f: FuncCall, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases f, 1nat { fname(f.name) + t("("@) + args(f.args, f.args@.len(), c, n, true) + t(if f.expand_final { "...)"@ } else { ")"@ }) }
pub open spec fn cond(x: Conditional, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases x, 1nat { expr(x.cond_expr, c, n, true) + t(" ? "@) + expr(x.true_expr, c, n, true) + t(" : "@) + expr(x.false_expr, c, n, true) }
pub open spec fn oper(o: Operation, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases o, 1nat { match o { Operation::Unary(u) => unary(u, c, n, k), Operation::Binary(b) => binary(b, c, n, k) } }
pub open spec fn unary(u: UnaryOp, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases u, 1nat { t(un_text(u.operator)) + expr(u.expr, c, n, k) }
pub open spec fn binary(b: BinaryOp, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases b, 1nat { expr(b.lhs_expr, c, n, k) + t(" "@) + t(bin_text(b.operator)) + t(" "@) + expr(b.rhs_expr, c, n, k) }
pub open spec fn for_vars(k: Option<Identifier>, v: Identifier) -> Seq<Part> { (if k is Some { t(k->Some_0@) + t(", "@) } else { none() }) + t(v@) }
pub open spec fn for_expr(f: ForExpr, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases f, 1nat {
    t(if f.key_expr is Some { "{"@ } else { "["@ }) + t("for "@) + for_vars(f.key_var, f.value_var) + t(" in "@) + expr(f.collection_expr, c, n, k) + t(" : "@)
    + (match f.key_expr { Some(e) => expr(e, c, n, k) + t(" => "@), None => none() }) + expr(f.value_expr, c, n, k) + (if f.key_expr is Some && f.grouping { t("..."@) } else { none() })
    + (match f.cond_expr { Some(e) => t(" if "@) + expr(e, c, n, k), None => none() }) + t(if f.key_expr is Some { "}"@ } else { "]"@ })
}
pub open spec fn un_text(o: UnaryOperator) -> Seq<char> { match o { UnaryOperator::Neg => "-"@, UnaryOperator::Not => "!"@ } }
pub open spec fn bin_text(o: BinaryOperator) -> Seq<char> {
    match o { BinaryOperator::Eq => "=="@, BinaryOperator::NotEq => "!="@, BinaryOperator::LessEq => "<="@, BinaryOperator::GreaterEq => ">="@, BinaryOperator::Less => "<"@, BinaryOperator::Greater => ">"@,
        BinaryOperator::Plus => "+"@, BinaryOperator::Minus => "-"@, BinaryOperator::Mul => "*"@, BinaryOperator::Div => "/"@, BinaryOperator::Mod => "%"@, BinaryOperator::And => "&&"@, BinaryOperator::Or => "||"@ }
}
// templates: a `$` or `%` in front of the element it would turn into an escape is written as an interpolation
pub open spec fn lit(s: Seq<char>, next: Option<Element>, dir: bool) -> Seq<Part> {
    let p = match next { Some(Element::Interpolation(_)) => trim_end(s, '$'), Some(Element::Directive(_)) => trim_end(s, '%'), Some(Element::Literal(_)) => s, None => if dir { trim_end(s, '%') } else { s } };
    t(esc(p)) + (if p.len() < s.len() { t("${\""@ + s.skip(p.len() as int) + "\"}"@) } else { none() })
}
pub open spec fn elems(v: Seq<Element>, m: nat, dir: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases v, m {
    if m == 0 || m > v.len() { none() } else {
        elems(v, (m - 1) as nat, dir, c, n, k) + (match v[m - 1] { Element::Literal(s) => lit(s@, if m < v.len() { Some(v[m as int]) } else { None }, dir), Element::Interpolation(i) => interp(i, c, n, k), Element::Directive(d) => direc(*d, c, n, k) })
    }
}
pub open spec fn tmpl(x: Template, dir: bool, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases x, 1nat { elems(x.elements@, x.elements@.len(), dir, c, n, k) }
pub open spec fn opens(s: Strip) -> Seq<Part> { if s is Start || s is Both { t("~"@) } else { none() } }
pub open spec fn closes(s: Strip) -> Seq<Part> { if s is End || s is Both { t("~"@) } else { none() } }
pub open spec fn interp(i: Interpolation, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases i, 1nat { t("${"@) + opens(i.strip) + expr(i.expr, c, n, k) + closes(i.strip) + t("}"@) }
pub open spec fn direc(d: Directive, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases d, 1nat { match d { Directive::If(i) => if_dir(i, c, n, k), Directive::For(f) => for_dir(f, c, n, k) } }
pub open spec fn tag(s: Strip, p: Seq<Part>) -> Seq<Part> { t("%{"@) + opens(s) + t(" "@) + p + t(" "@) + closes(s) + t("}"@) }
pub open spec fn if_dir(i: IfDirective, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases i, 1nat {
    tag(i.if_strip, t("if "@) + expr(i.cond_expr, c, n, k)) + tmpl(i.true_template, true, c, n, k)
    + (match i.false_template { Some(f) => tag(i.else_strip, t("else"@)) + tmpl(f, true, c, n, k), None => none() }) + tag(i.endif_strip, t("endif"@))
}
pub open spec fn for_dir(f: ForDirective, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases f, 1nat {
    tag(f.for_strip, t("for "@) + for_vars(f.key_var, f.value_var) + t(" in "@) + expr(f.collection_expr, c, n, k)) + tmpl(f.template, true, c, n, k) + tag(f.endfor_strip, t("endfor"@))
}
// bodies
pub open spec fn label(l: BlockLabel) -> Seq<Part> { match l { BlockLabel::Identifier(i) => t(i@), BlockLabel::String(s) => t(quoted(s@)) } }
pub open spec fn labels(v: Vec<BlockLabel>, m: nat) -> Seq<Part> decreases m { if m == 0 || m > v@.len() { none() } else { labels(v, (m - 1) as nat) + t(" "@) + label(v@[m - 1]) } }
pub open spec fn after(st: FormatState, v: Seq<Structure>, m: nat) -> FormatState { if m == 0 || m > v.len() { st } else if v[m - 1] is Attribute { FormatState::AttributeEnd } else { FormatState::BlockEnd } }
pub open spec fn body(b: Body, m: nat, st: FormatState, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases b, m {
    if m == 0 || m > b.0@.len() { none() } else { body(b, (m - 1) as nat, st, c, n, k) + struc(b.0@[m - 1], after(st, b.0@, (m - 1) as nat), c, n, k) }
}
pub open spec fn struc(s: Structure, st: FormatState, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases s, 1nat { match s { Structure::Attribute(a) => attr(a, st, c, n, k), Structure::Block(b) => block(b, st, c, n, k) } }
pub open spec fn attr(a: Attribute, st: FormatState, c: Cfg, n: nat, k: bool) -> Seq<Part> { gap_line(st, FormatState::AttributeStart, c) + g(Gap::Indent, ind(c, n)) + t(a.key@) + t(" = "@) + expr(a.expr, c, n, k) + t("\n"@) }
pub open spec fn block(b: Block, st: FormatState, c: Cfg, n: nat, k: bool) -> Seq<Part> decreases b, 1nat {
    gap_line(st, FormatState::BlockStart, c) + g(Gap::Indent, ind(c, n)) + t(b.identifier@) + labels(b.labels, b.labels@.len()) + t(" {"@) + body(b.body, b.body.0@.len(), FormatState::BlockBodyStart, c, n + 1, k) + g(Gap::Indent, ind(c, n)) + t("}\n"@)
}
pub proof fn trimmed(s: Seq<char>, c: char) ensures trim_end(s, c).len() <= s.len(), trim_end(s, c) == s.take(trim_end(s, c).len() as int) decreases s.len()
{ if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c); assert(s.drop_last().take(trim_end(s, c).len() as int) =~= s.take(trim_end(s, c).len() as int)); } else { assert(s.take(s.len() as int) =~= s); } }

// ---- the formatter's own state is back where it was ---------------------------------------------------------
pub open spec fn same(a: Formatter<'_>, b: Formatter<'_>) -> bool {
    a.config == b.config && a.state == b.state && a.current_indent == b.current_indent && a.compact_mode_level == b.compact_mode_level && a.first_element == b.first_element && a.has_value == b.has_value && a.nesting_state@ == b.nesting_state@
}
pub open spec fn same_but_state(a: Formatter<'_>, b: Formatter<'_>) -> bool {
    a.config == b.config && a.current_indent == b.current_indent && a.compact_mode_level == b.compact_mode_level && a.first_element == b.first_element && a.has_value == b.has_value && a.nesting_state@ == b.nesting_state@
}
'''

HOFS = ("with_compact_mode", "format_strip", "format_interpolation", "format_directive")
COLD, NOLD, KOLD = "cfg(old(fmt).config)", "old(fmt).current_indent as nat", "old(fmt).compact_mode_level > 0"


GAPS = ["arr_gap", "arr_end", "obj_gap", "obj_end", "gap_line", "ind", "join", "shown"]
SPECS = GAPS + re.findall(r"(?m)^pub open spec fn (val|vals|str_key|val_entries|expr|exprs|key|entries|texpr|heredoc|trav|travs|trav_op|args|spaces|fname|call|cond|oper|unary|binary|for_vars|for_expr|lit|elems|tmpl|interp|direc|if_dir|for_dir|label|labels|body|struc|attr|block)\(", SPEC)


def fmt_ok(parts, me="fmt", keep="same", eq="=="):
    """the text of `parts` is appended, the formatter is as it was"""
    return f"ensures final({me}).compact_mode_level == old({me}).compact_mode_level, r is Ok ==> final({me}).writer@ {eq} old({me}).writer@ + join({parts}) && {keep}(*old({me}), *final({me}))"


def wr(text, also=False):
    """`w == o + join(p)` as wrote(o, p, w), in an invariant sofar(o, p, w)"""
    def sub(m):
        i, d = m.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        parts = text[m.end():i - 1]
        spans.append((m.start(), i, (text[m.start():i] + " && " if also else "") + f"{'wrote' if 'final' in m[1] else 'sofar'}({m[2]}, {parts}, {m[1]})"))
    spans = []
    for m in re.finditer(r"((?:final\(\w+\)|\w+)\.writer@) =?=?~?=?=? ?((?:old\(\w+\)|\w+)\.writer@) \+ join\(", text):
        sub(m)
    for a, b, x in reversed(spans):
        text = text[:a] + x + text[b:]
    return text


class Lift:
    """Calls of the functions in HOFS with a closure: the closure becomes a function of what it
    captures (`x_s`), and the called function is instantiated for it."""

    def __init__(self, hof, take):
        self.hof, self.take = hof, take

    def run(self, f, tag, ty, specs, me="self"):
        n = 0
        while True:
            toks = rx.lex(f.body)
            hit = None
            for i in range(1, len(toks) - 1):
                if toks[i].s in HOFS and toks[i + 1].s == "(":
                    a, e = libchain.split_args(f.body, toks, i + 1)
                    c = libchain.closure(a[-1])
                    if c:
                        hit = (i, e, a, c)
                        break
            if not hit:
                return f
            i, e, a, (params, cbody) = hit
            nm, cn = toks[i].s, f"x_{tag}_c{n}"
            if len(params) != 1 or n >= len(specs):
                raise rx.Lost(f"{f.name}: closures of {nm}")
            b = cbody if cbody.strip().startswith("{") else "{ " + cbody + " }"
            b = re.sub(r"\bself\b", "x_s", b)
            if params != ["fmt"]:
                b = re.sub(rf"\b{params[0]}\b", "fmt", b)
            cf = rx.Fn(cn, f"fn {cn}(x_s: &{ty}, fmt: &mut Formatter<'_>) -> XResult", b, f.path)
            cf.rewrites.append(f"{f.name}: the closure passed to {nm} as a function of what it captures")
            self.take(cf, specs[n](KOLD), ty)
            name = self.instance(nm, cn, f"{tag}_{n}", ty, specs[n])
            start, recv = toks[i].a, ", ".join(a[:-1])
            if nm == "with_compact_mode":
                j = libchain.receiver(toks, i - 1)
                start, recv = toks[j].a, f.body[toks[j].a:toks[i - 1].a].strip()
            f.body = f.body[:start] + f"{name}({me}, {recv})" + f.body[toks[e].b:]
            n += 1

    def instance(self, nm, cn, tag, ty, spec):
        """the function nm with the closure cn"""
        hf, name = self.hof(nm), f"x_{tag}_{nm}"
        m = re.search(r"(\w+)\s*:\s*F\b", hf.sig)
        if not m:
            raise rx.Lost(f"{nm}: no closure parameter")
        fp = m.group(1)
        if nm == "with_compact_mode":
            hf.body = re.sub(r"\bself\b", "fmt", hf.body)
            hf.sig = f"fn {name}(x_s: &{ty}, fmt: &mut Formatter<'_>) -> XResult"
            whole = lambda k: spec("true")
        else:
            hf.sig = f"fn {name}(x_s: &{ty}, fmt: &mut Formatter<'_>, strip: Strip) -> XResult"
            whole = {"format_strip": lambda k: f"opens(strip) + ({spec(k)}) + closes(strip)", "format_interpolation": lambda k: f"t(\"${{\"@) + opens(strip) + ({spec(k)}) + closes(strip) + t(\"}}\"@)",
                     "format_directive": lambda k: f"tag(strip, {spec(k)})"}[nm]
        hf.name = name
        hf.body = re.sub(rf"\b{fp}\(\s*(\w+)\s*\)", rf"{cn}(x_s, \1)", hf.body)
        m = re.search(rf"\b({'|'.join(HOFS)})\(([\w\s,]*),\s*{fp}\s*\)", hf.body)
        if m:
            inner = self.instance(m.group(1), cn, tag, ty, spec)
            hf.body = hf.body[:m.start()] + f"{inner}(x_s, {m.group(2)})" + hf.body[m.end():]
        self.run(hf, tag + "_i", ty, [lambda k: f"t(\" \"@) + ({spec(k)}) + t(\" \"@)"], me="x_s")
        self.take(hf, whole(KOLD), ty)
        return name


def object_call(body):
    """(start, end, (pattern, value) of the mapping or None) of `format_object(fmt, object.iter()..)`"""
    toks = rx.lex(body)
    for i in range(len(toks) - 1):
        if toks[i].s == "format_object" and toks[i + 1].s == "(":
            a, e = libchain.split_args(body, toks, i + 1)
            m = re.fullmatch(r"\s*object\s*\.iter\(\)\s*(?:\.map\((.*)\))?\s*", a[1], re.S) if len(a) == 2 else None
            if m:
                c = libchain.closure(m.group(1)) if m.group(1) else None
                return toks[i].a, toks[e].b, (c[0][0], c[1]) if c else None
    raise rx.Lost("format_object's entries")


# what the options can change: nothing but the gaps, and whether a key that is an identifier is quoted
def theorems():
    one, two = "c1, n1, k1", "c2, n2, k2"
    par = "c1: Cfg, n1: nat, k1: bool, c2: Cfg, n2: nat, k2: bool"
    out = [r"""
pub open spec fn lined(s: Seq<char>, pre: Seq<char>, c: Cfg) -> bool { exists|m: nat| s == pre + #[trigger] ind(c, m) }
// the layouts a gap can have under the options c: indentation is the indent, repeated
pub open spec fn form(k: Gap, s: Seq<char>, c: Cfg) -> bool {
    match k {
        Gap::ArrStart | Gap::ArrEnd => s == Seq::<char>::empty() || lined(s, "\n"@, c), Gap::ArrSep => s == ", "@ || lined(s, ",\n"@, c),
        Gap::ObjStart | Gap::ObjEnd => s == " "@ || lined(s, "\n"@, c), Gap::ObjSep => s == ", "@ || lined(s, "\n"@, c),
        Gap::Open => s == "\n"@, Gap::Between => s == Seq::<char>::empty() || s == "\n"@, Gap::Indent | Gap::Closing => exists|m: nat| s == #[trigger] ind(c, m),
    }
}
pub open spec fn alike1(a: Part, b: Part, c1: Cfg, c2: Cfg) -> bool {
    match (a, b) {
        (Part::T(x), Part::T(y)) => x == y, (Part::K(x, p), Part::K(y, q)) => x == y && (p ==> bare(x)) && (q ==> bare(x)),
        (Part::G(x, p), Part::G(y, q)) => x == y && form(x, p, c1) && form(y, q, c2), _ => false,
    }
}
#[verifier::opaque] pub open spec fn alike(a: Seq<Part>, b: Seq<Part>, c1: Cfg, c2: Cfg) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] alike1(a[i], b[i], c1, c2) }
pub broadcast proof fn alike_add(a: Seq<Part>, b: Seq<Part>, x: Seq<Part>, y: Seq<Part>, c1: Cfg, c2: Cfg) requires alike(a, b, c1, c2), alike(x, y, c1, c2) ensures #[trigger] alike(a + x, b + y, c1, c2)
{ reveal(alike); assert forall|i: int| 0 <= i < (a + x).len() implies #[trigger] alike1((a + x)[i], (b + y)[i], c1, c2) by { if i < a.len() { assert(alike1(a[i], b[i], c1, c2)); } else { assert(alike1(x[i - a.len()], y[i - a.len()], c1, c2)); } } }
pub broadcast proof fn alike_t(s: Seq<char>, c1: Cfg, c2: Cfg) ensures #[trigger] alike(t(s), t(s), c1, c2) { reveal(alike); assert(alike1(Part::T(s), Part::T(s), c1, c2)); }
pub broadcast proof fn alike_none(c1: Cfg, c2: Cfg) ensures #[trigger] alike(none(), none(), c1, c2) { reveal(alike); }
pub broadcast proof fn alike_key(s: Seq<char>, c1: Cfg, c2: Cfg) ensures #[trigger] alike(str_key(s, c1), str_key(s, c2), c1, c2) { reveal(alike); assert(alike1(Part::K(s, c1.ids && bare(s)), Part::K(s, c2.ids && bare(s)), c1, c2)); }
pub proof fn alike_g(k: Gap, x: Seq<char>, y: Seq<char>, c1: Cfg, c2: Cfg) requires form(k, x, c1), form(k, y, c2) ensures alike(g(k, x), g(k, y), c1, c2) { reveal(alike); assert(alike1(Part::G(k, x), Part::G(k, y), c1, c2)); }
pub broadcast proof fn alike_ind(k: Gap, n1: nat, n2: nat, c1: Cfg, c2: Cfg) requires k is Indent || k is Closing ensures #[trigger] alike(g(k, ind(c1, n1)), g(k, ind(c2, n2)), c1, c2) { alike_g(k, ind(c1, n1), ind(c2, n2), c1, c2); }
""" ]
    for nm, o, fl in (("arr", "Arr", "fa"), ("obj", "Obj", "fo")):
        sep = '",\\n"@' if nm == "arr" else '"\\n"@'
        wit = " ".join(f'assert(lined({pre} + ind(c{i}, n{i}), {pre}, c{i}));' for i in (1, 2) for pre in dict.fromkeys(('"\\n"@', sep)))
        for suf in ("gap", "end"):
            kinds = f"if first {{ Gap::{o}Start }} else {{ Gap::{o}Sep }}" if suf == "gap" else f"Gap::{o}End"
            txt = {}
            out.append(f"pub broadcast proof fn alike_{nm}_{suf}(first: bool, {par}) ensures #[trigger] alike({nm}_{suf}(first, {one}), {nm}_{suf}(first, {two}), c1, c2)\n"
                       f"{{ {wit} reveal(alike); let a = {nm}_{suf}(first, {one}); let b = {nm}_{suf}(first, {two}); if a.len() > 0 {{ assert(alike1(a[0], b[0], c1, c2)); }} }}")
    out.append("""pub proof fn alike_line(s1: FormatState, s2: FormatState, x: FormatState, c1: Cfg, c2: Cfg) requires s1 is BlockBodyStart == s2 is BlockBodyStart ensures alike(gap_line(s1, x, c1), gap_line(s2, x, c2), c1, c2)
{ reveal(alike); let a = gap_line(s1, x, c1); let b = gap_line(s2, x, c2); assert(alike1(a[0], b[0], c1, c2)); }
broadcast group likes { alike_add, alike_t, alike_none, alike_key, alike_ind, alike_arr_gap, alike_arr_end, alike_obj_gap, alike_obj_end }""")

    def lem(fn, params, dec, calls, state=False, rest=True):
        names = [x.split(":")[0].strip() for x in params.split(";")]
        a = lambda i: ", ".join(names + ([f"s{i}"] if state else []) + ([one if i == 1 else two] if rest else []))
        decl = ", ".join(x.strip() for x in params.split(";")) + (", s1: FormatState, s2: FormatState" if state else "")
        req = "requires s1 is BlockBodyStart == s2 is BlockBodyStart " if state else ""
        calls = re.sub(r"@(\w+)", r"like_\1", calls).replace("$", f"{one}, {two}")
        out.append(f"pub proof fn like_{fn}({decl}, {par}) {req}ensures alike({fn}({a(1)}), {fn}({a(2)}), c1, c2)" + (f" decreases {dec}" if dec else "") + f"\n{{ broadcast use likes; {calls} }}")
    X, A = "$)", "; "
    many = lambda vec, each: f"if m > 0 && m <= {vec}.len() {{ {each} }}"
    lem("val", "v: Value", "v, 0nat", "match v { Value::Array(a) => { @vals(a, a@.len(), c1, na(c1, n1, k1), k1, c2, na(c2, n2, k2), k2); } Value::Object(o) => { @val_entries(o, o.entries@.len(), c1, no(c1, n1, k1), k1, c2, no(c2, n2, k2), k2); } _ => {} }")
    lem("vals", "a: Vec<Value>; m: nat", "a, m", many("a@", "@vals(a, (m - 1) as nat, $); @val(a@[m - 1], $);"))
    lem("val_entries", "o: Map<String, Value>; m: nat", "o, m", many("o.entries@", "@val_entries(o, (m - 1) as nat, $); @val(o.entries@[m - 1].1, $);"))
    lem("expr", "e: Expression", "e, 0nat", """match e {
        Expression::Array(a) => { @exprs(a, a@.len(), c1, na(c1, n1, k1), k1, c2, na(c2, n2, k2), k2); } Expression::Object(o) => { @entries(o, o.entries@.len(), c1, no(c1, n1, k1), k1, c2, no(c2, n2, k2), k2); }
        Expression::TemplateExpr(x) => { @texpr(*x, $); } Expression::Traversal(x) => { @trav(*x, $); } Expression::FuncCall(f) => { @call(*f, $); } Expression::Parenthesis(x) => { @expr(*x, $); }
        Expression::Conditional(x) => { @cond(*x, $); } Expression::Operation(o) => { @oper(*o, $); } Expression::ForExpr(f) => { @for_expr(*f, $); } _ => {} }""")
    lem("exprs", "a: Vec<Expression>; m: nat", "a, m", many("a@", "@exprs(a, (m - 1) as nat, $); @expr(a@[m - 1], $);"))
    lem("key", "o: ObjectKey", "o, 1nat", "if let ObjectKey::Expression(e) = o { if !(e is String) { @expr(e, $); } }")
    lem("entries", "o: Object<ObjectKey, Expression>; m: nat", "o, m", many("o.entries@", "@entries(o, (m - 1) as nat, $); @key(o.entries@[m - 1].0, $); @expr(o.entries@[m - 1].1, $);"))
    lem("texpr", "x: TemplateExpr", "", "")
    lem("trav", "x: Traversal", "x, 1nat", "@expr(x.expr, $); @travs(x.operators, x.operators@.len(), $);")
    lem("travs", "v: Vec<TraversalOperator>; m: nat", "v, m", many("v@", "@travs(v, (m - 1) as nat, $); @trav_op(v@[m - 1], $);"))
    lem("trav_op", "o: TraversalOperator", "o, 1nat", "if let TraversalOperator::Index(e) = o { @expr(e, $); }")
    lem("args", "v: Vec<Expression>; m: nat", "v, m", many("v@", "@args(v, (m - 1) as nat, $); @expr(v@[m - 1], $);"))
    out.append("pub proof fn like_same(p: Seq<Part>, c1: Cfg, c2: Cfg) requires forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] is T ensures alike(p, p, c1, c2) { reveal(alike); assert forall|i: int| 0 <= i < p.len() implies #[trigger] alike1(p[i], p[i], c1, c2) by { assert(p[i] is T); } }")
    out.append("pub proof fn like_spaces(v: Vec<Identifier>, m: nat, c1: Cfg, c2: Cfg) ensures alike(spaces(v, m), spaces(v, m), c1, c2) decreases m { broadcast use likes; if m > 0 && m <= v@.len() { like_spaces(v, (m - 1) as nat, c1, c2); } }")
    out.append("pub proof fn like_labels(v: Vec<BlockLabel>, m: nat, c1: Cfg, c2: Cfg) ensures alike(labels(v, m), labels(v, m), c1, c2) decreases m { broadcast use likes; if m > 0 && m <= v@.len() { like_labels(v, (m - 1) as nat, c1, c2); } }")
    lem("call", "f: FuncCall", "f, 1nat", "like_spaces(f.name.namespace, f.name.namespace@.len(), c1, c2); @args(f.args, f.args@.len(), c1, n1, true, c2, n2, true);")
    T = "c1, n1, true, c2, n2, true"
    lem("cond", "x: Conditional", "x, 1nat", f"@expr(x.cond_expr, {T}); @expr(x.true_expr, {T}); @expr(x.false_expr, {T});")
    lem("oper", "o: Operation", "o, 1nat", "match o { Operation::Unary(u) => { @unary(u, $); } Operation::Binary(b) => { @binary(b, $); } }")
    lem("unary", "u: UnaryOp", "u, 1nat", "@expr(u.expr, $);")
    lem("binary", "b: BinaryOp", "b, 1nat", "@expr(b.lhs_expr, $); @expr(b.rhs_expr, $);")
    lem("for_expr", "f: ForExpr", "f, 1nat", "@expr(f.collection_expr, $); @expr(f.value_expr, $); if let Some(e) = f.key_expr { @expr(e, $); } if let Some(e) = f.cond_expr { @expr(e, $); }")
    lem("elems", "v: Seq<Element>; m: nat; dir: bool", "v, m", many("v", "@elems(v, (m - 1) as nat, dir, $); match v[m - 1] { Element::Interpolation(i) => { @interp(i, $); } Element::Directive(d) => { @direc(*d, $); } _ => {} }"))
    lem("tmpl", "x: Template; dir: bool", "x, 1nat", "@elems(x.elements@, x.elements@.len(), dir, $);")
    lem("interp", "i: Interpolation", "i, 1nat", "@expr(i.expr, $);")
    lem("direc", "d: Directive", "d, 1nat", "match d { Directive::If(i) => { @if_dir(i, $); } Directive::For(f) => { @for_dir(f, $); } }")
    lem("if_dir", "i: IfDirective", "i, 1nat", "@expr(i.cond_expr, $); @tmpl(i.true_template, true, $); if let Some(f) = i.false_template { @tmpl(f, true, $); }")
    lem("for_dir", "f: ForDirective", "f, 1nat", "@expr(f.collection_expr, $); @tmpl(f.template, true, $);")
    lem("attr", "a: Attribute", "", "alike_line(s1, s2, FormatState::AttributeStart, c1, c2); @expr(a.expr, $);", state=True)
    lem("block", "b: Block", "b, 1nat", "alike_line(s1, s2, FormatState::BlockStart, c1, c2); like_labels(b.labels, b.labels@.len(), c1, c2); @body(b.body, b.body.0@.len(), FormatState::BlockBodyStart, FormatState::BlockBodyStart, c1, n1 + 1, k1, c2, n2 + 1, k2);", state=True)
    lem("struc", "s: Structure", "s, 1nat", "match s { Structure::Attribute(a) => { @attr(a, s1, s2, $); } Structure::Block(b) => { @block(b, s1, s2, $); } }", state=True)
    lem("body", "b: Body; m: nat", "b, m", many("b.0@", "@body(b, (m - 1) as nat, s1, s2, $); @struc(b.0@[m - 1], after(s1, b.0@, (m - 1) as nat), after(s2, b.0@, (m - 1) as nat), $);"), state=True)
    return out


def build(repo):
    F = lambda p: rx.File(f"{repo}/{p}")
    imp, mod = F(R + "format/impls.rs"), F(R + "format/mod.rs")
    out, fns = [PRELUDE], []
    P = "crates/hcl-primitives/src/"

    def pub(x):
        return x if x.startswith("pub ") else "pub " + x
    ops = F(P + "expr.rs")
    out.extend([pub(ops.item("enum", "UnaryOperator")), pub(ops.item("enum", "BinaryOperator")), pub(F(P + "template.rs").item("enum", "Strip"))])
    em, ot, tr, te, tm = F(R + "expr/mod.rs"), F(R + "expr/operation.rs"), F(R + "expr/traversal.rs"), F(R + "expr/template_expr.rs"), F(R + "template/mod.rs")
    out.extend([pub(em.item("enum", "Expression")), pub(em.item("enum", "ObjectKey")), pub(ot.item("enum", "Operation")), pub_fields(ot.item("struct", "UnaryOp")), pub_fields(ot.item("struct", "BinaryOp")),
                pub_fields(tr.item("struct", "Traversal")), pub(tr.item("enum", "TraversalOperator")), pub_fields(F(R + "expr/func_call.rs").item("struct", "FuncCall")), pub_fields(F(R + "expr/func_call.rs").item("struct", "FuncName")),
                pub_fields(F(R + "expr/for_expr.rs").item("struct", "ForExpr")), pub_fields(F(R + "expr/conditional.rs").item("struct", "Conditional")),
                pub(te.item("enum", "TemplateExpr")), pub_fields(te.item("struct", "Heredoc")), pub(te.item("enum", "HeredocStripMode")),
                pub_fields(tm.item("struct", "Template")), pub(tm.item("enum", "Element")), pub(tm.item("enum", "Directive"))])
    out.extend([pub_fields(tm.item("struct", n)) for n in ("Interpolation", "IfDirective", "ForDirective")])
    out.append(pub(F(R + "value/mod.rs").item("enum", "Value")))
    st = {n: F(R + f"structure/{n}.rs") for n in ("mod", "attribute", "block", "body")}
    out.extend([pub(st["body"].item("struct", "Body")), pub(st["mod"].item("enum", "Structure")), pub_fields(st["attribute"].item("struct", "Attribute")), pub_fields(st["block"].item("struct", "Block")), pub(st["block"].item("enum", "BlockLabel"))])
    out.extend([pub_fields(mod.item("struct", "FormatConfig")), pub(mod.item("enum", "FormatState")),
                pub_fields(mod.item("struct", "Formatter").replace("Formatter<'a, W>", "Formatter<'a>").replace("writer: W", "writer: XOut"))])
    out.append("pub struct StrKey<'a>(pub &'a str);\n")
    for n in ("UnaryOperator", "BinaryOperator", "Strip", "HeredocStripMode"):
        out.append(f"impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {n} {{}}\n")
    out.append(SPEC)

    def common(f):
        f.sig = re.sub(r"<W>", "", f.sig, 1)
        f.sig = re.sub(r"\bwhere\b.*$", "", f.sig, flags=re.S).strip()
        f.sig = f.sig.replace("Formatter<W>", "Formatter<'_>").replace("Result<()>", "XResult")
        # comparisons with literal texts
        f.body = re.sub(r'matches!\(\s*([\w.]+)\s*,\s*("\w*"(?:\s*\|\s*"\w*")*)\s*\)', lambda m: "(" + " || ".join(f"x_is({m[1]}, {w.strip()})" for w in m[2].split("|")) + ")", f.body)
        f.body = re.sub(r'([\w.]+) == ("\w*")', r"x_is(\1, \2)", f.body)
        # literals of bytes and text arguments
        f.body = re.sub(r'\bb("(?:[^"\\]|\\.)*")(\s+as\s+&\[u8\])?', r"x_lit(\1)", f.body)
        f.body = re.sub(r"(?<!x_bytes\()\b(\w+)\.as_bytes\(\)", r"x_bytes(\1)", f.body)
        for m in ("write_string_fragment", "write_quoted_string", "write_quoted_string_escaped"):
            f.rewrite(f"{m}($x_s)", f"{m}(x_text($x_s))", "deref to the text", must=False)
        f.rewrite("write_indented($a_s, $x_s)", "write_indented($a_s, x_text($x_s))", "deref to the text", must=False)
        f.rewrite("StrKey($x)", "StrKey(x_text($x))", "deref to the text", must=False)
        for m in ("self.current_indent", "fmt.current_indent"):
            f.rewrite(f"{m} += 1", f"x_inc(&mut {m})", "nesting stays below 2^64", must=False)
        for m in ("self.compact_mode_level", "fmt.compact_mode_level"):
            f.rewrite(f"{m} += 1", f"x_inc64(&mut {m})", "nesting stays below 2^64", must=False)
        return f

    def emit(f, impl, group="steps"):
        f.attrs = "#[verifier::spinoff_prover]\n#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
        f.vis = "pub "
        f.contract = wr(f.contract)
        f.loop_inv = {k: (wr(v[0]),) + tuple(v[1:]) for k, v in f.loop_inv.items()}
        if group == "joins":
            f.at("hide", "hide(ind);" if "write_indent(" in f.body else "")
            f.at("start", "reveal(wrote);")
        f.at("start", f"broadcast use {group};" + "".join(f" assert(origin(old({w}).writer@));" for w in ("self", "fmt") if group == "steps" and f"old({w})" in f.contract))
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    def take_free(f, parts, ty):
        common(f)
        loops_of(f)
        f.spec(fmt_ok(parts))
        emit(f, None)
    lifted = Lift(lambda nm: mod.fn(nm, FI) if nm == "with_compact_mode" else imp.fn(nm), take_free)
    FI = "impl<W> Formatter<'_, W>"
    FMT = "impl<'a> Formatter<'a>"
    SELF = "self"

    def loops_of(f):
        f.body = re.sub(r"\bfor\s+(\w+)\s+in\s+self\s*\{", r"for \1 in &self.0 {", f.body)
        libchain.for_loops(f, entries=("o_entries",))
        return f

    # the formatter
    def fm(name, contract, extra=None, keepsig=False):
        f = common(mod.fn(name, FI))
        if extra:
            extra(f)
        f.spec(contract)
        emit(f, FMT, "joins")
    me = lambda parts, keep="same": fmt_ok(parts, "self", keep, "=~=")
    CS, NS, KS = "cfg(old(self).config)", "old(self).current_indent as nat", "old(self).compact_mode_level > 0"
    fm("write_bytes", "ensures r is Ok ==> final(self).writer@ == old(self).writer@ + join(t(chars_of(buf@))), same(*old(self), *final(self))")
    fm("write_null", me("t(\"null\"@)"))
    fm("write_bool", me("t(if value { \"true\"@ } else { \"false\"@ })"))

    def itoa(f):
        f.sig = "fn write_int(&mut self, value: u64) -> XResult"
        f.rewrite("let mut buffer = itoa::Buffer::new();", "", "itoa", must=False)
        f.rewrite("let s = buffer.format(value);", "let s = x_itoa(value);", "itoa")
        f.rewrite("x_bytes(s)", "x_bytes(s.as_str())", "deref", must=False)
    fm("write_int", me("t(int_text(value as int))"), itoa)
    fm("write_string_fragment", me("t(s@)"))
    # decided under C05 (recipe escape_fmt)
    out.append(f"{FMT} {{ #[verifier::external_body] pub fn write_escaped_string(&mut self, value: &str) -> (r: XResult) {me('t(escaped(value@))')} {{ unimplemented!() }} }}\n")
    fm("write_quoted_string", me("t(\"\\\"\"@ + s@ + \"\\\"\"@)"))
    fm("write_quoted_string_escaped", me("t(quoted(s@))"))
    fm("in_compact_mode", "ensures r == (self.compact_mode_level > 0)")
    fm("compact_arrays", "ensures r == fa(cfg(self.config), self.compact_mode_level > 0)")
    fm("compact_objects", "ensures r == fo(cfg(self.config), self.compact_mode_level > 0)")

    def indent(f):
        m = re.search(r"for\s+(\w+)\s+in\s+0\s*\.\.\s*n\s*\{", f.body)
        if m:
            v = m.group(1)
            f.body = f.body[:m.start()] + "let mut x_i0: usize = 0; while x_i0 < n { " + (f"let {v} = x_i0; " if v != "_" else "") + "x_i0 = x_i0 + 1;" + f.body[m.end():]
        f.loop(0, f"invariant x_i0 <= n, wrote(old(self).writer@, t(ind({CS}, x_i0 as nat)), self.writer@), same(*old(self), *self) decreases n - x_i0")
    fm("write_indent", f"ensures r is Ok ==> final(self).writer@ =~= old(self).writer@ + join(t(ind({CS}, n as nat))), same(*old(self), *final(self))", indent)

    def indented(f):
        f.rewrite("s.lines().enumerate()", "x_ls.iter().enumerate()", "the lines", must=False)
        f.rewrite("s.ends_with($c)", "x_ends_with(s, $c)", "str", must=False)
        f.at("start", "let x_ls = x_lines(s); proof { broadcast use one_line; assert(x_ls@.map_values(|l: &str| l@).len() == x_ls@.len()); if s@.len() > 0 && !s@.contains('\\n') { assert(x_ls@.len() == 1); assert(x_ls@.map_values(|l: &str| l@)[0] == s@); } }")
        libchain.for_loops(f)
        f.rewrite("x_text(line)", "line", "deref", must=False)
        f.loop(0, f"invariant x_i0 <= x_ls@.len(), same(*old(self), *self), x_i0 == 0 ==> self.writer@ == old(self).writer@, x_i0 == 1 && s@.len() > 0 && !s@.contains('\\n') ==> wrote(old(self).writer@, t(ind({CS}, n as nat) + s@), self.writer@) decreases x_ls@.len() - x_i0")
    fm("write_indented", f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> same(*old(self), *final(self)), r is Ok && s@.len() > 0 && !s@.contains('\\n') ==> final(self).writer@ =~= old(self).writer@ + join(g(Gap::Closing, ind({CS}, n as nat)) + t(s@))", indented)
    SB = "final(self).config == old(self).config && final(self).compact_mode_level == old(self).compact_mode_level"
    ONE = "final(self).nesting_state@ == old(self).nesting_state@.push((old(self).first_element, old(self).has_value)) && final(self).first_element && !final(self).has_value && final(self).state == old(self).state"
    POP = "old(self).nesting_state@.len() > 0 ==> final(self).nesting_state@ == old(self).nesting_state@.drop_last() && final(self).first_element == old(self).nesting_state@.last().0 && final(self).has_value == old(self).nesting_state@.last().1"
    W = "final(self).writer@ =~= old(self).writer@ + join("
    for nm, o, cl, fl, en in (("array", "[", "]", "fa", "arr"), ("object", "{", "}", "fo", "obj")):
        deep = "na" if nm == "array" else "no"
        fm("begin_" + nm, f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}t(\"{o}\"@)) && {SB} && final(self).current_indent == {deep}({CS}, {NS}, {KS}) && {ONE}")
        fm("begin_array_value" if nm == "array" else "begin_object_key",
           f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}{en}_gap(old(self).first_element, {CS}, {NS}, {KS})) && {SB} && !final(self).first_element && final(self).has_value == old(self).has_value && final(self).state == old(self).state && final(self).current_indent == old(self).current_indent && final(self).nesting_state@ == old(self).nesting_state@")
        if nm == "array":
            fm("end_array_value", f"ensures r is Ok, final(self).writer@ == old(self).writer@, {SB}, final(self).has_value, final(self).first_element == old(self).first_element, final(self).state == old(self).state, final(self).current_indent == old(self).current_indent, final(self).nesting_state@ == old(self).nesting_state@")
        else:
            fm("begin_object_value", me("t(\" = \"@)"))
            fm("end_object_value", f"ensures r is Ok, final(self).writer@ == old(self).writer@, {SB}, final(self).has_value, final(self).first_element == old(self).first_element, final(self).state == old(self).state, final(self).current_indent == old(self).current_indent, final(self).nesting_state@ == old(self).nesting_state@")
        fm("end_" + nm, f"""requires !{fl}({CS.replace('old(self)', 'old(self)')}, {KS}) ==> old(self).current_indent > 0
ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}{en}_end(old(self).has_value, {CS}, if {fl}({CS}, {KS}) {{ {NS} }} else {{ ({NS} - 1) as nat }}, {KS}) + t("{cl}"@)) && {SB} && final(self).current_indent == (if {fl}({CS}, {KS}) {{ old(self).current_indent as int }} else {{ old(self).current_indent - 1 }}) && final(self).state == old(self).state && ({POP})""")
    NF = "final(self).first_element == old(self).first_element && final(self).has_value == old(self).has_value && final(self).nesting_state@ == old(self).nesting_state@"
    fm("maybe_write_newline", f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}gap_line(old(self).state, next_state, {CS})) && same_but_state(*old(self), *final(self)) && final(self).state == next_state")
    for nm, s2 in (("attribute", "AttributeStart"), ("block", "BlockStart")):
        fm("begin_" + nm, f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}gap_line(old(self).state, FormatState::{s2}, {CS}) + g(Gap::Indent, ind({CS}, {NS}))) && same_but_state(*old(self), *final(self))")
    fm("begin_attribute_value", me("t(\" = \"@)"))
    fm("end_attribute", me("t(\"\\n\"@)", "same_but_state").rstrip() + " && final(self).state is AttributeEnd")
    fm("begin_block_body", f"ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}t(\" {{\"@)) && {SB} && {NF} && final(self).current_indent == old(self).current_indent + 1 && final(self).state is BlockBodyStart")
    fm("end_block", f"requires old(self).current_indent > 0 ensures final(self).compact_mode_level == old(self).compact_mode_level, r is Ok ==> {W}g(Gap::Indent, ind({CS}, ({NS} - 1) as nat)) + t(\"}}\\n\"@)) && {SB} && {NF} && final(self).current_indent == old(self).current_indent - 1 && final(self).state is BlockEnd")
    # operators' text, strip markers
    for ty, fn_, spec in (("UnaryOperator", "as_str", "un_text"), ("BinaryOperator", "as_str", "bin_text")):
        f = ops.fn("as_str", f"impl {ty}")
        f.sig = re.sub(r"\(self\)", "(self)", f.sig)
        f.spec(f"ensures r@ == {spec}({'*self' if '&self' in f.sig else 'self'})")
        emit(f, f"impl {ty}")
    f = te.fn("as_str", "impl HeredocStripMode")
    f.spec("ensures r@ == (if self is None { \"<<\"@ } else { \"<<-\"@ })")
    emit(f, "impl HeredocStripMode")
    ps = F(P + "template.rs")
    for nm, a in (("strip_start", "Start"), ("strip_end", "End")):
        f = ps.fn(nm, "impl Strip")
        f.spec(f"ensures r == (self is {a} || self is Both)")
        emit(f, "impl Strip")
    f = tm.fn("elements", "impl Template")
    f.sig = f.sig.replace("&[Element]", "&Vec<Element>")
    f.spec("ensures r@ == self.elements@, r == self.elements")
    emit(f, "impl Template")

    # the leaves
    ARGS = f"{COLD}, {NOLD}, {KOLD}"

    def fi(ty, parts, impl=None, body=None, keep="same", post="", pre="", src=None, group="steps"):
        f = common(imp.fn("format", f"impl Format for {src or ty}"))
        if body:
            body(f)
        loops_of(f)
        f.spec(pre + fmt_ok(parts, keep=keep) + post)
        emit(f, impl or f"impl {ty}", group)
        return f

    out.append("pub trait XLeaf { spec fn xp(&self) -> Seq<Part>; fn format(&self, fmt: &mut Formatter<'_>) -> (r: XResult) " + wr(fmt_ok("self.xp()")) + "; }\n")
    f = common(imp.fn("format", "impl Format for String"))
    f.attrs, f.vis = "", ""
    f.at("start", "broadcast use steps;")
    fns.append(f)
    out.append(f"impl XLeaf for String {{ open spec fn xp(&self) -> Seq<Part> {{ t(quoted(self@)) }}\n{f.render()}}}\n")
    for ty in ("Identifier", "Variable"):
        fi(ty, "t(self@)")
    fi("Number", "t(num_text(*self))", body=lambda f: f.rewrite("x_text(&self.to_string())", "x_text(&self.to_string())", "", must=False))
    try:
        f = common(imp.fn("is_keyword"))
    except rx.Lost:
        f = None
    if f:
        f.spec("ensures r == keyword(s@)")
        fns.append(f)
        out.append(f.render())
    fi("StrKey", f"str_key(self.0@, {COLD})", impl="impl<'a> StrKey<'a>", src="StrKey<'_>", group="joins")
    fi("BlockLabel", "label(*self)")

    # arrays and objects: an instance for each kind of element
    def seqs(nm, el, ty, spec, arg):
        f = common(imp.fn("format_" + nm))
        f.name = f"x_format_{nm}_{el}"
        f.sig = f"fn {f.name}(fmt: &mut Formatter<'_>, {arg}: &{ty}) -> XResult"
        return f
    LAY = "{f}({COLD}, {KOLD})"
    for el, ty, sp, item in (("e", "Vec<Expression>", "exprs", "Expression"), ("v", "Vec<Value>", "vals", "Value")):
        f = seqs("array", el, ty, sp, "array")
        f.body = re.sub(r"\bin\s+array\s*\{", "in array.iter() {", f.body)
        libchain.for_loops(f)
        f.at("start", "let ghost x_f = *fmt;")
        f.loop(0, f"""invariant x_i0 <= array@.len(), fmt.writer@ == x_f.writer@ + join(t("["@) + {sp}(*array, x_i0 as nat, cfg(x_f.config), na(cfg(x_f.config), x_f.current_indent as nat, x_f.compact_mode_level > 0), x_f.compact_mode_level > 0)),
    fmt.config == x_f.config, fmt.compact_mode_level == x_f.compact_mode_level, fmt.state == x_f.state, fmt.current_indent == na(cfg(x_f.config), x_f.current_indent as nat, x_f.compact_mode_level > 0),
    fmt.first_element == (x_i0 == 0), fmt.has_value == (x_i0 > 0), fmt.nesting_state@ == x_f.nesting_state@.push((x_f.first_element, x_f.has_value))
decreases array@.len() - x_i0""", after="proof { assert(fmt.nesting_state@.drop_last() =~= x_f.nesting_state@); }")
        f.spec(fmt_ok(f"t(\"[\"@) + {sp}(*array, array@.len(), {COLD}, na({ARGS}), {KOLD}) + arr_end(array@.len() > 0, {ARGS}) + t(\"]\"@)"))
        emit(f, None)
    for el, ty, sp in (("e", "Object<ObjectKey, Expression>", "entries"), ("v", "Map<String, Value>", "val_entries")):
        f = seqs("object", el, ty, sp, "object")
        whole = imp.fn("format", "impl Format for " + ("Expression" if el == "e" else "Value")).body
        m = object_call(whole)
        h = re.search(r"for\s+(\([^)]*\))\s+in\s+object\s*\{", f.body)
        if not h:
            raise rx.Lost("format_object's loop")
        body = f.body
        pre = f"let x_e = &object.entries[x_i0]; x_i0 = x_i0 + 1; "
        if m[2]:
            k_, v_ = [x.strip() for x in m[2][0].strip()[1:-1].split(",")]
            pre += f"let {k_} = &x_e.0; let {v_} = &x_e.1; let {h.group(1)} = {m[2][1]}; "
        else:
            k_, v_ = [x.strip() for x in h.group(1)[1:-1].split(",")]
            pre += f"let {k_} = &x_e.0; let {v_} = &x_e.1; "
        f.body = body[:h.start()] + "let mut x_i0: usize = 0; while x_i0 < object.entries.len() { " + pre + body[h.end():]
        f.rewrite("StrKey($x)", "StrKey(x_text($x))", "deref to the text", must=False)
        f.rewrites.append(f"{f.name}: the entries of the map as a while loop")
        f.at("start", "let ghost x_f = *fmt;")
        f.loop(0, f"""invariant x_i0 <= object.entries@.len(), fmt.writer@ == x_f.writer@ + join(t("{{"@) + {sp}(*object, x_i0 as nat, cfg(x_f.config), no(cfg(x_f.config), x_f.current_indent as nat, x_f.compact_mode_level > 0), x_f.compact_mode_level > 0)),
    fmt.config == x_f.config, fmt.compact_mode_level == x_f.compact_mode_level, fmt.state == x_f.state, fmt.current_indent == no(cfg(x_f.config), x_f.current_indent as nat, x_f.compact_mode_level > 0),
    fmt.first_element == (x_i0 == 0), fmt.has_value == (x_i0 > 0), fmt.nesting_state@ == x_f.nesting_state@.push((x_f.first_element, x_f.has_value))
decreases object.entries@.len() - x_i0""", after="proof { assert(fmt.nesting_state@.drop_last() =~= x_f.nesting_state@); }")
        f.spec(fmt_ok(f"t(\"{{\"@) + {sp}(*object, object.entries@.len(), {COLD}, no({ARGS}), {KOLD}) + obj_end(object.entries@.len() > 0, {ARGS}) + t(\"}}\"@)"))
        emit(f, None)

    def insts(el):
        def go(f):
            f.rewrite("format_array(fmt, array.iter())", f"x_format_array_{el}(fmt, array)", "instance", must=False)
            m = object_call(f.body)
            f.body = f.body[:m[0]] + f"x_format_object_{el}(fmt, object)" + f.body[m[1]:]
        return go
    fi("Value", f"val(*self, {ARGS})", body=insts("v"))
    fi("Expression", f"expr(*self, {ARGS})", body=insts("e"))
    fi("ObjectKey", f"key(*self, {ARGS})")
    fi("TemplateExpr", f"texpr(*self, {ARGS})")

    def hd(f):
        f.rewrite("self.template.is_empty()", "x_is_empty(&self.template)", "str", must=False)
        f.rewrite("self.template.ends_with($c)", "x_ends_with(&self.template, $c)", "str", must=False)
        f.at("start", "broadcast use ident_line;")
    fi("Heredoc", f"heredoc(*self, {ARGS})", body=hd)
    fi("TraversalOperator", f"trav_op(*self, {ARGS})")
    fi("Operation", f"oper(*self, {ARGS})")
    fi("UnaryOp", f"unary(*self, {ARGS})")
    fi("BinaryOp", f"binary(*self, {ARGS})")
    fi("ForExpr", f"for_expr(*self, {ARGS})")

    def counted(vec, parts, n=0, more=""):
        """a loop over a vector that appends the parts of its elements"""
        v = f"x_i{n}"
        return f"invariant {v} <= {vec}@.len(), fmt.writer@ == x_f.writer@ + join({parts(v + ' as nat')}), same(x_f, *fmt){more} decreases {vec}@.len() - {v}"
    XC, XN, XK = "cfg(x_f.config)", "x_f.current_indent as nat", "x_f.compact_mode_level > 0"

    def trav_(f):
        libchain.for_loops(f)
        f.at("start", "let ghost x_f = *fmt;")
        f.loop(0, counted("self.operators", lambda i: f"expr(self.expr, {XC}, {XN}, {XK}) + travs(self.operators, {i}, {XC}, {XN}, {XK})"))
    fi("Traversal", f"trav(*self, {ARGS})", body=trav_)

    def fname_(f):
        libchain.for_loops(f)
        f.at("start", "let ghost x_f = *fmt;")
        f.loop(0, counted("self.namespace", lambda i: f"spaces(self.namespace, {i})"))
    fi("FuncName", "fname(*self)", body=fname_)
    # closures
    take0 = lifted.take

    def take_args(f, parts, ty):
        common(f)
        libchain.for_loops(f)
        if f.name.endswith("_c0"):
            f.at("start", "let ghost x_f = *fmt;")
            f.loop(0, counted("x_s.args", lambda i: f"args(x_s.args, {i}, {XC}, {XN}, {XK})"))
        f.spec(fmt_ok(parts))
        emit(f, None)
    lifted.take = take_args
    fi("FuncCall", f"call(*self, {ARGS})", body=lambda f: lifted.run(f, "FuncCall", "FuncCall", [lambda k: f"args(x_s.args, x_s.args@.len(), {COLD}, {NOLD}, {k})"]))
    lifted.take = take0
    E_ = lambda e: (lambda k: f"expr(x_s.{e}, {COLD}, {NOLD}, {k})")
    fi("Conditional", f"cond(*self, {ARGS})", body=lambda f: lifted.run(f, "Conditional", "Conditional", [lambda k: f"{E_('cond_expr')(k)} + t(\" ? \"@) + {E_('true_expr')(k)} + t(\" : \"@) + {E_('false_expr')(k)}"]))
    fi("Interpolation", f"interp(*self, {ARGS})", body=lambda f: lifted.run(f, "Interpolation", "Interpolation", [E_("expr")]))
    fi("Directive", f"direc(*self, {ARGS})")
    fi("Element", f"(match *self {{ Element::Literal(s) => t(esc(s@)), Element::Interpolation(i) => interp(i, {ARGS}), Element::Directive(d) => direc(*d, {ARGS}) }})",
       body=lambda f: f.rewrite("escape_markers($x)", "escape_markers(x_text($x))", "deref to the text", must=False))

    f = imp.fn("format_elements")
    common(f)
    f.body = re.sub(r"template\.elements\(\)\.iter\(\)\.peekable\(\)", "x_peekable(template.elements())", f.body)
    m = re.search(r"let Element::Literal\((\w+)\) = element else\s*\{", f.body)
    if m:
        toks = rx.lex(f.body)
        o = next(i for i, t_ in enumerate(toks) if t_.a == m.end() - 1)
        c = rx.match_close(toks, o)
        f.body = f.body[:toks[c].b] + f"; let {m.group(1)} = x_text({m.group(1)})" + f.body[toks[c].b:]
    f.rewrite("$l.trim_end_matches($c)", "x_trim_end($l, $c)", "str", must=False)
    f.rewrite("&$l[$t.len()..]", "x_tail($l, $t)", "str", must=False)
    f.rewrite("$m.is_empty()", "x_is_empty_str($m)", "str", must=False)
    f.body = re.sub(r'format!\("((?:[^"\\{}]|\\.|\{\{|\}\})*)\{(\w+)\}((?:[^"\\{}]|\\.|\{\{|\}\})*)"\)', lambda m: 'x_cat3("%s", %s, "%s")' % (m.group(1).replace("{{", "{").replace("}}", "}"), m.group(2), m.group(3).replace("{{", "{").replace("}}", "}")), f.body)
    f.at("hide", "hide(trim_end);")
    f.at("start", "let ghost x_f = *fmt; let ghost v = template.elements@;")
    ELS = f"elems(v, (v.len() - elements.left().len()) as nat, directive_follows, {XC}, {XN}, {XK})"
    f.loop(0, f"""invariant v == template.elements@, elements.left().len() <= v.len(), elements.left() == v.skip(v.len() - elements.left().len()), fmt.writer@ == x_f.writer@ + join({ELS}), same(x_f, *fmt)
ensures elements.left().len() == 0 decreases elements.left().len()""", start="""proof { let i = v.len() - elements.left().len() - 1; assert(v.skip(i)[0] == v[i]); assert(v.skip(i).drop_first() =~= v.skip(i + 1)); if elements.left().len() > 0 { assert(elements.left()[0] == v[i + 1]); }
    if *element is Literal { let s = element->Literal_0@; trimmed(s, '$'); trimmed(s, '%'); assert(s.skip(s.len() as int) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s); } }""")
    f.before_loop(0, "proof { assert(v.skip(0) =~= v); }")
    f.spec(fmt_ok(f"tmpl(*template, directive_follows, {ARGS})"))
    emit(f, None)
    fi("Template", f"tmpl(*self, false, {ARGS})")
    fi("IfDirective", f"if_dir(*self, {ARGS})", body=lambda f: lifted.run(f, "IfDirective", "IfDirective", [lambda k: f"t(\"if \"@) + {E_('cond_expr')(k)}", lambda k: "t(\"else\"@)", lambda k: "t(\"endif\"@)"]))
    fi("ForDirective", f"for_dir(*self, {ARGS})", body=lambda f: lifted.run(f, "ForDirective", "ForDirective", [lambda k: f"t(\"for \"@) + for_vars(x_s.key_var, x_s.value_var) + t(\" in \"@) + {E_('collection_expr')(k)}", lambda k: "t(\"endfor\"@)"]))

    # bodies
    ST = "old(fmt).state"
    AFT = f", r is Ok ==> final(fmt).state == "
    fi("Attribute", f"attr(*self, {ST}, {ARGS})", keep="same_but_state", post=AFT + "FormatState::AttributeEnd")

    def blk_(f):
        libchain.for_loops(f)
        f.at("start", "let ghost x_0 = *fmt;")
        f.before_loop(0, "let ghost x_f = *fmt;")
        f.loop(0, counted("self.labels", lambda i: "gap_line(x_0.state, FormatState::BlockStart, cfg(x_0.config)) + g(Gap::Indent, ind(cfg(x_0.config), x_0.current_indent as nat)) + t(self.identifier@) + labels(self.labels, " + i + ")").replace("x_f.writer", "x_0.writer"))
    fi("Block", f"block(*self, {ST}, {ARGS})", keep="same_but_state", post=AFT + "FormatState::BlockEnd", body=blk_)
    fi("Structure", f"struc(*self, {ST}, {ARGS})", keep="same_but_state", post=AFT + "(if *self is Attribute { FormatState::AttributeEnd } else { FormatState::BlockEnd })")

    def body_(f):
        f.body = re.sub(r"\bfor\s+(\w+)\s+in\s+self\s*\{", r"for \1 in &self.0 {", f.body)
        libchain.for_loops(f)
        f.at("start", "let ghost x_f = *fmt;")
        f.loop(0, f"invariant x_i0 <= self.0@.len(), fmt.writer@ == x_f.writer@ + join(body(*self, x_i0 as nat, x_f.state, {XC}, {XN}, {XK})), same_but_state(x_f, *fmt), fmt.state == after(x_f.state, self.0@, x_i0 as nat) decreases self.0@.len() - x_i0")
    fi("Body", f"body(*self, self.0@.len(), {ST}, {ARGS})", keep="same_but_state", post=AFT + f"after({ST}, self.0@, self.0@.len())", body=body_)

    # the builder, and a formatter's buffer
    out.append(pub_fields(mod.item("struct", "FormatterBuilder")))
    BI = "impl<'a> FormatterBuilder<'a>"
    FIELDS = ("indent", "dense", "compact_arrays", "compact_objects", "prefer_ident_keys")

    def fb(name, inside, impl, contract, sig=None):
        f = mod.fn(name, inside)
        libchain.mut_self(f)
        f.sig = sig or re.sub(r"\bwhere\b.*$", "", f.sig, flags=re.S).strip().replace("<W>", "", 1).replace("writer: W", "writer: XOut").replace("Formatter<'a, W>", "Formatter<'a>")
        f.body = re.sub(r'\bb("(?:[^"\\]|\\.)*")(\s+as\s+&\[u8\])?', r"x_lit(\1)", f.body)
        f.spec(contract)
        f.vis = "" if " for " in impl else "pub "
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n")
    but = lambda *fs: " && ".join([f"r.config.{x} == self.config.{x}" for x in FIELDS if x not in fs] + [f"r.config.{x} == {'indent' if x == 'indent' else 'yes'}" for x in fs])
    for nm in FIELDS:
        fb(nm, BI, BI, "ensures " + but(nm))
    fb("compact", BI, BI, "ensures " + but("compact_arrays", "compact_objects"))
    FRESH = "r.state is Initial && !r.first_element && r.current_indent == 0 && !r.has_value && r.compact_mode_level == 0 && r.nesting_state@.len() == 0 && r.writer@ == writer@"
    PLAIN = "chars_of({0}.indent@) == \"  \"@ && !{0}.dense && !{0}.compact_arrays && !{0}.compact_objects && !{0}.prefer_ident_keys"
    fb("build", BI, BI, "ensures r.config == self.config && " + FRESH)
    fb("default", "impl Default for FormatConfig<'_>", "impl FormatConfig<'_>", "ensures " + PLAIN.format("r"))
    fb("builder", "impl<'a> Formatter<'a, ()>", FMT, "ensures " + PLAIN.format("r.config"))
    fb("new", "impl<'a, W> Formatter<'a, W>", FMT, "ensures " + PLAIN.format("r.config") + " && " + FRESH)
    for ty, parts, keep in (("Value", f"val(*self, {ARGS})", "same"), ("Expression", f"expr(*self, {ARGS})", "same"), ("Body", f"body(*self, self.0@.len(), {ST}, {ARGS})", "same_but_state")):
        f = mod.fn("format_vec", "pub trait Format: private::Sealed")
        f.sig = "fn format_vec(&self, fmt: &mut Formatter<'_>) -> Result<Vec<u8>, Error>"
        f.rewrite("fmt.writer.as_mut().split_off($x_s)", "fmt.writer.split_off($x_s)", "the buffer as a vector", must=False)
        f.spec(f"requires old(fmt).writer@.len() == 0 ensures r is Ok ==> chars_of(r->Ok_0@) == join({parts}) && final(fmt).writer@.len() == 0 && {keep}(*old(fmt), *final(fmt))")
        f.at("start", "reveal(wrote);")
        f.vis = "pub "
        fns.append(f)
        out.append(f"impl {ty} {{\n{f.render()}}}\n")
    out.extend(theorems())
    return out, fns
