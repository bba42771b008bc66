r"""C28: the conversions between the editable and the plain documents.

What is under contract: every `From` of crates/hcl-rs/src/{expr,template,structure}/edit.rs, and what
they call: the constructors, builders, `From`, `FromIterator`, `Extend` and `IntoIterator` of both
sides.  A document of either side is read as the same kind of tree (`g`), and each conversion is
proved to keep the tree."""
import re
import rx
import libchain
from rx import File, Lost, lex, match_close
from libeval import pub_fields
NAME = "edit_convert"
USES = "use vstd::seq::*;\nuse vstd::string::*;\nuse std::ops::Range;\n"
P, E, R = "crates/hcl-rs/src/", "crates/hcl-edit/src/", "crates/hcl-primitives/src/"
SPIN = "#[verifier::spinoff_prover] "

KINDS = """Arr Obj Pair KeyId KeyExpr Var Par Cond Unary Binary For Call FName Args Trav Ops AttrSplat FullSplat GetAttr Index Legacy
Quoted Heredoc Lit Interp IfD ForD Tmpl Attr Blk Labels LabId LabStr Body Opt""".split()

PRELUDE = libchain.PRELUDE + r"""
global size_of usize == 8;
// what the conversions only move
#[verifier::external_body] pub struct Ident { e: Box<u8> }
#[verifier::external_body] pub struct Number { e: Box<u8> }
#[verifier::external_body] pub struct Decor { e: Box<u8> }
#[verifier::external_body] pub struct RawString { e: Box<u8> }
pub uninterp spec fn id_text(i: Ident) -> Seq<char>;
// the text of an editable template, and the text a plain template string stands for
pub uninterp spec fn text_of(t: e::Template) -> Seq<char>;
pub uninterp spec fn norm(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn printed(t: e::Template) ensures norm(#[trigger] text_of(t)) == text_of(t) {}
#[verifier::external_body] pub broadcast proof fn empty_text(t: e::Template) requires t.elements@.len() == 0 ensures (#[trigger] text_of(t)) == Seq::<char>::empty() {}
#[verifier::external_body] pub struct XParse { e: Box<u8> }
#[verifier::external_body] pub fn x_parse(s: &str) -> (r: Result<e::Template, XParse>)
    ensures r is Ok ==> text_of(r->Ok_0) == norm(s@), r is Err ==> norm(s@) == Seq::<char>::empty() { unimplemented!() }
impl e::Template { #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) ensures r@ == text_of(*self) { unimplemented!() } }
impl Decorated<Ident> { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == id_text(self.value) { unimplemented!() } }
// the tree
pub enum Kind { @KINDS@ }
pub ghost enum G { Null, Bool(bool), Num(Number), Nat(nat), Str(Seq<char>), Id(Seq<char>), UOp(UnaryOperator), BOp(BinaryOperator), Strip(Strip), N(Kind, Seq<G>) }
pub open spec fn nd(k: Kind, s: Seq<G>) -> G { G::N(k, s) }
pub trait XTree: Sized { spec fn g(self) -> G; }
// From, Into, FromIterator, IntoIterator: what they give, as a tree
pub trait XFrom<T>: XTree { spec fn conv(v: T) -> G; spec fn exact(v: T, r: Self) -> bool; fn x_from(v: T) -> (r: Self) ensures r.g() == Self::conv(v), Self::exact(v, r); }
pub trait XInto<U: XTree>: Sized { spec fn conv_to(self) -> G; spec fn exact_to(self, r: U) -> bool; fn x_into(self) -> (r: U) ensures r.g() == self.conv_to(), self.exact_to(r); }
impl<T, U: XFrom<T>> XInto<U> for T {
    open spec fn conv_to(self) -> G { U::conv(self) }
    open spec fn exact_to(self, r: U) -> bool { U::exact(self, r) }
    fn x_into(self) -> (r: U) { U::x_from(self) }
}
impl<T: XTree> XFrom<T> for T { open spec fn conv(v: T) -> G { v.g() } open spec fn exact(v: T, r: T) -> bool { r == v } fn x_from(v: T) -> (r: T) { v } }
pub trait XIter: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn x_vec(self) -> (r: Vec<Self::Item>) ensures r@ == self.items(); }
impl<T> XIter for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } fn x_vec(self) -> (r: Vec<T>) { self } }
pub trait XFromIter<T>: XTree { spec fn coll(v: Seq<T>) -> G; fn x_from_iter<I: XIter<Item = T>>(v: I) -> (r: Self) ensures r.g() == Self::coll(v.items()); }
// Default
pub trait XDefault: Sized { spec fn is_d(r: Self) -> bool; fn x_default() -> (r: Self) ensures Self::is_d(r); }
impl<T> XDefault for Vec<T> { open spec fn is_d(r: Self) -> bool { r@.len() == 0 } fn x_default() -> (r: Self) { Vec::new() } }
impl<T> XDefault for Option<T> { open spec fn is_d(r: Self) -> bool { r is None } fn x_default() -> (r: Self) { None } }
impl XDefault for bool { open spec fn is_d(r: Self) -> bool { !r } fn x_default() -> (r: Self) { false } }
impl XDefault for Decor { open spec fn is_d(r: Self) -> bool { true } #[verifier::external_body] fn x_default() -> (r: Self) { unimplemented!() } }
impl XDefault for RawString { open spec fn is_d(r: Self) -> bool { true } #[verifier::external_body] fn x_default() -> (r: Self) { unimplemented!() } }
impl<K: XTree, V: XTree> XDefault for XMap<K, V> { open spec fn is_d(r: Self) -> bool { r.entries@.len() == 0 } fn x_default() -> (r: Self) { XMap { entries: Vec::new() } } }
// lists
pub open spec fn gs<U: XTree>(s: Seq<U>) -> Seq<G> { Seq::new(s.len(), |i: int| s[i].g()) }
pub open spec fn gconv<U: XTree, T: XInto<U>>(s: Seq<T>) -> Seq<G> { Seq::new(s.len(), |i: int| XInto::<U>::conv_to(s[i])) }
pub open spec fn gpairs<K: XTree, V: XTree>(s: Seq<(K, V)>) -> Seq<G> { Seq::new(s.len(), |i: int| nd(Kind::Pair, seq![s[i].0.g(), s[i].1.g()])) }
pub open spec fn gconv2<A: XTree, B: XTree, K: XInto<A>, V: XInto<B>>(s: Seq<(K, V)>) -> Seq<G> { Seq::new(s.len(), |i: int| nd(Kind::Pair, seq![XInto::<A>::conv_to(s[i].0), XInto::<B>::conv_to(s[i].1)])) }
pub trait XMapV<T>: Sized { fn x_map_into<U: XTree>(self) -> (r: Vec<U>) where T: XInto<U>; spec fn x_all(self) -> Seq<T>; }
pub trait XVec<T>: Sized {
    spec fn vw(self) -> Seq<T>;
    fn x_map_into<U: XTree>(self) -> (r: Vec<U>) where T: XInto<U> ensures gs(r@) == gconv::<U, T>(self.vw());
    fn x_size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= isize::MAX;
    fn x_collect<C: XColl<T>>(self) -> (r: C) ensures C::made_of(self.vw(), r);
    fn x_extend(&mut self, v: Vec<T>) ensures final(self).vw() == old(self).vw() + v@;
    fn x_reserve(&mut self, n: usize) ensures final(self).vw() == old(self).vw();
}
impl<T> XVec<T> for Vec<T> {
    open spec fn vw(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_map_into<U: XTree>(self) -> (r: Vec<U>) where T: XInto<U> { unimplemented!() }
    #[verifier::external_body] fn x_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    fn x_collect<C: XColl<T>>(self) -> (r: C) { C::x_coll(self) }
    #[verifier::external_body] fn x_extend(&mut self, v: Vec<T>) { self.extend(v) }
    #[verifier::external_body] fn x_reserve(&mut self, n: usize) { self.reserve(n) }
}
pub trait XOpt<T>: Sized { spec fn ow(self) -> Option<T>; fn x_map_into<U: XTree>(self) -> (r: Option<U>) where T: XInto<U> ensures r is Some == self.ow() is Some, r is Some ==> r->Some_0.g() == XInto::<U>::conv_to(self.ow()->Some_0); }
impl<T> XOpt<T> for Option<T> {
    open spec fn ow(self) -> Option<T> { self }
    fn x_map_into<U: XTree>(self) -> (r: Option<U>) where T: XInto<U> { match self { Some(x) => Some(x.x_into()), None => None } }
}
// collect()
pub trait XColl<T>: Sized { spec fn made_of(v: Seq<T>, r: Self) -> bool; fn x_coll(v: Vec<T>) -> (r: Self) ensures Self::made_of(v@, r); }
impl<T> XColl<T> for Vec<T> { open spec fn made_of(v: Seq<T>, r: Self) -> bool { r@ == v } fn x_coll(v: Vec<T>) -> (r: Self) { v } }
// vecmap::VecMap: a list of entries; putting a key that is there replaces the value in place
pub struct XMap<K, V> { pub entries: Vec<(K, V)> }
pub open spec fn find(s: Seq<G>, k: G) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] is N && s[0]->N_1.len() > 0 && s[0]->N_1[0] == k { 0 } else { 1 + find(s.drop_first(), k) } }
pub open spec fn put(s: Seq<G>, p: G) -> Seq<G> { let i = find(s, p->N_1[0]); if i < s.len() { s.update(i, p) } else { s.push(p) } }
pub open spec fn collect(s: Seq<G>) -> Seq<G> decreases s.len() { if s.len() == 0 { Seq::empty() } else { put(collect(s.drop_last()), s.last()) } }
pub open spec fn gmap<K: XTree, V: XTree>(m: XMap<K, V>) -> Seq<G> { collect(gpairs(m.entries@)) }
pub open spec fn putall(m: Seq<G>, t: Seq<G>) -> Seq<G> decreases t.len() { if t.len() == 0 { m } else { putall(put(m, t[0]), t.drop_first()) } }
pub proof fn putall_cat(s: Seq<G>, t: Seq<G>) ensures putall(collect(s), t) == collect(s + t) decreases t.len() {
    if t.len() > 0 {
        putall_cat(s.push(t[0]), t.drop_first());
        assert(s.push(t[0]).drop_last() =~= s);
        assert(s.push(t[0]) + t.drop_first() =~= s + t);
    } else { assert(s + t =~= s); }
}
impl<K: XTree, V: XTree> XMap<K, V> {
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.entries@.len() == 0 { XMap { entries: Vec::new() } }
    #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn x_reserve(&mut self, n: usize) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures gmap(*final(self)) == put(gmap(*old(self)), nd(Kind::Pair, seq![k.g(), v.g()])) { unimplemented!() }
}
impl<K: XTree, V: XTree> XColl<(K, V)> for XMap<K, V> { open spec fn made_of(v: Seq<(K, V)>, r: Self) -> bool { gmap(r) == collect(gpairs(v)) } #[verifier::external_body] fn x_coll(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() } }
impl<K, V> XIter for XMap<K, V> { type Item = (K, V); open spec fn items(self) -> Seq<(K, V)> { self.entries@ } fn x_vec(self) -> (r: Vec<(K, V)>) { self.entries } }
// leaves
impl XTree for bool { open spec fn g(self) -> G { G::Bool(self) } }
impl XTree for u64 { open spec fn g(self) -> G { G::Nat(self as nat) } }
impl XTree for String { open spec fn g(self) -> G { G::Str(self@) } }
impl XTree for Ident { open spec fn g(self) -> G { G::Id(id_text(self)) } }
impl XTree for Number { open spec fn g(self) -> G { G::Num(self) } }
impl XTree for UnaryOperator { open spec fn g(self) -> G { G::UOp(self) } }
impl XTree for BinaryOperator { open spec fn g(self) -> G { G::BOp(self) } }
impl<T: XTree> XTree for Decorated<T> { open spec fn g(self) -> G { self.value.g() } }
impl<T: XTree> XTree for Formatted<T> { open spec fn g(self) -> G { self.value.g() } }
impl<T: XTree> XTree for Spanned<T> { open spec fn g(self) -> G { self.value.g() } }
use e as expr;
use e as template;
use e as structure;
""".replace("@KINDS@", ", ".join(KINDS)).replace("pub trait XMapV<T>: Sized { fn x_map_into<U: XTree>(self) -> (r: Vec<U>) where T: XInto<U>; spec fn x_all(self) -> Seq<T>; }\n", "")

# lists inside the tree: (function, element type, element function)
def lists(rows):
    out = []
    for fn, ty, el in rows:
        out.append(f"pub open spec fn {fn}(v: Vec<{ty}>) -> Seq<G> decreases v {{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() {{ {el}(v@[i]) }} else {{ G::Null }}) }}\n")
    return "".join(out)


ONAMES = "pub open spec fn oid(o: Option<{I}>) -> G {{ nd(Kind::Opt, match o {{ Some(i) => seq![i.g()], None => Seq::empty() }}) }}\n"
SPEC_P = r"""
pub open spec fn oex(o: Option<Expression>) -> G decreases o { nd(Kind::Opt, match o { Some(x) => seq![gex(x)], None => Seq::empty() }) }
pub open spec fn gents(v: Vec<(ObjectKey, Expression)>) -> Seq<G> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { nd(Kind::Pair, seq![gkey(v@[i].0), gex(v@[i].1)]) } else { G::Null }) }
pub open spec fn gex(e: Expression) -> G decreases e { match e {
    Expression::Null => G::Null, Expression::Bool(b) => G::Bool(b), Expression::Number(n) => G::Num(n), Expression::String(s) => G::Str(s@),
    Expression::Array(v) => nd(Kind::Arr, gexs(v)), Expression::Object(m) => nd(Kind::Obj, collect(gents(m.entries))),
    Expression::TemplateExpr(t) => gte(*t), Expression::Variable(v) => nd(Kind::Var, seq![v.g()]), Expression::Traversal(t) => gtrav(*t), Expression::FuncCall(c) => gcall(*c),
    Expression::Parenthesis(b) => nd(Kind::Par, seq![gex(*b)]), Expression::Conditional(c) => gcond(*c), Expression::Operation(o) => gop(*o), Expression::ForExpr(f) => gfor(*f),
} }
pub open spec fn gkey(k: ObjectKey) -> G decreases k { match k { ObjectKey::Identifier(i) => nd(Kind::KeyId, seq![i.g()]), ObjectKey::Expression(e) => nd(Kind::KeyExpr, seq![gex(e)]) } }
pub open spec fn gte(t: TemplateExpr) -> G { match t { TemplateExpr::QuotedString(s) => nd(Kind::Quoted, seq![G::Str(norm(s@))]), TemplateExpr::Heredoc(h) => ghd(h) } }
pub open spec fn ghd(h: Heredoc) -> G { nd(Kind::Heredoc, seq![h.delimiter.g(), G::Str(norm(h.template@)), G::Bool(h.strip is Indent)]) }
pub open spec fn gcond(c: Conditional) -> G decreases c { nd(Kind::Cond, seq![gex(c.cond_expr), gex(c.true_expr), gex(c.false_expr)]) }
pub open spec fn gop(o: Operation) -> G decreases o { match o { Operation::Unary(u) => gun(u), Operation::Binary(b) => gbin(b) } }
pub open spec fn gun(u: UnaryOp) -> G decreases u { nd(Kind::Unary, seq![G::UOp(u.operator), gex(u.expr)]) }
pub open spec fn gbin(b: BinaryOp) -> G decreases b { nd(Kind::Binary, seq![gex(b.lhs_expr), G::BOp(b.operator), gex(b.rhs_expr)]) }
pub open spec fn gfor(f: ForExpr) -> G decreases f { nd(Kind::For, seq![oid(f.key_var), f.value_var.g(), gex(f.collection_expr), oex(f.key_expr), gex(f.value_expr), G::Bool(f.grouping), oex(f.cond_expr)]) }
pub open spec fn gname(n: FuncName) -> G { nd(Kind::FName, gs(n.namespace@).push(n.name.g())) }
pub open spec fn gcall(c: FuncCall) -> G decreases c { nd(Kind::Call, seq![gname(c.name), nd(Kind::Args, gexs(c.args)), G::Bool(c.expand_final)]) }
pub open spec fn gtrav(t: Traversal) -> G decreases t { nd(Kind::Trav, seq![gex(t.expr), nd(Kind::Ops, gtops(t.operators))]) }
pub open spec fn gtop(o: TraversalOperator) -> G decreases o { match o {
    TraversalOperator::AttrSplat => nd(Kind::AttrSplat, Seq::empty()), TraversalOperator::FullSplat => nd(Kind::FullSplat, Seq::empty()),
    TraversalOperator::GetAttr(i) => nd(Kind::GetAttr, seq![i.g()]), TraversalOperator::Index(e) => nd(Kind::Index, seq![gex(e)]), TraversalOperator::LegacyIndex(n) => nd(Kind::Legacy, seq![G::Nat(n as nat)]),
} }
pub open spec fn gtm(t: Template) -> G decreases t { nd(Kind::Tmpl, gels(t.elements)) }
pub open spec fn gel(e: Element) -> G decreases e { match e { Element::Literal(s) => nd(Kind::Lit, seq![G::Str(s@)]), Element::Interpolation(i) => gint(i), Element::Directive(d) => gdir(*d) } }
pub open spec fn gint(i: Interpolation) -> G decreases i { nd(Kind::Interp, seq![gex(i.expr), G::Strip(i.strip)]) }
pub open spec fn gdir(d: Directive) -> G decreases d { match d { Directive::If(i) => gifd(i), Directive::For(f) => gford(f) } }
pub open spec fn gifd(d: IfDirective) -> G decreases d { nd(Kind::IfD, seq![gex(d.cond_expr), gtm(d.true_template), otm(d.false_template, d.else_strip), G::Strip(d.if_strip), G::Strip(d.endif_strip)]) }
pub open spec fn otm(o: Option<Template>, strip: Strip) -> G decreases o { nd(Kind::Opt, match o { Some(t) => seq![gtm(t), G::Strip(strip)], None => Seq::empty() }) }
pub open spec fn gford(d: ForDirective) -> G decreases d { nd(Kind::ForD, seq![oid(d.key_var), d.value_var.g(), gex(d.collection_expr), gtm(d.template), G::Strip(d.for_strip), G::Strip(d.endfor_strip)]) }
pub open spec fn gattr(a: Attribute) -> G { nd(Kind::Attr, seq![a.key.g(), gex(a.expr)]) }
pub open spec fn glab(l: BlockLabel) -> G { match l { BlockLabel::Identifier(i) => nd(Kind::LabId, seq![i.g()]), BlockLabel::String(s) => nd(Kind::LabStr, seq![G::Str(s@)]) } }
pub open spec fn gblk(b: Block) -> G decreases b { nd(Kind::Blk, seq![b.identifier.g(), nd(Kind::Labels, gs(b.labels@)), gbody(b.body)]) }
pub open spec fn gst(s: Structure) -> G decreases s { match s { Structure::Attribute(a) => gattr(a), Structure::Block(b) => gblk(b) } }
pub open spec fn gbody(b: Body) -> G decreases b { nd(Kind::Body, gsts(b.0)) }
// a plain body as an editable one: of several attributes with one name the first is kept (a body with such attributes is not valid HCL)
pub open spec fn hblk(b: Block) -> G decreases b { nd(Kind::Blk, seq![b.identifier.g(), nd(Kind::Labels, gs(b.labels@)), hbody(b.body)]) }
pub open spec fn hst(s: Structure) -> G decreases s { match s { Structure::Attribute(a) => gattr(a), Structure::Block(b) => hblk(b) } }
pub open spec fn hbody(b: Body) -> G decreases b { nd(Kind::Body, ext(Seq::empty(), hsts(b.0))) }
pub open spec fn dup(ss: Seq<G>, s: G) -> bool { s->N_0 == Kind::Attr && exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i])->N_0 == Kind::Attr && ss[i]->N_1[0] == s->N_1[0] }
pub open spec fn pushed(ss: Seq<G>, s: G) -> Seq<G> { if dup(ss, s) { ss } else { ss.push(s) } }
pub open spec fn ext(ss: Seq<G>, t: Seq<G>) -> Seq<G> decreases t.len() { if t.len() == 0 { ss } else { ext(pushed(ss, t[0]), t.drop_first()) } }
// attribute names are unique, in the body and in the bodies of its blocks
pub open spec fn uniq(b: Body) -> bool decreases b { nodup(gsts(b.0)) && forall|i: int| 0 <= i < b.0@.len() && (#[trigger] b.0@[i]) is Block ==> uniqb(b.0@[i]) }
pub open spec fn uniqb(s: Structure) -> bool decreases s { match s { Structure::Block(b) => uniq(b.body), _ => true } }
pub open spec fn nodup(ss: Seq<G>) -> bool { forall|i: int, j: int| 0 <= i < j < ss.len() && (#[trigger] ss[i])->N_0 == Kind::Attr && (#[trigger] ss[j])->N_0 == Kind::Attr ==> ss[i]->N_1[0] != ss[j]->N_1[0] }
pub proof fn ext_all(ss: Seq<G>, t: Seq<G>) requires nodup(ss + t) ensures ext(ss, t) == ss + t decreases t.len() {
    if t.len() > 0 {
        let x = t[0];
        assert((ss + t)[ss.len() as int] == x);
        assert(!dup(ss, x)) by { if dup(ss, x) { let i = choose|i: int| 0 <= i < ss.len() && (#[trigger] ss[i])->N_0 == Kind::Attr && ss[i]->N_1[0] == x->N_1[0]; assert((ss + t)[i] == ss[i]); } }
        assert(ss.push(x) + t.drop_first() =~= ss + t);
        ext_all(ss.push(x), t.drop_first());
    } else { assert(ss + t =~= ss); }
}
pub proof fn kept(b: Body) requires uniq(b) ensures hbody(b) == gbody(b) decreases b {
    assert(hsts(b.0) =~= gsts(b.0)) by { assert forall|i: int| 0 <= i < b.0@.len() implies hst(b.0@[i]) == gst(b.0@[i]) by { kept_st(b.0@[i]); } }
    assert(Seq::empty() + gsts(b.0) =~= gsts(b.0));
    ext_all(Seq::empty(), gsts(b.0));
}
pub proof fn kept_st(s: Structure) requires uniqb(s) ensures hst(s) == gst(s) decreases s { if let Structure::Block(b) = s { kept(b.body); } }
"""
SPEC_E = r"""
pub open spec fn oex(o: Option<Expression>) -> G decreases o { nd(Kind::Opt, match o { Some(x) => seq![gex(x)], None => Seq::empty() }) }
pub open spec fn ocond(o: Option<ForCond>) -> G decreases o { nd(Kind::Opt, match o { Some(x) => seq![gex(x.expr)], None => Seq::empty() }) }
pub open spec fn gents(v: Vec<(ObjectKey, ObjectValue)>) -> Seq<G> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { nd(Kind::Pair, seq![gkey(v@[i].0), gex(v@[i].1.expr)]) } else { G::Null }) }
pub open spec fn gex(e: Expression) -> G decreases e { match e {
    Expression::Null(_) => G::Null, Expression::Bool(b) => G::Bool(b.value), Expression::Number(n) => G::Num(n.value), Expression::String(s) => G::Str(s.value@),
    Expression::Array(v) => nd(Kind::Arr, gexs(v.values)), Expression::Object(m) => nd(Kind::Obj, collect(gents(m.items.entries))),
    Expression::StringTemplate(t) => gqt(t), Expression::HeredocTemplate(h) => ghd(*h), Expression::Variable(v) => nd(Kind::Var, seq![v.g()]), Expression::Traversal(t) => gtrav(*t), Expression::FuncCall(c) => gcall(*c),
    Expression::Parenthesis(b) => gpar(*b), Expression::Conditional(c) => gcond(*c), Expression::UnaryOp(u) => gun(*u), Expression::BinaryOp(b) => gbin(*b), Expression::ForExpr(f) => gfor(*f),
} }
pub open spec fn gpar(p: Parenthesis) -> G decreases p { nd(Kind::Par, seq![gex(p.inner)]) }
pub open spec fn gkey(k: ObjectKey) -> G decreases k { match k { ObjectKey::Ident(i) => nd(Kind::KeyId, seq![i.g()]), ObjectKey::Expression(e) => nd(Kind::KeyExpr, seq![gex(e)]) } }
pub open spec fn gqt(t: StringTemplate) -> G { nd(Kind::Quoted, seq![G::Str(text_of(t.template))]) }
pub open spec fn ghd(h: HeredocTemplate) -> G { nd(Kind::Heredoc, seq![h.delimiter.g(), G::Str(text_of(h.template)), G::Bool(h.indent is Some)]) }
pub open spec fn gcond(c: Conditional) -> G decreases c { nd(Kind::Cond, seq![gex(c.cond_expr), gex(c.true_expr), gex(c.false_expr)]) }
pub open spec fn gun(u: UnaryOp) -> G decreases u { nd(Kind::Unary, seq![G::UOp(u.operator.value), gex(u.expr)]) }
pub open spec fn gbin(b: BinaryOp) -> G decreases b { nd(Kind::Binary, seq![gex(b.lhs_expr), G::BOp(b.operator.value), gex(b.rhs_expr)]) }
pub open spec fn gfor(f: ForExpr) -> G decreases f { nd(Kind::For, seq![oid(f.intro.key_var), f.intro.value_var.g(), gex(f.intro.collection_expr), oex(f.key_expr), gex(f.value_expr), G::Bool(f.grouping), ocond(f.cond)]) }
pub open spec fn gname(n: FuncName) -> G { nd(Kind::FName, gs(n.namespace@).push(n.name.g())) }
pub open spec fn gcall(c: FuncCall) -> G decreases c { nd(Kind::Call, seq![gname(c.name), nd(Kind::Args, gexs(c.args.args)), G::Bool(c.args.expand_final)]) }
pub open spec fn gtrav(t: Traversal) -> G decreases t { nd(Kind::Trav, seq![gex(t.expr), nd(Kind::Ops, gtops(t.operators))]) }
pub open spec fn gtopd(o: Decorated<TraversalOperator>) -> G decreases o { gtop(o.value) }
pub open spec fn gtop(o: TraversalOperator) -> G decreases o { match o {
    TraversalOperator::AttrSplat(_) => nd(Kind::AttrSplat, Seq::empty()), TraversalOperator::FullSplat(_) => nd(Kind::FullSplat, Seq::empty()),
    TraversalOperator::GetAttr(i) => nd(Kind::GetAttr, seq![i.g()]), TraversalOperator::Index(e) => nd(Kind::Index, seq![gex(e)]), TraversalOperator::LegacyIndex(n) => nd(Kind::Legacy, seq![G::Nat(n.value as nat)]),
} }
pub open spec fn gtm(t: Template) -> G decreases t { nd(Kind::Tmpl, gels(t.elements)) }
pub open spec fn gel(e: Element) -> G decreases e { match e { Element::Literal(s) => nd(Kind::Lit, seq![G::Str(s.value@)]), Element::Interpolation(i) => gint(i), Element::Directive(d) => gdir(*d) } }
pub open spec fn gint(i: Interpolation) -> G decreases i { nd(Kind::Interp, seq![gex(i.expr), G::Strip(i.strip)]) }
pub open spec fn gdir(d: Directive) -> G decreases d { match d { Directive::If(i) => gifd(i), Directive::For(f) => gford(f) } }
pub open spec fn gifd(d: IfDirective) -> G decreases d { nd(Kind::IfD, seq![gex(d.if_expr.cond_expr), gtm(d.if_expr.template), oelse(d.else_expr), G::Strip(d.if_expr.strip), G::Strip(d.endif_expr.strip)]) }
pub open spec fn oelse(o: Option<ElseTemplateExpr>) -> G decreases o { nd(Kind::Opt, match o { Some(t) => seq![gtm(t.template), G::Strip(t.strip)], None => Seq::empty() }) }
pub open spec fn gford(d: ForDirective) -> G decreases d { nd(Kind::ForD, seq![oid(d.for_expr.key_var), d.for_expr.value_var.g(), gex(d.for_expr.collection_expr), gtm(d.for_expr.template), G::Strip(d.for_expr.strip), G::Strip(d.endfor_expr.strip)]) }
pub open spec fn gattr(a: Attribute) -> G { nd(Kind::Attr, seq![a.key.g(), gex(a.value)]) }
pub open spec fn glab(l: BlockLabel) -> G { match l { BlockLabel::Ident(i) => nd(Kind::LabId, seq![i.g()]), BlockLabel::String(s) => nd(Kind::LabStr, seq![G::Str(s.value@)]) } }
pub open spec fn gblk(b: Block) -> G decreases b { nd(Kind::Blk, seq![b.ident.g(), nd(Kind::Labels, gs(b.labels@)), gbody(b.body)]) }
pub open spec fn gst(s: Structure) -> G decreases s { match s { Structure::Attribute(a) => gattr(a), Structure::Block(b) => gblk(b) } }
pub open spec fn gbody(b: Body) -> G decreases b { nd(Kind::Body, gsts(b.structures)) }
"""
LISTS_P = [("gexs", "Expression", "gex"), ("gtops", "TraversalOperator", "gtop"), ("gels", "Element", "gel"), ("gsts", "Structure", "gst"), ("hsts", "Structure", "hst")]
LISTS_E = [("gexs", "Expression", "gex"), ("gtops", "Decorated<TraversalOperator>", "gtopd"), ("gels", "Element", "gel"), ("gsts", "Structure", "gst")]
TREES_P = dict(Expression="gex", ObjectKey="gkey", TemplateExpr="gte", Heredoc="ghd", Conditional="gcond", Operation="gop", UnaryOp="gun", BinaryOp="gbin", ForExpr="gfor", FuncName="gname", FuncCall="gcall",
               Traversal="gtrav", TraversalOperator="gtop", Template="gtm", Element="gel", Interpolation="gint", Directive="gdir", IfDirective="gifd", ForDirective="gford",
               Attribute="gattr", BlockLabel="glab", Block="gblk", Structure="gst", Body="gbody")
TREES_E = dict(TREES_P, StringTemplate="gqt", HeredocTemplate="ghd", Parenthesis="gpar")
for k in ("TemplateExpr", "Heredoc", "Operation"):
    del TREES_E[k]
MORE_TREES_E = r"""
impl XTree for Null { open spec fn g(self) -> G { G::Null } }
impl XTree for Splat { open spec fn g(self) -> G { G::Null } }
impl XTree for Array { open spec fn g(self) -> G { nd(Kind::Arr, gexs(self.values)) } }
impl XTree for Object { open spec fn g(self) -> G { nd(Kind::Obj, collect(gents(self.items.entries))) } }
impl XTree for ObjectValue { open spec fn g(self) -> G { gex(self.expr) } }
impl XTree for FuncArgs { open spec fn g(self) -> G { nd(Kind::Args, gexs(self.args)) } }
"""
MORE_TREES_P = r"""
impl XTree for Identifier { open spec fn g(self) -> G { self.0.g() } }
impl XTree for Variable { open spec fn g(self) -> G { self.0.g() } }
"""


def default_impl(text, raw):
    """the Default a struct or enum derives, field by field"""
    m = re.search(r"\b(struct|enum)\s+(\w+)\s*(\{|\()", text)
    name = m.group(2)
    if m.group(1) == "enum":
        d = re.search(r"#\[default\]\s*(\w+)", raw)
        if not d:
            raise Lost(f"{name}: no default variant")
        v = d.group(1)
        return f"impl XDefault for {name} {{ open spec fn is_d(r: Self) -> bool {{ r is {v} }} fn x_default() -> (r: Self) {{ {name}::{v} }} }}\n"
    body = text[m.end():text.rindex("}" if m.group(3) == "{" else ")")]
    if m.group(3) == "(":
        return f"impl XDefault for {name} {{ open spec fn is_d(r: Self) -> bool {{ XDefault::is_d(r.0) }} fn x_default() -> (r: Self) {{ {name}(XDefault::x_default()) }} }}\n"
    fields, d, start, toks = [], 0, True, lex(body)
    for i, t in enumerate(toks):
        if start and t.k == "id" and t.s != "pub":
            fields.append(t.s)
            start = False
        if t.k == "p" and t.s in "<([":
            d += 1
        elif t.k == "p" and t.s in ">)]":
            d -= 1
        elif t.s == "," and d == 0:
            start = True
    return (f"impl XDefault for {name} {{ open spec fn is_d(r: Self) -> bool {{ {' && '.join(f'XDefault::is_d(r.{x})' for x in fields)} }} "
            f"fn x_default() -> (r: Self) {{ {name} {{ {', '.join(f'{x}: XDefault::x_default()' for x in fields)} }} }} }}\n")


def over(f):
    """for loops and for_each/map over a list, as `while let` loops"""
    k = 0
    while True:
        toks = lex(f.body)
        hit = None
        for i, t in enumerate(toks):
            if t.s == "for" and t.k == "id" and toks[i + 1].s != "<":
                j = i
                while toks[j].s != "in":
                    j += 1
                b = j
                while toks[b].s != "{":
                    if toks[b].k == "p" and toks[b].s in ("(", "["):
                        b = match_close(toks, b)
                    b += 1
                c = match_close(toks, b)
                pat, src, blk = f.body[toks[i].b:toks[j].a].strip(), f.body[toks[j].b:toks[b].a].strip(), f.body[toks[b].b:toks[c].a]
                hit = (t.a, toks[c].b, f"{{ let mut x_it{k} = x_into_iter(XIter::x_vec({src})); while let Some({pat}) = x_it{k}.next() {{ {blk} }} }}")
                break
            if t.s == "." and toks[i + 1].s in ("for_each", "map") and toks[i + 2].s == "(":
                s = libchain.receiver(toks, i)
                r = f.body[toks[s].a:toks[i - 1].b]
                if toks[i + 1].s == "map" and not r.endswith(".x_vec()"):
                    continue
                args, e = libchain.split_args(f.body, toks, i + 2)
                pat, x = libchain.app(args[0], "x_o")
                if toks[i + 1].s == "for_each":
                    hit = (toks[s].a, toks[e].b, f"{{ let mut x_it{k} = x_into_iter({r}); while let Some({pat}) = x_it{k}.next() {{ {x}; }} }}")
                else:
                    hit = (toks[s].a, toks[e].b, f"({{ let mut x_it{k} = x_into_iter({r}); let mut x_out{k} = Vec::new(); while let Some({pat}) = x_it{k}.next() {{ x_out{k}.push({x}); }} x_out{k} }})")
                break
        if not hit:
            return f
        f.body = f.body[:hit[0]] + hit[2] + f.body[hit[1]:]
        f.rewrites.append(f"{f.name}: a pass over a list as a while loop")
        k += 1


def step(f, more=""):
    """the elements that are left, and what a step takes of them"""
    f.before_loop(0, "let ghost mut x_l = x_it0.left();")
    p = re.search(r"while let Some\((.*?)\) = x_it0\.next\(\)", f.body).group(1).strip()
    m = re.match(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)$", p)
    has = f"{m.group(1)} == x_l[0].0 && {m.group(2)} == x_l[0].1" if m else f"{p} == x_l[0]"
    return f"proof {{ assert(x_l.drop_first() == x_it0.left()); assert({has}); {more} x_l = x_it0.left(); }}"


def common(f):
    libchain.mut_self(f)
    f.sig = re.sub(r"\bInto\s*<", "XInto<", f.sig)
    f.sig = re.sub(r"\bIntoIterator\b", "XIter", f.sig)
    b = f.body
    b = re.sub(r"\bBox::new\(\s*(self(?:\.\w+)+\.into_iter\(\))\s*\)", r"\1", b)
    b = re.sub(r"\.\s*map\(\s*Into::into\s*\)", ".x_map_into()", b)
    b = re.sub(r"\bInto::into\b", "XInto::x_into", b)
    b = re.sub(r"\.\s*into_iter\(\)", ".x_vec()", b)
    b = re.sub(r"\.\s*size_hint\(\)", ".x_size_hint()", b)
    b = re.sub(r"\.\s*extend\(", ".x_extend(", b)
    b = re.sub(r"\.\s*reserve\(", ".x_reserve(", b)
    b = re.sub(r"\.\s*collect\(\)", ".x_collect()", b)
    b = re.sub(r"\.\s*to_string\(\)", ".x_to_string()", b)
    b = re.sub(r"\.\s*into\(\)", ".x_into()", b)
    b = re.sub(r"\bFrom::from\b", "XFrom::x_from", b)
    b = re.sub(r"\bVecMap::", "XMap::", b)
    b = re.sub(r"::from_iter\(", "::x_from_iter(", b)
    b = re.sub(r"::from\b", "::x_from", b)
    b = re.sub(r"\bDefault::default\(\)", "XDefault::x_default()", b)
    b = re.sub(r"::default\(\)", "::x_default()", b)
    b = re.sub(r"\.\s*unwrap_or_default\(\)", ".unwrap_or(XDefault::x_default())", b)
    b = re.sub(r"(^|[;{}]\s*)_ = ", r"\1let _ = ", b)
    b = b.replace("has_attribute(&attr.key)", "has_attribute(attr.key.as_str())")
    if b != f.body:
        f.rewrites.append(f"{f.name}: into/from/collect/default/extend/iterators as the traits of the recipe")
    f.body = b
    over(f)
    libchain.options(f, result=())
    return f


def build(repo):
    files = {}

    def F(path):
        if path not in files:
            files[path] = File(f"{repo}/{path}")
        return files[path]

    fns = []
    root, edit = [PRELUDE], []
    cur = [root]

    def put(text):
        cur[0].append(text)

    def item(path, kind, name, default=False, derive="", ren=()):
        t = F(path).item(kind, name)
        t = re.sub(r"\bVecMap\s*<", "XMap<", t)
        t = re.sub(r"\bObject\s*<\s*ObjectKey", "XMap<ObjectKey", t)
        for a, b in ren:
            t = t.replace(a, b)
        if kind == "struct" and "{" in t:
            t = pub_fields(t)
        elif kind == "struct":
            t = "pub " + re.sub(r"\(\s*(?:pub(?:\([^)]*\))?\s+)?", "(pub ", t, count=1) if "(" in t else "pub " + t
        else:
            t = "pub " + t
        t = re.sub(r"^pub pub\b", "pub", t)
        put((derive + " " if derive else "") + t + "\n")
        if default:
            m = re.search(r"\benum\s+" + name + r"\b[^{]*\{", F(path).raw if hasattr(F(path), "raw") else open(f"{repo}/{path}").read())
            raw = open(f"{repo}/{path}").read()
            m = re.search(r"\benum\s+" + name + r"\b[^{]*\{(.*?)\n\}", raw, re.S)
            put(default_impl(t, m.group(1) if m else ""))

    def emit(f, impl, contract, vis="pub ", prep=None, sig=None):
        if sig:
            f.sig = sig
        common(f)
        if prep:
            prep(f)
        f.spec(contract)
        f.vis, f.attrs = vis, SPIN
        f.at("start", "broadcast use tree;")
        fns.append(f)
        put(f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    n = [0]

    def frm(path, header, conv="V.g()", exact="true", gen=None, prep=None, start=""):
        """impl From<S> for T: the function under contract, and the trait instance that calls it"""
        m = re.match(r"impl(<.*?>)? From<(.*)> for (.*)$", header)
        g, s, t = m.group(1) or "", m.group(2), m.group(3)
        f = F(path).fn("from", header)
        v = re.match(r"fn\s+from\s*\(\s*(?:mut\s+)?(\w+)\s*:", f.sig)
        if not v:
            raise Lost(f"{header}: unexpected signature")
        v = v.group(1)
        nm = re.sub(r"\W+", "_", f"from_{s}_for_{t}").strip("_")
        n[0] += 1
        g = gen or g
        f.name = nm
        conv, exact = re.sub(r"\bV\b", v, conv), re.sub(r"\bV\b", v, exact)
        f.body = re.sub(r"\bSelf\b", t, f.body)
        if start:
            prep = lambda f: f.at("start", f"proof {{ {start}({v}); }}")
        emit(f, None, f"ensures r.g() == {conv}, {exact}", prep=prep, sig=f"fn {nm}{g}({v}: {s}) -> {t}")
        put(f"impl{g} XFrom<{s}> for {t} {{ open spec fn conv({v}: {s}) -> G {{ {conv} }} open spec fn exact({v}: {s}, r: Self) -> bool {{ {exact} }} #[verifier::external_body] fn x_from({v}: {s}) -> (r: Self) {{ {nm}({v}) }} }}\n")

    def inh(path, name, inside, impl, contract, sig=None, prep=None):
        f = F(path).fn(name, inside)
        par = re.search(r"[(,]\s*(?:mut\s+)?(?!self\b)(\w+)\s*:", f.sig)   # the (last) parameter's name
        par = par.group(1) if par else "PARAM"
        f.param = par
        emit(f, impl, contract.replace("PARAM", par), prep=prep, sig=sig and sig.replace("PARAM", par))

    def it(path, header, ty, elem, items):
        """IntoIterator: the list of what it yields"""
        f = F(path).fn("into_iter", header)
        f.name = f"into_iter_{ty}"
        f.body = re.sub(r"\bself\b", "x_s", f.body)
        f.body = re.sub(r"\bBox::new\(\s*(x_s(?:\.\w+)+\.into_iter\(\))\s*\)", r"\1", f.body)
        emit(f, None, f"ensures r@ == {items.replace('SELF', 'x_s')}", sig=f"fn into_iter_{ty}(x_s: {ty}) -> Vec<{elem}>")
        put(f"impl XIter for {ty} {{ type Item = {elem}; open spec fn items(self) -> Seq<{elem}> {{ {items.replace('SELF', 'self')} }} #[verifier::external_body] fn x_vec(self) -> (r: Vec<{elem}>) {{ into_iter_{ty}(self) }} }}\n")

    def fromiter(path, header, ty, bounds, elem, coll, prep=None):
        f = F(path).fn("from_iter", header)
        v = re.search(r"\(\s*(?:mut\s+)?(\w+)\s*:", f.sig).group(1)
        f.param = v
        f.name = re.sub(r"\W+", "_", f"from_iter_{elem}_for_{ty}")
        f.body = re.sub(r"\bSelf\b", ty, f.body)
        emit(f, None, f"ensures r.g() == {coll.replace('ITEMS', v + '.items()')}", prep=prep, sig=f"fn {f.name}<{bounds}, x_I: XIter<Item = {elem}>>({v}: x_I) -> {ty}".replace("x_I", "XI"))
        put(f"impl<{bounds}> XFromIter<{elem}> for {ty} {{ open spec fn coll(v: Seq<{elem}>) -> G {{ {coll.replace('ITEMS', 'v')} }} #[verifier::external_body] fn x_from_iter<XI: XIter<Item = {elem}>>(v: XI) -> (r: Self) {{ {f.name}(v) }} }}\n")

    cv = lambda u, x, t="_": f"XInto::<{u}>::conv_to({x})"

    # ---- shared ----
    EQ = "#[derive(PartialEq, Eq, Structural, Copy, Clone)]"
    item(R + "template.rs", "enum", "Strip", default=True, derive=EQ)
    item(R + "expr.rs", "enum", "UnaryOperator", derive=EQ)
    item(R + "expr.rs", "enum", "BinaryOperator", derive=EQ)
    for ty in ("Decorated", "Formatted", "Spanned"):
        item(E + "repr.rs", "struct", ty)
        ctor = f"impl<T> {ty}<T>"
        f = F(E + "repr.rs").fn("new", ctor if ty != "Formatted" else "impl<T> Formatted<T> where T: ToString") if ty != "Formatted" else F(E + "repr.rs").fn("new", "impl<T> Formatted<T>")
        emit(f, ctor, "ensures r.value == value")
        inh(E + "repr.rs", "into_value", ctor, ctor, "ensures r == self.value")
        inh(E + "repr.rs", "value_into", ctor, ctor, f"ensures r.g() == {cv('U', 'self.value')}, XInto::<U>::exact_to(self.value, r)", sig="fn value_into<U: XTree>(self) -> U where T: XInto<U>")
        frm(E + "repr.rs", f"impl<T> From<T> for {ty}<T>", exact="r.value == V", gen="<T: XTree>")

    # ---- plain ----
    X, T, S = P + "expr/", P + "template/", P + "structure/"
    for path, kind, names in [(P + "ident.rs", "struct", ["Identifier"]), (X + "variable.rs", "struct", ["Variable"]), (X + "mod.rs", "enum", ["Expression", "ObjectKey"]), (X + "conditional.rs", "struct", ["Conditional"]),
                              (X + "operation.rs", "enum", ["Operation"]), (X + "operation.rs", "struct", ["UnaryOp", "BinaryOp"]), (X + "for_expr.rs", "struct", ["ForExpr"]), (X + "func_call.rs", "struct", ["FuncName", "FuncCall"]),
                              (X + "traversal.rs", "struct", ["Traversal"]), (X + "traversal.rs", "enum", ["TraversalOperator"]), (X + "template_expr.rs", "enum", ["TemplateExpr"]), (X + "template_expr.rs", "struct", ["Heredoc"]),
                              (T + "mod.rs", "enum", ["Element", "Directive"]), (T + "mod.rs", "struct", ["Template", "Interpolation", "IfDirective", "ForDirective"]),
                              (S + "mod.rs", "enum", ["Structure"]), (S + "attribute.rs", "struct", ["Attribute"]), (S + "block.rs", "struct", ["Block", "BlockBuilder"]), (S + "block.rs", "enum", ["BlockLabel"])]:
        for nm in names:
            item(path, kind, nm)
    item(X + "template_expr.rs", "enum", "HeredocStripMode", default=True, derive=EQ)
    item(S + "body.rs", "struct", "Body", default=True)
    item(S + "body.rs", "struct", "BodyBuilder", default=True)
    put(ONAMES.format(I="Identifier") + SPEC_P + lists(LISTS_P))
    for ty, g in TREES_P.items():
        put(f"impl XTree for {ty} {{ open spec fn g(self) -> G {{ {g}(self) }} }}\n")
    put(MORE_TREES_P)
    bl = []

    def bridge(p):
        """a list of subtrees is the list of the trees of the elements"""
        def br(var, ty, term, is_, body):
            nm = f"br{len(bl)}"
            bl.append(nm)
            root.append(f"pub broadcast proof fn {nm}({var}: {p}{ty}) ensures {is_} {{ {body} }}\n")
        A = "" if not p else ".values"
        ENTS = "" if not p else ".items"
        at, ot = ("Vec<Expression>", "XMap<ObjectKey, Expression>") if not p else ("e::Array", "e::Object")
        arr, obj = (f"{p}gexs(V{A}) =~= gs(V{A}@)"), (f"{p}gents(V{ENTS}.entries) =~= gpairs(V{ENTS}.entries@)")
        for ctor, ty, res, why in (("Array", at, f"nd(Kind::Arr, gs(V{A}@))", arr), ("Object", ot, f"nd(Kind::Obj, gmap(V{ENTS}))", obj)):
            nm = f"br{len(bl)}"
            bl.append(nm)
            root.append(f"pub broadcast proof fn {nm}(v: {ty}) ensures #[trigger] {p}gex({p}Expression::{ctor}(v)) == {res} {{ assert({why}); }}\n".replace("V", "v").replace("vec<", "Vec<"))
        root.append(f"pub proof fn {'e' if p else 'p'}_expr(e: {p}Expression) ensures e is Array ==> {p}gex(e) == nd(Kind::Arr, gs(e->Array_0{A}@)), e is Object ==> {p}gex(e) == nd(Kind::Obj, gmap(e->Object_0{ENTS})){'' if p else ', e is Operation ==> gex(e) == (match *e->Operation_0 { Operation::Unary(u) => gun(u), Operation::Binary(b) => gbin(b) })'} "
                    f"{{ if e is Array {{ assert({p}gexs(e->Array_0{A}) =~= gs(e->Array_0{A}@)); }} if e is Object {{ assert({p}gents(e->Object_0{ENTS}.entries) =~= gpairs(e->Object_0{ENTS}.entries@)); }} {"" if p else "if e is Operation { assert(gex(e) == gop(*e->Operation_0)); }"} }}\n")
        args = "c.args" if not p else "c.args.args"
        br("c", "FuncCall", "", f"#[trigger] {p}gcall(c) == nd(Kind::Call, seq![c.name.g(), nd(Kind::Args, gs({args}@)), G::Bool({args.replace('.args', '', 1) if not p else 'c.args'}.expand_final)])", f"assert({p}gexs({args}) =~= gs({args}@));")
        br("c", "Traversal", "", f"#[trigger] {p}gtrav(c) == nd(Kind::Trav, seq![c.expr.g(), nd(Kind::Ops, gs(c.operators@))])", f"assert({p}gtops(c.operators) =~= gs(c.operators@));")
        br("c", "Template", "", f"#[trigger] {p}gtm(c) == nd(Kind::Tmpl, gs(c.elements@))", f"assert({p}gels(c.elements) =~= gs(c.elements@));")
        st = "c.0" if not p else "c.structures"
        br("c", "Body", "", f"#[trigger] {p}gbody(c) == nd(Kind::Body, gs({st}@))", f"assert({p}gsts({st}) =~= gs({st}@));")
        br("c", "Block", "", f"#[trigger] {p}gblk(c) == nd(Kind::Blk, seq![c.{'ident' if p else 'identifier'}.g(), nd(Kind::Labels, gs(c.labels@)), nd(Kind::Body, gs(c.body.{'structures' if p else '0'}@))])", f"assert(c.body.g() == {p}gbody(c.body)); assert({p}gsts(c.body.{'structures' if p else '0'}) =~= gs(c.body.{'structures' if p else '0'}@));")
        if not p:
            br("c", "Body", "", "#[trigger] hbody(c) == nd(Kind::Body, ext(Seq::empty(), gconv::<e::Structure, Structure>(c.0@)))", "assert(gconv::<e::Structure, Structure>(c.0@) =~= hsts(c.0));")
        else:
            br("c", "FuncArgs", "", "#![trigger e::gexs(c.args)] e::gexs(c.args) == gs(c.args@)", "assert(e::gexs(c.args) =~= gs(c.args@));")
            br("c", "Array", "", "#![trigger e::gexs(c.values)] e::gexs(c.values) == gs(c.values@)", "assert(e::gexs(c.values) =~= gs(c.values@));")
            br("c", "Object", "", "#![trigger e::gents(c.items.entries)] e::gents(c.items.entries) == gpairs(c.items.entries@)", "assert(e::gents(c.items.entries) =~= gpairs(c.items.entries@));")

    def same(u, t, exact="v@[i].g()"):
        nm = f"br{len(bl)}"
        bl.append(nm)
        root.append(f"pub broadcast proof fn {nm}(s: Seq<{t}>) ensures #[trigger] gconv::<{u}, {t}>(s) == gs(s) {{ assert(gconv::<{u}, {t}>(s) =~= gs(s)); }}\n")
    bridge("")
    bridge("e::")
    for u, t in [("Expression", "e::Expression"), ("e::Expression", "Expression"), ("Identifier", "Decorated<Ident>"), ("Decorated<Ident>", "Identifier"), ("TraversalOperator", "Decorated<e::TraversalOperator>"),
                 ("Decorated<e::TraversalOperator>", "TraversalOperator"), ("Element", "e::Element"), ("e::Element", "Element"), ("BlockLabel", "e::BlockLabel"), ("e::BlockLabel", "BlockLabel"), ("Structure", "e::Structure"), ("Structure", "Structure"), ("e::Structure", "e::Structure"),
                 ("e::Expression", "e::Expression"), ("e::Element", "e::Element"), ("Expression", "Expression"), ("Element", "Element")]:
        same(u, t)
    nm = f"br{len(bl)}"
    bl.append(nm)
    root.append(f"pub broadcast proof fn {nm}(v: Vec<Structure>) ensures #[trigger] gconv::<e::Structure, Structure>(v@) == hsts(v) {{ assert(gconv::<e::Structure, Structure>(v@) =~= hsts(v)); }}\n")
    for a, b, k, v in [("ObjectKey", "Expression", "e::ObjectKey", "e::ObjectValue"), ("e::ObjectKey", "e::ObjectValue", "ObjectKey", "Expression")]:
        nm = f"br{len(bl)}"
        bl.append(nm)
        root.append(f"pub broadcast proof fn {nm}(s: Seq<({k}, {v})>) ensures #[trigger] gconv2::<{a}, {b}, {k}, {v}>(s) == gpairs(s) {{ assert(gconv2::<{a}, {b}, {k}, {v}>(s) =~= gpairs(s)); }}\n")
    for nm, ps, body in [
        ("gs_none", "<U: XTree>(s: Seq<U>) requires s.len() == 0 ensures (#[trigger] gs(s)) == Seq::<G>::empty()", "assert(gs(s) =~= Seq::<G>::empty());"),
        ("gs_push", "<U: XTree>(s: Seq<U>, x: U) ensures (#[trigger] gs(s.push(x))) == gs(s).push(x.g())", "assert(gs(s.push(x)) =~= gs(s).push(x.g()));"),
        ("conv_step", "<U: XTree, T: XInto<U>>(s: Seq<T>) requires s.len() > 0 ensures gconv::<U, T>(#[trigger] s.drop_first()) == (#[trigger] gconv::<U, T>(s)).drop_first(), gconv::<U, T>(s)[0] == XInto::<U>::conv_to(s[0]), gconv::<U, T>(s).len() == s.len()",
         "assert(gconv::<U, T>(s.drop_first()) =~= gconv::<U, T>(s).drop_first());"),
        ("conv2_step", "<A: XTree, B: XTree, K: XInto<A>, V: XInto<B>>(s: Seq<(K, V)>) requires s.len() > 0 ensures gconv2::<A, B, K, V>(#[trigger] s.drop_first()) == (#[trigger] gconv2::<A, B, K, V>(s)).drop_first(), gconv2::<A, B, K, V>(s)[0] == nd(Kind::Pair, seq![XInto::<A>::conv_to(s[0].0), XInto::<B>::conv_to(s[0].1)]), gconv2::<A, B, K, V>(s).len() == s.len()",
         "assert(gconv2::<A, B, K, V>(s.drop_first()) =~= gconv2::<A, B, K, V>(s).drop_first());"),
        ("pairs_push", "<K: XTree, V: XTree>(s: Seq<(K, V)>, x: (K, V)) ensures (#[trigger] gpairs(s.push(x))) == gpairs(s).push(nd(Kind::Pair, seq![x.0.g(), x.1.g()]))", "assert(gpairs(s.push(x)) =~= gpairs(s).push(nd(Kind::Pair, seq![x.0.g(), x.1.g()])));"),
        ("pairs_none", "<K: XTree, V: XTree>(s: Seq<(K, V)>) requires s.len() == 0 ensures (#[trigger] gpairs(s)) == Seq::<G>::empty()", "assert(gpairs(s) =~= Seq::<G>::empty());"),
        ("step_cat", "(a: Seq<G>, b: Seq<G>) requires b.len() > 0 ensures a.push(b[0]) + #[trigger] b.drop_first() == #[trigger] (a + b)", "assert(a.push(b[0]) + b.drop_first() =~= a + b);"),
        ("ext_step", "<U: XTree, T: XInto<U>>(ss: Seq<G>, s: Seq<T>) requires s.len() > 0 ensures #[trigger] ext(ss, gconv::<U, T>(s)) == ext(pushed(ss, XInto::<U>::conv_to(s[0])), gconv::<U, T>(#[trigger] s.drop_first()))",
         "assert(gconv::<U, T>(s.drop_first()) =~= gconv::<U, T>(s).drop_first());"),
        ("putall_step", "<A: XTree, B: XTree, K: XInto<A>, V: XInto<B>>(m: Seq<G>, s: Seq<(K, V)>) requires s.len() > 0 ensures #[trigger] putall(m, gconv2::<A, B, K, V>(s)) == putall(put(m, nd(Kind::Pair, seq![XInto::<A>::conv_to(s[0].0), XInto::<B>::conv_to(s[0].1)])), gconv2::<A, B, K, V>(#[trigger] s.drop_first()))",
         "assert(gconv2::<A, B, K, V>(s.drop_first()) =~= gconv2::<A, B, K, V>(s).drop_first());"),
        ("putall_all", "(m: Seq<G>, t: Seq<G>) requires m.len() == 0 ensures #[trigger] putall(m, t) == collect(t)", "putall_cat(m, t); assert(m + t =~= t); assert(collect(m) =~= m);"),
        ("cat_none", "(a: Seq<G>, b: Seq<G>) requires a.len() == 0 ensures #[trigger] (a + b) == b", "assert(a + b =~= b);"),
    ]:
        if nm in ("ext_step", "putall_step"):
            root.append(f"pub proof fn {nm}{ps.replace('#[trigger] ', '')} {{ {body} }}\n")
            continue
        bl.append(nm)
        root.append(f"pub broadcast proof fn {nm}{ps} {{ {body} }}\n")
    root.append(f"pub broadcast group tree {{ {', '.join(bl)}, printed, empty_text }}\n")

    for h in ("Number", "bool", "String", "Traversal", "FuncCall", "Conditional", "Operation", "UnaryOp", "BinaryOp", "ForExpr", "TemplateExpr", "Heredoc"):
        frm(X + "mod.rs", f"impl From<{h}> for Expression")
    frm(X + "mod.rs", "impl From<Variable> for Expression", conv="nd(Kind::Var, seq![V.g()])")
    frm(X + "operation.rs", "impl From<UnaryOp> for Operation")
    frm(X + "operation.rs", "impl From<BinaryOp> for Operation")
    frm(X + "traversal.rs", "impl<T> From<T> for TraversalOperator", gen="<T: XInto<Identifier>>", conv=f"nd(Kind::GetAttr, seq![{cv('Identifier', 'V')}])")
    frm(X + "traversal.rs", "impl From<Expression> for TraversalOperator", conv="nd(Kind::Index, seq![V.g()])")
    frm(X + "traversal.rs", "impl From<u64> for TraversalOperator", conv="nd(Kind::Legacy, seq![V.g()])")
    frm(X + "template_expr.rs", "impl From<Heredoc> for TemplateExpr")
    frm(X + "variable.rs", "impl From<Identifier> for Variable")
    frm(P + "ident.rs", "impl From<Ident> for Identifier")
    frm(P + "ident.rs", "impl From<Identifier> for Ident")
    frm(S + "mod.rs", "impl From<Attribute> for Structure")
    frm(S + "mod.rs", "impl From<Block> for Structure")
    inh(X + "variable.rs", "into_inner", "impl Variable", "impl Variable", "ensures r == self.0")
    inh(X + "conditional.rs", "new", "impl Conditional", "impl Conditional", "ensures " + ", ".join(f"r.{x}.g() == {cv('Expression', x)}" for x in ("cond_expr", "true_expr", "false_expr")))
    inh(X + "operation.rs", "new", "impl UnaryOp", "impl UnaryOp", f"ensures r.operator == operator, r.expr.g() == {cv('Expression', 'expr')}")
    inh(X + "operation.rs", "new", "impl BinaryOp", "impl BinaryOp", f"ensures r.operator == operator, r.lhs_expr.g() == {cv('Expression', 'lhs_expr')}, r.rhs_expr.g() == {cv('Expression', 'rhs_expr')}")
    inh(X + "traversal.rs", "new", "impl Traversal", "impl Traversal", f"ensures r.expr.g() == {cv('Expression', 'expr')}, gs(r.operators@) == gconv::<TraversalOperator, I::Item>(operators.items())")
    fromiter(X + "mod.rs", "impl<T: Into<Expression>> FromIterator<T> for Expression", "Expression", "T: XInto<Expression>", "T", "nd(Kind::Arr, gconv::<Expression, T>(ITEMS))")

    def pairs(f):
        start = step(f)
        f.loop(0, f"invariant x_l == x_it0.left(), gpairs(x_out0@) + gconv2::<ObjectKey, Expression, K, V>(x_it0.left()) == gconv2::<ObjectKey, Expression, K, V>({f.param}.items()) ensures x_it0.left().len() == 0 decreases x_it0.left().len()", start=start)
    fromiter(X + "mod.rs", "impl<K: Into<ObjectKey>, V: Into<Expression>> FromIterator<(K, V)> for Expression", "Expression", "K: XInto<ObjectKey>, V: XInto<Expression>", "(K, V)", "nd(Kind::Obj, collect(gconv2::<ObjectKey, Expression, K, V>(ITEMS)))", prep=pairs)
    fromiter(T + "mod.rs", "impl<T> FromIterator<T> for Template", "Template", "T: XInto<Element>", "T", "nd(Kind::Tmpl, gconv::<Element, T>(ITEMS))")
    # bodies and blocks
    st = lambda i: f"gconv::<Structure, I::Item>({i}.items())"
    BB, BLB = "impl BodyBuilder", "impl BlockBuilder"
    inh(S + "body.rs", "builder", "impl Body", "impl Body", "ensures r.0@.len() == 0")
    inh(S + "body.rs", "add_structure", BB, BB, f"ensures gs(r.0@) == gs(self.0@).push({cv('Structure', 'structure')})")
    inh(S + "body.rs", "add_structures", BB, BB, f"ensures gs(r.0@) == gs(self.0@) + {st('PARAM')}")
    inh(S + "body.rs", "build", BB, BB, "ensures r.g() == nd(Kind::Body, gs(self.0@))")
    inh(S + "iter.rs", "extend", "impl<T> Extend<T> for Body", "impl Body", "ensures gs(final(self).0@) == gs(old(self).0@) + gconv::<Structure, T>(PARAM.items())", sig="fn x_extend<T: XInto<Structure>, I: XIter<Item = T>>(&mut self, PARAM: I)")
    fromiter(S + "iter.rs", "impl<T> FromIterator<T> for Body", "Body", "T: XInto<Structure>", "T", "nd(Kind::Body, gconv::<Structure, T>(ITEMS))")
    put("pub struct IntoIter { pub iter: Vec<Structure> }\n")
    f = F(S + "iter.rs").fn("new", "impl IntoIter")
    emit(f, "impl IntoIter", "ensures r.iter@ == body.0@")
    f = F(S + "iter.rs").fn("into_iter", "impl IntoIterator for Body")
    f.body = re.sub(r"\bself\b", "x_s", f.body)
    f.name = "into_iter_Body"
    f.rewrites.append("into_iter_Body: the iterator yields its list")
    emit(f, None, "ensures r.iter@ == x_s.0@", sig="fn into_iter_Body(x_s: Body) -> IntoIter")
    put("impl XIter for Body { type Item = Structure; open spec fn items(self) -> Seq<Structure> { self.0@ } #[verifier::external_body] fn x_vec(self) -> (r: Vec<Structure>) { into_iter_Body(self).iter } }\n")
    inh(S + "block.rs", "builder", "impl Block", "impl Block", f"ensures r.identifier.g() == {cv('Identifier', 'identifier')}, r.labels@.len() == 0, r.body.0@.len() == 0")
    inh(S + "block.rs", "new", BLB, BLB, f"ensures r.identifier.g() == {cv('Identifier', 'identifier')}, r.labels@.len() == 0, r.body.0@.len() == 0")
    inh(S + "block.rs", "add_labels", BLB, BLB, "ensures r.identifier == self.identifier, r.body == self.body, gs(r.labels@) == gs(self.labels@) + gconv::<BlockLabel, I::Item>(PARAM.items())")
    inh(S + "block.rs", "add_structures", BLB, BLB, f"ensures r.identifier == self.identifier, r.labels == self.labels, gs(r.body.0@) == gs(self.body.0@) + {st('PARAM')}")
    inh(S + "block.rs", "build", BLB, BLB, "ensures r.g() == nd(Kind::Blk, seq![self.identifier.g(), nd(Kind::Labels, gs(self.labels@)), nd(Kind::Body, gs(self.body.0@))])")

    # ---- the conversions ----
    x, t, s = X + "edit.rs", T + "edit.rs", S + "edit.rs"
    f = F(x).fn("template_or_default")
    f.body = re.sub(r"\bs\.as_ref\(\)\s*\.parse\(\)", "x_parse(s.as_str())", f.body)
    f.body = f.body.replace(".unwrap_or_default()", ".ok().unwrap_or_default()")
    emit(f, None, "ensures text_of(r) == norm(s@)", sig="fn template_or_default(s: String) -> template::Template")
    for a, b in [("expr::Expression", "Expression"), ("Expression", "expr::Expression"), ("expr::ObjectKey", "ObjectKey"), ("ObjectKey", "expr::ObjectKey"), ("expr::ObjectValue", "Expression"), ("Expression", "expr::ObjectValue"),
                 ("expr::Conditional", "Conditional"), ("Conditional", "expr::Conditional"), ("expr::ForExpr", "ForExpr"), ("ForExpr", "expr::ForExpr"), ("expr::FuncName", "FuncName"), ("FuncName", "expr::FuncName"),
                 ("expr::FuncCall", "FuncCall"), ("FuncCall", "expr::FuncCall"), ("expr::UnaryOp", "Operation"), ("expr::BinaryOp", "Operation"), ("expr::UnaryOp", "UnaryOp"), ("UnaryOp", "expr::UnaryOp"), ("expr::BinaryOp", "BinaryOp"), ("BinaryOp", "expr::BinaryOp"),
                 ("template::StringTemplate", "TemplateExpr"), ("template::HeredocTemplate", "Heredoc"), ("Heredoc", "template::HeredocTemplate"), ("expr::Traversal", "Traversal"), ("Traversal", "expr::Traversal"),
                 ("Decorated<expr::TraversalOperator>", "TraversalOperator"), ("TraversalOperator", "Decorated<expr::TraversalOperator>"), ("expr::TraversalOperator", "TraversalOperator"), ("TraversalOperator", "expr::TraversalOperator"),
                 ("Ident", "Variable"), ("Decorated<Ident>", "Identifier"), ("Identifier", "Decorated<Ident>")]:
        frm(x, f"impl From<{a}> for {b}", start={"expr::Expression": "e_expr", "Expression": "p_expr"}.get(a, "") if b.endswith("Expression") else "")
    for ty in ("Template", "Element", "Interpolation", "Directive", "IfDirective", "ForDirective"):
        frm(t, f"impl From<template::{ty}> for {ty}")
        frm(t, f"impl From<{ty}> for template::{ty}")
    for ty, h in (("Body", "hbody(V)"), ("Structure", "hst(V)"), ("Attribute", "V.g()"), ("Block", "hblk(V)"), ("BlockLabel", "V.g()")):
        frm(s, f"impl From<structure::{ty}> for {ty}")
        frm(s, f"impl From<{ty}> for structure::{ty}", conv=h)

    # ---- editable ----
    cur[0] = edit
    X, T, S = E + "expr/", E + "template/", E + "structure/"
    for path, kind, names in [(X + "mod.rs", "enum", ["Expression"]), (X + "mod.rs", "struct", ["Parenthesis", "Null"]), (X + "array.rs", "struct", ["+Array"]), (X + "object.rs", "struct", ["+Object", "ObjectValue"]),
                              (X + "object.rs", "enum", ["ObjectKey", "+ObjectValueAssignment", "+ObjectValueTerminator"]), (X + "conditional.rs", "struct", ["Conditional"]), (X + "for_expr.rs", "struct", ["ForExpr", "ForIntro", "ForCond"]),
                              (X + "func_call.rs", "struct", ["FuncName", "FuncCall", "+FuncArgs"]), (X + "operation.rs", "struct", ["UnaryOp", "BinaryOp"]), (X + "traversal.rs", "struct", ["Traversal", "Splat"]), (X + "traversal.rs", "enum", ["TraversalOperator"]),
                              (T + "mod.rs", "struct", ["+Template", "+StringTemplate", "HeredocTemplate", "Interpolation", "IfDirective", "IfTemplateExpr", "ElseTemplateExpr", "+EndifTemplateExpr", "ForDirective", "ForTemplateExpr", "+EndforTemplateExpr"]),
                              (T + "mod.rs", "enum", ["Element", "Directive"]), (S + "mod.rs", "enum", ["Structure"]), (S + "attribute.rs", "struct", ["Attribute"]), (S + "block.rs", "struct", ["Block", "BlockBuilder"]), (S + "block.rs", "enum", ["BlockLabel"]),
                              (S + "body.rs", "struct", ["+Body"])]:
        for nm in names:
            item(path, kind, nm.lstrip("+"), default=nm.startswith("+"))
    put(ONAMES.format(I="Decorated<Ident>") + SPEC_E + lists(LISTS_E))
    for ty, g in TREES_E.items():
        put(f"impl XTree for {ty} {{ open spec fn g(self) -> G {{ {g}(self) }} }}\n")
    put(MORE_TREES_E)
    M = X + "mod.rs"
    for h in ("bool", "Decorated<bool>", "Number", "Formatted<Number>", "String", "Decorated<String>", "Array", "Object", "StringTemplate", "HeredocTemplate", "Parenthesis", "Conditional", "FuncCall", "Traversal", "UnaryOp", "BinaryOp", "ForExpr"):
        frm(M, f"impl From<{h}> for Expression")
    for h in ("Ident", "Decorated<Ident>"):
        frm(M, f"impl From<{h}> for Expression", conv="nd(Kind::Var, seq![V.g()])")
    inh(M, "null", "impl Expression", "impl Expression", "ensures r.g() == G::Null")
    inh(M, "new", "impl Parenthesis", "impl Parenthesis", "ensures r.inner == inner")
    inh(M, "into_inner", "impl Parenthesis", "impl Parenthesis", "ensures r == self.inner")
    for h, k in (("Decorated<Ident>", "KeyId"), ("Ident", "KeyId"), ("Expression", "KeyExpr")):
        frm(X + "object.rs", f"impl From<{h}> for ObjectKey", conv=f"nd(Kind::{k}, seq![V.g()])")
    frm(X + "object.rs", "impl From<Expression> for ObjectValue")
    inh(X + "object.rs", "new", "impl ObjectValue", "impl ObjectValue", f"ensures r.expr.g() == {cv('Expression', 'expr')}")
    inh(X + "object.rs", "into_expr", "impl ObjectValue", "impl ObjectValue", "ensures r == self.expr")

    def collection(path, ty, elem, field, extra_new="", keep=""):
        I = f"impl {ty}"
        OLD, NEW = f"gs(old(self).{field}@)", f"gs(final(self).{field}@)"
        inh(path, "new", I, I, f"ensures r.{field}@.len() == 0{extra_new}")
        inh(path, "with_capacity", I, I, f"ensures r.{field}@.len() == 0{extra_new}")
        inh(path, "is_empty", I, I, f"ensures r == (self.{field}@.len() == 0)")
        ks = keep.replace("SELF", "final(self)")
        if ty == "Body":
            put(r"""pub open spec fn named(ss: Seq<Structure>, key: Seq<char>) -> bool { exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]) is Attribute && id_text(ss[i]->Attribute_0.key.value) == key }
pub proof fn has_dup(ss: Seq<Structure>) ensures forall|a: Attribute| (#[trigger] dup(gs(ss), gattr(a))) == named(ss, id_text(a.key.value)), forall|b: Block| !(#[trigger] dup(gs(ss), gblk(b))) {
    assert forall|a: Attribute| (#[trigger] dup(gs(ss), gattr(a))) == named(ss, id_text(a.key.value)) by {
        let x = gattr(a);
        assert(x->N_1[0] == G::Id(id_text(a.key.value)));
        if dup(gs(ss), x) { let i = choose|i: int| 0 <= i < gs(ss).len() && (#[trigger] gs(ss)[i])->N_0 == Kind::Attr && gs(ss)[i]->N_1[0] == x->N_1[0]; assert(gs(ss)[i] == gst(ss[i])); assert(ss[i] is Attribute && id_text(ss[i]->Attribute_0.key.value) == id_text(a.key.value)); }
        if named(ss, id_text(a.key.value)) { let i = choose|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]) is Attribute && id_text(ss[i]->Attribute_0.key.value) == id_text(a.key.value); assert(gs(ss)[i] == gattr(ss[i]->Attribute_0)); assert(gs(ss)[i]->N_1[0] == G::Id(id_text(a.key.value))); }
    }
}
""")
            put("impl Body { #[verifier::external_body] pub fn has_attribute(&self, key: &str) -> (r: bool) ensures r == named(self.structures@, key@) { unimplemented!() } }\n")
            def tp(f):
                f.at("start", "proof { has_dup(self.structures@); }")
            inh(path, "try_push", I, I, f"ensures {NEW} == pushed({OLD}, {cv('Structure', 'structure')})", prep=tp)
            inh(path, "push", I, I, f"ensures {NEW} == pushed({OLD}, {cv('Structure', 'structure')})")
            all_ = lambda v: f"ext({{0}}, gconv::<{elem}, T>({v}))"
        else:
            inh(path, "push", I, I, f"ensures {NEW} == {OLD}.push({cv(elem, 'PAR')}){ks}".replace("PAR", re.search(r",\s*(\w+)\s*:", F(path).fn("push", I).sig).group(1)))
            all_ = lambda v: f"{{0}} + gconv::<{elem}, T>({v})"
        SS = f"gs(self.{field}@)"

        def lp(f):
            start = step(f, f"ext_step::<Structure, T>({SS}, x_l);" if ty == "Body" else "")
            f.loop(0, f"invariant x_l == x_it0.left(), {all_('x_it0.left()').format(SS)} == {all_(f.param + '.items()').format(OLD)}{keep.replace('SELF', 'self')} ensures x_it0.left().len() == 0 decreases x_it0.left().len()", start=start)
        inh(path, "extend", f"impl<T> Extend<T> for {ty}", I, f"ensures {NEW} == {all_('PARAM.items()').format(OLD)}{ks}", sig=f"fn x_extend<T: XInto<{elem}>, I: XIter<Item = T>>(&mut self, PARAM: I)", prep=lp)
        kind = {"Array": "Arr", "FuncArgs": "Args", "Template": "Tmpl", "Body": "Body"}[ty]
        fromiter(path, f"impl<T> FromIterator<T> for {ty}", ty, f"T: XInto<{elem}>", "T", f"nd(Kind::{kind}, {all_('ITEMS').format('Seq::<G>::empty()')})" if ty == "Body" else f"nd(Kind::{kind}, gconv::<{elem}, T>(ITEMS))")
        it(path, f"impl IntoIterator for {ty}", ty, elem, f"SELF.{field}@")
    collection(X + "array.rs", "Array", "Expression", "values")
    collection(X + "func_call.rs", "FuncArgs", "Expression", "args", ", !r.expand_final", ", SELF.expand_final == old(self).expand_final")
    collection(T + "mod.rs", "Template", "Element", "elements")
    collection(S + "body.rs", "Body", "Structure", "structures")
    # objects
    O, I = X + "object.rs", "impl Object"
    inh(O, "new", I, I, "ensures r.items.entries@.len() == 0")
    inh(O, "with_capacity", I, I, "ensures r.items.entries@.len() == 0")
    inh(O, "is_empty", I, I, "")
    inh(O, "insert", I, I, f"ensures gmap(final(self).items) == put(gmap(old(self).items), nd(Kind::Pair, seq![{cv('ObjectKey', 'key')}, {cv('ObjectValue', 'value')}]))")
    C2 = "gconv2::<ObjectKey, ObjectValue, K, V>"

    def lp(f):
        start = step(f, f"putall_step::<ObjectKey, ObjectValue, K, V>(gmap(self.items), x_l);")
        f.loop(0, f"invariant x_l == x_it0.left(), putall(gmap(self.items), {C2}(x_it0.left())) == putall(gmap(old(self).items), {C2}({f.param}.items())) ensures x_it0.left().len() == 0 decreases x_it0.left().len()", start=start)
    inh(O, "extend", "impl<K, V> Extend<(K, V)> for Object", I, f"ensures gmap(final(self).items) == putall(gmap(old(self).items), {C2}(PARAM.items()))", sig="fn x_extend<K: XInto<ObjectKey>, V: XInto<ObjectValue>, I: XIter<Item = (K, V)>>(&mut self, PARAM: I)", prep=lp)
    fromiter(O, "impl<K, V> FromIterator<(K, V)> for Object", "Object", "K: XInto<ObjectKey>, V: XInto<ObjectValue>", "(K, V)", f"nd(Kind::Obj, collect({C2}(ITEMS)))")
    it(O, "impl IntoIterator for Object", "Object", "(ObjectKey, ObjectValue)", "SELF.items.entries@")
    fromiter(M, "impl<T: Into<Expression>> FromIterator<T> for Expression", "Expression", "T: XInto<Expression>", "T", "nd(Kind::Arr, gconv::<Expression, T>(ITEMS))")
    fromiter(M, "impl<K: Into<ObjectKey>, V: Into<ObjectValue>> FromIterator<(K, V)> for Expression", "Expression", "K: XInto<ObjectKey>, V: XInto<ObjectValue>", "(K, V)", f"nd(Kind::Obj, collect({C2}(ITEMS)))")
    # the rest of the expressions
    inh(X + "conditional.rs", "new", "impl Conditional", "impl Conditional", "ensures " + ", ".join(f"r.{v}.g() == {cv('Expression', v)}" for v in ("cond_expr", "true_expr", "false_expr")))
    inh(X + "for_expr.rs", "new", "impl ForIntro", "impl ForIntro", f"ensures r.key_var is None, r.value_var.g() == {cv('Decorated<Ident>', 'value_var')}, r.collection_expr.g() == {cv('Expression', 'collection_expr')}")
    inh(X + "for_expr.rs", "new", "impl ForExpr", "impl ForExpr", f"ensures r.intro == intro, r.key_expr is None, r.value_expr.g() == {cv('Expression', 'value_expr')}, !r.grouping, r.cond is None")
    inh(X + "for_expr.rs", "new", "impl ForCond", "impl ForCond", f"ensures r.expr.g() == {cv('Expression', 'expr')}")
    inh(X + "func_call.rs", "new", "impl FuncCall", "impl FuncCall", f"ensures r.name.g() == {cv('FuncName', 'name')}, r.args == args")
    inh(X + "func_call.rs", "expand_final", "impl FuncArgs", "impl FuncArgs", "ensures r == self.expand_final")
    inh(X + "func_call.rs", "set_expand_final", "impl FuncArgs", "impl FuncArgs", "ensures final(self).expand_final == yes, final(self).args == old(self).args")
    inh(X + "operation.rs", "new", "impl UnaryOp", "impl UnaryOp", f"ensures r.operator.g() == {cv('Spanned<UnaryOperator>', 'operator')}, r.expr.g() == {cv('Expression', 'expr')}")
    inh(X + "operation.rs", "new", "impl BinaryOp", "impl BinaryOp", f"ensures r.operator.g() == {cv('Decorated<BinaryOperator>', 'operator')}, r.lhs_expr.g() == {cv('Expression', 'lhs_expr')}, r.rhs_expr.g() == {cv('Expression', 'rhs_expr')}")
    inh(X + "traversal.rs", "new", "impl Traversal", "impl Traversal", f"ensures r.expr.g() == {cv('Expression', 'expr')}, r.operators == operators")
    # templates
    M = T + "mod.rs"
    frm(M, "impl From<Template> for StringTemplate", conv="nd(Kind::Quoted, seq![G::Str(text_of(V))])", exact="r.template == V")
    frm(M, "impl From<StringTemplate> for Template", conv="V.template.g()", exact="r == V.template")
    inh(M, "new", "impl HeredocTemplate", "impl HeredocTemplate", "ensures r.delimiter == delimiter, r.template == template, r.indent is None")
    inh(M, "indent", "impl HeredocTemplate", "impl HeredocTemplate", "ensures r == self.indent")
    inh(M, "set_indent", "impl HeredocTemplate", "impl HeredocTemplate", "ensures final(self).indent == Some(indent), final(self).delimiter == old(self).delimiter, final(self).template == old(self).template")
    inh(M, "new", "impl Interpolation", "impl Interpolation", f"ensures r.expr.g() == {cv('Expression', 'expr')}, r.strip is None")
    inh(M, "new", "impl IfDirective", "impl IfDirective", "ensures r.if_expr == if_expr, r.else_expr == else_expr, r.endif_expr == endif_expr")
    inh(M, "new", "impl IfTemplateExpr", "impl IfTemplateExpr", f"ensures r.cond_expr.g() == {cv('Expression', 'cond_expr')}, r.template == template, r.strip is None")
    inh(M, "new", "impl ElseTemplateExpr", "impl ElseTemplateExpr", "ensures r.template == template, r.strip is None")
    inh(M, "new", "impl EndifTemplateExpr", "impl EndifTemplateExpr", "ensures r.strip is None")
    inh(M, "new", "impl ForDirective", "impl ForDirective", "ensures r.for_expr == for_expr, r.endfor_expr == endfor_expr")
    f = F(M).fn("new", "impl ForTemplateExpr")
    emit(f, "impl ForTemplateExpr", f"ensures r.key_var is Some == key_var is Some, r.key_var is Some ==> r.key_var->Some_0.g() == {cv('Decorated<Ident>', 'key_var->Some_0')}, r.value_var.g() == {cv('Decorated<Ident>', 'value_var')}, r.collection_expr.g() == {cv('Expression', 'collection_expr')}, r.template == template, r.strip is None",
         sig="fn new<XK: XInto<Decorated<Ident>>>(key_var: Option<XK>, value_var: impl XInto<Decorated<Ident>>, collection_expr: impl XInto<Expression>, template: Template) -> ForTemplateExpr")
    inh(M, "new", "impl EndforTemplateExpr", "impl EndforTemplateExpr", "ensures r.strip is None")
    # structures
    frm(S + "mod.rs", "impl From<Attribute> for Structure")
    frm(S + "mod.rs", "impl From<Block> for Structure")
    inh(S + "attribute.rs", "new", "impl Attribute", "impl Attribute", f"ensures r.key.g() == {cv('Decorated<Ident>', 'key')}, r.value.g() == {cv('Expression', 'value')}")
    B, BB = "impl Block", "impl BlockBuilder"
    inh(S + "block.rs", "builder", B, B, f"ensures r.ident.g() == {cv('Decorated<Ident>', 'ident')}, r.labels@.len() == 0, r.body.structures@.len() == 0")
    inh(S + "block.rs", "new", BB, BB, "ensures r.ident == ident, r.labels@.len() == 0, r.body.structures@.len() == 0")
    inh(S + "block.rs", "labels", BB, BB, "ensures r.ident == self.ident, r.body == self.body, gs(r.labels@) == gs(self.labels@) + gconv::<BlockLabel, I::Item>(PARAM.items())")
    inh(S + "block.rs", "structures", BB, BB, "ensures r.ident == self.ident, r.labels == self.labels, gs(r.body.structures@) == ext(gs(self.body.structures@), gconv::<Structure, I::Item>(PARAM.items()))")
    inh(S + "block.rs", "build", BB, BB, "ensures r.ident == self.ident, r.labels == self.labels, r.body == self.body")
    cur[0] = root
    put(r"""
// ---- there and back --------------------------------------------------------------------------------------
pub fn plain_again(e: Expression) -> (r: Expression) ensures r.g() == e.g() { let x: e::Expression = e.x_into(); x.x_into() }
pub fn editable_again(e: e::Expression) -> (r: e::Expression) ensures r.g() == e.g() { let x: Expression = e.x_into(); x.x_into() }
pub fn plain_body_again(b: Body) -> (r: Body) requires uniq(b) ensures r.g() == b.g() { proof { kept(b); } let x: e::Body = b.x_into(); x.x_into() }
pub fn plain_template_again(t: Template) -> (r: Template) ensures r.g() == t.g() { let x: e::Template = t.x_into(); x.x_into() }
pub fn editable_template_again(t: e::Template) -> (r: e::Template) ensures r.g() == t.g() { let x: Template = t.x_into(); x.x_into() }
""")
    return root + ["pub mod e { use super::*;\n" + "".join(edit) + "\n}\n"], fns
