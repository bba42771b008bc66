r"""C15: binary operators group by precedence (crates/hcl-edit/src/parser/{pratt,state}.rs,
crates/hcl-primitives/src/expr.rs and the pratt crate itself, from cargo's registry)."""
import glob
import os
import re
import rx
import libchain
from libeval import pub_fields
NAME = "pratt"
USES = "use vstd::seq::*;\nuse vstd::string::*;\nuse std::ops::Range;\n"
EX = "crates/hcl-primitives/src/expr.rs"
PR = "crates/hcl-edit/src/parser/pratt.rs"
ST = "crates/hcl-edit/src/parser/state.rs"

PRELUDE = libchain.PRELUDE + r"""
global size_of usize == 8;
// an expression of the editable tree without its decor and span; what of it is below is opaque
#[verifier::external_body] pub struct Expression { e: Box<u8> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Decorated<T> { t: T }
pub struct BinaryOp { pub lhs: Expression, pub operator: Decorated<BinaryOperator>, pub rhs: Expression }
#[verifier::external_body] pub struct Core { c: Box<u8> }
pub uninterp spec fn core(e: Expression) -> Core;
pub uninterp spec fn bin(l: Core, o: BinaryOperator, r: Core) -> Core;
pub uninterp spec fn op_of(d: Decorated<BinaryOperator>) -> BinaryOperator;
impl BinaryOp { pub fn new(lhs: Expression, operator: Decorated<BinaryOperator>, rhs: Expression) -> (r: BinaryOp) ensures r.lhs == lhs, r.operator == operator, r.rhs == rhs { BinaryOp { lhs, operator, rhs } } }
impl Expression {
    #[verifier::external_body] pub fn from(b: BinaryOp) -> (r: Expression) ensures core(r) == bin(core(b.lhs), op_of(b.operator), core(b.rhs)) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Option<Range<usize>>) { unimplemented!() }
    #[verifier::external_body] pub fn set_span(&mut self, s: Range<usize>) ensures core(*final(self)) == core(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn x_set_suffix(&mut self, s: Range<usize>) ensures core(*final(self)) == core(*old(self)) { unimplemented!() }
}
#[verifier::external_body] pub fn x_op(d: &Decorated<BinaryOperator>) -> (r: BinaryOperator) ensures r == op_of(*d) { unimplemented!() }
impl Clone for BinaryOperator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BinaryOperator {}
impl Clone for Precedence { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Precedence {}
impl Clone for Associativity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Associativity {}
impl Clone for Affix { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Affix {}
pub struct Error { pub e: u8 }
#[verifier::external_body] pub fn x_error() -> Error { unimplemented!() }
#[verifier::external_body] pub fn x_unreachable<T>() -> (r: T) requires false { unreachable!() }
pub fn x_expect<T, E>(r: Result<T, E>) -> (t: T) requires r is Ok ensures r == Ok::<T, E>(t) { match r { Ok(t) => t, Err(_) => x_unreachable() } }
#[verifier::external_body] pub fn x_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
// std::iter::Peekable: what is left
#[verifier::external_body] pub struct XTail { it: std::iter::Peekable<std::vec::IntoIter<u8>> }
impl View for XTail { type V = Seq<BinaryOpToken>; uninterp spec fn view(&self) -> Seq<BinaryOpToken>; }
impl XTail {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<BinaryOpToken>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&BinaryOpToken>)
        ensures r is Some == (self@.len() > 0), r is Some ==> *r->Some_0 == self@[0] { unimplemented!() }
}
impl XIntoIter<BinaryOpToken> { #[verifier::external_body] pub fn peekable(self) -> (r: XTail) ensures r@ == self.left() { unimplemented!() } }

// ---- grouping ------------------------------------------------------------------------------------------
// HCL's levels
pub open spec fn level(o: BinaryOperator) -> int {
    match o {
        BinaryOperator::Or => 1, BinaryOperator::And => 2,
        BinaryOperator::Eq | BinaryOperator::NotEq => 3,
        BinaryOperator::Less | BinaryOperator::LessEq | BinaryOperator::Greater | BinaryOperator::GreaterEq => 4,
        BinaryOperator::Plus | BinaryOperator::Minus => 5,
        BinaryOperator::Mul | BinaryOperator::Div | BinaryOperator::Mod => 6,
    }
}
pub proof fn levels_agree() ensures forall|a: BinaryOperator, b: BinaryOperator| (#[trigger] x_prec(a) < #[trigger] x_prec(b)) == (level(a) < level(b)), forall|a: BinaryOperator| 0 < #[trigger] x_prec(a) < 1000 {}
pub open spec fn prec(t: BinaryOpToken) -> int { level(op_of(t->Operator_0)) }
// operand (operator operand)*
pub open spec fn chain(t: Seq<BinaryOpToken>) -> bool { t.len() % 2 == 1 && alternate(t) }
pub open spec fn alternate(t: Seq<BinaryOpToken>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] is Expression <==> i % 2 == 0) }
// the operator that is applied last: the last one of the lowest level
pub open spec fn root(t: Seq<BinaryOpToken>, k: int) -> bool {
    &&& 0 < k < t.len() - 1 && t[k] is Operator
    &&& forall|i: int| 0 <= i < k && (#[trigger] t[i]) is Operator ==> prec(t[i]) >= prec(t[k])
    &&& forall|i: int| k < i < t.len() && (#[trigger] t[i]) is Operator ==> prec(t[i]) > prec(t[k])
}
pub open spec fn tree(t: Seq<BinaryOpToken>) -> Core decreases t.len() {
    if t.len() <= 1 { core(t[0]->Expression_0) } else {
        let k = choose|k: int| root(t, k);
        if 0 < k < t.len() - 1 { bin(tree(t.take(k)), op_of(t[k]->Operator_0), tree(t.skip(k + 1))) } else { arbitrary() }
    }
}
pub proof fn joined(a: Seq<BinaryOpToken>, o: BinaryOpToken, b: Seq<BinaryOpToken>)
    requires a.len() > 0, b.len() > 0, o is Operator, forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Operator ==> prec(a[i]) >= prec(o),
        forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Operator ==> prec(b[i]) > prec(o)
    ensures tree(a.push(o) + b) == bin(tree(a), op_of(o->Operator_0), tree(b))
{
    let t = a.push(o) + b;
    let k = a.len() as int;
    assert(t[k] == o);
    assert forall|i: int| k < i < t.len() && (#[trigger] t[i]) is Operator implies prec(t[i]) > prec(t[k]) by { assert(t[i] == b[i - k - 1]); }
    assert forall|i: int| 0 <= i < k && (#[trigger] t[i]) is Operator implies prec(t[i]) >= prec(t[k]) by { assert(t[i] == a[i]); }
    assert(root(t, k));
    let c = choose|k: int| root(t, k);
    assert(root(t, c));
    if c < k { assert(prec(t[k]) > prec(t[c])); assert(prec(t[c]) >= prec(t[k])); }
    if k < c { assert(prec(t[c]) > prec(t[k])); assert(prec(t[k]) >= prec(t[c])); }
    assert(t.take(k) =~= a); assert(t.skip(k + 1) =~= b);
}
"""

# what parsing the tokens `t`, of which `left` remain, gives for operators above `min`
PARSED = r"""
pub open spec fn bind(o: BinaryOpToken) -> int { 10 * x_prec(op_of(o->Operator_0)) as int }
pub open spec fn parsed(t: Seq<BinaryOpToken>, left: Seq<BinaryOpToken>, min: int, c: Core) -> bool {
    let n = t.len() - left.len();
    &&& 0 < n <= t.len() && n % 2 == 1 && left == t.skip(n)
    &&& c == tree(t.take(n))
    &&& forall|i: int| 0 <= i < n && (#[trigger] t[i]) is Operator ==> bind(t[i]) > min
    &&& left.len() > 0 ==> bind(left[0]) <= min
}
// the tokens that are left after an expression, starting with an operator
pub open spec fn tail_ok(t: Seq<BinaryOpToken>) -> bool { t.len() % 2 == 0 && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] is Expression <==> i % 2 == 1) }
"""


def _str_match(f):
    """`match s { "lit" => .., _ => .. }` as comparisons"""
    toks = rx.lex(f.body)
    i = next(i for i, t in enumerate(toks) if t.s == "match")
    o = next(j for j in range(i, len(toks)) if toks[j].s == "{")
    c = rx.match_close(toks, o)
    subj = f.body[toks[i + 1].a:toks[o - 1].b]
    arms, j = [], o + 1
    while j < c:
        p0 = j
        while toks[j].s != "=>":
            j += 1
        pat = [t.s for t in toks[p0:j] if t.s != "|"]
        j += 1
        e0 = j
        while j < c and toks[j].s != ",":
            j = rx.match_close(toks, j) + 1 if toks[j].s in rx.OPEN else j + 1
        arms.append((pat, f.body[toks[e0].a:toks[j - 1].b]))
        j += 1
    out = ""
    for pat, e in arms:
        if pat == ["_"]:
            out += "{ " + e + " }"
        else:
            if not all(p.startswith('"') for p in pat):
                raise rx.Lost("pattern of a string match")
            out += "if " + " || ".join(f"x_eq({subj}, {p})" for p in pat) + " { " + e + " } else "
    if not out.endswith("}"):
        raise rx.Lost("string match without `_`")
    f.rewrites.append(f"{f.name}: match on string literals as comparisons")
    f.body = f.body[:toks[i].a] + out + f.body[toks[c].b:]


def build(repo):
    d = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/pratt-0.4.*/src/lib.rs")))
    if not d:
        raise rx.Lost("the sources of the pratt crate are not in cargo's registry")
    src, pr, st, lib = rx.File(f"{repo}/{EX}"), rx.File(f"{repo}/{PR}"), rx.File(f"{repo}/{ST}"), rx.File(d[-1])
    out, fns = [PRELUDE], []

    def take(f, impl, contract, ret="r"):
        f.vis = "pub "
        f.attrs = "#[verifier::exec_allows_no_decreases_clause]\n"
        f.spec(contract, ret)
        txt = f.render()
        out.append(f"{impl} {{\n{txt}}}\n" if impl else txt)
        fns.append(f)
    out += ["pub " + src.item("enum", "BinaryOperator"), "pub " + src.item("enum", "UnaryOperator"), "pub " + pr.item("enum", "BinaryOpToken")]
    out += ["pub " + lib.item("enum", "Associativity"), lib.item("struct", "Precedence").replace("struct", "pub struct", 1) if not lib.item("struct", "Precedence").startswith("pub") else lib.item("struct", "Precedence"),
            "pub " + lib.item("enum", "Affix"), "pub " + lib.item("enum", "PrattError").replace(": fmt::Debug", "").replace(": fmt::Display", ""), "pub struct NoError;\npub struct BinaryOpParser;\n",
            pub_fields(st.item("struct", "ExprParseState"))]
    # the table of precedences, as code and -- the same text -- as a function of the logic
    B = "impl BinaryOperator"
    f = src.fn("precedence", B)
    out.append("pub open spec fn x_prec(x_self: BinaryOperator) -> u8 " + re.sub(r"\bself\b", "x_self", f.body) + "\n")
    out.append(PARSED)
    take(f, B, "ensures r == x_prec(self)")
    for ty in ("BinaryOperator", "UnaryOperator"):
        f = src.fn("as_str", f"impl {ty}")
        body = re.sub(r"\bself\b", "(*x_self)", f.body)
        lits = sorted(set(re.findall(r'"[^"]*"', body)))
        out.append(f"pub open spec fn x_text_{ty}(x_self: &{ty}) -> Seq<char> {{ match *x_self {{ " + ", ".join(
            f"{p.strip()} => {l}@" for p, l in re.findall(r'((?:\w+::\w+\s*\|?\s*)+)=>\s*("[^"]*")', f.body)) + " } }\n")
        f.rewrite("\"-\"", "\"-\"", "", must=False)
        take(f, f"impl {ty}", f"ensures r@ == x_text_{ty}(self)")
        f = src.fn("from_str", f"impl FromStr for {ty}")
        f.sig_rewrite("Self::Err", "Error", must=False)
        f.rewrite("Error::new($x_s)", "x_error()", "error texts are not specified", must=False)
        _str_match(f)
        rev = "".join(f"reveal_strlit({l}); " for l in lits)
        # every operator's text gives that operator, every other text an error
        f.at("start", "proof { " + rev + " x_literals(); }")
        out.append("")
        n = len(out) - 1
        take(f, f"impl {ty}", f"ensures r is Ok ==> x_text_{ty}(&r->Ok_0) == s@, r is Err ==> forall|o: {ty}| #[trigger] x_text_{ty}(&o) != s@, forall|o: {ty}| #[trigger] x_text_{ty}(&o) == s@ ==> r == Ok::<{ty}, Error>(o)")
        out[n] = ""
    lits = sorted(set(re.findall(r'"[^"]*"', src.fn("as_str", B).body + src.fn("as_str", "impl UnaryOperator").body)))
    rows = []
    for l in lits:
        s = l[1:-1]
        rows.append(f"{l}@.len() == {len(s)}" + "".join(f", {l}@[{i}] == '{ch}'" for i, ch in enumerate(s)))
    out.append("proof fn x_literals() ensures " + ", ".join(rows) + " { " + "".join(f"reveal_strlit({l}); " for l in lits) + "}\n")
    # the pratt crate
    P = "impl Precedence"
    for nm, sp in (("raise", "requires self.0 < u32::MAX ensures r.0 == self.0 + 1"), ("lower", "requires self.0 > 0 ensures r.0 == self.0 - 1"), ("normalize", "requires self.0 < 1000 ensures r.0 == 10 * self.0")):
        f = lib.fn(nm, P)
        f.sig_rewrite("mut self", "self", must=False)
        f.body = re.sub(r"\bself\b", "x_self", f.body)
        f.at("start", "let mut x_self = self;")
        take(f, P, sp)
    for nm, sp in (("min", "ensures r.0 == 0"), ("max", "ensures r.0 == u32::MAX")):
        f = lib.fn(nm, P)
        f.rewrite("std::u32::$m", "u32::$m", "path", must=False)
        take(f, P, sp)
    I, T = "impl BinaryOpParser", "pub trait PrattParser<Inputs>"

    def types(f):
        for a, b in (("&mut Peekable<Inputs>", "&mut XTail"), ("result::Result", "Result"), ("Self::Output", "Expression"), ("Self::Input", "BinaryOpToken"), ("Self::Error", "NoError"), ("Result<Affix>", "Result<Affix, NoError>"), ("Result<Expression>", "Result<Expression, NoError>"), ("inputs: Inputs", "inputs: XIntoIter<BinaryOpToken>")):
            f.sig_rewrite(a, b, must=False)
        f.rewrite("unreachable!()", "x_unreachable()", "has to be unreachable", must=False)
        libchain.options(f, result=("map_err",))
        return f
    K = "impl<I> PrattParser<I> for BinaryOpParser"
    OPOF = "10 * x_prec(op_of(({0})->Operator_0)) as int"
    f = types(pr.fn("query", K))
    f.rewrite("operator.precedence()", "x_op(operator).precedence()", "deref to the operator", must=False)
    f.rewrite("u32::from($x_s)", "($x_s as u32)", "std: conversion of a u8", must=False)
    take(f, I, "ensures r == Ok::<Affix, NoError>(affix(*token))")
    out.append("pub open spec fn affix(t: BinaryOpToken) -> Affix { match t { BinaryOpToken::Operator(o) => Affix::Infix(Precedence(x_prec(op_of(o)) as u32), Associativity::Left), BinaryOpToken::Expression(_) => Affix::Nilfix } }\n")
    take(types(pr.fn("primary", K)), I, "requires token is Expression ensures r == Ok::<Expression, NoError>(token->Expression_0)")
    f = types(pr.fn("infix", K))
    take(f, I, "requires token is Operator ensures r is Ok, core(r->Ok_0) == bin(core(lhs), op_of(token->Operator_0), core(rhs))")
    take(types(pr.fn("prefix", K)), I, "requires false")
    fns[-1].dead = True
    take(types(pr.fn("postfix", K)), I, "requires false")
    fns[-1].dead = True
    f = types(lib.fn("lbp", T))
    take(f, I, "requires info is Infix ==> info->Infix_0.0 < 1000, !(info is Postfix) ensures info is Infix ==> r.0 == 10 * info->Infix_0.0, info is Nilfix ==> r.0 == 0")
    f = types(lib.fn("nbp", T))
    take(f, I, "requires info is Infix ==> info->Infix_0.0 < 1000 && info->Infix_1 is Left, !(info is Postfix) ensures info is Infix ==> r.0 == 10 * info->Infix_0.0 + 1, !(info is Infix) ==> r.0 == u32::MAX")
    f = types(lib.fn("nud", T))
    take(f, I, "requires info == affix(head), head is Expression ensures r is Ok, r->Ok_0 == head->Expression_0, final(tail)@ == old(tail)@")
    f = types(lib.fn("led", T))
    f.at("start", "proof { levels_agree(); }")
    take(f, I, """requires info == affix(head), head is Operator, chain(old(tail)@)
ensures r is Ok, parsed(old(tail)@, final(tail)@, bind(head), tree(old(tail)@.take(old(tail)@.len() - final(tail)@.len()))),
    core(r->Ok_0) == bin(core(lhs), op_of(head->Operator_0), tree(old(tail)@.take(old(tail)@.len() - final(tail)@.len())))""")
    f = types(lib.fn("parse_input", T))
    f.rewrite("rbp < lbp && lbp < nbp", "rbp.0 < lbp.0 && lbp.0 < nbp.0", "derived comparison", must=False)
    f.at("start", "proof { levels_agree(); }")
    f.loop(0, """invariant node is Ok, tail_ok(tail@), tail@.len() < old(tail)@.len(), chain(old(tail)@), tail@ == old(tail)@.skip(old(tail)@.len() - tail@.len()),
    core(node->Ok_0) == tree(old(tail)@.take(old(tail)@.len() - tail@.len())),
    forall|i: int| 0 <= i < old(tail)@.len() - tail@.len() && (#[trigger] old(tail)@[i]) is Operator ==> bind(old(tail)@[i]) > rbp.0,
    forall|i: int| 0 <= i < old(tail)@.len() - tail@.len() && (#[trigger] old(tail)@[i]) is Operator && tail@.len() > 0 ==> bind(tail@[0]) <= bind(old(tail)@[i]),
    tail@.len() > 0 ==> bind(tail@[0]) < nbp.0
ensures node is Ok, parsed(old(tail)@, tail@, rbp.0 as int, core(node->Ok_0))""", start="let ghost x_t = tail@; let ghost x_n = old(tail)@.len() - tail@.len();", end="""proof {
    let all = old(tail)@; let m = x_t.len() - 1 - tail@.len(); let b = x_t.drop_first().take(m as int); let a = all.take(x_n as int); let o = x_t[0];
    levels_agree();
    assert(forall|i: int| 0 <= i < b.len() ==> b[i] == all[x_n + 1 + i]);
    assert(a.push(o) + b =~= all.take(all.len() - tail@.len()));
    joined(a, o, b);
    assert forall|i: int| 0 <= i < all.len() - tail@.len() && (#[trigger] all[i]) is Operator implies bind(all[i]) > rbp.0 && (tail@.len() > 0 ==> bind(tail@[0]) <= bind(all[i])) by {
        if i > x_n { assert(all[i] == b[i - x_n - 1]); assert(b[i - x_n - 1] == x_t.drop_first()[i - x_n - 1]); }
    }
}""")
    take(f, I, """requires chain(old(tail)@) ensures r is Ok, parsed(old(tail)@, final(tail)@, rbp.0 as int, core(r->Ok_0))""")
    f = types(lib.fn("parse", T))
    f.rewrite("&mut inputs.peekable()", "&mut x_tail", "a named temporary", must=False)
    f.at("start", "proof { levels_agree(); assert(forall|t: Seq<BinaryOpToken>| #[trigger] t.take(t.len() as int) =~= t); } let mut x_tail = inputs.peekable();")
    take(f, I, "requires chain(inputs.left()) ensures r is Ok, core(r->Ok_0) == tree(inputs.left())")
    f = pr.fn("parse_binary_op")
    f.rewrite("debug_assert!($x_s);", "", "debug assertion", must=False)
    f.rewrite("tokens.into_iter()", "x_into_iter(tokens)", "std to its contract", must=False)
    toks = rx.lex(f.body)
    m = re.search(r"\.expect\(", f.body)
    if m:
        i = next(i for i, t in enumerate(toks) if t.s == "." and t.a == m.start())
        s = libchain.receiver(toks, i)
        e = rx.match_close(toks, i + 2)
        f.body = f.body[:toks[s].a] + "x_expect(" + f.body[toks[s].a:toks[i - 1].b] + ")" + f.body[toks[e].b:]
        f.rewrites.append("parse_binary_op: expect to its contract")
    take(f, None, "requires chain(tokens@) ensures core(r) == tree(tokens@)")
    f = st.fn("on_binary_ops")if False else st.fn("on_binary_ops", next(h for h in ("impl ExprParseState",)))
    f.rewrite("lhs_expr.decor_mut().set_suffix(RawString::from_span($s))", "lhs_expr.x_set_suffix($s)", "decor is not part of the grouping", must=False)
    f.rewrite("self.current.take().unwrap()", "x_take(&mut self.current)", "std to its contract", must=False)
    f.rewrite("self.ws.take()", "x_take_opt(&mut self.ws)", "std to its contract", must=False)
    libchain.for_loops(f)
    f.rewrite("(ops).x_into_iter()", "x_into_iter(ops)", "", must=False)
    f.attrs = ""
    f.loop(0, """invariant x_it0.left().len() <= ops@.len(), x_it0.left() =~= ops@.skip(ops@.len() - x_it0.left().len()), tokens@ =~= tokens_of(core0, ops@.take(ops@.len() - x_it0.left().len()), tokens@[0])
        , tokens@.len() > 0, tokens@[0] is Expression, core(tokens@[0]->Expression_0) == core0
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""", after="""let ghost x_tk = tokens@;
proof { assert(ops@.take(ops@.len() as int) =~= ops@); assert(x_tk =~= tokens_of(core0, ops@, BinaryOpToken::Expression(x_tk[0]->Expression_0))); }""")
    f.at("end", "proof { let e = x_tk[0]->Expression_0; assert(core(e) == core0); assert(core(self.current->Some_0) == tree(tokens_of(core(e), ops@, BinaryOpToken::Expression(e)))); }")
    f.before_loop(0, "let ghost core0 = core(tokens@[0]->Expression_0);")
    out.append("""
#[verifier::external_body] pub fn x_take<T>(o: &mut Option<T>) -> (r: T) requires *old(o) is Some ensures *old(o) == Some(r), *final(o) is None { o.take().unwrap() }
#[verifier::external_body] pub fn x_take_opt<T>(o: &mut Option<T>) -> (r: Option<T>) ensures *old(o) == r, *final(o) is None { o.take() }
// the operand followed by the operators and their operands, nothing dropped
pub open spec fn tokens_of(c: Core, ops: Seq<(Decorated<BinaryOperator>, Expression)>, first: BinaryOpToken) -> Seq<BinaryOpToken> {
    Seq::new((2 * ops.len() + 1) as nat, |i: int| if i == 0 { first } else if i % 2 == 1 { BinaryOpToken::Operator(ops[(i - 1) / 2].0) } else { BinaryOpToken::Expression(ops[(i - 2) / 2].1) })
}
""")
    take(f, "impl ExprParseState", """requires old(self).current is Some, ops@.len() < 0x1000_0000_0000_0000
ensures final(self).current is Some, exists|e: Expression| core(e) == core(old(self).current->Some_0) && core(final(self).current->Some_0) == tree(#[trigger] tokens_of(core(e), ops@, BinaryOpToken::Expression(e)))""")
    return out, fns
