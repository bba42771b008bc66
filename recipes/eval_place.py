"""C23: evaluating in place (crates/hcl-rs/src/eval/impls.rs, error.rs; From<Value> in expr/mod.rs).

The contracts say what `evaluate_in_place` leaves behind in terms of `ev`, which is what the
contracts of C09-C14 say `evaluate` returns; those are used here and proved there.
"""
import re
import libchain
import libeval
import libplace
import rx

NAME, USES = "eval_place", libeval.USES
I, E, X = libeval.I, "crates/hcl-rs/src/eval/error.rs", "crates/hcl-rs/src/expr/mod.rs"
S = "crates/hcl-rs/src/structure/"
OTHERS = {"expression", "ctx_child_expr", "evaluate_bool", "evaluate_for_directive", "template_evaluate"}

TYPES = r'''
impl Clone for BlockLabel { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl XIntoIterable<Error> for Errors { open spec fn xs(self) -> Seq<Error> { self.inner@ } #[verifier::external_body] fn x_into_iter(self) -> (r: XIntoIter<Error>) { unimplemented!() } }
// the errors of a result; an `Err` has at least one
pub open spec fn errs<T>(r: Result<T, Errors>) -> Seq<Error> { match r { Ok(_) => Seq::empty(), Err(e) => e.inner@ } }
pub open spec fn good<T>(r: Result<T, Errors>) -> bool { r is Err ==> errs(r).len() > 0 }
'''

WRAPPERS = r'''
// ---- trusted wrappers --------------------------------------------------------------------------------
// one step of `iter_mut`: the element is changed where it is (it is taken out, changed and put back)
#[verifier::external_body] pub fn x_out<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> #[trigger] final(v)@[j] == old(v)@[j] { unimplemented!() }
#[verifier::external_body] pub fn x_in<T>(v: &mut Vec<T>, i: usize, x: T) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
#[verifier::external_body] pub fn x_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { v.drain(..).collect() }
#[verifier::external_body] pub fn x_extend_iter<T>(v: &mut Vec<T>, i: XIntoIter<T>) ensures final(v)@ == old(v)@ + i.left() { unimplemented!() }
#[verifier::external_body] pub fn x_labels(v: &Vec<BlockLabel>) -> (r: Vec<BlockLabel>) ensures r == *v { v.clone() }
#[verifier::external_body] pub fn x_one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { vec![x] }
// keys that are distinct are taken to stay distinct when they are evaluated (where they do not, entries are merged: a known finding of C23)
impl Object<ObjectKey, Expression> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.entries@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.entries@.len() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: ObjectKey, v: Expression) ensures final(self).entries@ == old(self).entries@.push((k, v)) { unimplemented!() }
}
pub trait XErrs { fn x_errs(self) -> (r: Errors) ensures r.inner@.len() > 0; }
// `?` on an error of the same type hands it on, on one error it makes a list of it
pub trait XTry: Sized { spec fn fine(self) -> bool; spec fn list(self) -> Seq<Error>; fn x_errs(self) -> (r: Errors) requires self.fine() ensures r.inner@ == self.list(), r.inner@.len() > 0; }
impl XTry for Errors { open spec fn fine(self) -> bool { self.inner@.len() > 0 } open spec fn list(self) -> Seq<Error> { self.inner@ } fn x_errs(self) -> (r: Errors) { self } }
impl XTry for Error { open spec fn fine(self) -> bool { true } open spec fn list(self) -> Seq<Error> { seq![self] } fn x_errs(self) -> (r: Errors) { errors_from(self) } }
'''


# ---------------------------------------------------------------------------------- desugaring
def tail_try(f):
    """`|()| .. Ok(e?)` as the last expression of a closure: leaving the closure with the error of e"""
    toks = rx.lex(f.body)
    for i in range(2, len(toks) - 3):
        if not (toks[i].s == "?" and toks[i + 1].s == ")"):
            continue
        o = libchain.match_open(toks, i + 1)
        if toks[o - 1].s != "Ok":
            continue
        # what follows closes the closure: blocks, then the call it is an argument of
        j = i + 2
        while toks[j].s in ("}", ","):
            j += 1
        if toks[j].s != ")":
            continue
        c = libchain.match_open(toks, j)
        if toks[c + 1].s not in ("|", "||", "move"):
            continue
        e = f.body[toks[o + 1].a:toks[i - 1].b]
        f.rewrites.append(f"{f.name}: `Ok(e?)` at the end of a closure as the match it stands for")
        f.body = f.body[:toks[o - 1].a] + f"(match {e} {{ Ok(x_t) => Ok(x_t), Err(x_e) => Err(x_e.x_errs()) }})" + f.body[toks[i + 1].b:]
        return tail_try(f)
    return f


def tries(f):
    """`e?` as the match it stands for"""
    while True:
        toks = rx.lex(f.body)
        i = next((i for i, t in enumerate(toks) if t.s == "?"), None)
        if i is None:
            return f
        s = libchain.receiver(toks, i)
        e = f.body[toks[s].a:toks[i - 1].b]
        f.rewrites.append(f"{f.name}: `?` as the match it stands for")
        f.body = f.body[:toks[s].a] + f"(match {e} {{ Ok(x_t) => x_t, Err(x_e) => return Err(x_e.x_errs()) }})" + f.body[toks[i].b:]


def folds(f, places):
    """`v.iter_mut()[.take_while(c)].fold(init, |acc, x| body)` (or drain(..)) as a while loop that
    takes each element out, runs the body on it and puts it back"""
    k = 0
    while True:
        toks = rx.lex(f.body)
        i = next((i for i in range(1, len(toks) - 2) if toks[i].s == "." and toks[i + 1].s == "fold" and toks[i + 2].s == "("), None)
        if i is None:
            return f
        args, e = libchain.split_args(f.body, toks, i + 2)
        s = libchain.receiver(toks, i)
        r = re.sub(r"\s+", "", f.body[toks[s].a:toks[i - 1].b])
        cond = ""
        if r.endswith(")") and ".take_while(" in r:
            j = next(j for j in range(s, i) if toks[j].s == "." and toks[j + 1].s == "take_while")
            c, ce = libchain.split_args(f.body, toks, j + 2)
            if ce != i - 1:
                raise rx.Lost("take_while is not the last adapter")
            p, b = libchain.closure(c[0])
            cond = f"let x_go{k} = {{ let {p[0]} = &{{base}}[x_i{k}]; {b} }}; if !x_go{k} {{ break; }}"
            r = re.sub(r"\s+", "", f.body[toks[s].a:toks[j - 1].b])
        m = re.fullmatch(r"(.+?)\.(iter_mut\(\)|drain\(\.\.\))", r)
        if not m or len(args) != 2:
            raise rx.Lost("unsupported fold over " + r)
        base, owned = places.get(m.group(1), m.group(1)), m.group(2).startswith("drain")
        params, body = libchain.closure(args[1])
        if re.search(r"\?|\breturn\b", body):
            raise rx.Lost("closure body leaves the closure")
        pre = ""
        if owned:
            pre, base = f"let mut x_d{k} = x_drain(&mut {base});", f"x_d{k}"
        cond = cond.replace("{base}", base)
        item = f"x_m{k}" if owned else f"&mut x_m{k}"
        back = "" if owned else f"x_in(&mut {base}, x_i{k}, x_m{k});"
        out = (f"{{ {pre} let mut x_acc{k}: Result<(), Errors> = {args[0]}; let mut x_i{k}: usize = 0; while x_i{k} < {base.lstrip("*")}.len() {{ {cond} "
               f"let mut x_m{k} = x_out(&mut {base}, x_i{k}); {{GHOST{k}}} x_acc{k} = {{ let {params[0]} = x_acc{k}; let {params[1]} = {item}; {body} }}; {back} x_i{k} = x_i{k} + 1; }} x_acc{k} }}")
        out = out.replace(f"{{GHOST{k}}}", f"x_mark{k}();")
        f.rewrites.append(f"{f.name}: `{r}.fold(..)` as a while loop")
        f.body = f.body[:toks[s].a] + out + f.body[toks[e].b:]
        k += 1


def body(f, places=(), ghost=""):
    f.rewrite("expr::$f", "$f", "path", must=False)
    f.rewrite("template::$f", "$f", "path", must=False)
    f.rewrite("Expression::from($x)", "Expression::from_bool($x)", "From<bool> for Expression", must=False)
    f.rewrite("$x.into()", "Expression::from_value($x)", "From<Value> for Expression", must=False)
    tail_try(f)
    folds(f, dict(places))
    libchain.methods(f, {"add_errors": "x_add_errors({r}, {a})"})
    libchain.options(f, result=("and_then", "map"))
    tries(f)
    f.body = f.body.replace("x_mark0();", ghost)


def wrap(f, start, end):
    f.body = "{ " + start + " let x_r = " + f.body + "; proof { " + end + " } x_r }"


REGS = []


def reg(id, src, inside, name, impl, contract, **k):
    REGS.append(libeval.Reg(id, "C23", src, inside, name, impl, contract, **k))


def place(id, inside, impl, contract, body=body, **k):
    reg(id, I, inside, "evaluate_in_place", impl, contract, sig=lambda f: f.sig_rewrite("EvalResult<(), Errors>", "Result<(), Errors>", must=False), body=body, **k)


# errors
reg("errors_from", E, "impl From<Error> for Errors", "from", None, "ensures r.inner@ == seq![error]", rename="errors_from",
    sig=lambda f: f.sig_rewrite("Self", "Errors", must=False), body=lambda f: f.rewrite("vec![$x]", "x_one($x)", "vec! to its contract", must=False))
reg("extend_from_result", E, "impl Errors", "extend_from_result", "impl Errors", "ensures final(self).inner@ == old(self).inner@ + errs(res)",
    sig=lambda f: f.sig_rewrite("EvalResult<(), Errors>", "Result<(), Errors>", must=False),
    body=lambda f: (f.rewrite("$x.inner.extend($y)", "x_extend_iter(&mut $x.inner, $y.x_into_iter())", "std to its contract", must=False), f.at("end", "proof { assert(old(self).inner@ + Seq::<Error>::empty() =~= old(self).inner@); }")))
reg("add_errors", E, "impl EvalResultExt for EvalResult<(), Errors>", "add_errors", None, "ensures errs(r) == errs(x_self) + errs(rhs), r is Err == (x_self is Err || rhs is Err)", rename="x_add_errors",
    sig=lambda f: f.sig_rewrite("self, rhs: Self) -> Self", "x_self: Result<(), Errors>, rhs: Result<(), Errors>) -> Result<(), Errors>"),
    body=lambda f: (setattr(f, "body", re.sub(r"\bself\b", "x_self", f.body)), f.at("start", "proof { assert(Seq::<Error>::empty() + errs(rhs) =~= errs(rhs)); assert(errs(x_self) + Seq::<Error>::empty() =~= errs(x_self)); }")))

# values as expressions
reg("from_bool", X, "impl From<bool> for Expression", "from", "impl Expression", "ensures r == Expression::Bool(b)", rename="from_bool")


def collect_value(f):
    f.rewrite("array.into_iter().collect()", "Expression::from_array(array)", "collect to the from_iter it calls", must=False)
    f.rewrite("object.into_iter().collect()", "Expression::from_entries(object)", "collect to the from_iter it calls", must=False)


def collect_array(f):
    f.rewrite("Into::into", "|x_x| Expression::from_value(x_x)", "Into<Expression> for Value", must=False)
    libchain.chains(f, plain=True)
    f.loop(0, """invariant iter@.len() == x_it0.left().len() + x_out0@.len(), x_it0.left() =~= iter@.skip(x_out0@.len() as int),
    forall|j: int| 0 <= j < x_out0@.len() ==> is_lit(#[trigger] x_out0@[j], iter@[j])
ensures x_it0.left().len() == 0""")


def collect_entries(f):
    f.rewrite("k.into()", "ObjectKey::of_string(k)", "Into<ObjectKey> for String", must=False)
    f.rewrite("v.into()", "Expression::from_value(v)", "Into<Expression> for Value", must=False)
    libchain.chains(f, plain=True, out_new="Object::with_capacity(0)", out_push="let (x_k0, x_v0) = {x}; {o}.insert(x_k0, x_v0);")
    f.loop(0, """invariant ents(iter).len() == x_it0.left().len() + x_out0.entries@.len(), x_it0.left() =~= ents(iter).map_values(|e: (Seq<char>, Value)| (mks(e.0), e.1)).skip(x_out0.entries@.len() as int),
    forall|j: int| 0 <= j < x_out0.entries@.len() ==> lit_key((#[trigger] x_out0.entries@[j]).0, ents(iter)[j].0) && is_lit(x_out0.entries@[j].1, ents(iter)[j].1)
ensures x_it0.left().len() == 0""")


reg("from_value", X, "impl From<Value> for Expression", "from", "impl Expression", "ensures is_lit(r, value)", rename="from_value", body=collect_value)
reg("from_array", X, "impl<T: Into<Expression>> FromIterator<T> for Expression", "from_iter", "impl Expression", "ensures is_lit(r, Value::Array(iter))", rename="from_array",
    sig=lambda f: f.sig_rewrite("<I: IntoIterator<Item = T>>(iter: I)", "(iter: Vec<Value>)"), body=collect_array)
reg("from_entries", X, "impl<K: Into<ObjectKey>, V: Into<Expression>> FromIterator<(K, V)> for Expression", "from_iter", "impl Expression", "ensures is_lit(r, Value::Object(iter))", rename="from_entries",
    sig=lambda f: f.sig_rewrite("<I: IntoIterator<Item = (K, V)>>(iter: I)", "(iter: Map<String, Value>)"), body=collect_entries)
reg("key_of", X, "impl<T> From<T> for ObjectKey", "from", "impl ObjectKey", "ensures lit_key(r, value@)", rename="of_string",
    sig=lambda f: f.sig_rewrite("value: T", "value: String"), body=lambda f: f.rewrite("value.into()", "Expression::String(value)", "From<String> for Expression", must=False))

# expressions
EXPR = """ensures good(r), rel(*old({0}), *final({0}), ctx.env()), r is Err ==> ev(*old({0}), ctx.env()) is None"""
place("p_expression", "impl Evaluate for Expression", "impl Expression",
      EXPR.format("self") + ",\n    r is Ok ==> ev(*old(self), ctx.env()) is Some && is_lit(*final(self), ev(*old(self), ctx.env())->Some_0)",
      body=lambda f: (body(f), wrap(f, "let ghost x_o = *self; proof { reveal(rel); ext_same(ctx.env()); }", "if x_r is Ok && ev(x_o, ctx.env()) is Some && is_lit(*self, ev(x_o, ctx.env())->Some_0) { rel_lit(x_o, *self, ctx.env()); }")))
reg("p_nested", I, None, "evaluate_nested_exprs", None, EXPR.format("expr"), sig=lambda f: f.sig_rewrite("EvalResult<(), Errors>", "Result<(), Errors>", must=False),
    body=lambda f: (body(f), wrap(f, "let ghost x_o = *expr;", "parts_rel(x_o, *expr, ctx.env()); if x_r is Err { whole_fails(x_o, ctx.env()); }")))
LOOP = """invariant x_i0 <= {v}@.len() == x_o.len(), good(x_acc0), forall|j: int| 0 <= j < x_i0 ==> {rel}(#[trigger] x_o[j], {v}@[j], ctx.env()), forall|j: int| x_i0 <= j < x_o.len() ==> {v}@[j] == #[trigger] x_o[j],
    x_acc0 is Ok ==> forall|j: int| 0 <= j < x_i0 ==> lit_of(#[trigger] x_o[j], {v}@[j], ctx.env()),
    x_acc0 is Err ==> exists|j: int| 0 <= j < x_o.len() && ev(#[trigger] x_o[j], ctx.env()) is None
decreases {v}@.len() - x_i0"""
place("p_vec", "impl<T> Evaluate for Vec<T>", "impl XPlace for Vec<Expression>", "",
      body=lambda f: (setattr(f, "vis", ""), body(f, {"self": "*self"}, "let ghost x_e = x_o[x_i0 as int];"), f.at("start", "let ghost x_o = old(self)@;"),
                      f.loop(0, LOOP.format(v="self", rel="rel"))))
WRAPPERS += r'''
pub trait XPlace { spec fn xl(&self) -> Seq<Expression>;
    fn evaluate_in_place(&mut self, ctx: &Context) -> (r: Result<(), Errors>)
        ensures good(r), final(self).xl().len() == old(self).xl().len(), forall|j: int| 0 <= j < old(self).xl().len() ==> rel(#[trigger] old(self).xl()[j], final(self).xl()[j], ctx.env()),
            r is Ok ==> forall|j: int| 0 <= j < old(self).xl().len() ==> lit_of(#[trigger] old(self).xl()[j], final(self).xl()[j], ctx.env()),
            r is Err ==> exists|j: int| 0 <= j < old(self).xl().len() && ev(#[trigger] old(self).xl()[j], ctx.env()) is None;
}
'''
REGS[-1].extra = "open spec fn xl(&self) -> Seq<Expression> { self@ }\n"

place("p_object", "impl<K, V> Evaluate for Object<K, V>", "impl Object<ObjectKey, Expression>",
      """ensures good(r), rel(Expression::Object(*old(self)), Expression::Object(*final(self)), ctx.env()),
    r is Ok ==> final(self).entries@.len() == old(self).entries@.len() && forall|j: int| 0 <= j < old(self).entries@.len() ==> place_key((#[trigger] old(self).entries@[j]).0, final(self).entries@[j].0, ctx.env()) && lit_of(old(self).entries@[j].1, final(self).entries@[j].1, ctx.env()),
    r is Err ==> ev_object(*old(self), old(self).entries@.len(), ctx.env()) is None""",
      body=lambda f: (body(f, {"self": "self.entries"}, "let ghost x_e = x_o[x_i0 as int];"), f.at("start", "let ghost x_o = old(self).entries@;"),
                      f.rewrite("*self = $x; res", "*self = $x; proof { rel_object(*old(self), *final(self), ctx.env()); x_none(*old(self), ctx.env()); } res", "lemma", must=False),
                      f.loop(0, """invariant x_d0@.len() == x_o.len(), x_i0 == new_object.entries@.len(), x_i0 <= x_o.len(), x_o == old(self).entries@, good(x_acc0), forall|j: int| x_i0 <= j < x_o.len() ==> x_d0@[j] == #[trigger] x_o[j],
    forall|j: int| 0 <= j < x_i0 ==> krel((#[trigger] x_o[j]).0, new_object.entries@[j].0, ctx.env()) && rel(x_o[j].1, new_object.entries@[j].1, ctx.env()),
    x_acc0 is Ok ==> forall|j: int| 0 <= j < x_i0 ==> place_key((#[trigger] x_o[j]).0, new_object.entries@[j].0, ctx.env()) && lit_of(x_o[j].1, new_object.entries@[j].1, ctx.env()),
    x_acc0 is Err ==> exists|j: int| 0 <= j < x_o.len() && (ev_key((#[trigger] x_o[j]).0, ctx.env()) is None || ev(x_o[j].1, ctx.env()) is None)
decreases x_o.len() - x_i0""")))
WRAPPERS += r'''
pub open spec fn lit_of(e: Expression, f: Expression, c: Env) -> bool { ev(e, c) is Some && is_lit(f, ev(e, c)->Some_0) }
pub open spec fn place_key(k: ObjectKey, l: ObjectKey, c: Env) -> bool { match k { ObjectKey::Expression(e) => key_done(e, l, c), _ => l == k } }
pub open spec fn key_done(e: Expression, k: ObjectKey, c: Env) -> bool { k is Expression && lit_of(e, k->Expression_0, c) }
pub proof fn x_none(o: Object<ObjectKey, Expression>, c: Env)
    ensures (exists|j: int| 0 <= j < o.entries@.len() && (ev_key((#[trigger] o.entries@[j]).0, c) is None || ev(o.entries@[j].1, c) is None)) ==> ev_object(o, o.entries@.len(), c) is None
{
    if exists|j: int| 0 <= j < o.entries@.len() && (ev_key((#[trigger] o.entries@[j]).0, c) is None || ev(o.entries@[j].1, c) is None) {
        let j = choose|j: int| 0 <= j < o.entries@.len() && (ev_key((#[trigger] o.entries@[j]).0, c) is None || ev(o.entries@[j].1, c) is None);
        strict_object(o, j, o.entries@.len(), c);
    }
}
'''
place("p_key", "impl Evaluate for ObjectKey", "impl ObjectKey",
      """ensures good(r), krel(*old(self), *final(self), ctx.env()), r is Err ==> ev_key(*old(self), ctx.env()) is None,
    r is Ok ==> place_key(*old(self), *final(self), ctx.env()), !(*old(self) is Expression) ==> r is Ok""",
      body=lambda f: (body(f), wrap(f, "let ghost x_o = *self; proof { key_rel_all(ctx.env()); }", "key_rel(x_o, *self, ctx.env());")))
LIT = "lit_of({0}, {1}, ctx.env())"
DONE = {"FuncCall": "forall|j: int| 0 <= j < old(self).args@.len() ==> lit_of(#[trigger] old(self).args@[j], final(self).args@[j], ctx.env())",
        "Conditional": "lit_of(old(self).cond_expr, final(self).cond_expr, ctx.env()) && (ev(old(self).cond_expr, ctx.env())->Some_0 == Value::Bool(true) ==> lit_of(old(self).true_expr, final(self).true_expr, ctx.env())) && (ev(old(self).cond_expr, ctx.env())->Some_0 == Value::Bool(false) ==> lit_of(old(self).false_expr, final(self).false_expr, ctx.env()))",
        "UnaryOp": "lit_of(old(self).expr, final(self).expr, ctx.env())", "BinaryOp": "lit_of(old(self).lhs_expr, final(self).lhs_expr, ctx.env()) && lit_of(old(self).rhs_expr, final(self).rhs_expr, ctx.env())",
        "Traversal": "forall|j: int| 0 <= j < old(self).operators@.len() && !splits_before(old(self).operators@, j) && #[trigger] old(self).operators@[j] is Index ==> place_op(old(self).operators@[j], final(self).operators@[j], ctx.env())",
        "ForExpr": "lit_of(old(self).collection_expr, final(self).collection_expr, ctx.env())"}
DONE = {k: ",\n    r is Ok ==> " + v for k, v in DONE.items()}
for id, ty, sem, lemma in (("p_func_call", "FuncCall", "ev_call", "rel_args(x_o, *self, ctx.env()); if x_r is Err { let j = choose|j: int| 0 <= j < x_o.args@.len() && ev(#[trigger] x_o.args@[j], ctx.env()) is None; strict_args(x_o, j, x_o.args@.len(), ctx.env()); }"),
                           ("p_conditional", "Conditional", "ev_cond", "rel_lit(x_o.cond_expr, self.cond_expr, ctx.env()); rel_same(x_o.true_expr, ctx.env()); rel_same(x_o.false_expr, ctx.env()); rel_cond(x_o, *self, ctx.env());"),
                           ("p_operation", "Operation", "ev_op", "rel_op(x_o, *self, ctx.env());"),
                           ("p_unary", "UnaryOp", "ev_unary", "rel_unary(x_o, *self, ctx.env());"),
                           ("p_binary", "BinaryOp", "ev_binary", "rel_binary(x_o, *self, ctx.env());"),
                           ("p_for_expr", "ForExpr", "ev_for", "rel_for(x_o, *self, ctx.env());"),
                           ("p_traversal", "Traversal", "ev_trav", "")):
    def go(f, id=id, lemma=lemma):
        body(f, {}, "let ghost x_e = x_o.operators@[x_i0 as int];")
        if lemma:
            wrap(f, "let ghost x_o = *self;", lemma)
        if id == "p_traversal":
            wrap(f, "let ghost x_o = *self; proof { rel_same_all(ctx.env()); }", """rel_trav(x_o, *self, ctx.env());
    if x_r is Err { let j = choose|j: int| 0 <= j < x_o.operators@.len() && failing(#[trigger] x_o.operators@[j], ctx.env()) && !splits_before(x_o.operators@, j);
        if ev(x_o.expr, ctx.env()) is Some { strict_trav(ev(x_o.expr, ctx.env())->Some_0, x_o.operators@, j, ctx.env()); } }""")
            f.loop(0, """invariant_except_break x_i0 <= self.operators@.len(), !splits_before(x_o.operators@, x_i0 as int)
invariant x_i0 <= self.operators@.len() == x_o.operators@.len(), self.expr == x_o.expr, x_o == *old(self), good(x_acc0), forall|j: int| 0 <= j < x_i0 ==> orel(#[trigger] x_o.operators@[j], self.operators@[j], ctx.env()), forall|j: int| x_i0 <= j < x_o.operators@.len() ==> self.operators@[j] == #[trigger] x_o.operators@[j],
    x_acc0 is Ok ==> forall|j: int| 0 <= j < x_i0 && #[trigger] x_o.operators@[j] is Index ==> place_op(x_o.operators@[j], self.operators@[j], ctx.env()),
    x_acc0 is Err ==> exists|j: int| 0 <= j < x_o.operators@.len() && failing(#[trigger] x_o.operators@[j], ctx.env()) && !splits_before(x_o.operators@, j)
decreases self.operators@.len() - x_i0""")
    place(id, f"impl Evaluate for {ty}", f"impl {ty}",
          f"ensures good(r), forall|d: Env| ext(ctx.env(), d) ==> #[trigger] {sem}(*final(self), d) == {sem}(*old(self), d), r is Err ==> {sem}(*old(self), ctx.env()) is None" + DONE.get(ty, ""), body=go)
WRAPPERS += r'''
pub open spec fn place_op(o: TraversalOperator, p: TraversalOperator, c: Env) -> bool { p is Index && lit_of(o->Index_0, p->Index_0, c) }
pub open spec fn failing(o: TraversalOperator, c: Env) -> bool { o is Index && ev(o->Index_0, c) is None }
'''

# templates
place("p_template", "impl Evaluate for Template", "impl Template",
      "ensures good(r), trel(*old(self), *final(self), ctx.env()), r is Ok == showable(*old(self), ctx.env())",
      body=lambda f: (f.rewrite("self.elements_mut().iter_mut()", "self.elements.iter_mut()", "elements_mut is the field", must=False), body(f, {}, "let ghost x_e = x_m0;"),
                      wrap(f, "let ghost x_o = *self; proof { rel_same_all(ctx.env()); trel_same_all(ctx.env()); ext_same(ctx.env()); }", "rel_tmpl(x_o, *self, ctx.env());"),
                      f.loop(0, """invariant x_i0 <= self.elements@.len() == x_o.elements@.len(), x_o == *old(self), good(x_acc0), forall|j: int| 0 <= j < x_i0 ==> erel(#[trigger] x_o.elements@[j], self.elements@[j], ctx.env()), forall|j: int| x_i0 <= j < x_o.elements@.len() ==> self.elements@[j] == #[trigger] x_o.elements@[j],
    x_acc0 is Ok == (forall|j: int| 0 <= j < x_i0 ==> shows(#[trigger] x_o.elements@[j], ctx.env()))
decreases self.elements@.len() - x_i0""", end="""proof { let x_g = self.elements@[x_i0 - 1]; assert(x_e == x_o.elements@[x_i0 - 1]); elem_done(x_e, x_g, ctx.env()); shows_are(x_e, ctx.env());
    match (x_e, x_g) {
        (Element::Directive(a), Element::Directive(b)) => { match (*a, *b) { (Directive::If(f), Directive::If(g)) => { use_rel(f.cond_expr, g.cond_expr, ctx.env(), ctx.env()); }, (Directive::For(f), Directive::For(g)) => { rel_each(f, g, ctx.env()); dir_means(f, ctx.env()); assert(dir_text(Directive::For(g), ctx.env()) == dir_text(Directive::For(f), ctx.env())); }, _ => {} } },
        _ => {},
    } }""")))

# bodies
for id, ty, ok, val, same in (("body", "Body", "able", "valued", "brel"), ("structure", "Structure", "able_s", "valued_s", "srel")):
    place("p_" + id, f"impl Evaluate for {ty}", f"impl {ty}",
          f"ensures good(r), r is Ok == {ok}(*old(self), ctx.env()), {same}(*old(self), *final(self), ctx.env()), r is Ok ==> {val}(*old(self), *final(self), ctx.env())",
          body=lambda f, id=id: body(f, {"self": "self.0"}, "let ghost x_e = x_o[x_i0 as int];") or (id == "body" and (f.at("start", "let ghost x_o = self.0@;"), f.loop(0, """invariant x_i0 <= self.0@.len() == x_o.len(), x_o == old(self).0@, good(x_acc0), forall|j: int| 0 <= j < x_i0 ==> srel(#[trigger] x_o[j], self.0@[j], ctx.env()), forall|j: int| x_i0 <= j < x_o.len() ==> self.0@[j] == #[trigger] x_o[j],
    x_acc0 is Ok ==> forall|j: int| 0 <= j < x_i0 ==> valued_s(#[trigger] x_o[j], self.0@[j], ctx.env()),
    x_acc0 is Ok == (forall|j: int| 0 <= j < x_i0 ==> able_s(#[trigger] x_o[j], ctx.env()))
decreases self.0@.len() - x_i0"""))))
    reg("e_" + id, I, f"impl Evaluate for {ty}", "evaluate", f"impl {ty}", f"ensures r is Ok == {ok}(*self, ctx.env()), r is Ok ==> {val}(*self, r->Ok_0, ctx.env())",
        sig=lambda f, ty=ty: f.sig_rewrite("Self::Output", ty),
        body=lambda f, id=id: (f.rewrite("self.iter()", "self.0.iter()", "the structures of a body", must=False), libchain.chains(f), libchain.options(f, result=("map",)),
                               f.rewrite("Ok(x_out0)", "Ok(Body(x_out0))", "collect to the from_iter of Body", must=False), f.body) and (id == "body" and f.loop(0, """invariant x_i0 <= self.0@.len(), x_out0@.len() == x_i0, forall|j: int| 0 <= j < x_i0 ==> able_s(#[trigger] self.0@[j], ctx.env()) && valued_s(self.0@[j], x_out0@[j], ctx.env())
decreases self.0@.len() - x_i0""")))
ATTR = "Structure::Attribute(*{0})"
for id, ty in (("attribute", "Attribute"), ("block", "Block")):
    place("p_" + id, f"impl Evaluate for {ty}", f"impl {ty}",
          f"ensures good(r), r is Ok == able_s(Structure::{ty}(*old(self)), ctx.env()), srel(Structure::{ty}(*old(self)), Structure::{ty}(*final(self)), ctx.env()), r is Ok ==> valued_s(Structure::{ty}(*old(self)), Structure::{ty}(*final(self)), ctx.env())",
          body=body)
    reg("e_" + id, I, f"impl Evaluate for {ty}", "evaluate", f"impl {ty}", f"ensures r is Ok == able_s(Structure::{ty}(*self), ctx.env()), r is Ok ==> valued_s(Structure::{ty}(*self), Structure::{ty}(r->Ok_0), ctx.env())",
        sig=lambda f, ty=ty: f.sig_rewrite("Self::Output", ty),
        body=lambda f: (f.rewrite("self.labels.clone()", "x_labels(&self.labels)", "clone of a vector to its contract", must=False), f.rewrite("Into::into", "Expression::from_value", "From<Value> for Expression", must=False), libchain.options(f, result=("map",))))


def build(repo):
    F = lambda p: rx.File(f"{repo}/{p}")
    types = ["pub " + re.sub(r"^pub\s+", "", F(S + "body.rs").item("struct", "Body")), "pub " + F(S + "mod.rs").item("enum", "Structure"),
             libeval.pub_fields(F(S + "block.rs").item("struct", "Block")), libeval.pub_fields(F(S + "attribute.rs").item("struct", "Attribute")),
             "pub " + F(S + "block.rs").item("enum", "BlockLabel"), libeval.pub_fields(F(E).item("struct", "Errors"))]
    others, _ = libeval.functions(repo, set(), OTHERS)
    saved, libeval.REGS = libeval.REGS, REGS
    try:
        out, fns = libeval.functions(repo, {g.id for g in REGS})
    finally:
        libeval.REGS = saved
    return ([libeval.TYPES] + libeval.types(repo) + [libeval.SPEC, libeval.X_PRELUDE] + types + [TYPES, libplace.SPEC, libplace.MONO, libplace.CONG, libplace.LITS, libplace.TMPL, libplace.ELEMS, libplace.PARTS, WRAPPERS] + others + out), fns
