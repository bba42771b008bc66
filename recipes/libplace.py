"""C23: what evaluating in place means, and the lemmas about evaluation that it rests on."""

SPEC = r'''
// ---- more definitions: what is in one context is in the other with the same meaning ----------------
pub open spec fn ext(c: Env, d: Env) -> bool {
    &&& forall|k: Seq<char>| c.vars.dom().contains(k) ==> #[trigger] d.vars.dom().contains(k) && d.vars[k] == c.vars[k]
    &&& forall|k: Seq<Seq<char>>| c.funcs.dom().contains(k) ==> #[trigger] d.funcs.dom().contains(k) && d.funcs[k] == c.funcs[k]
}
// `e2` gives what `e1` gives in every context that extends `c`
#[verifier::opaque]
pub open spec fn rel(e1: Expression, e2: Expression, c: Env) -> bool { forall|d: Env| ext(c, d) ==> #[trigger] ev(e2, d) == ev(e1, d) }
#[verifier::opaque]
pub open spec fn krel(k1: ObjectKey, k2: ObjectKey, c: Env) -> bool { forall|d: Env| ext(c, d) ==> #[trigger] ev_key(k2, d) == ev_key(k1, d) }
#[verifier::opaque]
pub open spec fn erel(e1: Element, e2: Element, c: Env) -> bool {
    &&& left_strip(e1) == left_strip(e2) && right_strip(e1) == right_strip(e2)
    &&& forall|d: Env, p: bool, q: bool| ext(c, d) ==> #[trigger] elem_text(e2, p, q, d) == elem_text(e1, p, q, d)
}
pub open spec fn all_text(t: Template, p: Strip, q: Strip, c: Env) -> Option<Seq<char>> { tmpl(t, p, q, t.elements@.len(), c) }
#[verifier::opaque]
pub open spec fn trel(t1: Template, t2: Template, c: Env) -> bool { forall|d: Env, p: Strip, q: Strip| ext(c, d) ==> #[trigger] all_text(t2, p, q, d) == all_text(t1, p, q, d) }
pub open spec fn orel(o1: TraversalOperator, o2: TraversalOperator, c: Env) -> bool {
    match (o1, o2) { (TraversalOperator::Index(a), TraversalOperator::Index(b)) => rel(a, b, c), _ => o1 == o2 }
}
// the expression that stands for a value
pub open spec fn is_lit(e: Expression, v: Value) -> bool decreases e {
    match (e, v) {
        (Expression::Null, Value::Null) => true,
        (Expression::Bool(a), Value::Bool(b)) => a == b,
        (Expression::Number(a), Value::Number(b)) => a == b,
        (Expression::String(a), Value::String(b)) => a == b,
        (Expression::Array(a), Value::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> is_lit(#[trigger] a@[i], b@[i]),
        (Expression::Object(a), Value::Object(b)) => a.entries@.len() == ents(b).len() && forall|i: int| 0 <= i < a.entries@.len() ==> lit_key((#[trigger] a.entries@[i]).0, ents(b)[i].0) && is_lit(a.entries@[i].1, ents(b)[i].1),
        _ => false,
    }
}
pub open spec fn lit_key(k: ObjectKey, s: Seq<char>) -> bool { k is Expression && k->Expression_0 is String && k->Expression_0->String_0@ == s }
// ---- bodies ------------------------------------------------------------------------------------------
// every attribute of the body can be evaluated
pub open spec fn able(b: Body, c: Env) -> bool decreases b { forall|i: int| 0 <= i < b.0@.len() ==> able_s(#[trigger] b.0@[i], c) }
pub open spec fn able_s(s: Structure, c: Env) -> bool decreases s { match s { Structure::Attribute(a) => ev(a.expr, c) is Some, Structure::Block(b) => able(b.body, c) } }
// `b2` is `b1` with the value of every attribute in place of its expression
pub open spec fn valued(b1: Body, b2: Body, c: Env) -> bool decreases b1 {
    b1.0@.len() == b2.0@.len() && forall|i: int| 0 <= i < b1.0@.len() ==> valued_s(#[trigger] b1.0@[i], b2.0@[i], c)
}
pub open spec fn valued_s(s1: Structure, s2: Structure, c: Env) -> bool decreases s1 {
    match (s1, s2) {
        (Structure::Attribute(a), Structure::Attribute(b)) => a.key == b.key && ev(a.expr, c) is Some && is_lit(b.expr, ev(a.expr, c)->Some_0),
        (Structure::Block(a), Structure::Block(b)) => a.identifier == b.identifier && a.labels == b.labels && valued(a.body, b.body, c),
        _ => false,
    }
}
// `b2` is `b1` with expressions that give the same in every context that extends `c`
pub open spec fn brel(b1: Body, b2: Body, c: Env) -> bool decreases b1 {
    b1.0@.len() == b2.0@.len() && forall|i: int| 0 <= i < b1.0@.len() ==> srel(#[trigger] b1.0@[i], b2.0@[i], c)
}
pub open spec fn srel(s1: Structure, s2: Structure, c: Env) -> bool decreases s1 {
    match (s1, s2) {
        (Structure::Attribute(a), Structure::Attribute(b)) => a.key == b.key && rel(a.expr, b.expr, c),
        (Structure::Block(a), Structure::Block(b)) => a.identifier == b.identifier && a.labels == b.labels && brel(a.body, b.body, c),
        _ => false,
    }
}
'''

# ------------------------------------------------------------------------------------------- lemmas
MONO = r'''
// ---- more definitions do not change what evaluates -------------------------------------------------
// (assumed for the parsed text of a template expression, see texprs_mean: the text is a smaller program)
#[verifier::external_body] pub proof fn texprs_grow() ensures forall|t: TemplateExpr, c: Env, d: Env| ext(c, d) && ev_texpr(t, c) is Some ==> #[trigger] ev_texpr(t, d) == #[trigger] ev_texpr(t, c) {}
pub proof fn ext_bound(k: Option<Identifier>, v: Identifier, e: (Value, Value), c: Env, d: Env) requires ext(c, d) ensures ext(bound(k, v, e, c), bound(k, v, e, d)) {}
pub proof fn m_trav(v: Value, s: Seq<TraversalOperator>, c: Env, d: Env)
    requires ext(c, d), trav(v, s, c) is Some ensures trav(v, s, d) == trav(v, s, c) decreases s, 1nat, 0nat
{
    if s.len() > 0 {
        let rest = s.drop_first();
        match s[0] {
            TraversalOperator::LegacyIndex(i) => { m_trav(elem_at(v, i as int)->Some_0, rest, c, d); },
            TraversalOperator::Index(e) => { m_ev(e, c, d); m_trav(index_by(v, ev(e, c)->Some_0)->Some_0, rest, c, d); },
            TraversalOperator::GetAttr(n) => { m_trav(field(v, n@)->Some_0, rest, c, d); },
            TraversalOperator::AttrSplat => {
                let n = attrs(rest) as int;
                m_splat(v, s.subrange(1, 1 + n), c, d);
                m_trav(splat(v, s.subrange(1, 1 + n), c)->Some_0, s.subrange(1 + n, s.len() as int), c, d);
            },
            TraversalOperator::FullSplat => { m_splat(v, rest, c, d); },
        }
    }
}
pub proof fn m_splat(v: Value, s: Seq<TraversalOperator>, c: Env, d: Env)
    requires ext(c, d), splat(v, s, c) is Some ensures splat(v, s, d) == splat(v, s, c) decreases s, 3nat, 0nat
{
    match v {
        Value::Array(a) => { m_splat_all(a@, a@.len(), s, c, d); },
        Value::Null => {},
        _ => { m_trav(v, s, c, d); },
    }
}
pub proof fn m_splat_all(a: Seq<Value>, n: nat, s: Seq<TraversalOperator>, c: Env, d: Env)
    requires ext(c, d), splat_all(a, n, s, c) is Some ensures splat_all(a, n, s, d) == splat_all(a, n, s, c) decreases s, 2nat, n
{ if n > 0 && n <= a.len() { m_splat_all(a, (n - 1) as nat, s, c, d); m_trav(a[n - 1], s, c, d); } }
pub proof fn m_args(f: FuncCall, n: nat, c: Env, d: Env)
    requires ext(c, d), call_args(f, n, c) is Some ensures call_args(f, n, d) == call_args(f, n, c) decreases f, 1nat, n
{ if n > 0 && n <= f.args@.len() { m_args(f, (n - 1) as nat, c, d); m_ev(f.args@[n - 1], c, d); } }
pub proof fn m_keeps(k: Option<Expression>, c: Env, d: Env)
    requires ext(c, d), keeps(k, c) is Some ensures keeps(k, d) == keeps(k, c) decreases k, 1nat, 0nat
{ match k { None => {}, Some(e) => { m_ev(e, c, d); } } }
pub proof fn m_list(f: ForExpr, es: Seq<(Value, Value)>, n: nat, c: Env, d: Env)
    requires ext(c, d), for_list(f, es, n, c) is Some ensures for_list(f, es, n, d) == for_list(f, es, n, c) decreases f, 1nat, n
{
    if n > 0 && n <= es.len() {
        let b = bound(f.key_var, f.value_var, es[n - 1], c);
        let b2 = bound(f.key_var, f.value_var, es[n - 1], d);
        ext_bound(f.key_var, f.value_var, es[n - 1], c, d);
        m_list(f, es, (n - 1) as nat, c, d);
        m_keeps(f.cond_expr, b, b2);
        if keeps(f.cond_expr, b) == Some(true) { m_ev(f.value_expr, b, b2); }
    }
}
pub proof fn m_object(f: ForExpr, es: Seq<(Value, Value)>, n: nat, c: Env, d: Env)
    requires ext(c, d), for_object(f, es, n, c) is Some ensures for_object(f, es, n, d) == for_object(f, es, n, c) decreases f, 1nat, n
{
    if n > 0 && n <= es.len() {
        let b = bound(f.key_var, f.value_var, es[n - 1], c);
        let b2 = bound(f.key_var, f.value_var, es[n - 1], d);
        ext_bound(f.key_var, f.value_var, es[n - 1], c, d);
        m_object(f, es, (n - 1) as nat, c, d);
        m_keeps(f.cond_expr, b, b2);
        if keeps(f.cond_expr, b) == Some(true) { m_ev(f.value_expr, b, b2); m_ev(f.key_expr->Some_0, b, b2); }
    }
}
pub proof fn m_all(v: Vec<Expression>, n: nat, c: Env, d: Env)
    requires ext(c, d), ev_all(v, n, c) is Some ensures ev_all(v, n, d) == ev_all(v, n, c) decreases v, n, 0nat
{ if n > 0 && n <= v@.len() { m_all(v, (n - 1) as nat, c, d); m_ev(v@[n - 1], c, d); } }
pub proof fn m_key(k: ObjectKey, c: Env, d: Env)
    requires ext(c, d), ev_key(k, c) is Some ensures ev_key(k, d) == ev_key(k, c) decreases k, 1nat, 0nat
{ match k { ObjectKey::Expression(e) => { m_ev(e, c, d); }, _ => {} } }
pub proof fn m_entries(o: Object<ObjectKey, Expression>, n: nat, c: Env, d: Env)
    requires ext(c, d), ev_object(o, n, c) is Some ensures ev_object(o, n, d) == ev_object(o, n, c) decreases o, n, 0nat
{ if n > 0 && n <= o.entries@.len() { m_entries(o, (n - 1) as nat, c, d); m_key(o.entries@[n - 1].0, c, d); m_ev(o.entries@[n - 1].1, c, d); } }
pub proof fn m_ev(e: Expression, c: Env, d: Env)
    requires ext(c, d), ev(e, c) is Some ensures ev(e, d) == ev(e, c) decreases e, 0nat, 0nat
{
    match e {
        Expression::Array(v) => { m_all(v, v@.len(), c, d); },
        Expression::Object(o) => { m_entries(o, o.entries@.len(), c, d); },
        Expression::TemplateExpr(t) => { texprs_grow(); },
        Expression::Traversal(t) => { assert(ev_trav(*t, c) is Some); m_ev(t.expr, c, d); m_trav(ev(t.expr, c)->Some_0, t.operators@, c, d); assert(ev_trav(*t, d) == ev_trav(*t, c)); },
        Expression::FuncCall(f) => { assert(ev_call(*f, c) is Some); m_args(*f, f.args@.len(), c, d); assert(ev_call(*f, d) == ev_call(*f, c)); },
        Expression::Parenthesis(e) => { m_ev(*e, c, d); },
        Expression::Conditional(k) => { assert(ev_cond(*k, c) is Some); m_ev(k.cond_expr, c, d); if ev(k.cond_expr, c) == Some(Value::Bool(true)) { m_ev(k.true_expr, c, d); } else { m_ev(k.false_expr, c, d); } assert(ev_cond(*k, d) == ev_cond(*k, c)); },
        Expression::Operation(o) => { assert(ev_op(*o, c) is Some); match *o { Operation::Unary(u) => { assert(ev_unary(u, c) is Some); m_ev(u.expr, c, d); assert(ev_unary(u, d) == ev_unary(u, c)); }, Operation::Binary(b) => { assert(ev_binary(b, c) is Some); m_ev(b.lhs_expr, c, d); m_ev(b.rhs_expr, c, d); assert(ev_binary(b, d) == ev_binary(b, c)); } } assert(ev_op(*o, d) == ev_op(*o, c)); },
        Expression::ForExpr(f) => {
            assert(ev_for(*f, c) is Some);
            m_ev(f.collection_expr, c, d);
            let es = entries(ev(f.collection_expr, c)->Some_0)->Some_0;
            if f.key_expr is Some { m_object(*f, es, es.len(), c, d); } else { m_list(*f, es, es.len(), c, d); }
            assert(for_value(*f, es, d) == for_value(*f, es, c));
            assert(ev_for(*f, d) == ev_for(*f, c));
        },
        _ => {},
    }
}
'''

CONG = r'''
// ---- replacing parts by parts that give the same -----------------------------------------------------
pub proof fn rel_same(e: Expression, c: Env) ensures rel(e, e, c) { reveal(rel); }
pub proof fn rel_same_all(c: Env) ensures forall|e: Expression| #[trigger] rel(e, e, c) { reveal(rel); }
pub proof fn use_rel(a: Expression, b: Expression, c: Env, d: Env) requires rel(a, b, c), ext(c, d) ensures ev(b, d) == ev(a, d) { reveal(rel); }
pub proof fn ext_same(c: Env) ensures ext(c, c) {}
pub proof fn c_all(v: Vec<Expression>, w: Vec<Expression>, n: nat, d: Env)
    requires n <= v@.len() == w@.len(), forall|i: int| 0 <= i < n ==> ev(#[trigger] w@[i], d) == ev(v@[i], d) ensures ev_all(w, n, d) == ev_all(v, n, d) decreases n
{ if n > 0 { c_all(v, w, (n - 1) as nat, d); assert(ev(w@[n - 1], d) == ev(v@[n - 1], d)); } }
pub proof fn rel_all(v: Vec<Expression>, w: Vec<Expression>, c: Env)
    requires v@.len() == w@.len(), forall|i: int| 0 <= i < v@.len() ==> rel(#[trigger] v@[i], w@[i], c) ensures rel(Expression::Array(v), Expression::Array(w), c)
{
    reveal(rel);
    assert forall|d: Env| ext(c, d) implies #[trigger] ev(Expression::Array(w), d) == ev(Expression::Array(v), d) by {
        assert forall|i: int| 0 <= i < v@.len() implies ev(#[trigger] w@[i], d) == ev(v@[i], d) by { use_rel(v@[i], w@[i], c, d); }
        c_all(v, w, v@.len(), d);
    }
}
pub proof fn c_args(f: FuncCall, g: FuncCall, n: nat, d: Env)
    requires n <= f.args@.len() == g.args@.len(), f.expand_final == g.expand_final, forall|i: int| 0 <= i < n ==> ev(#[trigger] g.args@[i], d) == ev(f.args@[i], d) ensures call_args(g, n, d) == call_args(f, n, d) decreases n
{ if n > 0 { c_args(f, g, (n - 1) as nat, d); assert(ev(g.args@[n - 1], d) == ev(f.args@[n - 1], d)); } }
pub proof fn rel_args(f: FuncCall, g: FuncCall, c: Env)
    requires f.name == g.name, f.expand_final == g.expand_final, f.args@.len() == g.args@.len(), forall|i: int| 0 <= i < f.args@.len() ==> rel(#[trigger] f.args@[i], g.args@[i], c)
    ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_call(g, d) == ev_call(f, d)
{
    assert forall|d: Env| ext(c, d) implies #[trigger] ev_call(g, d) == ev_call(f, d) by {
        assert forall|i: int| 0 <= i < f.args@.len() implies ev(#[trigger] g.args@[i], d) == ev(f.args@[i], d) by { use_rel(f.args@[i], g.args@[i], c, d); }
        c_args(f, g, f.args@.len(), d);
    }
}
pub proof fn c_object(o: Object<ObjectKey, Expression>, p: Object<ObjectKey, Expression>, n: nat, d: Env)
    requires n <= o.entries@.len() == p.entries@.len(), forall|i: int| 0 <= i < n ==> ev_key((#[trigger] p.entries@[i]).0, d) == ev_key(o.entries@[i].0, d) && ev(p.entries@[i].1, d) == ev(o.entries@[i].1, d)
    ensures ev_object(p, n, d) == ev_object(o, n, d) decreases n
{ if n > 0 { c_object(o, p, (n - 1) as nat, d); let i = n - 1; assert(ev_key(p.entries@[i].0, d) == ev_key(o.entries@[i].0, d)); } }
pub proof fn rel_object(o: Object<ObjectKey, Expression>, p: Object<ObjectKey, Expression>, c: Env)
    requires o.entries@.len() == p.entries@.len(), forall|i: int| 0 <= i < o.entries@.len() ==> krel((#[trigger] o.entries@[i]).0, p.entries@[i].0, c) && rel(o.entries@[i].1, p.entries@[i].1, c)
    ensures rel(Expression::Object(o), Expression::Object(p), c)
{
    reveal(rel);
    reveal(krel);
    assert forall|d: Env| ext(c, d) implies #[trigger] ev(Expression::Object(p), d) == ev(Expression::Object(o), d) by {
        assert forall|i: int| 0 <= i < o.entries@.len() implies ev_key((#[trigger] p.entries@[i]).0, d) == ev_key(o.entries@[i].0, d) && ev(p.entries@[i].1, d) == ev(o.entries@[i].1, d) by { assert(krel(o.entries@[i].0, p.entries@[i].0, c)); use_rel(o.entries@[i].1, p.entries@[i].1, c, d); }
        c_object(o, p, o.entries@.len(), d);
    }
}
// operators
pub open spec fn osame(o1: TraversalOperator, o2: TraversalOperator, d: Env) -> bool {
    match (o1, o2) { (TraversalOperator::Index(a), TraversalOperator::Index(b)) => ev(b, d) == ev(a, d), _ => o1 == o2 }
}
pub open spec fn ossame(s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, d: Env) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> osame(#[trigger] s[i], t[i], d) }
pub proof fn c_attrs(s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, d: Env) requires ossame(s, t, d) ensures attrs(s) == attrs(t), attrs(s) <= s.len() decreases s.len()
{ if s.len() > 0 { assert(osame(s[0], t[0], d)); assert(ossame(s.drop_first(), t.drop_first(), d)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies osame(#[trigger] s.drop_first()[i], t.drop_first()[i], d) by { assert(osame(s[i + 1], t[i + 1], d)); } } c_attrs(s.drop_first(), t.drop_first(), d); } }
pub proof fn ossub(s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, a: int, b: int, d: Env) requires ossame(s, t, d), 0 <= a <= b <= s.len() ensures ossame(s.subrange(a, b), t.subrange(a, b), d)
{ assert forall|i: int| 0 <= i < b - a implies osame(#[trigger] s.subrange(a, b)[i], t.subrange(a, b)[i], d) by { assert(osame(s[i + a], t[i + a], d)); } }
pub proof fn c_trav(v: Value, s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, d: Env) requires ossame(s, t, d) ensures trav(v, t, d) == trav(v, s, d) decreases s.len(), 1nat, 0nat
{
    if s.len() > 0 {
        let (r, q) = (s.drop_first(), t.drop_first());
        assert(osame(s[0], t[0], d));
        ossub(s, t, 1, s.len() as int, d);
        assert(r =~= s.subrange(1, s.len() as int) && q =~= t.subrange(1, s.len() as int));
        match s[0] {
            TraversalOperator::LegacyIndex(i) => { if elem_at(v, i as int) is Some { c_trav(elem_at(v, i as int)->Some_0, r, q, d); } },
            TraversalOperator::Index(e) => { if ev(e, d) is Some && index_by(v, ev(e, d)->Some_0) is Some { c_trav(index_by(v, ev(e, d)->Some_0)->Some_0, r, q, d); } },
            TraversalOperator::GetAttr(n) => { if field(v, n@) is Some { c_trav(field(v, n@)->Some_0, r, q, d); } },
            TraversalOperator::AttrSplat => {
                c_attrs(r, q, d);
                let n = attrs(r) as int;
                ossub(s, t, 1, 1 + n, d);
                ossub(s, t, 1 + n, s.len() as int, d);
                c_splat(v, s.subrange(1, 1 + n), t.subrange(1, 1 + n), d);
                if splat(v, s.subrange(1, 1 + n), d) is Some { c_trav(splat(v, s.subrange(1, 1 + n), d)->Some_0, s.subrange(1 + n, s.len() as int), t.subrange(1 + n, s.len() as int), d); }
            },
            TraversalOperator::FullSplat => { c_splat(v, r, q, d); },
        }
    }
}
pub proof fn c_splat(v: Value, s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, d: Env) requires ossame(s, t, d) ensures splat(v, t, d) == splat(v, s, d) decreases s.len(), 3nat, 0nat
{ match v { Value::Array(a) => { c_splat_all(a@, a@.len(), s, t, d); }, Value::Null => {}, _ => { c_trav(v, s, t, d); } } }
pub proof fn c_splat_all(a: Seq<Value>, n: nat, s: Seq<TraversalOperator>, t: Seq<TraversalOperator>, d: Env) requires ossame(s, t, d) ensures splat_all(a, n, t, d) == splat_all(a, n, s, d) decreases s.len(), 2nat, n
{ if n > 0 && n <= a.len() { c_splat_all(a, (n - 1) as nat, s, t, d); c_trav(a[n - 1], s, t, d); } }
pub proof fn rel_trav(f: Traversal, g: Traversal, c: Env)
    requires f.expr == g.expr, f.operators@.len() == g.operators@.len(), forall|i: int| 0 <= i < f.operators@.len() ==> orel(#[trigger] f.operators@[i], g.operators@[i], c)
    ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_trav(g, d) == ev_trav(f, d)
{
    assert forall|d: Env| ext(c, d) implies #[trigger] ev_trav(g, d) == ev_trav(f, d) by {
        assert forall|i: int| 0 <= i < f.operators@.len() implies osame(#[trigger] f.operators@[i], g.operators@[i], d) by {
            assert(orel(f.operators@[i], g.operators@[i], c));
            match (f.operators@[i], g.operators@[i]) { (TraversalOperator::Index(a), TraversalOperator::Index(b)) => { use_rel(a, b, c, d); }, _ => {} }
        }
        if ev(f.expr, d) is Some { c_trav(ev(f.expr, d)->Some_0, f.operators@, g.operators@, d); }
    }
}
// an index before the first full splat is evaluated, whatever the traversed value is
pub open spec fn splits_before(s: Seq<TraversalOperator>, j: int) -> bool { exists|i: int| 0 <= i < j && (#[trigger] s[i]) is FullSplat }
pub proof fn strict_trav(v: Value, s: Seq<TraversalOperator>, j: int, c: Env)
    requires 0 <= j < s.len(), s[j] is Index, ev(s[j]->Index_0, c) is None, !splits_before(s, j) ensures trav(v, s, c) is None decreases s.len()
{
    if j > 0 {
        let r = s.drop_first();
        assert(!(s[0] is FullSplat));
        assert(s[j] == r[j - 1]);
        assert(!splits_before(r, j - 1)) by { if splits_before(r, j - 1) { let i = choose|i: int| 0 <= i < j - 1 && (#[trigger] r[i]) is FullSplat; assert(s[i + 1] is FullSplat); } }
        match s[0] {
            TraversalOperator::LegacyIndex(i) => { if elem_at(v, i as int) is Some { strict_trav(elem_at(v, i as int)->Some_0, r, j - 1, c); } },
            TraversalOperator::Index(e) => { if ev(e, c) is Some && index_by(v, ev(e, c)->Some_0) is Some { strict_trav(index_by(v, ev(e, c)->Some_0)->Some_0, r, j - 1, c); } },
            TraversalOperator::GetAttr(n) => { if field(v, n@) is Some { strict_trav(field(v, n@)->Some_0, r, j - 1, c); } },
            _ => {
                let n = attrs(r) as int;
                attrs_are(r, j - 1);
                let q = s.subrange(1 + n, s.len() as int);
                assert(q[j - 1 - n] == s[j]);
                assert(!splits_before(q, j - 1 - n)) by { if splits_before(q, j - 1 - n) { let i = choose|i: int| 0 <= i < j - 1 - n && (#[trigger] q[i]) is FullSplat; assert(s[i + 1 + n] is FullSplat); } }
                if splat(v, s.subrange(1, 1 + n), c) is Some { strict_trav(splat(v, s.subrange(1, 1 + n), c)->Some_0, q, j - 1 - n, c); }
            },
        }
    }
}
pub proof fn attrs_are(s: Seq<TraversalOperator>, j: int) requires 0 <= j < s.len(), !(s[j] is GetAttr) ensures attrs(s) <= j decreases s.len()
{ if s[0] is GetAttr { attrs_are(s.drop_first(), j - 1); } }
// arguments
pub proof fn strict_args(f: FuncCall, j: int, n: nat, c: Env) requires 0 <= j < n <= f.args@.len(), ev(f.args@[j], c) is None ensures call_args(f, n, c) is None decreases n
{ if j < n - 1 { strict_args(f, j, (n - 1) as nat, c); } }
pub proof fn strict_all(v: Vec<Expression>, j: int, n: nat, c: Env) requires 0 <= j < n <= v@.len(), ev(v@[j], c) is None ensures ev_all(v, n, c) is None decreases n
{ if j < n - 1 { strict_all(v, j, (n - 1) as nat, c); } }
pub proof fn strict_object(o: Object<ObjectKey, Expression>, j: int, n: nat, c: Env)
    requires 0 <= j < n <= o.entries@.len(), ev_key(o.entries@[j].0, c) is None || ev(o.entries@[j].1, c) is None ensures ev_object(o, n, c) is None decreases n
{ if j < n - 1 { strict_object(o, j, (n - 1) as nat, c); } }
// for expressions: only the collection is replaced
pub open spec fn same_for(f: ForExpr, g: ForExpr) -> bool { f.key_var == g.key_var && f.value_var == g.value_var && f.cond_expr == g.cond_expr && f.key_expr == g.key_expr && f.value_expr == g.value_expr && f.grouping == g.grouping }
pub proof fn c_list(f: ForExpr, g: ForExpr, es: Seq<(Value, Value)>, n: nat, d: Env) requires same_for(f, g) ensures for_list(g, es, n, d) == for_list(f, es, n, d) decreases n
{ if n > 0 && n <= es.len() { c_list(f, g, es, (n - 1) as nat, d); } }
pub proof fn c_for(f: ForExpr, g: ForExpr, es: Seq<(Value, Value)>, n: nat, d: Env) requires same_for(f, g) ensures for_object(g, es, n, d) == for_object(f, es, n, d) decreases n
{ if n > 0 && n <= es.len() { c_for(f, g, es, (n - 1) as nat, d); } }
pub proof fn rel_for(f: ForExpr, g: ForExpr, c: Env)
    requires same_for(f, g), rel(f.collection_expr, g.collection_expr, c) ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_for(g, d) == ev_for(f, d)
{
    assert forall|d: Env| ext(c, d) implies #[trigger] ev_for(g, d) == ev_for(f, d) by {
        use_rel(f.collection_expr, g.collection_expr, c, d);
        match ev(f.collection_expr, d) { None => {}, Some(v) => match entries(v) { None => {}, Some(es) => { c_list(f, g, es, es.len(), d); c_for(f, g, es, es.len(), d); } } }
    }
}
'''

LITS = r'''
// ---- the expression of a value gives that value everywhere ------------------------------------------
pub proof fn lit_ev(e: Expression, v: Value, d: Env) requires is_lit(e, v) ensures ev(e, d) == Some(v) decreases e, 0nat, 0nat
{
    match (e, v) {
        (Expression::Array(a), Value::Array(b)) => { lit_all(a, b, a@.len(), d); assert(b@.take(a@.len() as int) =~= b@); },
        (Expression::Object(a), Value::Object(b)) => { lit_entries(a, b, a.entries@.len(), d); assert(ents(b).take(a.entries@.len() as int) =~= ents(b)); },
        _ => {},
    }
}
pub proof fn lit_all(a: Vec<Expression>, b: Vec<Value>, n: nat, d: Env)
    requires n <= a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> is_lit(#[trigger] a@[i], b@[i]) ensures ev_all(a, n, d) == Some(b@.take(n as int)) decreases a, n, 0nat
{ if n > 0 { lit_all(a, b, (n - 1) as nat, d); lit_ev(a@[n - 1], b@[n - 1], d); assert(b@.take(n - 1).push(b@[n - 1]) =~= b@.take(n as int)); } else { assert(b@.take(0) =~= Seq::<Value>::empty()); } }
pub proof fn lit_entries(o: Object<ObjectKey, Expression>, m: Map<String, Value>, n: nat, d: Env)
    requires n <= o.entries@.len() == ents(m).len(), forall|i: int| 0 <= i < o.entries@.len() ==> lit_key((#[trigger] o.entries@[i]).0, ents(m)[i].0) && is_lit(o.entries@[i].1, ents(m)[i].1)
    ensures ev_object(o, n, d) == Some(ents(m).take(n as int)) decreases o, n, 0nat
{
    let s = ents(m);
    if n > 0 {
        let i = n - 1;
        lit_entries(o, m, i as nat, d);
        assert(lit_key(o.entries@[i].0, s[i].0));
        lit_ev(o.entries@[i].1, s[i].1, d);
        assert(ev(o.entries@[i].0->Expression_0, d) == Some(Value::String(o.entries@[i].0->Expression_0->String_0)));
        let t = s.take(i);
        assert(!key_in(t, s[i].0)) by { if key_in(t, s[i].0) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s[i].0; assert(s[j].0 == s[i].0); } }
        assert(t.push((s[i].0, s[i].1)) =~= s.take(n as int));
        assert(ev_key(o.entries@[i].0, d) == Some(s[i].0));
        assert(put(t, s[i].0, s[i].1) == t.push((s[i].0, s[i].1)));
    } else { assert(s.take(0) =~= Seq::<(Seq<char>, Value)>::empty()); }
}
// putting the value of an expression in its place
pub proof fn rel_lit(e: Expression, l: Expression, c: Env) requires ev(e, c) is Some, is_lit(l, ev(e, c)->Some_0) ensures rel(e, l, c)
{
    reveal(rel);
    assert forall|d: Env| ext(c, d) implies #[trigger] ev(l, d) == ev(e, d) by { m_ev(e, c, d); lit_ev(l, ev(e, c)->Some_0, d); }
}
pub proof fn rel_then(a: Expression, b: Expression, l: Expression, c: Env) requires rel(a, b, c), rel(b, l, c) ensures rel(a, l, c) { reveal(rel); }
'''

TMPL = r'''
// ---- templates ---------------------------------------------------------------------------------------
pub open spec fn shows(e: Element, c: Env) -> bool { elem_text(e, false, false, c) is Some }
pub proof fn shows_any(e: Element, p: bool, q: bool, c: Env) ensures elem_text(e, p, q, c) is Some == shows(e, c) {}
pub open spec fn showable(t: Template, c: Env) -> bool { forall|i: int| 0 <= i < t.elements@.len() ==> shows(#[trigger] t.elements@[i], c) }
pub proof fn shown_prefix(t: Template, p: Strip, q: Strip, n: nat, c: Env) requires n <= t.elements@.len()
    ensures tmpl(t, p, q, n, c) is Some == (forall|i: int| 0 <= i < n ==> shows(#[trigger] t.elements@[i], c)) decreases n
{ if n > 0 { let k = n - 1; shown_prefix(t, p, q, k as nat, c); shows_any(t.elements@[k], if k == 0 { strips_next(p) } else { strips_next(right_strip(t.elements@[k - 1])) }, if n == t.elements@.len() { strips_prev(q) } else { strips_prev(left_strip(t.elements@[k + 1])) }, c); } }
pub proof fn text_any(t: Template, c: Env) ensures forall|p: Strip, q: Strip| #[trigger] all_text(t, p, q, c) is Some == showable(t, c)
{ assert forall|p: Strip, q: Strip| #[trigger] all_text(t, p, q, c) is Some == showable(t, c) by { shown_prefix(t, p, q, t.elements@.len(), c); } }
pub proof fn c_tmpl(t: Template, u: Template, p: Strip, q: Strip, n: nat, c: Env, d: Env)
    requires ext(c, d), n <= t.elements@.len() == u.elements@.len(), forall|i: int| 0 <= i < t.elements@.len() ==> erel(#[trigger] t.elements@[i], u.elements@[i], c)
    ensures tmpl(u, p, q, n, d) == tmpl(t, p, q, n, d) decreases n
{
    if n > 0 {
        let k = n - 1;
        c_tmpl(t, u, p, q, k as nat, c, d);
        reveal(erel);
        assert(erel(t.elements@[k], u.elements@[k], c));
        if k > 0 { assert(erel(t.elements@[k - 1], u.elements@[k - 1], c)); }
        if n < t.elements@.len() { assert(erel(t.elements@[k + 1], u.elements@[k + 1], c)); }
        let x = if k == 0 { strips_next(p) } else { strips_next(right_strip(t.elements@[k - 1])) };
        let y = if n == t.elements@.len() { strips_prev(q) } else { strips_prev(left_strip(t.elements@[k + 1])) };
        assert(elem_text(u.elements@[k], x, y, d) == elem_text(t.elements@[k], x, y, d));
        assert(tmpl(u, p, q, n, d) == (match (tmpl(u, p, q, k as nat, d), elem_text(u.elements@[k], x, y, d)) { (Some(s), Some(x)) => Some(s + x), _ => None }));
    }
}
pub proof fn rel_tmpl(t: Template, u: Template, c: Env)
    requires t.elements@.len() == u.elements@.len(), forall|i: int| 0 <= i < t.elements@.len() ==> erel(#[trigger] t.elements@[i], u.elements@[i], c) ensures trel(t, u, c)
{
    reveal(trel);
    assert forall|d: Env, p: Strip, q: Strip| ext(c, d) implies #[trigger] all_text(u, p, q, d) == all_text(t, p, q, d) by { c_tmpl(t, u, p, q, t.elements@.len(), c, d); }
}
pub proof fn erel_same(e: Element, c: Env) ensures erel(e, e, c) { reveal(erel); }
pub proof fn trel_same(e: Template, c: Env) ensures trel(e, e, c) { reveal(trel); }
pub open spec fn same_if(f: IfDirective, g: IfDirective) -> bool { f.if_strip == g.if_strip && f.else_strip == g.else_strip && f.endif_strip == g.endif_strip && (f.false_template is Some) == (g.false_template is Some) }
pub proof fn rel_if(f: IfDirective, g: IfDirective, c: Env)
    requires same_if(f, g), rel(f.cond_expr, g.cond_expr, c), trel(f.true_template, g.true_template, c), f.false_template is Some ==> trel(f.false_template->Some_0, g.false_template->Some_0, c)
    ensures forall|d: Env| ext(c, d) ==> #[trigger] if_text(g, d) == if_text(f, d)
{
    reveal(trel);
    assert forall|d: Env| ext(c, d) implies #[trigger] if_text(g, d) == if_text(f, d) by {
        use_rel(f.cond_expr, g.cond_expr, c, d);
        let n = if f.false_template is Some { f.else_strip } else { f.endif_strip };
        assert(all_text(g.true_template, f.if_strip, n, d) == all_text(f.true_template, f.if_strip, n, d));
        if f.false_template is Some { assert(all_text(g.false_template->Some_0, f.else_strip, f.endif_strip, d) == all_text(f.false_template->Some_0, f.else_strip, f.endif_strip, d)); }
    }
}
pub open spec fn same_each(f: ForDirective, g: ForDirective) -> bool { f.key_var == g.key_var && f.value_var == g.value_var && f.template == g.template && f.for_strip == g.for_strip && f.endfor_strip == g.endfor_strip }
pub proof fn c_each(f: ForDirective, g: ForDirective, es: Seq<(Value, Value)>, n: nat, d: Env) requires same_each(f, g) ensures for_text(g, es, n, d) == for_text(f, es, n, d) decreases n
{ if n > 0 && n <= es.len() { c_each(f, g, es, (n - 1) as nat, d); } }
pub proof fn rel_each(f: ForDirective, g: ForDirective, c: Env)
    requires same_each(f, g), rel(f.collection_expr, g.collection_expr, c) ensures forall|d: Env| ext(c, d) ==> #[trigger] dir_text(Directive::For(g), d) == dir_text(Directive::For(f), d)
{
    assert forall|d: Env| ext(c, d) implies #[trigger] dir_text(Directive::For(g), d) == dir_text(Directive::For(f), d) by {
        use_rel(f.collection_expr, g.collection_expr, c, d);
        match ev(f.collection_expr, d) { None => {}, Some(v) => match entries(v) { None => {}, Some(es) => { c_each(f, g, es, es.len(), d); } } }
    }
}
'''

ELEMS = r"""
// ---- elements ----------------------------------------------------------------------------------------
pub proof fn trel_same_all(c: Env) ensures forall|t: Template| #[trigger] trel(t, t, c) { reveal(trel); }
pub open spec fn dparts(f: Directive, g: Directive, c: Env) -> bool {
    match (f, g) {
        (Directive::If(f), Directive::If(g)) => same_if(f, g) && rel(f.cond_expr, g.cond_expr, c) && trel(f.true_template, g.true_template, c) && (f.false_template is Some ==> trel(f.false_template->Some_0, g.false_template->Some_0, c)),
        (Directive::For(f), Directive::For(g)) => same_each(f, g) && rel(f.collection_expr, g.collection_expr, c),
        _ => false,
    }
}
pub open spec fn eparts(e: Element, f: Element, c: Env) -> bool {
    match (e, f) {
        (Element::Literal(_), Element::Literal(_)) => e == f,
        (Element::Interpolation(a), Element::Interpolation(b)) => a.strip == b.strip && rel(a.expr, b.expr, c),
        (Element::Directive(a), Element::Directive(b)) => dparts(*a, *b, c),
        _ => false,
    }
}
pub proof fn elem_rel(e: Element, f: Element, c: Env) requires eparts(e, f, c) ensures erel(e, f, c)
{
    reveal(erel);
    match (e, f) {
        (Element::Directive(a), Element::Directive(b)) => { match (*a, *b) { (Directive::If(x), Directive::If(y)) => { rel_if(x, y, c); }, (Directive::For(x), Directive::For(y)) => { rel_each(x, y, c); }, _ => {} } },
        _ => {},
    }
    assert forall|d: Env, p: bool, q: bool| ext(c, d) implies #[trigger] elem_text(f, p, q, d) == elem_text(e, p, q, d) by {
        match (e, f) {
            (Element::Interpolation(a), Element::Interpolation(b)) => { use_rel(a.expr, b.expr, c, d); },
            (Element::Directive(a), Element::Directive(b)) => { match (*a, *b) {
                (Directive::If(x), Directive::If(y)) => { assert(if_text(y, d) == if_text(x, d)); assert(dir_text(*b, d) == if_text(y, d)); assert(dir_text(*a, d) == if_text(x, d)); },
                (Directive::For(x), Directive::For(y)) => { assert(dir_text(*b, d) == dir_text(*a, d)); },
                _ => {} } },
            _ => {},
        }
    }
}
pub open spec fn dshows(f: Directive, c: Env) -> bool {
    match f {
        Directive::If(i) => match as_bool(ev(i.cond_expr, c)) { None => false, Some(true) => showable(i.true_template, c), Some(false) => i.false_template is Some ==> showable(i.false_template->Some_0, c) },
        Directive::For(_) => dir_text(f, c) is Some,
    }
}
pub proof fn shows_are(e: Element, c: Env)
    ensures shows(e, c) == (match e { Element::Literal(_) => true, Element::Interpolation(i) => ev(i.expr, c) is Some, Element::Directive(d) => dshows(*d, c) })
{
    match e {
        Element::Directive(d) => {
            assert(elem_text(e, false, false, c) == dir_text(*d, c));
            match *d { Directive::If(i) => {
                assert(dir_text(*d, c) == if_text(i, c));
                text_any(i.true_template, c);
                let n = if i.false_template is Some { i.else_strip } else { i.endif_strip };
                assert(all_text(i.true_template, i.if_strip, n, c) is Some == showable(i.true_template, c));
                if i.false_template is Some { text_any(i.false_template->Some_0, c); assert(all_text(i.false_template->Some_0, i.else_strip, i.endif_strip, c) is Some == showable(i.false_template->Some_0, c)); }
            }, _ => {} }
        },
        _ => {},
    }
}
// after one element was evaluated in place
pub proof fn elem_done(e: Element, f: Element, c: Env) requires eparts(e, f, c)
    ensures erel(e, f, c), shows(e, c) == shows(f, c)
{
    elem_rel(e, f, c);
    reveal(erel);
    ext_same(c);
}
"""
PARTS = r"""
// ---- from the parts to the whole ---------------------------------------------------------------------
pub proof fn key_rel(k: ObjectKey, l: ObjectKey, c: Env)
    requires k == l || k is Expression && l is Expression && rel(k->Expression_0, l->Expression_0, c) ensures krel(k, l, c)
{
    reveal(krel);
    if k is Expression && l is Expression {
        rel_same(k->Expression_0, c);
        assert forall|d: Env| ext(c, d) implies #[trigger] ev_key(l, d) == ev_key(k, d) by { use_rel(k->Expression_0, l->Expression_0, c, d); }
    }
}
pub proof fn key_rel_all(c: Env) ensures forall|e: Expression, f: Expression| #[trigger] rel(e, f, c) ==> krel(ObjectKey::Expression(e), ObjectKey::Expression(f), c)
{ assert forall|e: Expression, f: Expression| #[trigger] rel(e, f, c) implies krel(ObjectKey::Expression(e), ObjectKey::Expression(f), c) by { key_rel(ObjectKey::Expression(e), ObjectKey::Expression(f), c); } }
pub proof fn rel_cond(f: Conditional, g: Conditional, c: Env)
    requires rel(f.cond_expr, g.cond_expr, c), rel(f.true_expr, g.true_expr, c), rel(f.false_expr, g.false_expr, c) ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_cond(g, d) == ev_cond(f, d)
{
    assert forall|d: Env| ext(c, d) implies #[trigger] ev_cond(g, d) == ev_cond(f, d) by { use_rel(f.cond_expr, g.cond_expr, c, d); use_rel(f.true_expr, g.true_expr, c, d); use_rel(f.false_expr, g.false_expr, c, d); }
}
pub proof fn rel_unary(f: UnaryOp, g: UnaryOp, c: Env)
    requires f.operator == g.operator, rel(f.expr, g.expr, c) ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_unary(g, d) == ev_unary(f, d)
{ assert forall|d: Env| ext(c, d) implies #[trigger] ev_unary(g, d) == ev_unary(f, d) by { use_rel(f.expr, g.expr, c, d); } }
pub proof fn rel_binary(f: BinaryOp, g: BinaryOp, c: Env)
    requires f.operator == g.operator, rel(f.lhs_expr, g.lhs_expr, c), rel(f.rhs_expr, g.rhs_expr, c) ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_binary(g, d) == ev_binary(f, d)
{ assert forall|d: Env| ext(c, d) implies #[trigger] ev_binary(g, d) == ev_binary(f, d) by { use_rel(f.lhs_expr, g.lhs_expr, c, d); use_rel(f.rhs_expr, g.rhs_expr, c, d); } }
pub proof fn rel_op(f: Operation, g: Operation, c: Env)
    requires match (f, g) { (Operation::Unary(a), Operation::Unary(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_unary(b, d) == ev_unary(a, d), (Operation::Binary(a), Operation::Binary(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_binary(b, d) == ev_binary(a, d), _ => false }
    ensures forall|d: Env| ext(c, d) ==> #[trigger] ev_op(g, d) == ev_op(f, d)
{ assert forall|d: Env| ext(c, d) implies #[trigger] ev_op(g, d) == ev_op(f, d) by { match (f, g) { (Operation::Unary(a), Operation::Unary(b)) => { assert(ev_unary(b, d) == ev_unary(a, d)); }, (Operation::Binary(a), Operation::Binary(b)) => { assert(ev_binary(b, d) == ev_binary(a, d)); }, _ => {} } } }
pub open spec fn parts(e: Expression, f: Expression, c: Env) -> bool {
    match (e, f) {
        (Expression::Array(a), Expression::Array(b)) => a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> rel(#[trigger] a@[i], b@[i], c),
        (Expression::Object(a), Expression::Object(b)) => rel(e, f, c),
        (Expression::Traversal(a), Expression::Traversal(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_trav(*b, d) == ev_trav(*a, d),
        (Expression::FuncCall(a), Expression::FuncCall(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_call(*b, d) == ev_call(*a, d),
        (Expression::Parenthesis(a), Expression::Parenthesis(b)) => rel(*a, *b, c),
        (Expression::Conditional(a), Expression::Conditional(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_cond(*b, d) == ev_cond(*a, d),
        (Expression::Operation(a), Expression::Operation(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_op(*b, d) == ev_op(*a, d),
        (Expression::ForExpr(a), Expression::ForExpr(b)) => forall|d: Env| ext(c, d) ==> #[trigger] ev_for(*b, d) == ev_for(*a, d),
        _ => e == f,
    }
}
pub proof fn parts_rel(e: Expression, f: Expression, c: Env) requires parts(e, f, c) ensures rel(e, f, c)
{
    match (e, f) { (Expression::Array(a), Expression::Array(b)) => { rel_all(a, b, c); }, _ => {} }
    if !(e is Object) && !(e is Array) {
        reveal(rel);
        assert forall|d: Env| ext(c, d) implies #[trigger] ev(f, d) == ev(e, d) by {
            match (e, f) {
                (Expression::Traversal(a), Expression::Traversal(b)) => { assert(ev_trav(*b, d) == ev_trav(*a, d)); },
                (Expression::FuncCall(a), Expression::FuncCall(b)) => { assert(ev_call(*b, d) == ev_call(*a, d)); },
                (Expression::Parenthesis(a), Expression::Parenthesis(b)) => { use_rel(*a, *b, c, d); },
                (Expression::Conditional(a), Expression::Conditional(b)) => { assert(ev_cond(*b, d) == ev_cond(*a, d)); },
                (Expression::Operation(a), Expression::Operation(b)) => { assert(ev_op(*b, d) == ev_op(*a, d)); },
                (Expression::ForExpr(a), Expression::ForExpr(b)) => { assert(ev_for(*b, d) == ev_for(*a, d)); },
                _ => {},
            }
        }
    }
}
pub open spec fn part_fails(e: Expression, c: Env) -> bool {
    match e {
        Expression::Array(a) => exists|j: int| 0 <= j < a@.len() && ev(#[trigger] a@[j], c) is None,
        Expression::Object(a) => ev_object(a, a.entries@.len(), c) is None,
        Expression::Traversal(a) => ev_trav(*a, c) is None,
        Expression::FuncCall(a) => ev_call(*a, c) is None,
        Expression::Parenthesis(a) => ev(*a, c) is None,
        Expression::Conditional(a) => ev_cond(*a, c) is None,
        Expression::Operation(a) => ev_op(*a, c) is None,
        Expression::ForExpr(a) => ev_for(*a, c) is None,
        _ => false,
    }
}
pub proof fn whole_fails(e: Expression, c: Env) requires part_fails(e, c) ensures ev(e, c) is None
{ match e { Expression::Array(a) => { let j = choose|j: int| 0 <= j < a@.len() && ev(#[trigger] a@[j], c) is None; strict_all(a, j, a@.len(), c); }, _ => {} } }
"""
