//! What the trees of `gen` stand for: the plain syntax tree they must be parsed to, and the value they
//! must evaluate to.  The evaluator follows the HCL specification and shares no code with hcl-rs.
use crate::gen::*;
use hcl::expr::{ObjectKey, Operation, TemplateExpr, TraversalOperator};
use hcl::structure::{BlockLabel, Structure};
use hcl::template::{Directive, Element, Strip, Template};
use hcl::{Expression, Number, Value};
use std::cell::{Cell, RefCell};

pub type Res = Result<(), String>;

pub fn number(spelling: &str) -> Number {
    let (neg, rest) = match spelling.strip_prefix('-') {
        Some(r) => (true, r.trim()),
        None => (false, spelling),
    };
    if rest.contains(['.', 'e', 'E']) {
        let f: f64 = rest.parse().unwrap();
        Number::from_f64(if neg { -f } else { f }).unwrap()
    } else {
        let i: i128 = rest.parse().unwrap();
        int(if neg { -i } else { i })
    }
}

pub fn int(i: i128) -> Number {
    if let Ok(u) = u64::try_from(i) {
        Number::from(u)
    } else if let Ok(s) = i64::try_from(i) {
        Number::from(s)
    } else {
        Number::from_f64(i as f64).unwrap()
    }
}

macro_rules! want {
    ($x:expr, $p:pat => $r:expr, $what:expr) => {
        match $x {
            $p => $r,
            other => return Err(format!("expected {}, found {:?}", $what, other)),
        }
    };
}

fn eq<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(what: &str, a: A, b: B) -> Res {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: expected {a:?}, found {b:?}"))
    }
}

pub fn strip(s: S) -> Strip {
    match s {
        (false, false) => Strip::None,
        (true, false) => Strip::Start,
        (false, true) => Strip::End,
        (true, true) => Strip::Both,
    }
}

fn same_opt(what: &str, a: &Option<E>, b: &Option<Expression>) -> Res {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => same(a, b),
        _ => Err(format!("{what}: expected {a:?}, found {b:?}")),
    }
}

fn ident_opt(what: &str, a: &Option<String>, b: Option<&hcl::Identifier>) -> Res {
    eq(what, a.as_deref(), b.map(|i| i.as_str()))
}

pub fn same(e: &E, x: &Expression) -> Res {
    match e {
        E::Null => eq("null", Expression::Null, x.clone()),
        E::Bool(b) => eq("bool", Expression::Bool(*b), x.clone()),
        E::Num(n) => {
            let m = want!(x, Expression::Number(m) => m, "a number");
            eq("number", number(n), *m)
        }
        E::Str(s) => eq("string", s, want!(x, Expression::String(t) => t, format!("the string {s:?}"))),
        E::Tmpl(parts) => {
            let t = want!(x, Expression::TemplateExpr(t) => t, "a template");
            want!(&**t, TemplateExpr::QuotedString(_) => (), "a quoted template");
            let t = Template::from_expr(t).map_err(|e| format!("the template {t:?} is no longer valid: {e}"))?;
            same_parts(parts, t.elements())
        }
        E::Heredoc { delim, body } => {
            let t = want!(x, Expression::TemplateExpr(t) => t, "a heredoc");
            let h = want!(&**t, TemplateExpr::Heredoc(h) => h, "a heredoc");
            eq("heredoc delimiter", delim.as_str(), h.delimiter.as_str())?;
            let t = Template::from_expr(t).map_err(|e| format!("the heredoc {t:?} is no longer valid: {e}"))?;
            same_parts(body, t.elements())
        }
        E::Array(items) => {
            let a = want!(x, Expression::Array(a) => a, "an array");
            eq("array length", items.len(), a.len())?;
            items.iter().zip(a).try_for_each(|(e, x)| same(e, x))
        }
        E::Object(items) => {
            let o = want!(x, Expression::Object(o) => o, "an object");
            eq("object length", items.len(), o.len())?;
            for ((k, v), (k2, v2)) in items.iter().zip(o.iter()) {
                match (k, k2) {
                    (K::Ident(a), ObjectKey::Identifier(b)) => eq("object key", a.as_str(), b.as_str())?,
                    (K::Expr(a), ObjectKey::Expression(b)) => same(a, b)?,
                    _ => return Err(format!("object key: expected {k:?}, found {k2:?}")),
                }
                same(v, v2)?;
            }
            Ok(())
        }
        E::Var(n) => eq("variable", n.as_str(), want!(x, Expression::Variable(v) => v.as_str(), "a variable")),
        E::Trav(base, ops) => {
            let t = want!(x, Expression::Traversal(t) => t, "a traversal");
            same(base, &t.expr)?;
            eq("number of traversal operators", ops.len(), t.operators.len())?;
            for (a, b) in ops.iter().zip(&t.operators) {
                match (a, b) {
                    (Op::Attr(n), TraversalOperator::GetAttr(m)) => eq("attribute", n.as_str(), m.as_str())?,
                    (Op::Legacy(n), TraversalOperator::LegacyIndex(m)) => eq("legacy index", *n, *m)?,
                    (Op::AttrSplat, TraversalOperator::AttrSplat) | (Op::FullSplat, TraversalOperator::FullSplat) => {}
                    (Op::Index(e), TraversalOperator::Index(x)) => same(e, x)?,
                    _ => return Err(format!("traversal operator: expected {a:?}, found {b:?}")),
                }
            }
            Ok(())
        }
        E::Call(path, args, expand) => {
            let c = want!(x, Expression::FuncCall(c) => c, "a function call");
            let mut names: Vec<&str> = c.name.namespace.iter().map(|i| i.as_str()).collect();
            names.push(c.name.name.as_str());
            eq("function name", path.iter().map(String::as_str).collect::<Vec<_>>(), names)?;
            eq("argument expansion", *expand, c.expand_final)?;
            eq("number of arguments", args.len(), c.args.len())?;
            args.iter().zip(&c.args).try_for_each(|(e, x)| same(e, x))
        }
        E::Paren(e) => same(e, want!(x, Expression::Parenthesis(p) => p, "parentheses")),
        E::Cond(c, t, f) => {
            let x = want!(x, Expression::Conditional(c) => c, "a conditional");
            same(c, &x.cond_expr)?;
            same(t, &x.true_expr)?;
            same(f, &x.false_expr)
        }
        E::Un(op, e) => {
            let o = want!(x, Expression::Operation(o) => o, "an operation");
            let u = want!(&**o, Operation::Unary(u) => u, "a unary operation");
            eq("operator", op.to_string(), u.operator.as_str())?;
            same(e, &u.expr)
        }
        E::Bin(l, op, r) => {
            let o = want!(x, Expression::Operation(o) => o, format!("the operation {op}"));
            let b = want!(&**o, Operation::Binary(b) => b, "a binary operation");
            eq("operator", *op, b.operator.as_str())?;
            same(l, &b.lhs_expr)?;
            same(r, &b.rhs_expr)
        }
        E::For(f) => {
            let x = want!(x, Expression::ForExpr(f) => f, "a for expression");
            ident_opt("for key", &f.key, x.key_var.as_ref())?;
            eq("for value", f.val.as_str(), x.value_var.as_str())?;
            same(&f.coll, &x.collection_expr)?;
            same_opt("for key expression", &f.key_expr, &x.key_expr)?;
            same(&f.value, &x.value_expr)?;
            eq("grouping", f.group, x.grouping)?;
            same_opt("for condition", &f.cond, &x.cond_expr)
        }
    }
}

/// A marker character in front of a template element can only be written as an interpolated string
/// when it stands outside of quotes: `a${"$"}${b}`.  That is the literal `a$`.
fn literal_markers(els: &[Element]) -> Vec<Element> {
    let mut out: Vec<Element> = vec![];
    for e in els {
        let lit = match e {
            Element::Literal(s) => Some(s.clone()),
            Element::Interpolation(i) if i.strip == Strip::None => match &i.expr {
                Expression::String(s) if !s.is_empty() && s.chars().all(|c| c == '$' || c == '%') => Some(s.clone()),
                _ => None,
            },
            _ => None,
        };
        match (lit, out.last_mut()) {
            (Some(s), Some(Element::Literal(l))) => l.push_str(&s),
            (Some(s), _) => out.push(Element::Literal(s)),
            (None, _) => out.push(e.clone()),
        }
    }
    out
}

pub fn same_parts(parts: &[T], els: &[Element]) -> Res {
    same_elements(parts, els).or_else(|e| {
        let merged = literal_markers(els);
        if merged == els {
            return Err(e);
        }
        same_elements(parts, &merged)
    })
}

fn same_elements(parts: &[T], els: &[Element]) -> Res {
    if parts.len() != els.len() {
        return Err(format!("template: expected {parts:?}, found {els:?}"));
    }
    for (p, e) in parts.iter().zip(els) {
        match (p, e) {
            (T::Lit(a), Element::Literal(b)) => eq("literal", a, b)?,
            (T::Interp(a, s), Element::Interpolation(b)) => {
                eq("interpolation strip", strip(*s), b.strip)?;
                same(a, &b.expr)?;
            }
            (T::If(c, t, f, s), Element::Directive(d)) => {
                let d = want!(&**d, Directive::If(d) => d, "an if directive");
                same(c, &d.cond_expr)?;
                same_parts(t, d.true_template.elements())?;
                match (f, &d.false_template) {
                    (None, None) => {}
                    (Some(f), Some(g)) => {
                        same_parts(f, g.elements())?;
                        eq("else strip", strip(s[1]), d.else_strip)?;
                    }
                    _ => return Err(format!("else branch: expected {f:?}, found {:?}", d.false_template)),
                }
                eq("if strip", strip(s[0]), d.if_strip)?;
                eq("endif strip", strip(s[2]), d.endif_strip)?;
            }
            (T::For(k, v, c, b, s), Element::Directive(d)) => {
                let d = want!(&**d, Directive::For(d) => d, "a for directive");
                ident_opt("for directive key", k, d.key_var.as_ref())?;
                eq("for directive value", v.as_str(), d.value_var.as_str())?;
                same(c, &d.collection_expr)?;
                same_parts(b, d.template.elements())?;
                eq("for strip", strip(s[0]), d.for_strip)?;
                eq("endfor strip", strip(s[1]), d.endfor_strip)?;
            }
            _ => return Err(format!("template element: expected {p:?}, found {e:?}")),
        }
    }
    Ok(())
}

pub fn same_body(items: &[Item], body: &hcl::Body) -> Res {
    let s: Vec<&Structure> = body.iter().collect();
    eq("number of structures", items.len(), s.len())?;
    for (i, s) in items.iter().zip(s) {
        match (i, s) {
            (Item::Attr(n, e), Structure::Attribute(a)) => {
                eq("attribute name", n.as_str(), a.key.as_str())?;
                same(e, &a.expr)?;
            }
            (Item::Block(n, labels, inner), Structure::Block(b)) => {
                eq("block name", n.as_str(), b.identifier.as_str())?;
                eq("number of labels", labels.len(), b.labels.len())?;
                for (a, b) in labels.iter().zip(&b.labels) {
                    match (a, b) {
                        (Label::Ident(a), BlockLabel::Identifier(b)) => eq("label", a.as_str(), b.as_str())?,
                        (Label::Str(a), BlockLabel::String(b)) => eq("label", a, b)?,
                        _ => return Err(format!("label: expected {a:?}, found {b:?}")),
                    }
                }
                same_body(inner, &b.body)?;
            }
            _ => return Err(format!("structure: expected {i:?}, found {s:?}")),
        }
    }
    Ok(())
}

// ---- evaluation -----------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    /// Evaluation must fail.
    Error(String),
    /// The specification leaves the result open.
    Open(&'static str),
}

pub type Ev<T> = Result<T, Fail>;

fn err<T>(m: impl Into<String>) -> Ev<T> {
    Err(Fail::Error(m.into()))
}

/// Variables in scope, innermost last.
#[derive(Clone, Debug)]
pub struct Env {
    pub vars: Vec<(String, Value)>,
}

thread_local! {
    /// Arguments the test functions were called with.
    pub static CALLS: RefCell<Vec<Vec<Value>>> = const { RefCell::new(vec![]) };
    static OVERFLOW: Cell<bool> = const { Cell::new(false) };
}

pub fn base_env() -> Env {
    let n = |s: &str| Value::Number(number(s));
    let s = |s: &str| Value::String(s.to_string());
    let o = |items: Vec<(&str, Value)>| Value::Object(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let a = Value::Array;
    Env {
        vars: [
            ("n1", n("5")),
            ("n2", n("2.5")),
            ("n0", n("0")),
            ("b1", Value::Bool(true)),
            ("b2", Value::Bool(false)),
            ("s1", s("foo")),
            ("s2", s("")),
            ("l1", a(vec![n("1"), n("2"), n("3")])),
            ("l2", a(vec![s("a"), s("b")])),
            ("l0", a(vec![])),
            (
                "lo",
                a(vec![
                    o(vec![("a", n("1")), ("b", a(vec![n("10"), n("20")]))]),
                    o(vec![("a", n("2")), ("b", a(vec![n("30")]))]),
                ]),
            ),
            ("o1", o(vec![("b", n("2")), ("a", n("1")), ("c", n("3"))])),
            ("oo", o(vec![("x", o(vec![("y", a(vec![n("1"), n("2")])), ("a", s("deep"))])), ("a", Value::Null)])),
            ("nul", Value::Null),
        ]
        .into_iter()
        .map(|(k, v)| (k.to_string(), v))
        .collect(),
    }
}

impl Env {
    fn get(&self, n: &str) -> Ev<Value> {
        match self.vars.iter().rev().find(|(k, _)| k == n) {
            Some((_, v)) => Ok(v.clone()),
            None => err(format!("undefined variable {n}")),
        }
    }
}

/// Order-sensitive equality of values.
pub fn identical(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| identical(a, b)),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && identical(a, b))
        }
        (a, b) => a == b,
    }
}

fn as_int(n: &Number) -> Option<i128> {
    n.as_u64().map(i128::from).or_else(|| n.as_i64().map(i128::from))
}

fn to_f(n: &Number) -> f64 {
    as_int(n).map_or_else(|| n.as_f64().unwrap(), |i| i as f64)
}

pub fn arith(op: &str, a: &Number, b: &Number) -> Ev<Number> {
    let float = |f: f64| match Number::from_f64(f) {
        Some(n) => Ok(n),
        None => err("not a finite number"),
    };
    match (as_int(a), as_int(b)) {
        (Some(x), Some(y)) => match op {
            "+" => Ok(int(x + y)),
            "-" => Ok(int(x - y)),
            "*" => match x.checked_mul(y) {
                Some(p) => Ok(int(p)),
                None => float(to_f(a) * to_f(b)),
            },
            "/" if y == 0 => err("division by zero"),
            "/" if x % y == 0 => Ok(int(x / y)),
            "/" => float(to_f(a) / to_f(b)),
            _ if y == 0 => err("division by zero"),
            _ => Ok(int(x % y)),
        },
        _ => match op {
            "+" => float(to_f(a) + to_f(b)),
            "-" => float(to_f(a) - to_f(b)),
            "*" => float(to_f(a) * to_f(b)),
            "/" => float(to_f(a) / to_f(b)),
            _ => float(to_f(a) % to_f(b)),
        },
    }
}

fn compare(a: &Number, b: &Number) -> std::cmp::Ordering {
    match (as_int(a), as_int(b)) {
        (Some(x), Some(y)) => x.cmp(&y),
        (None, None) => to_f(a).partial_cmp(&to_f(b)).unwrap(),
        (None, Some(_)) => compare(b, a).reverse(),
        (Some(i), None) => {
            let f = to_f(b);
            if f >= 18446744073709551616.0 {
                std::cmp::Ordering::Less
            } else if f < -9223372036854775808.0 {
                std::cmp::Ordering::Greater
            } else {
                let t = f as i128;
                i.cmp(&t).then_with(|| (t as f64).partial_cmp(&f).unwrap())
            }
        }
    }
}

pub fn binop(l: &Value, op: &str, r: &Value) -> Ev<Value> {
    match op {
        "==" => return Ok(Value::Bool(l == r)),
        "!=" => return Ok(Value::Bool(l != r)),
        _ => {}
    }
    match (l, r) {
        (Value::Bool(a), Value::Bool(b)) if op == "&&" => Ok(Value::Bool(*a && *b)),
        (Value::Bool(a), Value::Bool(b)) if op == "||" => Ok(Value::Bool(*a || *b)),
        (Value::Number(a), Value::Number(b)) => {
            let o = compare(a, b);
            match op {
                "<" => Ok(Value::Bool(o.is_lt())),
                ">" => Ok(Value::Bool(o.is_gt())),
                "<=" => Ok(Value::Bool(o.is_le())),
                ">=" => Ok(Value::Bool(o.is_ge())),
                "&&" | "||" => err("logic on numbers"),
                _ => arith(op, a, b).map(Value::Number),
            }
        }
        _ => err(format!("operator {op} on {l:?} and {r:?}")),
    }
}

fn boolean(v: Value) -> Ev<bool> {
    match v {
        Value::Bool(b) => Ok(b),
        v => err(format!("{v:?} is not a boolean")),
    }
}

fn key_string(v: Value) -> Ev<String> {
    match v {
        Value::String(s) => Ok(s),
        Value::Bool(b) => Ok(b.to_string()),
        Value::Number(n) => Ok(num_string(&n)),
        v => err(format!("{v:?} is not a key")),
    }
}

/// The text of a number: exact for integers, shortest round-trip form for the rest.
fn num_string(n: &Number) -> String {
    match as_int(n) {
        Some(i) => i.to_string(),
        None => n.to_string(),
    }
}

pub fn index(v: Value, i: &Value) -> Ev<Value> {
    match i {
        Value::String(k) => attr(v, k),
        Value::Number(n) => match n.as_u64() {
            Some(i) => match v {
                Value::Array(a) => match a.get(i as usize) {
                    Some(v) => Ok(v.clone()),
                    None => err("index out of range"),
                },
                v => err(format!("{v:?} is not a list")),
            },
            None => err("not a whole number"),
        },
        i => err(format!("{i:?} is not an index")),
    }
}

fn attr(v: Value, k: &str) -> Ev<Value> {
    match v {
        Value::Object(o) => match o.iter().find(|(n, _)| *n == k) {
            Some((_, v)) => Ok(v.clone()),
            None => err(format!("no key {k}")),
        },
        v => err(format!("{v:?} is not an object")),
    }
}

fn walk(v: Value, ops: &[Op], env: &Env) -> Ev<Value> {
    let Some((op, rest)) = ops.split_first() else {
        return Ok(v);
    };
    let each = |v: Value, ops: &[Op]| -> Ev<Value> {
        let items = match v {
            Value::Null => vec![],
            Value::Array(a) => a,
            v => vec![v],
        };
        items.into_iter().map(|v| walk(v, ops, env)).collect::<Ev<Vec<_>>>().map(Value::Array)
    };
    match op {
        Op::Attr(k) => walk(attr(v, k)?, rest, env),
        Op::Legacy(i) => walk(index(v, &Value::from(*i))?, rest, env),
        Op::Index(e) => {
            let i = eval(e, env)?;
            walk(index(v, &i)?, rest, env)
        }
        Op::AttrSplat => {
            let n = rest.iter().take_while(|o| matches!(o, Op::Attr(_))).count();
            let v = each(v, &rest[..n])?;
            walk(v, &rest[n..], env)
        }
        Op::FullSplat => each(v, rest),
    }
}

pub fn entries(v: Value) -> Ev<Vec<(Value, Value)>> {
    match v {
        Value::Array(a) => Ok(a.into_iter().enumerate().map(|(i, v)| (Value::from(i), v)).collect()),
        Value::Object(o) => Ok(o.into_iter().map(|(k, v)| (Value::from(k), v)).collect()),
        v => err(format!("{v:?} is not a collection")),
    }
}

fn bind(env: &Env, key: &Option<String>, val: &str, (k, v): (Value, Value)) -> Env {
    let mut env = env.clone();
    if let Some(n) = key {
        env.vars.push((n.clone(), k));
    }
    env.vars.push((val.to_string(), v));
    env
}

pub fn eval(e: &E, env: &Env) -> Ev<Value> {
    Ok(match e {
        E::Null => Value::Null,
        E::Bool(b) => Value::Bool(*b),
        E::Num(n) => Value::Number(number(n)),
        E::Str(s) => Value::String(s.clone()),
        E::Tmpl(parts) => match parts.as_slice() {
            [T::Interp(e, _)] => eval(e, env)?,
            parts => Value::String(text(parts, env)?),
        },
        E::Heredoc { body, .. } => match body.as_slice() {
            [T::Interp(e, _)] => eval(e, env)?,
            parts => Value::String(text(parts, env)?),
        },
        E::Array(items) => Value::Array(items.iter().map(|e| eval(e, env)).collect::<Ev<_>>()?),
        E::Object(items) => {
            let mut map = hcl::Map::new();
            for (k, v) in items {
                let k = match k {
                    K::Ident(s) => s.clone(),
                    K::Expr(e) => key_string(eval(e, env)?)?,
                };
                if map.insert(k, eval(v, env)?).is_some() {
                    return Err(Fail::Open("object with a repeated key"));
                }
            }
            Value::Object(map)
        }
        E::Var(n) => env.get(n)?,
        E::Trav(base, ops) => walk(eval(base, env)?, ops, env)?,
        E::Call(path, args, expand) => {
            let mut vals = vec![];
            let f = path.join("::");
            if !["ident", "ns::deep::ident", "add", "cat", "list", "ns::list", "boom"].contains(&f.as_str()) {
                return err("undefined function");
            }
            for (i, a) in args.iter().enumerate() {
                let v = eval(a, env)?;
                if *expand && i + 1 == args.len() {
                    match v {
                        Value::Array(a) => vals.extend(a),
                        v => return err(format!("cannot expand {v:?}")),
                    }
                } else {
                    vals.push(v);
                }
            }
            match (f.as_str(), vals.as_slice()) {
                ("ident" | "ns::deep::ident", [v]) => v.clone(),
                ("add", [Value::Number(a), Value::Number(b)]) => Value::Number(arith("+", a, b)?),
                ("cat", vals) if vals.iter().all(Value::is_string) => {
                    Value::String(vals.iter().map(|v| v.as_str().unwrap()).collect())
                }
                ("list" | "ns::list", vals) => Value::Array(vals.to_vec()),
                _ => return err("arguments do not fit or the function fails"),
            }
        }
        E::Paren(e) => eval(e, env)?,
        E::Cond(c, t, f) => {
            if boolean(eval(c, env)?)? {
                eval(t, env)?
            } else {
                eval(f, env)?
            }
        }
        E::Un(op, e) => match (op, eval(e, env)?) {
            ('!', Value::Bool(b)) => Value::Bool(!b),
            ('-', Value::Number(n)) => Value::Number(match as_int(&n) {
                Some(i) => int(-i),
                None => Number::from_f64(-n.as_f64().unwrap()).unwrap(),
            }),
            (op, v) => return err(format!("operator {op} on {v:?}")),
        },
        E::Bin(l, op, r) => {
            // Both sides are evaluated, also where one of them decides.
            let (l, r) = (eval(l, env)?, eval(r, env)?);
            binop(&l, op, &r)?
        }
        E::For(f) => {
            let mut list = vec![];
            let mut map: hcl::Map<String, Value> = hcl::Map::new();
            for entry in entries(eval(&f.coll, env)?)? {
                let env = bind(env, &f.key, &f.val, entry);
                if let Some(c) = &f.cond {
                    if !boolean(eval(c, &env)?)? {
                        continue;
                    }
                }
                let Some(k) = &f.key_expr else {
                    list.push(eval(&f.value, &env)?);
                    continue;
                };
                let k = key_string(eval(k, &env)?)?;
                let v = eval(&f.value, &env)?;
                if f.group {
                    match map.entry(k).or_insert_with(|| Value::Array(vec![])) {
                        Value::Array(a) => a.push(v),
                        _ => unreachable!(),
                    }
                } else if map.insert(k, v).is_some() {
                    return err("duplicate key");
                }
            }
            if f.key_expr.is_some() {
                Value::Object(map)
            } else {
                Value::Array(list)
            }
        }
    })
}

/// The text a template yields.
pub fn text(parts: &[T], env: &Env) -> Ev<String> {
    let mut out = String::new();
    render(parts, env, false, false, &mut out)?;
    Ok(out)
}

fn blank(c: char) -> bool {
    c.is_whitespace() && c != '\n' && c != '\r'
}

/// What is left of a literal between tags that strip (`l`) its start and (`r`) its end.
pub fn stripped(s: &str, l: bool, r: bool) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    if l {
        while i < c.len() && blank(c[i]) {
            i += 1;
        }
        if c[i..].starts_with(&['\r', '\n']) {
            i += 2;
        } else if c[i..].starts_with(&['\n']) {
            i += 1;
        }
    }
    let mut j = c.len();
    if r {
        while j > i && blank(c[j - 1]) {
            j -= 1;
        }
        if j > i && c[j - 1] == '\n' {
            j -= 1;
            if j > i && c[j - 1] == '\r' {
                j -= 1;
            }
        }
    }
    c[i..j].iter().collect()
}

fn sides(p: &T) -> S {
    match p {
        T::Lit(_) => (false, false),
        T::Interp(_, s) => *s,
        T::If(_, _, _, s) => (s[0].0, s[2].1),
        T::For(_, _, _, _, s) => (s[0].0, s[1].1),
    }
}

fn render(parts: &[T], env: &Env, before: bool, after: bool, out: &mut String) -> Ev<()> {
    for (i, p) in parts.iter().enumerate() {
        let l = if i == 0 { before } else { sides(&parts[i - 1]).1 };
        let r = parts.get(i + 1).map_or(after, |n| sides(n).0);
        match p {
            T::Lit(s) => out.push_str(&stripped(s, l, r)),
            T::Interp(e, _) => match eval(e, env)? {
                Value::String(s) => out.push_str(&s),
                Value::Bool(b) => out.push_str(if b { "true" } else { "false" }),
                Value::Number(n) => out.push_str(&num_string(&n)),
                _ => return Err(Fail::Open("text of a null or a collection")),
            },
            T::If(c, t, f, s) => {
                if boolean(eval(c, env)?)? {
                    let end = if f.is_some() { s[1].0 } else { s[2].0 };
                    render(t, env, s[0].1, end, out)?;
                } else if let Some(f) = f {
                    render(f, env, s[1].1, s[2].0, out)?;
                }
            }
            T::For(k, v, c, b, s) => {
                for entry in entries(eval(c, env)?)? {
                    let env = bind(env, k, v, entry);
                    render(b, &env, s[0].1, s[1].0, out)?;
                }
            }
        }
    }
    Ok(())
}

// ---- the same scope for the code under test ---------------------------------------------------------

pub fn context(env: &Env) -> hcl::eval::Context<'static> {
    use hcl::eval::{Context, FuncArgs, FuncDef, ParamType};
    use hcl::expr::FuncName;
    fn ident(a: FuncArgs) -> Result<Value, String> {
        Ok(a[0].clone())
    }
    fn add(a: FuncArgs) -> Result<Value, String> {
        let (x, y) = (a[0].as_number().unwrap(), a[1].as_number().unwrap());
        match arith("+", x, y) {
            Ok(n) => Ok(Value::Number(n)),
            Err(_) => Err("overflow".into()),
        }
    }
    fn cat(a: FuncArgs) -> Result<Value, String> {
        Ok(Value::String(a.iter().map(|v| v.as_str().unwrap()).collect()))
    }
    fn list(a: FuncArgs) -> Result<Value, String> {
        Ok(Value::Array(a.into_values()))
    }
    fn boom(_: FuncArgs) -> Result<Value, String> {
        Err("boom".into())
    }
    let id = |s: &str| hcl::Identifier::new(s).unwrap();
    let mut ctx = Context::new();
    for (k, v) in &env.vars {
        ctx.declare_var(id(k), v.clone());
    }
    let any1 = || FuncDef::builder().param(ParamType::Any).build(ident);
    ctx.declare_func(id("ident"), any1());
    ctx.declare_func(FuncName::new(id("ident")).with_namespace([id("ns"), id("deep")]), any1());
    ctx.declare_func(id("add"), FuncDef::new(add, [ParamType::Number, ParamType::Number]));
    ctx.declare_func(id("cat"), FuncDef::builder().variadic_param(ParamType::String).build(cat));
    ctx.declare_func(id("list"), FuncDef::builder().variadic_param(ParamType::Any).build(list));
    ctx.declare_func(
        FuncName::new(id("list")).with_namespace([id("ns")]),
        FuncDef::builder().variadic_param(ParamType::Any).build(list),
    );
    ctx.declare_func(id("boom"), FuncDef::builder().build(boom));
    ctx
}

/// Compares the outcome of an evaluation with what the specification says.
pub fn agree(want: Ev<Value>, got: Result<Value, String>) -> Res {
    match (want, got) {
        (Err(Fail::Open(_)), _) => Ok(()),
        (Err(Fail::Error(_)), Err(_)) => Ok(()),
        (Err(Fail::Error(e)), Ok(v)) => Err(format!("evaluates to {v:?} but must fail: {e}")),
        (Ok(v), Err(e)) => Err(format!("fails with {e:?} but must evaluate to {v:?}")),
        (Ok(a), Ok(b)) => {
            if identical(&a, &b) {
                Ok(())
            } else {
                Err(format!("evaluates to {b:?} instead of {a:?}"))
            }
        }
    }
}
