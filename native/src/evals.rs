//! Properties of evaluation, against the evaluator of `model`.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use hcl::eval::{Context, Evaluate, FuncArgs, FuncDef, ParamType};
use hcl::expr::{BinaryOp, BinaryOperator, FuncName, UnaryOp, UnaryOperator};
use hcl::{Expression, Identifier, Map, Number, Template, Value};
use std::str::FromStr;

fn id(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}

fn parse(text: &str) -> Result<Expression, String> {
    Expression::from_str(text).map_err(|e| format!("the expression is refused: {e}"))
}

fn evaluate(e: &Expression, ctx: &Context) -> Result<Value, String> {
    e.evaluate(ctx).map_err(|e| e.to_string())
}

fn check(e: &E, text: &str, env: &Env) -> Res {
    let want = eval(e, env);
    let ctx = context(env);
    agree(want, evaluate(&parse(text)?, &ctx))
}

fn random_expr(run: &mut Run, what: &str, n: usize, make: &dyn Fn(&mut Gen) -> E) {
    let env = base_env();
    for i in 0..run.iters(n) {
        let e = {
            let mut g = Gen::new(&mut run.rng);
            g.wild = [0, 2, 6, 15][i % 4];
            g.collide = i % 3 == 0;
            make(&mut g)
        };
        let noise = *run.rng.pick(&[0u64, 0, 0, 10]);
        let text = render_expr(&mut run.rng, &e, noise, false);
        run.case(what, &text, text.len() > 12, || check(&e, &text, &env));
        if run.full() {
            return;
        }
    }
}

pub fn obj(items: &[(&str, Value)]) -> Value {
    Value::Object(items.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

/// Values of every kind, with numbers at the borders of their representations.
pub fn values() -> Vec<Value> {
    let mut v = vec![Value::Null, Value::Bool(true), Value::Bool(false)];
    for n in [
        "0", "1", "-1", "2", "3", "-3", "7", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "-9223372036854775808", "0.5", "-2.5", "1e19", "1e308", "-1e308", "9007199254740993", "1e-320", "3.0", "4611686018427387904",
    ] {
        v.push(Value::Number(number(n)));
    }
    for s in ["", "a", "b", "1", "true", "null", "3"] {
        v.push(Value::String(s.into()));
    }
    let n = |i: i32| Value::from(i);
    v.extend([
        Value::Array(vec![]),
        Value::Array(vec![n(1)]),
        Value::Array(vec![n(1), n(2)]),
        Value::Array(vec![n(2), n(1)]),
        Value::Array(vec![Value::Null]),
        Value::Array(vec![Value::Array(vec![n(1)])]),
        Value::Object(Map::new()),
        obj(&[("a", n(1))]),
        obj(&[("a", n(1)), ("b", n(2))]),
        obj(&[("b", n(2)), ("a", n(1))]),
        obj(&[("a", Value::Null)]),
    ]);
    v
}

// ---- C09 ------------------------------------------------------------------------------------------

const BINOPS: [(&str, BinaryOperator); 13] = [
    ("==", BinaryOperator::Eq),
    ("!=", BinaryOperator::NotEq),
    ("<=", BinaryOperator::LessEq),
    (">=", BinaryOperator::GreaterEq),
    ("<", BinaryOperator::Less),
    (">", BinaryOperator::Greater),
    ("+", BinaryOperator::Plus),
    ("-", BinaryOperator::Minus),
    ("*", BinaryOperator::Mul),
    ("/", BinaryOperator::Div),
    ("%", BinaryOperator::Mod),
    ("&&", BinaryOperator::And),
    ("||", BinaryOperator::Or),
];

pub fn c09(run: &mut Run) {
    run.rule("every operator with every pair of values of a list of all kinds and border numbers, as variables, as plain operands and in place; random operations; non-trivial: all pairs");
    let vals = values();
    for l in &vals {
        for r in &vals {
            for (name, op) in BINOPS {
                let input = format!("{l:?} {name} {r:?}");
                run.case("binary operation", &input, true, || {
                    let mut ctx = Context::new();
                    ctx.declare_var("l", l.clone());
                    ctx.declare_var("r", r.clone());
                    let want = binop(l, name, r);
                    let by_var = parse(&format!("l {name} r"))?;
                    agree(want.clone(), evaluate(&by_var, &ctx)).map_err(|e| format!("variables: {e}"))?;
                    let direct = BinaryOp::new(l.clone(), op, r.clone());
                    agree(want.clone(), direct.evaluate(&ctx).map_err(|e| e.to_string())).map_err(|e| format!("operands: {e}"))?;
                    let mut place = Expression::from(hcl::expr::Operation::Binary(direct));
                    let got = place.evaluate_in_place(&ctx).map_err(|e| e.to_string());
                    match got {
                        Ok(()) => agree(want, evaluate(&place, &ctx)),
                        Err(e) => agree(want, Err(e)),
                    }
                    .map_err(|e| format!("in place: {e}"))
                });
            }
        }
        for (name, op) in [('!', UnaryOperator::Not), ('-', UnaryOperator::Neg)] {
            let input = format!("{name}{l:?}");
            run.case("unary operation", &input, true, || {
                let mut ctx = Context::new();
                ctx.declare_var("l", l.clone());
                let e = E::Un(name, Box::new(E::Var("l".into())));
                let env = Env { vars: vec![("l".into(), l.clone())] };
                let want = eval(&e, &env);
                agree(want.clone(), evaluate(&parse(&format!("{name}l"))?, &ctx))?;
                agree(want, UnaryOp::new(op, l.clone()).evaluate(&ctx).map_err(|e| e.to_string()))
            });
        }
    }
    run.exhausted("13 binary and 2 unary operators over 41 values of all kinds");
    random_expr(run, "operation", 60_000, &|g| {
        let d = 1 + g.rng.below(4);
        let t = *g.rng.pick(&[Ty::Num, Ty::Bool]);
        g.templates = false;
        g.expr(t, d)
    });
}

// ---- C10 ------------------------------------------------------------------------------------------

const NAMES: [&str; 4] = ["x", "y", "k", "v"];

/// Expressions made of for expressions and directives that bind names over each other.
fn scoped(rng: &mut Rng, d: usize) -> E {
    let var = |rng: &mut Rng| E::Var(rng.pick(&NAMES).to_string());
    if d == 0 {
        return match rng.below(5) {
            0 => E::Array((0..3).map(|_| var(rng)).collect()),
            1 => E::Call(vec![rng.pick(&["f", "g"]).to_string()], vec![], false),
            2 => E::Call(vec!["ns".into(), rng.pick(&["f", "g"]).to_string()], vec![], false),
            _ => var(rng),
        };
    }
    let d = d - 1;
    let coll = |rng: &mut Rng| match rng.below(5) {
        0 => E::Array(vec![E::Num("10".into()), E::Num("20".into())]),
        1 => E::Object(vec![(K::Ident("p".into()), E::Num("30".into())), (K::Ident("q".into()), E::Num("40".into()))]),
        2 => E::Array(vec![var(rng), var(rng)]),
        3 => scoped(rng, d),
        _ => E::Array(vec![]),
    };
    match rng.below(6) {
        0 => E::Array(vec![scoped(rng, d), var(rng), scoped(rng, d), var(rng)]),
        1 => {
            let (c, t, f) = (E::Bin(Box::new(var(rng)), "==", Box::new(var(rng))), scoped(rng, d), scoped(rng, d));
            cond(c, t, f)
        }
        2 => {
            let key = rng.chance(1, 2).then(|| rng.pick(&NAMES).to_string());
            let val = rng.pick(&NAMES).to_string();
            let c = coll(rng);
            let body = vec![T::Interp(paren(jsonish(scoped(rng, 0))), (false, false)), T::Lit(",".into())];
            tmpl(vec![
                T::For(key, val, c, body, [(false, false); 2]),
                T::Interp(paren(jsonish(var(rng))), (false, false)),
            ])
        }
        _ => {
            let key = rng.chance(1, 2).then(|| rng.pick(&NAMES).to_string());
            let val = rng.pick(&NAMES).to_string();
            let object = rng.chance(1, 4);
            let f = For {
                key,
                val,
                coll: coll(rng),
                key_expr: object.then(|| var(rng)),
                value: scoped(rng, d),
                group: object,
                cond: rng.chance(1, 4).then(|| E::Bin(Box::new(var(rng)), "!=", Box::new(var(rng)))),
            };
            let e = E::For(Box::new(f));
            if rng.chance(1, 3) {
                E::Array(vec![e, var(rng)])
            } else {
                e
            }
        }
    }
}

fn jsonish(e: E) -> E {
    e
}

fn one(_: FuncArgs) -> Result<Value, String> {
    Ok(Value::from("f"))
}
fn two(_: FuncArgs) -> Result<Value, String> {
    Ok(Value::from("ns::f"))
}
fn three(_: FuncArgs) -> Result<Value, String> {
    Ok(Value::from("g redeclared"))
}

fn scope_eval(e: &E, env: &Env) -> Ev<Value> {
    // f, g and ns::f are nullary functions; ns::g is undefined.
    fn subst(e: &E) -> E {
        match e {
            E::Call(p, _, _) => match p.join("::").as_str() {
                "f" => E::Str("f".into()),
                "g" => E::Str("g redeclared".into()),
                "ns::f" => E::Str("ns::f".into()),
                _ => E::Var("undefined function".into()),
            },
            E::Array(v) => E::Array(v.iter().map(subst).collect()),
            E::Cond(a, b, c) => E::Cond(Box::new(subst(a)), Box::new(subst(b)), Box::new(subst(c))),
            E::Paren(e) => E::Paren(Box::new(subst(e))),
            E::For(f) => {
                let mut f = (**f).clone();
                f.coll = subst(&f.coll);
                f.value = subst(&f.value);
                E::For(Box::new(f))
            }
            E::Tmpl(p) => E::Tmpl(parts(p)),
            e => e.clone(),
        }
    }
    fn parts(p: &[T]) -> Vec<T> {
        p.iter()
            .map(|t| match t {
                T::Interp(e, s) => T::Interp(subst(e), *s),
                T::For(k, v, c, b, s) => T::For(k.clone(), v.clone(), subst(c), parts(b), *s),
                t => t.clone(),
            })
            .collect()
    }
    eval(&subst(e), env)
}

pub fn c10(run: &mut Run) {
    run.rule("random nestings of for expressions, directives and conditionals that bind and read four names over each other, in contexts with random (re)definitions; the context is compared before and after; non-trivial: at least two binders");
    for i in 0..run.iters(60_000) {
        let mut env = Env { vars: vec![] };
        let n = run.rng.below(7);
        for j in 0..n {
            let name = run.rng.pick(&NAMES).to_string();
            let val = if run.rng.chance(1, 6) { Value::Array(vec![Value::from(j)]) } else { Value::from(j) };
            env.vars.push((name, val));
        }
        let d = run.rng.below(5);
        let e = scoped(&mut run.rng, d);
        let noise = if i % 4 == 0 { 10 } else { 0 };
        let text = render_expr(&mut run.rng, &e, noise, false);
        let input = format!("{:?}: {text}", env.vars.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>());
        run.case("scopes", &input, text.matches("for").count() > 1, || {
            let want = scope_eval(&e, &env);
            let mut ctx = Context::new();
            for (k, v) in &env.vars {
                ctx.declare_var(k.as_str(), v.clone());
            }
            ctx.declare_func("f", FuncDef::builder().build(one));
            ctx.declare_func("g", FuncDef::builder().build(one));
            ctx.declare_func(FuncName::new("f").with_namespace(["ns"]), FuncDef::builder().build(two));
            ctx.declare_func("g", FuncDef::builder().build(three));
            let before = format!("{ctx:?}");
            let got = evaluate(&parse(&text)?, &ctx);
            agree(want, got)?;
            ensure(before == format!("{ctx:?}"), || "the context changed".into())?;
            // every name still resolves to its last definition
            for n in NAMES {
                let want = env.vars.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v.clone());
                let got = Expression::Variable(hcl::expr::Variable::new(n).unwrap()).evaluate(&ctx).ok();
                ensure(want == got, || format!("{n} evaluates to {got:?} instead of {want:?}"))?;
            }
            Ok(())
        });
        if run.full() {
            return;
        }
    }
    random_expr(run, "expression", 20_000, &|g| {
        let d = 1 + g.rng.below(4);
        if g.rng.chance(1, 2) {
            g.for_list(d)
        } else {
            g.expr(Ty::Any, d)
        }
    });
}

// ---- C11 ------------------------------------------------------------------------------------------

fn recorded(a: FuncArgs) -> Result<Value, String> {
    let pos: Vec<Value> = a.positional_args().cloned().collect();
    let var: Vec<Value> = a.variadic_args().cloned().collect();
    let all: Vec<Value> = a.into_values();
    CALLS.with(|c| c.borrow_mut().push(vec![Value::Array(pos), Value::Array(var), Value::Array(all)]));
    Ok(Value::from("called"))
}

fn failing(_: FuncArgs) -> Result<Value, String> {
    Err("the function fails".into())
}

fn ptype(rng: &mut Rng, d: usize) -> ParamType {
    match rng.below(if d == 0 { 4 } else { 8 }) {
        0 => ParamType::Any,
        1 => ParamType::Bool,
        2 => ParamType::Number,
        3 => ParamType::String,
        4 => ParamType::array_of(ptype(rng, d - 1)),
        5 => ParamType::object_of(ptype(rng, d - 1)),
        6 => ParamType::nullable(ptype(rng, d - 1)),
        _ => {
            let n = rng.below(4);
            ParamType::one_of((0..n).map(|_| ptype(rng, d - 1)).collect::<Vec<_>>())
        }
    }
}

fn satisfied(p: &ParamType, v: &Value) -> bool {
    match p {
        ParamType::Any => true,
        ParamType::Bool => matches!(v, Value::Bool(_)),
        ParamType::Number => matches!(v, Value::Number(_)),
        ParamType::String => matches!(v, Value::String(_)),
        ParamType::Array(t) => match v {
            Value::Array(a) => a.iter().all(|v| satisfied(t, v)),
            _ => false,
        },
        ParamType::Object(t) => match v {
            Value::Object(o) => o.iter().all(|(_, v)| satisfied(t, v)),
            _ => false,
        },
        ParamType::OneOf(ts) => ts.is_empty() || ts.iter().any(|t| satisfied(t, v)),
        ParamType::Nullable(t) => matches!(v, Value::Null) || satisfied(t, v),
    }
}

/// A value that mostly satisfies the type.
fn arg_for(rng: &mut Rng, p: &ParamType, d: usize) -> Value {
    if rng.chance(1, 12) {
        let vals = values();
        return rng.pick(&vals).clone();
    }
    match p {
        ParamType::Any => {
            let vals = values();
            rng.pick(&vals).clone()
        }
        ParamType::Bool => Value::Bool(rng.chance(1, 2)),
        ParamType::Number => Value::from(rng.below(10)),
        ParamType::String => Value::from("s"),
        ParamType::Array(t) => Value::Array((0..rng.below(4)).map(|_| arg_for(rng, t, d + 1)).collect()),
        ParamType::Object(t) => Value::Object((0..rng.below(4)).map(|i| (format!("k{i}"), arg_for(rng, t, d + 1))).collect()),
        ParamType::OneOf(ts) if ts.is_empty() => Value::Null,
        ParamType::OneOf(ts) => {
            let t = rng.pick(ts).clone();
            arg_for(rng, &t, d)
        }
        ParamType::Nullable(t) => {
            if rng.chance(1, 3) {
                Value::Null
            } else {
                arg_for(rng, t, d)
            }
        }
    }
}

pub fn c11(run: &mut Run) {
    run.rule("random signatures (nested, nullable, one-of, variadic) with random argument lists, written as variables and expanded arrays; a recording function is compared with the arguments that must arrive; non-trivial: at least one parameter");
    for _ in 0..run.iters(120_000) {
        let rng = &mut run.rng;
        let params: Vec<ParamType> = (0..rng.below(4)).map(|_| ptype(rng, 2)).collect();
        let variadic = rng.chance(1, 2).then(|| ptype(rng, 2));
        let mut args: Vec<Value> = params.iter().map(|p| arg_for(rng, p, 0)).collect();
        if let Some(p) = &variadic {
            for _ in 0..rng.below(4) {
                args.push(arg_for(rng, p, 0));
            }
        }
        match rng.below(12) {
            0 => {
                args.pop();
            }
            1 => args.push(Value::from("extra")),
            _ => {}
        }
        // How the call is written: some of the last arguments as an expanded list.
        let mut written: Vec<Value> = args.clone();
        let mut expand = false;
        let mut bad_expand = false;
        match rng.below(6) {
            0 | 1 => {
                let at = rng.below(written.len() + 1);
                let tail = written.split_off(at);
                written.push(Value::Array(tail));
                expand = true;
            }
            2 if !written.is_empty() && rng.chance(1, 3) => {
                expand = true;
                match written.pop().unwrap() {
                    Value::Array(a) => {
                        args.pop();
                        args.extend(a.clone());
                        written.push(Value::Array(a));
                    }
                    v => {
                        written.push(v);
                        bad_expand = true;
                    }
                }
            }
            _ => {}
        }
        let fails = rng.chance(1, 20);
        let ns = rng.chance(1, 4);
        let undefined = rng.chance(1, 40);
        let name = if ns { "space::the_func" } else { "the_func" };
        let names: Vec<String> = (0..written.len()).map(|i| format!("a{i}")).collect();
        let text = format!("{name}({}{})", names.join(", "), if expand { "..." } else { "" });
        let input = format!("{params:?} variadic {variadic:?}: {text} with {}", Value::Array(written.clone()));
        run.case("call", &input, !params.is_empty(), || {
            let mut ctx = Context::new();
            for (n, v) in names.iter().zip(&written) {
                ctx.declare_var(n.as_str(), v.clone());
            }
            let mut b = FuncDef::builder().params(params.clone());
            if let Some(v) = &variadic {
                b = b.variadic_param(v.clone());
            }
            let mut fname = FuncName::new("the_func");
            let mut other = FuncName::new("the_func");
            if ns {
                fname = fname.with_namespace(["space"]);
            } else {
                other = other.with_namespace(["space"]);
            }
            let func = b.build(if fails { failing } else { recorded });
            if !undefined {
                ctx.declare_func(fname, func);
            }
            ctx.declare_func(other, FuncDef::builder().build(failing));
            CALLS.with(|c| c.borrow_mut().clear());
            let got = evaluate(&parse(&text)?, &ctx);
            let calls = CALLS.with(|c| c.borrow().clone());
            let np = params.len();
            let fits = !undefined
                && !bad_expand
                && args.len() >= np
                && (variadic.is_some() || args.len() == np)
                && params.iter().zip(&args).all(|(p, a)| satisfied(p, a))
                && variadic.iter().all(|p| args.iter().skip(np).all(|a| satisfied(p, a)));
            if !fits || fails {
                ensure(calls.is_empty(), || format!("the function was run with {calls:?}"))?;
                return match got {
                    Ok(v) => Err(format!("the call yields {v:?} but must fail")),
                    Err(e) => ensure(bad_expand || e.contains("the_func"), || format!("the error does not name the function: {e}")),
                };
            }
            let v = got.map_err(|e| format!("the call fails: {e}"))?;
            ensure(v == Value::from("called"), || format!("the call yields {v:?}"))?;
            let want = vec![
                Value::Array(args[..np].to_vec()),
                Value::Array(args[np..].to_vec()),
                Value::Array(args.clone()),
            ];
            ensure(calls.len() == 1 && calls[0].iter().zip(&want).all(|(a, b)| identical(a, b)), || {
                format!("the function received {calls:?} instead of {want:?}")
            })
        });
        if run.full() {
            return;
        }
    }
    random_expr(run, "expression with calls", 20_000, &|g| {
        let d = 1 + g.rng.below(3);
        let t = *g.rng.pick(&[Ty::Any, Ty::Num, Ty::Str, Ty::List]);
        let e = g.expr(t, d);
        let n = g.rng.below(3);
        let mut args: Vec<E> = (0..n).map(|_| g.expr(Ty::Any, 1)).collect();
        args.push(e);
        let f = *g.rng.pick(&["list", "ident", "add", "cat"]);
        let expand = g.rng.chance(1, 3);
        E::Call(vec![f.into()], args, expand)
    });
}

// ---- C12 ------------------------------------------------------------------------------------------

pub fn c12(run: &mut Run) {
    run.rule("all chains of up to three accessors from a list over bases of all kinds, then random values and chains; non-trivial: at least one accessor");
    let env = base_env();
    let bases = ["l1", "lo", "o1", "oo", "nul", "n1", "s1", "l0", "b1"];
    let num = |s: &str| Op::Index(E::Num(s.into()));
    let key = |s: &str| Op::Index(E::Str(s.into()));
    let at = |s: &str| Op::Attr(s.into());
    let ops = [
        Op::AttrSplat,
        Op::FullSplat,
        Op::Legacy(0),
        Op::Legacy(2),
        at("a"),
        at("b"),
        at("x"),
        num("0"),
        num("1"),
        num("-1"),
        num("0.5"),
        key("a"),
        key("x"),
        Op::Index(E::Bool(true)),
        Op::Index(E::Null),
        Op::Index(E::Var("n1".into())),
    ];
    let max = if run.thorough { 4 } else { 3 };
    for b in bases {
        let mut idx: Vec<usize> = vec![0];
        'chains: loop {
            let e = trav(E::Var(b.into()), idx.iter().map(|i| ops[*i].clone()).collect());
            let text = render_expr(&mut run.rng, &e, 0, false);
            run.case("accessors", &text, true, || check(&e, &text, &env));
            let mut k = idx.len();
            loop {
                if k == 0 {
                    idx = vec![0; idx.len() + 1];
                    break;
                }
                k -= 1;
                if idx[k] + 1 < ops.len() {
                    idx[k] += 1;
                    idx[k + 1..].fill(0);
                    break;
                }
            }
            if idx.len() > max || run.full() {
                break 'chains;
            }
        }
    }
    run.exhausted("chains of up to three of 16 accessors on 9 bases");
    random_expr(run, "random accessors", 50_000, &|g| {
        let base = *g.rng.pick(&[Ty::List, Ty::Obj, Ty::List, Ty::Any]);
        let d = g.rng.below(3);
        let e = g.expr(base, d);
        let n = 1 + g.rng.below(5);
        let ops = (0..n).map(|_| g.op(1)).collect();
        trav(e, ops)
    });
    // Positions beyond the machine's index range are not elements.
    for i in ["4294967296", "4294967297", "18446744073709551615", "9223372036854775808"] {
        for t in [format!("l1[{i}]"), format!("l1.{i}"), format!("l1[{i}.0]"), format!("s1[{i}]")] {
            run.case("large index", &t.clone(), true, || {
                let ctx = context(&base_env());
                let e = parse(&t)?;
                ensure(e.evaluate(&ctx).is_err(), || "an index past the end yields a value".into())
            });
        }
    }
}

// ---- C13 ------------------------------------------------------------------------------------------

pub fn c13(run: &mut Run) {
    run.rule("all lists and objects of up to four elements from a small set, with filters, keys and grouping; random for and conditional expressions nested in each other; non-trivial: text longer than 12 bytes");
    let elems = ["0", "1", "2", "\"a\"", "true"];
    let bodies = [
        "[for v in C: v]",
        "[for k, v in C: k]",
        "[for k, v in C: [k, v] if v != 1]",
        "[for v in C: v if v == 2 || v == \"a\"]",
        "{for k, v in C: v => k}",
        "{for k, v in C: k => v}",
        "{for k, v in C: v => k... if v != 2}",
        "{for v in C: \"x\" => v...}",
        "{for v in C: \"x\" => v}",
        "[for v in C: v if v]",
        "[for k, v in C: v if v == 0 ? true : k]",
    ];
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    let max = if run.thorough { 5 } else { 4 };
    for _ in 0..max {
        let longest = combos.iter().map(Vec::len).max().unwrap();
        let next: Vec<Vec<usize>> = combos
            .iter()
            .filter(|c| c.len() == longest)
            .flat_map(|c| (0..elems.len()).map(move |i| [c.as_slice(), &[i]].concat()))
            .collect();
        combos.extend(next);
    }
    let ev = |i: usize| match i {
        0..=2 => Value::from(i),
        3 => Value::from("a"),
        _ => Value::Bool(true),
    };
    for c in &combos {
        for object in [false, true] {
            let coll = if object {
                Value::Object(c.iter().enumerate().map(|(i, e)| (format!("k{}", 9 - i), ev(*e))).collect())
            } else {
                Value::Array(c.iter().map(|e| ev(*e)).collect())
            };
            for (which, b) in bodies.iter().enumerate() {
                let input = format!("{b} with C = {coll}");
                run.case("for", &input, !c.is_empty(), || {
                    let mut ctx = Context::new();
                    ctx.declare_var("C", coll.clone());
                    agree(for_reference(which, entries(coll.clone()).map_err(|e| format!("{e:?}"))?), evaluate(&parse(b)?, &ctx))
                });
            }
        }
        if run.full() {
            return;
        }
    }
    run.exhausted("11 for expressions over all lists and objects of up to 4 of 5 elements");
    random_expr(run, "random for and conditional", 50_000, &|g| {
        let d = 1 + g.rng.below(4);
        match g.rng.below(5) {
            0 | 1 => g.for_list(d),
            2 | 3 => g.for_object(d),
            _ => {
                let t = *g.rng.pick(&[Ty::Any, Ty::Num, Ty::List]);
                let c = g.expr(Ty::Bool, d - 1);
                // The branch that is not selected may fail.
                let bad = if g.rng.chance(1, 2) { E::Var("undefined_".into()) } else { g.expr(t, d - 1) };
                let good = g.expr(t, d - 1);
                if g.rng.chance(1, 2) {
                    cond(c, good, bad)
                } else {
                    cond(c, bad, good)
                }
            }
        }
    });
}

/// The for expressions of `c13`, written out.
fn for_reference(which: usize, items: Vec<(Value, Value)>) -> Ev<Value> {
    let err = |m: &str| Err(Fail::Error(m.into()));
    let key = |v: &Value| match v {
        Value::String(s) => s.clone(),
        Value::Number(n) => n.to_string(),
        Value::Bool(b) => b.to_string(),
        _ => unreachable!(),
    };
    let one = Value::from(1);
    let two = Value::from(2);
    let mut list = vec![];
    let mut map: Map<String, Value> = Map::new();
    for (k, v) in items {
        let (entry, grouped): ((String, Value), bool) = match which {
            0 => {
                list.push(v);
                continue;
            }
            1 => {
                list.push(k);
                continue;
            }
            2 => {
                if v != one {
                    list.push(Value::Array(vec![k, v]));
                }
                continue;
            }
            3 => {
                if v == two || v == Value::from("a") {
                    list.push(v);
                }
                continue;
            }
            9 => match v {
                Value::Bool(true) => {
                    list.push(v);
                    continue;
                }
                _ => return err("condition"),
            },
            10 => {
                if v == Value::from(0) {
                    list.push(v);
                    continue;
                }
                return err("condition");
            }
            4 => ((key(&v), k), false),
            5 => ((key(&k), v), false),
            6 => {
                if v == two {
                    continue;
                }
                ((key(&v), k), true)
            }
            7 => (("x".into(), v), true),
            _ => (("x".into(), v), false),
        };
        if grouped {
            map.entry(entry.0).or_insert_with(|| Value::Array(vec![])).as_array_mut().unwrap().push(entry.1);
        } else if map.insert(entry.0, entry.1).is_some() {
            return err("duplicate");
        }
    }
    Ok(if matches!(which, 4..=8) { Value::Object(map) } else { Value::Array(list) })
}

// ---- C14 ------------------------------------------------------------------------------------------

fn check_template(parts: &[T], text_: &str, env: &Env) -> Res {
    let want = text(parts, env).map(Value::String);
    let t = Template::from_str(text_).map_err(|e| format!("the template is refused: {e}"))?;
    let got = t.evaluate(&context(env)).map(Value::String).map_err(|e| e.to_string());
    agree(want, got)
}

pub fn c14(run: &mut Run) {
    run.rule("all strip marker combinations around literals with every short run of blank characters, in bare and quoted templates; random nested templates, quoted, bare and as heredocs; non-trivial: at least one strip marker");
    let env = base_env();
    let ws = [" ", "\n", "\t", "\r\n", "x", "\u{a0}", "\r"];
    let max = if run.thorough { 5 } else { 4 };
    let mut lits = vec![];
    all_strings(&ws, max, &mut |s| lits.push(s.to_string()));
    let s = |b: usize| ((b & 1) != 0, (b & 2) != 0);
    let interp = |b: usize| T::Interp(E::Num("1".into()), s(b));
    let tru = || E::Bool(true);
    let fals = || E::Bool(false);
    for lit in &lits {
        for bits in 0..4usize {
            let l = || T::Lit(lit.clone());
            let (a, b) = ((bits & 1) * 2, (bits & 2) >> 1);
            // interpolation literal interpolation; literals at the borders of directives
            let shapes: Vec<Vec<T>> = vec![
                vec![interp(a), l(), interp(b)],
                vec![T::If(tru(), vec![l()], None, [s(a), (false, false), s(b)])],
                vec![T::If(tru(), vec![l()], Some(vec![T::Lit("no".into())]), [s(a), s(b), (true, true)])],
                vec![T::If(fals(), vec![T::Lit("no".into())], Some(vec![l()]), [(true, true), s(a), s(b)])],
                vec![T::For(None, "v".into(), E::Var("l1".into()), vec![l()], [s(a), s(b)])],
                vec![interp(0), T::If(tru(), vec![l(), interp(b)], None, [s(a), (false, false), s(3)]), l()],
                vec![l(), T::If(tru(), vec![], None, [s(b), (false, false), s(a)]), l()],
                vec![l(), T::For(None, "v".into(), E::Var("l0".into()), vec![interp(3)], [s(b), s(a)]), l(), interp(b)],
            ];
            for parts in shapes {
                let text = render_template(&mut run.rng, &parts, 0);
                run.case("strip markers", &text, bits != 0, || check_template(&parts, &text, &env));
            }
        }
        if run.full() {
            return;
        }
    }
    run.exhausted("8 template shapes with 4 strip combinations around all literals of up to 4 of 7 blank and other characters");
    for i in 0..run.iters(60_000) {
        let depth = 1 + run.rng.below(3);
        let parts = {
            let mut g = Gen::new(&mut run.rng);
            g.wild = [0, 0, 3][i % 3];
            g.collide = i % 2 == 0;
            g.parts(depth, 6)
        };
        match run.rng.below(3) {
            0 => {
                let parts = bare_template(parts);
                let noise = if i % 5 == 0 { 10 } else { 0 };
                let text = render_template(&mut run.rng, &parts, noise);
                run.case("template", &text, text.contains('~'), || check_template(&parts, &text, &env));
            }
            1 => {
                let e = tmpl(parts);
                let text = render_expr(&mut run.rng, &e, 0, false);
                run.case("quoted template", &text, text.contains('~'), || check(&e, &text, &env));
            }
            _ => {
                // a delimiter that no line starts with
                let e = heredoc("END_OF_IT", parts);
                let text = format!("a = {}\n", render_expr(&mut run.rng, &e, 0, false));
                run.case("heredoc", &text, text.contains('~'), || {
                    let want = eval(&e, &env);
                    let body: hcl::Body = hcl::parse(&text).map_err(|e| format!("refused: {e}"))?;
                    let expr = body.attributes().next().unwrap().expr.clone();
                    agree(want, evaluate(&expr, &context(&env)))
                });
            }
        }
        if run.full() {
            return;
        }
    }
}

// ---- C23 ------------------------------------------------------------------------------------------

fn partial(env: &Env, rng: &mut Rng) -> Env {
    let keep = 1 + rng.below(10) as u64;
    Env { vars: env.vars.iter().filter(|_| rng.chance(keep, 10)).cloned().collect() }
}

/// A context with some of the definitions of `env`, with or without its functions.
fn partial_ctx(env: &Env, funcs: bool) -> Context<'static> {
    if funcs {
        return context(env);
    }
    let mut ctx = Context::new();
    for (k, v) in &env.vars {
        ctx.declare_var(id(k), v.clone());
    }
    ctx
}

fn errs<T, X: std::fmt::Display>(r: Result<T, X>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

pub fn c23(run: &mut Run) {
    run.rule("random expressions, templates and bodies are evaluated in place with all and with some of the definitions, and afterwards with all of them; non-trivial: text longer than 12 bytes");
    let env = base_env();
    // keys that turn out equal around an identifier of that name
    run.case("expression, three keys", r#"{(s1) = 1, foo = 2, "foo" = 3} with s1 = "foo""#, true, || {
        let e = parse(r#"{(s1) = 1, foo = 2, "foo" = 3}"#)?;
        let mut ctx = Context::new();
        ctx.declare_var("s1", "foo");
        let want = errs(e.evaluate(&ctx))?;
        let mut place = e.clone();
        errs(place.evaluate_in_place(&ctx))?;
        ensure(place == Expression::from(want.clone()), || format!("in place leaves {place} instead of {want}"))
    });
    for i in 0..run.iters(60_000) {
        let depth = 1 + run.rng.below(4);
        let small = partial(&env, &mut run.rng);
        let funcs = run.rng.chance(2, 3);
        let wild = [0, 2, 6, 15][i % 4];
        let kind = run.rng.below(5);
        let names: Vec<&str> = small.vars.iter().map(|(k, _)| k.as_str()).collect();
        let given = format!("first with {}{}: ", names.join(" "), if funcs { "" } else { " and no functions" });
        if kind < 3 {
            let e = {
                let mut g = Gen::new(&mut run.rng);
                g.wild = wild;
                g.collide = i % 3 == 0;
                g.in_place = true;
                g.expr(Ty::Any, depth)
            };
            let text = render_expr(&mut run.rng, &e, 0, false);
            run.case("expression", &format!("{given}{text}"), text.len() > 12, || {
                let e = parse(&text)?;
                let (full, part) = (context(&env), partial_ctx(&small, funcs));
                for ctx in [&full, &part] {
                    let direct = errs(e.evaluate(ctx));
                    let mut place = e.clone();
                    match (&direct, place.evaluate_in_place(ctx)) {
                        (Ok(v), Ok(())) => {
                            let left = Expression::from(v.clone());
                            ensure(place == left, || format!("in place leaves {place:?} instead of {v:?}"))?;
                        }
                        (Ok(v), Err(e)) => return Err(format!("in place fails with {e} although it evaluates to {v:?}")),
                        (Err(e), Ok(())) => return Err(format!("in place succeeds with {place:?} although evaluating fails: {e}")),
                        (Err(_), Err(errors)) => ensure(errors.len() > 0, || "no error is reported".into())?,
                    }
                    // what is left evaluates like the original
                    let (want, got) = (errs(e.evaluate(&full)), errs(place.evaluate(&full)));
                    match (&want, &got) {
                        (Ok(a), Ok(b)) if identical(a, b) => {}
                        (Err(_), Err(_)) => {}
                        // of entries whose keys turn out equal only the last is left
                        (Err(_), Ok(_)) if i % 3 == 0 => {}
                        _ => return Err(format!("evaluating {place:?}, which was left, gives {got:?} instead of {want:?}")),
                    }
                }
                Ok(())
            });
        } else if kind == 3 {
            let parts = {
                let mut g = Gen::new(&mut run.rng);
                g.wild = wild;
                g.collide = i % 3 == 0;
                g.in_place = true;
                bare_template(g.parts(depth, 5))
            };
            let text = render_template(&mut run.rng, &parts, 0);
            run.case("template", &format!("{given}{text}"), text.len() > 12, || {
                let t = errs(Template::from_str(&text))?;
                let (full, part) = (context(&env), partial_ctx(&small, funcs));
                for ctx in [&full, &part] {
                    let direct = errs(t.evaluate(ctx));
                    let mut place = t.clone();
                    match (&direct, place.evaluate_in_place(ctx)) {
                        (Ok(v), Ok(())) => {
                            let left = errs(place.evaluate(&Context::new()).or_else(|_| place.evaluate(ctx)))?;
                            ensure(&left == v, || format!("in place leaves {place:?} that yields {left:?} instead of {v:?}"))?;
                        }
                        (Ok(v), Err(e)) => return Err(format!("in place fails with {e} although it evaluates to {v:?}")),
                        (Err(e), Ok(())) => return Err(format!("in place succeeds with {place:?} although evaluating fails: {e}")),
                        (Err(_), Err(errors)) => ensure(errors.len() > 0, || "no error is reported".into())?,
                    }
                    let (want, got) = (errs(t.evaluate(&full)), errs(place.evaluate(&full)));
                    match (&want, &got) {
                        (Ok(a), Ok(b)) if a == b => {}
                        (Err(_), Err(_)) => {}
                        // of entries whose keys turn out equal only the last is left
                        (Err(_), Ok(_)) if i % 3 == 0 => {}
                        _ => return Err(format!("evaluating {place:?}, which was left, gives {got:?} instead of {want:?}")),
                    }
                }
                Ok(())
            });
        } else {
            let items = {
                let mut g = Gen::new(&mut run.rng);
                g.wild = wild;
                g.collide = i % 3 == 0;
                g.in_place = true;
                g.body(2, 4)
            };
            let text = render_body(&mut run.rng, &items, 0);
            run.case("body", &format!("{given}{text}"), text.len() > 12, || {
                let b: hcl::Body = errs(hcl::parse(&text))?;
                let (full, part) = (context(&env), partial_ctx(&small, funcs));
                for ctx in [&full, &part] {
                    let direct = errs(b.evaluate(ctx));
                    let mut place = b.clone();
                    match (&direct, place.evaluate_in_place(ctx)) {
                        (Ok(v), Ok(())) => ensure(&place == v, || format!("in place leaves {place:?} instead of {v:?}"))?,
                        (Ok(v), Err(e)) => return Err(format!("in place fails with {e} although it evaluates to {v:?}")),
                        (Err(e), Ok(())) => return Err(format!("in place succeeds with {place:?} although evaluating fails: {e}")),
                        (Err(_), Err(errors)) => ensure(errors.len() > 0, || "no error is reported".into())?,
                    }
                    let (want, got) = (errs(b.evaluate(&full)), errs(place.evaluate(&full)));
                    match (&want, &got) {
                        (Ok(x), Ok(y)) => ensure(x == y, || format!("evaluating what was left gives {y:?} instead of {x:?}"))?,
                        (Err(_), Err(_)) => {}
                        // of entries whose keys turn out equal only the last is left
                        (Err(_), Ok(_)) if i % 3 == 0 => {}
                        _ => return Err(format!("evaluating {place:?}, which was left, gives {got:?} instead of {want:?}")),
                    }
                    // attributes are those of the model
                    if let Ok(v) = &direct {
                        check_attrs(&items, v, &env)?;
                    }
                }
                Ok(())
            });
        }
        if run.full() {
            return;
        }
    }
    let _ = Number::from(0);
}

fn check_attrs(items: &[Item], body: &hcl::Body, env: &Env) -> Res {
    for (i, s) in items.iter().zip(body.iter()) {
        match (i, s) {
            (Item::Attr(n, e), hcl::Structure::Attribute(a)) => {
                ensure(n == a.key.as_str(), || format!("attribute {n} is now {}", a.key.as_str()))?;
                if let Ok(v) = eval(e, env) {
                    ensure(a.expr == Expression::from(v.clone()), || format!("{n} evaluates to {:?} instead of {v:?}", a.expr))?;
                }
            }
            (Item::Block(n, _, inner), hcl::Structure::Block(b)) => {
                ensure(n == b.identifier.as_str(), || "block name".into())?;
                check_attrs(inner, &b.body, env)?;
            }
            _ => return Err("structures differ".into()),
        }
    }
    ensure(items.len() == body.iter().count(), || "a structure was dropped".into())
}
