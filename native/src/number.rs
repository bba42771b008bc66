use crate::core::*;
use hcl_primitives::Number;
use std::cmp::Ordering;

const P63: f64 = 9_223_372_036_854_775_808.0;
const P64: f64 = 18_446_744_073_709_551_616.0;

#[derive(Clone, Copy, Debug)]
enum Src {
    U(u64),
    I(i64),
    F(f64),
}

/// The mathematical value of a number.
#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Int(i128),
    Flt(f64),
}

fn make(s: Src) -> Number {
    match s {
        Src::U(u) => Number::from(u),
        Src::I(i) => Number::from(i),
        Src::F(f) => Number::from_f64(f).expect("finite"),
    }
}

fn canon(f: f64) -> M {
    if f >= -P63 && f < P64 && f.trunc() == f {
        M::Int(f as i128)
    } else {
        M::Flt(f)
    }
}

fn spec(s: Src) -> M {
    match s {
        Src::U(u) => M::Int(u as i128),
        Src::I(i) => M::Int(i as i128),
        Src::F(f) => canon(f),
    }
}

fn from_int(i: i128) -> M {
    if i >= i64::MIN as i128 && i <= u64::MAX as i128 {
        M::Int(i)
    } else {
        canon(i as f64)
    }
}

fn to_f(m: M) -> f64 {
    match m {
        M::Int(i) => i as f64,
        M::Flt(f) => f,
    }
}

/// What the public observers say about `n`, checked against the expected value.
fn holds(n: &Number, m: M) -> Result<(), String> {
    let obs = (n.is_u64(), n.is_i64(), n.is_f64(), n.as_u64(), n.as_i64(), n.as_f64());
    let want = match m {
        M::Int(i) => (
            i >= 0,
            i < 0,
            false,
            u64::try_from(i).ok(),
            i64::try_from(i).ok(),
            Some(i as f64),
        ),
        M::Flt(f) => (false, false, true, None, None, Some(f)),
    };
    ensure(obs == want, || {
        format!("(is_u64,is_i64,is_f64,as_u64,as_i64,as_f64) = {obs:?}, expected {want:?}")
    })?;
    let txt = n.to_string();
    let back = match m {
        M::Int(i) => txt == i.to_string(),
        M::Flt(f) => txt.parse::<f64>() == Ok(f),
    };
    ensure(back, || format!("displayed as `{txt}`, expected the text of {m:?}"))
}

fn grid() -> Vec<Src> {
    let mut v = vec![];
    let mut us = vec![0u64, 1, 2, 3, 7, 10, 255, 256, 1000];
    for b in [31u32, 32, 52, 53, 54, 62, 63] {
        for d in [-3i128, -2, -1, 0, 1, 2, 3, 1023, 1024, 1025] {
            us.push(((1i128 << b) + d) as u64);
        }
    }
    for d in 0..3u64 {
        us.push(u64::MAX - d);
    }
    for d in [1023u64, 1024, 1025, 2047, 2048, 2049] {
        us.push(u64::MAX - d);
    }
    for u in us {
        v.push(Src::U(u));
        if u <= i64::MAX as u64 {
            v.push(Src::I(u as i64));
            v.push(Src::I(-(u as i64)));
            v.push(Src::I(-(u as i64) - 1));
        }
        v.push(Src::F(u as f64));
        v.push(Src::F(-(u as f64)));
        v.push(Src::F(u as f64 + 0.5));
    }
    for f in [
        0.0, -0.0, 0.5, -0.5, 0.1, 1.5, -1.5, 2.25, 1e-7, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN,
        f64::EPSILON, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, -1e19, -1e20, 1e100, 1e154, 1e155, 1e200, 1e300, -1e300,
        1e308, P63, P64, -P63, -P64, P63 - 1024.0, P63 + 2048.0, P64 - 2048.0, P64 + 4096.0, -P63 - 2048.0,
        -P63 + 1024.0, 4503599627370495.5, 4503599627370496.0, 9007199254740993.0, 0.1 + 0.2, 1.0 / 3.0,
    ] {
        v.push(Src::F(f));
    }
    v
}

fn random(r: &mut Rng) -> Src {
    match r.below(6) {
        0 => Src::U(r.next()),
        1 => Src::I(r.next() as i64),
        2 => Src::U(r.next() >> r.below(64)),
        3 => Src::I((r.next() as i64) >> r.below(64)),
        4 => Src::F((r.next() as i64 >> r.below(64)) as f64 / *r.pick(&[1.0, 2.0, 4.0, 10.0])),
        _ => loop {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                break Src::F(f);
            }
        },
    }
}

pub fn c01(run: &mut Run) {
    run.rule("number construction: boundary grid plus seeded values; non-trivial: every value is a distinct constructor argument");
    let mut all = grid();
    for _ in 0..run.iters(40_000) {
        let s = random(&mut run.rng);
        all.push(s);
    }
    for s in all {
        run.case("construct", &format!("{s:?}"), true, || holds(&make(s), spec(s)));
        if let Src::F(f) = s {
            // serde carries the same value
            run.case("serde round trip", &format!("{s:?}"), true, || {
                let n = make(Src::F(f));
                let t = serde_json::to_string(&n).map_err(|e| e.to_string())?;
                let b: Number = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                holds(&b, spec(s))
            });
        }
    }
    for f in [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        run.case("construct", &format!("{f:?}"), true, || {
            ensure(Number::from_f64(f).is_none(), || format!("{f} accepted"))
        });
    }
}

fn rem_int(a: i128, b: i128) -> Option<i128> {
    if b == 0 {
        None
    } else {
        Some(a % b)
    }
}

fn op_spec(op: usize, a: M, b: M) -> Option<M> {
    let fin = |f: f64| if f.is_finite() { Some(canon(f)) } else { None };
    match (a, b) {
        (M::Int(x), M::Int(y)) => match op {
            0 => Some(from_int(x + y)),
            1 => Some(from_int(x - y)),
            2 => match x.checked_mul(y) {
                Some(p) => Some(from_int(p)),
                None => fin(x as f64 * y as f64),
            },
            3 => {
                if y != 0 && x % y == 0 {
                    Some(from_int(x / y))
                } else {
                    fin(x as f64 / y as f64)
                }
            }
            _ => rem_int(x, y).map(from_int),
        },
        _ => {
            let (x, y) = (to_f(a), to_f(b));
            fin(match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                _ => x % y,
            })
        }
    }
}

const OPS: [&str; 5] = ["+", "-", "*", "/", "%"];

/// Evaluates `lhs op rhs` as an expression; the operands are passed as variables.
fn eval_op(op: &str, a: &Number, b: &Number) -> Result<hcl::Value, String> {
    let expr: hcl::Expression = format!("a {op} b").parse().map_err(|e: hcl::Error| e.to_string())?;
    let mut ctx = hcl::eval::Context::new();
    ctx.declare_var("a", hcl::Value::Number(*a));
    ctx.declare_var("b", hcl::Value::Number(*b));
    use hcl::eval::Evaluate;
    expr.evaluate(&ctx).map_err(|e| e.to_string())
}

fn check_op(run: &mut Run, op: usize, a: Src, b: Src) {
    let want = op_spec(op, spec(a), spec(b));
    run.case("operator on expression values", &format!("{a:?} {} {b:?}", OPS[op]), true, || {
        let (x, y) = (make(a), make(b));
        match (eval_op(OPS[op], &x, &y), want) {
            (Ok(hcl::Value::Number(n)), Some(m)) => holds(&n, m),
            (Err(_), None) => Ok(()),
            (r, w) => Err(format!("{r:?}, expected {w:?}")),
        }
    });
    if let Some(m) = want {
        run.case("operator on numbers", &format!("{a:?} {} {b:?}", OPS[op]), true, || {
            let (x, y) = (make(a), make(b));
            let r = match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x / y,
                _ => x % y,
            };
            holds(&r, m)
        });
    } else {
        // No number represents the result: whatever happens, no such number may be returned.
        let (x, y) = (make(a), make(b));
        let r = std::panic::catch_unwind(|| match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            _ => x % y,
        });
        run.case("unrepresentable result", &format!("{a:?} {} {b:?}", OPS[op]), true, || {
            ensure(r.is_err(), || "returned a number".to_string())
        });
    }
}

pub fn c02(run: &mut Run) {
    run.rule("number arithmetic: all pairs of a boundary grid for five operators and negation, plus seeded pairs; every case non-trivial");
    let g = grid();
    let step = if run.thorough { 1 } else { 3 };
    for a in &g {
        let a = *a;
        run.case("negation", &format!("-({a:?})"), true, || {
            let want = match spec(a) {
                M::Int(i) => from_int(-i),
                M::Flt(f) => canon(-f),
            };
            holds(&-make(a), want)
        });
    }
    for (i, a) in g.iter().enumerate() {
        for (j, b) in g.iter().enumerate() {
            if (i + j) % step != 0 {
                continue;
            }
            for op in 0..5 {
                check_op(run, op, *a, *b);
            }
        }
        if run.full() {
            return;
        }
    }
    for _ in 0..run.iters(20_000) {
        let (a, b) = (random(&mut run.rng), random(&mut run.rng));
        let op = run.rng.below(5);
        check_op(run, op, a, b);
    }
}

fn m_cmp(a: M, b: M) -> Ordering {
    match (a, b) {
        (M::Int(x), M::Int(y)) => x.cmp(&y),
        (M::Flt(x), M::Flt(y)) => x.partial_cmp(&y).unwrap(),
        (M::Flt(_), M::Int(_)) => m_cmp(b, a).reverse(),
        (M::Int(i), M::Flt(f)) => {
            if f >= P64 {
                Ordering::Less
            } else if f < -P63 {
                Ordering::Greater
            } else {
                let t = f as i128;
                i.cmp(&t).then_with(|| (t as f64).partial_cmp(&f).unwrap())
            }
        }
    }
}

pub fn c03(run: &mut Run) {
    run.rule("number comparison: all pairs of a boundary grid plus seeded (often adjacent) pairs; every pair non-trivial");
    let g = grid();
    let mut pairs = vec![];
    for a in &g {
        for b in &g {
            pairs.push((*a, *b));
        }
    }
    for _ in 0..run.iters(40_000) {
        let a = random(&mut run.rng);
        let b = match (a, run.rng.below(3)) {
            (Src::U(u), 0) => Src::F(u as f64),
            (Src::I(u), 0) => Src::F(u as f64),
            (Src::F(u), 0) => Src::U(u as u64),
            (Src::F(u), 1) => Src::I(u as i64),
            (Src::U(u), 1) => Src::I(u as i64),
            _ => random(&mut run.rng),
        };
        pairs.push((a, b));
    }
    for (a, b) in pairs {
        run.case("compare", &format!("{a:?} ~ {b:?}"), true, || {
            let (x, y) = (make(a), make(b));
            let want = m_cmp(spec(a), spec(b));
            let eq = want == Ordering::Equal;
            ensure(x.partial_cmp(&y) == Some(want), || format!("partial_cmp {:?}, expected {want:?}", x.partial_cmp(&y)))?;
            ensure((x == y) == eq && (x != y) != eq, || format!("== is {}, expected {eq}", x == y))?;
            ensure((x < y) == (want == Ordering::Less) && (x >= y) != (x < y), || "<,>= wrong".into())?;
            ensure((x > y) == (want == Ordering::Greater) && (x <= y) != (x > y), || ">,<= wrong".into())?;
            ensure(!eq || hash_of(&x) == hash_of(&y), || "equal numbers hash differently".into())?;
            use hcl::eval::Evaluate;
            let mut ctx = hcl::eval::Context::new();
            ctx.declare_var("a", hcl::Value::Number(x));
            ctx.declare_var("b", hcl::Value::Number(y));
            for (op, w) in [("==", eq), ("!=", !eq), ("<", want == Ordering::Less), (">", want == Ordering::Greater),
                ("<=", want != Ordering::Greater), (">=", want != Ordering::Less)] {
                let e: hcl::Expression = hcl::Expression::from(hcl::expr::Operation::Binary(hcl::expr::BinaryOp::new(
                    hcl::Expression::Variable(hcl::expr::Variable::unchecked("a")),
                    op.parse().map_err(|_| format!("operator {op} unknown"))?,
                    hcl::Expression::Variable(hcl::expr::Variable::unchecked("b")))));
                let r = e.evaluate(&ctx).map_err(|e| e.to_string())?;
                ensure(r == hcl::Value::Bool(w), || format!("a {op} b = {r:?}, expected {w}"))?;
            }
            Ok(())
        });
    }
}
