"""C02: exact-or-nearest arithmetic of N (crates/hcl-primitives/src/number.rs)."""
import rx

NAME = "number_ops"
SRC = "crates/hcl-primitives/src/number.rs"

PRELUDE = r'''
// ---- specification ----------------------------------------------------------------------------
pub uninterp spec fn finite(f: f64) -> bool;
pub uninterp spec fn canon(f: f64) -> N;         // N::from_finite_f64, decided by the Kani harness c01_from_f64
pub uninterp spec fn int_f(i: int) -> f64;       // integer to nearest f64
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn frem(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;

pub open spec fn fits(i: int) -> bool { i64::MIN <= i <= u64::MAX }
pub open spec fn from_int(i: int) -> N {
    if 0 <= i <= u64::MAX { N::PosInt(i as u64) }
    else if i64::MIN <= i < 0 { N::NegInt(i as i64) }
    else { canon(int_f(i)) }
}
pub open spec fn opt(f: f64) -> Option<N> { if finite(f) { Some(canon(f)) } else { None } }
impl N {
    pub open spec fn is_int(self) -> bool { !(self is Float) }
    pub open spec fn int(self) -> int {
        match self { N::PosInt(n) => n as int, N::NegInt(n) => n as int, N::Float(_) => 0 }
    }
    pub open spec fn flt(self) -> f64 {
        match self { N::PosInt(n) => int_f(n as int), N::NegInt(n) => int_f(n as int), N::Float(f) => f }
    }
    pub open spec fn valid(self) -> bool {
        match self { N::PosInt(_) => true, N::NegInt(n) => n < 0, N::Float(f) => finite(f) }
    }
}
pub open spec fn abs(i: int) -> int { if i < 0 { -i } else { i } }
// truncated division, as Rust defines `/` and `%` on signed integers
pub open spec fn tdiv(a: int, b: int) -> int
{ if (a < 0) == (b < 0) { abs(a) / abs(b) } else { -(abs(a) / abs(b)) } }
pub open spec fn trem(a: int, b: int) -> int { if a < 0 { -(abs(a) % abs(b)) } else { abs(a) % abs(b) } }
pub open spec fn in128(i: int) -> bool { i128::MIN <= i <= i128::MAX }

// ---- trusted: f64 operators are total functions; i128 `/` and `%` truncate -----------------------
pub trait Arith: Sized {
    spec fn add_ok(self, o: Self) -> bool; spec fn add_s(self, o: Self) -> Self;
    spec fn sub_ok(self, o: Self) -> bool; spec fn sub_s(self, o: Self) -> Self;
    spec fn mul_ok(self, o: Self) -> bool; spec fn mul_s(self, o: Self) -> Self;
    spec fn div_ok(self, o: Self) -> bool; spec fn div_s(self, o: Self) -> Self;
    spec fn rem_ok(self, o: Self) -> bool; spec fn rem_s(self, o: Self) -> Self;
    fn x_add(self, o: Self) -> (r: Self) requires self.add_ok(o), ensures r == self.add_s(o);
    fn x_sub(self, o: Self) -> (r: Self) requires self.sub_ok(o), ensures r == self.sub_s(o);
    fn x_mul(self, o: Self) -> (r: Self) requires self.mul_ok(o), ensures r == self.mul_s(o);
    fn x_div(self, o: Self) -> (r: Self) requires self.div_ok(o), ensures r == self.div_s(o);
    fn x_rem(self, o: Self) -> (r: Self) requires self.rem_ok(o), ensures r == self.rem_s(o);
}
impl Arith for i128 {
    open spec fn add_ok(self, o: i128) -> bool { in128(self + o) } open spec fn add_s(self, o: i128) -> i128 { (self + o) as i128 }
    open spec fn sub_ok(self, o: i128) -> bool { in128(self - o) } open spec fn sub_s(self, o: i128) -> i128 { (self - o) as i128 }
    open spec fn mul_ok(self, o: i128) -> bool { in128(self * o) } open spec fn mul_s(self, o: i128) -> i128 { (self * o) as i128 }
    open spec fn div_ok(self, o: i128) -> bool { o != 0 && in128(tdiv(self as int, o as int)) } open spec fn div_s(self, o: i128) -> i128 { tdiv(self as int, o as int) as i128 }
    open spec fn rem_ok(self, o: i128) -> bool { o != 0 && in128(tdiv(self as int, o as int)) } open spec fn rem_s(self, o: i128) -> i128 { trem(self as int, o as int) as i128 }
    fn x_add(self, o: i128) -> (r: i128) { self + o }
    fn x_sub(self, o: i128) -> (r: i128) { self - o }
    fn x_mul(self, o: i128) -> (r: i128) { self * o }
    #[verifier::external_body] fn x_div(self, o: i128) -> (r: i128) { self / o }
    #[verifier::external_body] fn x_rem(self, o: i128) -> (r: i128) { self % o }
}
impl Arith for f64 {
    open spec fn add_ok(self, o: f64) -> bool { true } open spec fn add_s(self, o: f64) -> f64 { fadd(self, o) }
    open spec fn sub_ok(self, o: f64) -> bool { true } open spec fn sub_s(self, o: f64) -> f64 { fsub(self, o) }
    open spec fn mul_ok(self, o: f64) -> bool { true } open spec fn mul_s(self, o: f64) -> f64 { fmul(self, o) }
    open spec fn div_ok(self, o: f64) -> bool { true } open spec fn div_s(self, o: f64) -> f64 { fdiv(self, o) }
    open spec fn rem_ok(self, o: f64) -> bool { true } open spec fn rem_s(self, o: f64) -> f64 { frem(self, o) }
    #[verifier::external_body] fn x_add(self, o: f64) -> (r: f64) { self + o }
    #[verifier::external_body] fn x_sub(self, o: f64) -> (r: f64) { self - o }
    #[verifier::external_body] fn x_mul(self, o: f64) -> (r: f64) { self * o }
    #[verifier::external_body] fn x_div(self, o: f64) -> (r: f64) { self / o }
    #[verifier::external_body] fn x_rem(self, o: f64) -> (r: f64) { self % o }
}
#[verifier::external_body] fn x_neg_f64(a: f64) -> (r: f64) ensures r == fneg(a), finite(a) ==> finite(r) { -a }
#[verifier::external_body] fn x_i128_as_f64(a: i128) -> (r: f64) ensures r == int_f(a as int), finite(r) { a as f64 }
pub assume_specification [f64::is_finite] (f: f64) -> (r: bool) ensures r == finite(f);
#[verifier::external_body] fn x_checked_rem(a: i128, b: i128) -> (r: Option<i128>)
    ensures r == (if b == 0 || !in128(tdiv(a as int, b as int)) { None } else { Some(trem(a as int, b as int) as i128) })
{ a.checked_rem(b) }

proof fn mod_zero_exact(a: int, b: int)
    requires b != 0
    ensures (trem(a, b) == 0) == (abs(a) % abs(b) == 0),
        trem(a, b) == 0 ==> tdiv(a, b) * b == a,
        abs(trem(a, b)) < abs(b),
        tdiv(a, b) * b + trem(a, b) == a,
        abs(tdiv(a, b)) <= abs(a),
{
    let (x, y) = (abs(a), abs(b));
    assert(x == y * (x / y) + x % y) by (nonlinear_arith) requires y > 0;
    assert(0 <= x % y < y) by (nonlinear_arith) requires y > 0;
    assert(0 <= x / y <= x) by (nonlinear_arith) requires y > 0, x >= 0;
    let q = x / y;
    assert(tdiv(a, b) * b + trem(a, b) == a) by (nonlinear_arith)
        requires x == y * q + x % y, x == abs(a), y == abs(b), b != 0,
            tdiv(a, b) == (if (a < 0) == (b < 0) { q } else { -q }), trem(a, b) == (if a < 0 { -(x % y) } else { x % y });
}
'''


def ops(f):
    for op, m in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "rem")):
        why = "operator to a method carrying its contract (i128: checked by the verifier; f64 and i128 / %: trusted)"
        f.rewrite(f"$a {op} $b", f"$a.x_{m}($b)", why, must=False)
        # operands that are calls such as self.to_f64()
    return f


def calls(f):
    # `self.to_f64() * rhs.to_f64()`: bind operands that are method calls
    for op, m in (("*", "mul"), ("/", "div"), ("+", "add"), ("-", "sub"), ("%", "rem")):
        f.rewrite(f"$a.to_f64() {op} $b.to_f64()", f"$a.to_f64().x_{m}($b.to_f64())", "as above", must=False)
    f.rewrite("$a.checked_rem($b)", "x_checked_rem($a, $b)", "i128::checked_rem to its contract", must=False)
    return f


def build(repo):
    src = rx.File(f"{repo}/{SRC}")
    out = [PRELUDE]
    fns = []
    out.append("#[derive(Clone, Copy)]\npub " + src.item("enum", "N"))
    out.append(src.item("enum", "CoerceResult"))

    def add(f):
        fns.append(f)
        return f

    body = []
    # contract of from_finite_f64 is decided for all f64 by Kani (C01); only its name is used here
    src.fn("from_finite_f64", "impl N")
    body.append("#[verifier::external_body] fn from_finite_f64(value: f64) -> (r: N) requires finite(value) ensures r == canon(value), r.valid() { unimplemented!() }")
    body.append("#[verifier::external_body] fn to_f64(self) -> (r: f64) ensures r == self.flt() { unimplemented!() }")
    f = add(src.fn("from_f64", "impl N")).spec("ensures r == opt(value), r is Some ==> r->Some_0.valid()")
    body.append(f.render())
    f = add(src.fn("from_i128", "impl N")).spec("ensures r == from_int(value as int), r.valid()")
    f.rewrite("value as f64", "x_i128_as_f64(value)", "cast to a function carrying its contract", must=False)
    body.append(f.render())
    f = add(src.fn("to_i128", "impl N")).spec("ensures r == (if self.is_int() { Some(self.int() as i128) } else { None::<i128> })")
    f.rewrite("i128::from($a)", "($a as i128)", "lossless integer conversion", must=False)
    body.append(f.render())

    def binop(name, spec):
        f = add(src.fn(name, "impl N")).spec("requires self.valid(), rhs.valid()\nensures r == (" + spec + "),\n r is Some ==> r->Some_0.valid()")
        calls(f)
        ops(f)
        return f

    both = "self.is_int() && rhs.is_int()"
    for name, o in (("add", "+"), ("sub", "-")):
        f = binop(f"checked_{name}", f"if {both} {{ Some(from_int(self.int() {o} rhs.int())) }} else {{ opt(f{name}(self.flt(), rhs.flt())) }}")
        body.append(f.render())
    f = binop("checked_mul", f"if {both} && in128(self.int() * rhs.int()) {{ Some(from_int(self.int() * rhs.int())) }} else {{ opt(fmul(self.flt(), rhs.flt())) }}")
    body.append(f.render())
    f = binop("checked_div", f"if {both} && rhs.int() != 0 && trem(self.int(), rhs.int()) == 0 {{ Some(from_int(tdiv(self.int(), rhs.int()))) }} else {{ opt(fdiv(self.flt(), rhs.flt())) }}")
    f.at("start", "proof { if rhs.int() != 0 { mod_zero_exact(self.int(), rhs.int()); } }")
    body.append(f.render())
    f = binop("checked_rem", f"if {both} {{ if rhs.int() == 0 {{ None }} else {{ Some(from_int(trem(self.int(), rhs.int()))) }} }} else {{ opt(frem(self.flt(), rhs.flt())) }}")
    f.rewrite("x_checked_rem$args.map(N::from_i128)", "match x_checked_rem$args { Some(v) => Some(N::from_i128(v)), None => None }", "Option::map by definition", must=False)
    f.at("start", "proof { if rhs.int() != 0 { mod_zero_exact(self.int(), rhs.int()); } }")
    body.append(f.render())
    out.append("impl N {\n" + "\n".join(body) + "\n}\n")

    f = add(src.fn("coerce")).spec("""ensures
        a.is_int() && b.is_int() ==> r == CoerceResult::Int(a.int() as i128, b.int() as i128),
        !(a.is_int() && b.is_int()) ==> r == CoerceResult::Float(a.flt(), b.flt())""")
    out.append(f.render())
    f = add(src.fn("neg", "impl Neg for N"))
    f.sig_rewrite("Self::Output", "N")
    f.spec("""requires self.valid()
        ensures r == (if self.is_int() { from_int(-self.int()) } else { canon(fneg(self.flt())) }), r.valid()""")
    f.rewrite("-self.to_f64()", "x_neg_f64(self.to_f64())", "float negation to its contract", must=False)
    f.rename = "neg_"
    out.append("impl N {\n" + f.render() + "\n}")
    return out, fns
