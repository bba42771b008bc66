//! Kani proof harnesses for `hcl_primitives::Number` (the real crate, path dependency).
//! Every harness is loop free over the full symbolic domain, so an accepted harness is a proof
//! for all inputs, not a bounded check.
#![cfg(kani)]
use core::hash::{Hash, Hasher};
use hcl_primitives::Number;

const P63: f64 = 9_223_372_036_854_775_808.0;
const P64: f64 = 18_446_744_073_709_551_616.0;

/// Any value the public constructors can produce.
fn any_number() -> Number {
    match kani::any::<u8>() {
        0 => Number::from(kani::any::<u64>()),
        1 => Number::from(kani::any::<i64>()),
        _ => {
            let f: f64 = kani::any();
            kani::assume(f.is_finite());
            Number::from_f64(f).unwrap()
        }
    }
}

/// The representation invariant, stated over the public observers.
fn valid(n: &Number) -> bool {
    let kinds = n.is_u64() as u8 + n.is_i64() as u8 + n.is_f64() as u8;
    let f = n.as_f64();
    let floats_ok = match f {
        Some(f) => f.is_finite(),
        None => false,
    };
    let ints_ok = if n.is_u64() {
        n.as_u64().is_some()
    } else if n.is_i64() {
        n.as_u64().is_none() && matches!(n.as_i64(), Some(i) if i < 0)
    } else {
        // A float is never an integral value that an integer type could hold.
        n.as_u64().is_none() && n.as_i64().is_none() && !representable(f.unwrap())
    };
    kinds == 1 && floats_ok && ints_ok
}

/// Whether `f` is an integral value in the union of the ranges of i64 and u64.
fn representable(f: f64) -> bool {
    if f >= P63 && f < P64 {
        (f as u64) as f64 == f
    } else if f >= -P63 && f < P63 {
        (f as i64) as f64 == f
    } else {
        false
    }
}

#[kani::proof]
fn c01_from_u64() {
    let u: u64 = kani::any();
    let n = Number::from(u);
    assert!(n.is_u64() && !n.is_i64() && !n.is_f64());
    assert!(n.as_u64() == Some(u));
    assert!(n.as_i64() == i64::try_from(u).ok());
    assert!(n.as_f64() == Some(u as f64));
    assert!(valid(&n));
}

#[kani::proof]
fn c01_from_i64() {
    let i: i64 = kani::any();
    let n = Number::from(i);
    assert!(n.as_i64() == Some(i));
    assert!(n.as_u64() == u64::try_from(i).ok());
    assert!(n.as_f64() == Some(i as f64));
    assert!(n.is_i64() == (i < 0) && n.is_u64() == (i >= 0) && !n.is_f64());
    assert!(valid(&n));
}

#[kani::proof]
fn c01_from_small_ints() {
    let a: u8 = kani::any();
    assert!(Number::from(a).as_u64() == Some(a as u64));
    let a: u16 = kani::any();
    assert!(Number::from(a).as_u64() == Some(a as u64));
    let a: u32 = kani::any();
    assert!(Number::from(a).as_u64() == Some(a as u64));
    let a: usize = kani::any();
    assert!(Number::from(a).as_u64() == Some(a as u64));
    let a: i8 = kani::any();
    assert!(Number::from(a).as_i64() == Some(a as i64) && valid(&Number::from(a)));
    let a: i16 = kani::any();
    assert!(Number::from(a).as_i64() == Some(a as i64) && valid(&Number::from(a)));
    let a: i32 = kani::any();
    assert!(Number::from(a).as_i64() == Some(a as i64) && valid(&Number::from(a)));
    let a: isize = kani::any();
    assert!(Number::from(a).as_i64() == Some(a as i64) && valid(&Number::from(a)));
}

#[kani::proof]
fn c01_from_f64() {
    let f: f64 = kani::any();
    match Number::from_f64(f) {
        None => assert!(!f.is_finite()),
        Some(n) => {
            assert!(f.is_finite());
            // No finite value changes on its way through a number.
            assert!(n.as_f64() == Some(f));
            assert!(valid(&n));
            // Integral values in range are observable as that exact integer.
            assert!(n.is_f64() == !representable(f));
            if !n.is_f64() && f >= 0.0 {
                assert!(n.as_u64() == Some(f as u64));
            }
            if !n.is_f64() && f < 0.0 {
                assert!(n.as_i64() == Some(f as i64));
            }
        }
    }
}

#[kani::proof]
fn c01_reachable() {
    let n = any_number();
    kani::cover!(n.is_f64() && n.as_f64() == Some(1.5));
    kani::cover!(n.is_i64());
    kani::cover!(n.as_u64() == Some(u64::MAX));
    kani::cover!(n.is_f64() && n.as_f64() == Some(P64));
}

struct Rec([u64; 4], usize);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0[0]
    }
    fn write(&mut self, bytes: &[u8]) {
        // Only the primitive writers below are expected; anything else is folded in by length.
        self.push(bytes.len() as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.push(v);
    }
    fn write_i64(&mut self, v: i64) {
        self.push(v as u64);
    }
    fn write_u8(&mut self, v: u8) {
        self.push(v as u64);
    }
    fn write_isize(&mut self, v: isize) {
        self.push(v as u64);
    }
}
impl Rec {
    fn push(&mut self, v: u64) {
        if self.1 < 4 {
            self.0[self.1] = v;
        }
        self.1 += 1;
    }
}
fn h(n: &Number) -> ([u64; 4], usize) {
    let mut r = Rec([0; 4], 0);
    n.hash(&mut r);
    (r.0, r.1)
}

/// The mathematical order of two numbers, computed without the code under test.
fn spec_cmp(a: &Number, b: &Number) -> core::cmp::Ordering {
    use core::cmp::Ordering::*;
    match (a.is_f64(), b.is_f64()) {
        (false, false) => int(a).cmp(&int(b)),
        (true, true) => a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()).unwrap(),
        (false, true) => int_vs_float(int(a), b.as_f64().unwrap()),
        (true, false) => match int_vs_float(int(b), a.as_f64().unwrap()) {
            Less => Greater,
            Greater => Less,
            Equal => Equal,
        },
    }
}
fn int(n: &Number) -> i128 {
    match n.as_u64() {
        Some(u) => u as i128,
        None => n.as_i64().unwrap() as i128,
    }
}
fn int_vs_float(i: i128, f: f64) -> core::cmp::Ordering {
    use core::cmp::Ordering::*;
    if f >= P64 {
        return Less;
    }
    if f < -P63 {
        return Greater;
    }
    // Here trunc(f) fits i128 and the cast is exact.
    let t = f as i128;
    if i < t {
        Less
    } else if i > t {
        Greater
    } else {
        // Equal integral parts: decided by the sign of the fraction.
        let tf = t as f64;
        if f > tf {
            Less
        } else if f < tf {
            Greater
        } else {
            Equal
        }
    }
}

#[kani::proof]
fn c03_cmp_is_mathematical_order() {
    let (a, b) = (any_number(), any_number());
    let want = spec_cmp(&a, &b);
    assert!(a.partial_cmp(&b) == Some(want));
    assert!((a == b) == (want == core::cmp::Ordering::Equal));
    assert!((a != b) == (want != core::cmp::Ordering::Equal));
    assert!((a < b) == (want == core::cmp::Ordering::Less));
    assert!((a <= b) == (want != core::cmp::Ordering::Greater));
    assert!((a > b) == (want == core::cmp::Ordering::Greater));
    assert!((a >= b) == (want != core::cmp::Ordering::Less));
}

#[kani::proof]
fn c03_equal_numbers_hash_alike() {
    let (a, b) = (any_number(), any_number());
    kani::assume(a == b);
    kani::cover!(a.is_f64());
    assert!(h(&a) == h(&b));
}

#[kani::proof]
fn c03_reflexive() {
    let a = any_number();
    assert!(a == a);
    assert!(a.partial_cmp(&a) == Some(core::cmp::Ordering::Equal));
}

/// `valid` characterises the constructors' range, so the arithmetic harnesses may start from
/// `any_number` and end in `valid`.
fn same(n: &Number, f: f64) -> bool {
    // n holds exactly the value f
    n.as_f64() == Some(f) && n.is_f64() == !representable(f)
}
fn is_int(n: &Number, i: i128) -> bool {
    if i >= 0 {
        n.is_u64() && n.as_u64() == u64::try_from(i).ok()
    } else {
        n.is_i64() && n.as_i64() == i64::try_from(i).ok()
    }
}
fn fits(i: i128) -> bool {
    i >= i64::MIN as i128 && i <= u64::MAX as i128
}

#[kani::proof]
fn c02_neg() {
    let a = any_number();
    let r = -a;
    assert!(valid(&r));
    if a.is_f64() {
        assert!(same(&r, -a.as_f64().unwrap()));
    } else {
        let i = -int(&a);
        if fits(i) {
            assert!(is_int(&r, i));
        } else {
            assert!(same(&r, i as f64));
        }
    }
}

#[kani::proof]
fn c02_add_sub_int() {
    let (a, b) = (any_number(), any_number());
    kani::assume(!a.is_f64() && !b.is_f64());
    let (s, d) = (int(&a) + int(&b), int(&a) - int(&b));
    let (rs, rd) = (a + b, a - b);
    assert!(valid(&rs) && valid(&rd));
    if fits(s) {
        assert!(is_int(&rs, s));
    } else {
        assert!(same(&rs, s as f64));
    }
    if fits(d) {
        assert!(is_int(&rd, d));
    } else {
        assert!(same(&rd, d as f64));
    }
}

/// Ghost operands of a float operation: at least one side is a float.
fn any_mixed() -> (Number, Number, f64, f64) {
    let (a, b) = (any_number(), any_number());
    kani::assume(a.is_f64() || b.is_f64());
    let (x, y) = (a.as_f64().unwrap(), b.as_f64().unwrap());
    (a, b, x, y)
}
fn check_float(r: Option<Number>, f: f64) {
    match r {
        None => assert!(!f.is_finite()),
        Some(r) => {
            assert!(f.is_finite());
            assert!(valid(&r));
            assert!(same(&r, f));
        }
    }
}
#[kani::proof]
fn c02_float_add() {
    let (a, b, x, y) = any_mixed();
    check_float(a.checked_add(b), x + y);
}
#[kani::proof]
fn c02_float_sub() {
    let (a, b, x, y) = any_mixed();
    check_float(a.checked_sub(b), x - y);
}
#[kani::proof]
fn c02_float_mul() {
    let (a, b, x, y) = any_mixed();
    check_float(a.checked_mul(b), x * y);
}
#[kani::proof]
fn c02_float_div() {
    let (a, b, x, y) = any_mixed();
    check_float(a.checked_div(b), x / y);
}
#[kani::proof]
fn c02_float_rem() {
    let (a, b, x, y) = any_mixed();
    check_float(a.checked_rem(b), x % y);
}
#[kani::proof]
fn c02_int_mul() {
    let (a, b) = (any_number(), any_number());
    kani::assume(!a.is_f64() && !b.is_f64());
    let r = a.checked_mul(b);
    assert!(r.is_some() && valid(&r.unwrap()));
}
#[kani::proof]
fn c02_int_mul_exact() {
    let (a, b) = (any_number(), any_number());
    kani::assume(!a.is_f64() && !b.is_f64());
    if let Some(p) = int(&a).checked_mul(int(&b)) {
        let r = a.checked_mul(b).unwrap();
        if fits(p) {
            assert!(is_int(&r, p));
        }
    }
}
#[kani::proof]
fn c02_int_rem() {
    let (a, b) = (any_number(), any_number());
    kani::assume(!a.is_f64() && !b.is_f64());
    let (x, y) = (int(&a), int(&b));
    match a.checked_rem(b) {
        None => assert!(y == 0),
        Some(r) => {
            assert!(y != 0);
            assert!(is_int(&r, x % y));
        }
    }
}
#[kani::proof]
fn c02_int_div() {
    let (a, b) = (any_number(), any_number());
    kani::assume(!a.is_f64() && !b.is_f64());
    let (x, y) = (int(&a), int(&b));
    if y != 0 && x % y == 0 {
        let q = x / y;
        let r = a.checked_div(b).unwrap();
        if fits(q) {
            assert!(is_int(&r, q));
        }
    }
}
fn check_valid(r: Option<Number>) {
    if let Some(r) = r {
        assert!(valid(&r));
    }
}
#[kani::proof]
fn c02_float_mul_valid() {
    let (a, b, _, _) = any_mixed();
    check_valid(a.checked_mul(b));
}
#[kani::proof]
fn c02_float_div_valid() {
    let (a, b, _, _) = any_mixed();
    check_valid(a.checked_div(b));
}
