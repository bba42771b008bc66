//! Serde round trips and the conversion of bodies to values.
use crate::core::*;
use crate::docs::{plain_text, random_doc, value, Doc};
use crate::gen::*;
use crate::model::identical;
use hcl::ser::{Block as B, LabeledBlock as L};
use hcl::{Body, Expression, Map, Structure, Value};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

trait Rnd: Sized {
    fn rnd(g: &mut Gen, d: usize) -> Self;
}

macro_rules! rnd_int {
    ($($t:ty),*) => {$(
        impl Rnd for $t {
            fn rnd(g: &mut Gen, _: usize) -> Self {
                match g.rng.below(6) {
                    0 => <$t>::MAX,
                    1 => <$t>::MIN,
                    2 => <$t>::MAX - 1,
                    3 => (g.rng.below(8)) as $t,
                    _ => g.rng.next() as $t,
                }
            }
        }
    )*};
}
rnd_int!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);

impl Rnd for bool {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        g.rng.chance(1, 2)
    }
}
impl Rnd for () {
    fn rnd(_: &mut Gen, _: usize) -> Self {}
}
impl Rnd for String {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        match g.rng.below(8) {
            0 => String::new(),
            1 => "null".into(),
            2 => "a\nb\r\n\"c\"\\ \u{0}\u{7f}\u{85}\u{2028}".into(),
            3 => "$$ %% { } $".into(),
            _ => plain_text(g),
        }
    }
}
impl Rnd for char {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        *g.rng.pick(&['a', '"', '\\', '\n', '\0', 'é', '🦀', '$', '%', '{', '\u{2028}', ' '])
    }
}
impl Rnd for f64 {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        loop {
            let f = match g.rng.below(6) {
                0 => *g.rng.pick(&[0.0, -1.5, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1, 9007199254740993.0, 18446744073709551616.0, -9223372036854775808.0]),
                1 => g.rng.below(1000) as f64,
                2 => g.rng.next() as i64 as f64,
                _ => f64::from_bits(g.rng.next()),
            };
            if f.is_finite() {
                return f;
            }
        }
    }
}
impl Rnd for f32 {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        loop {
            let f = f32::from_bits(g.rng.next() as u32);
            if f.is_finite() {
                return f;
            }
        }
    }
}
impl<T: Rnd> Rnd for Option<T> {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        if g.rng.chance(1, 2) {
            Some(T::rnd(g, d))
        } else {
            None
        }
    }
}
impl<T: Rnd> Rnd for Box<T> {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        Box::new(T::rnd(g, d))
    }
}
impl<T: Rnd> Rnd for Vec<T> {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        let n = if d == 0 { 0 } else { g.rng.below(4) };
        (0..n).map(|_| T::rnd(g, d - 1)).collect()
    }
}
impl<K: Rnd + Ord, T: Rnd> Rnd for BTreeMap<K, T> {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        let n = if d == 0 { 0 } else { g.rng.below(4) };
        (0..n).map(|_| (K::rnd(g, d - 1), T::rnd(g, d - 1))).collect()
    }
}
impl<K: Rnd + std::hash::Hash + Eq, T: Rnd> Rnd for HashMap<K, T> {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        let n = if d == 0 { 0 } else { g.rng.below(4) };
        (0..n).map(|_| (K::rnd(g, d - 1), T::rnd(g, d - 1))).collect()
    }
}
macro_rules! rnd_tuple {
    ($($n:ident),*) => {
        impl<$($n: Rnd),*> Rnd for ($($n,)*) {
            fn rnd(g: &mut Gen, d: usize) -> Self {
                ($($n::rnd(g, d),)*)
            }
        }
    };
}
rnd_tuple!(A, C);
rnd_tuple!(A, C, D);

macro_rules! data_struct {
    ($name:ident { $($field:ident: $t:ty),* }) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
        struct $name { $($field: $t),* }
        impl Rnd for $name {
            fn rnd(g: &mut Gen, d: usize) -> Self {
                let d = d.saturating_sub(1);
                $name { $($field: <$t>::rnd(g, d)),* }
            }
        }
    };
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct New(u64);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct NewList(Vec<New>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct NewStruct(Small);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
struct NewKey(String);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Tup(i8, String, Option<f64>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
enum Key {
    Red,
    #[serde(rename = "dark green")]
    Green,
    B,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum En {
    Unit,
    New(String),
    Opt(Option<i32>),
    List(Vec<u8>),
    Pair(bool, Box<En>),
    Fields { a: u8, b: Option<Box<En>>, c: BTreeMap<String, En> },
    Struct(Small),
    Nothing(()),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "kind")]
enum Tagged {
    A { x: i64 },
    B { y: Vec<String>, z: Option<bool> },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Untagged {
    Num(i64),
    Text(String),
    List(Vec<Untagged>),
    Obj(BTreeMap<String, Untagged>),
}
impl Rnd for New {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        New(u64::rnd(g, d))
    }
}
impl Rnd for NewList {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        NewList(Vec::rnd(g, d))
    }
}
impl Rnd for NewStruct {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        NewStruct(Small::rnd(g, d))
    }
}
impl Rnd for NewKey {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        NewKey(String::rnd(g, d))
    }
}
impl Rnd for Unit {
    fn rnd(_: &mut Gen, _: usize) -> Self {
        Unit
    }
}
impl Rnd for Tup {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        Tup(i8::rnd(g, d), String::rnd(g, d), Option::rnd(g, d))
    }
}
impl Rnd for Key {
    fn rnd(g: &mut Gen, _: usize) -> Self {
        g.rng.pick(&[Key::Red, Key::Green, Key::B]).clone()
    }
}
impl Rnd for En {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        match g.rng.below(if d == 0 { 3 } else { 8 }) {
            0 => En::Unit,
            1 => En::New(String::rnd(g, d)),
            2 => En::Opt(Option::rnd(g, d)),
            3 => En::List(Vec::rnd(g, d)),
            4 => En::Pair(bool::rnd(g, d), Box::rnd(g, d - 1)),
            5 => En::Fields { a: u8::rnd(g, d), b: Option::rnd(g, d - 1), c: BTreeMap::rnd(g, d - 1) },
            6 => En::Struct(Small::rnd(g, d)),
            _ => En::Nothing(()),
        }
    }
}
impl Rnd for Tagged {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        if bool::rnd(g, d) {
            Tagged::A { x: i64::rnd(g, d) }
        } else {
            Tagged::B { y: Vec::rnd(g, d), z: Option::rnd(g, d) }
        }
    }
}
impl Rnd for Untagged {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        match g.rng.below(if d == 0 { 2 } else { 4 }) {
            0 => Untagged::Num(i64::rnd(g, d)),
            1 => Untagged::Text(String::rnd(g, d)),
            2 => Untagged::List(Vec::rnd(g, d)),
            _ => Untagged::Obj(BTreeMap::rnd(g, d)),
        }
    }
}
impl Rnd for Value {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        // a string with a start marker is a template by design
        loop {
            let v = value(g, d.min(3));
            if !format!("{v:?}").contains('{') || !has_marker_text(&v) {
                return v;
            }
        }
    }
}

fn has_marker_text(v: &Value) -> bool {
    match v {
        Value::String(s) => s.contains("${") || s.contains("%{"),
        Value::Array(a) => a.iter().any(has_marker_text),
        Value::Object(o) => o.iter().any(|(k, v)| k.contains("${") || k.contains("%{") || has_marker_text(v)),
        _ => false,
    }
}

data_struct!(Small { a: u8, b: String, c: Option<bool> });
data_struct!(Scalars { a: i8, b: i16, c: i32, d: i64, e: u8, f: u16, g: u32, h: u64, i: f32, j: f64, k: bool, l: char, m: String, n: usize, o: isize, p: () });
data_struct!(Nested { list: Vec<En>, opt: Option<Vec<Option<u8>>>, map: BTreeMap<String, En>, keyed: BTreeMap<Key, u8>, newkeyed: HashMap<NewKey, Unit>, chars: BTreeMap<char, New>, tup: (u8, String, Tup), vecs: Vec<Vec<i32>>, small: Small, inner: Option<Box<Nested>>, tagged: Tagged, untagged: Untagged, unit: Unit, nl: NewList, ns: NewStruct, val: Value });
data_struct!(IntKeys { m: BTreeMap<i32, u8>, n: BTreeMap<u64, Vec<BTreeMap<i8, bool>>> });
data_struct!(Top { s: Scalars, n: Nested, e: En, t: Tagged, u: Untagged, v: Value });

// -- blocks

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Blocks {
    attr: String,
    one: B<Small>,
    many: B<Vec<Inner>>,
    labeled: L<BTreeMap<String, Inner>>,
    two: L<BTreeMap<String, L<BTreeMap<String, Vec<Small>>>>>,
    variant: EnBlock,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Inner {
    x: Vec<En>,
    sub: B<Small>,
    labeled: L<BTreeMap<String, Small>>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum EnBlock {
    Plain(Small),
    Fields { a: u8, b: String },
}
fn two_or_more<T: Rnd>(g: &mut Gen, d: usize) -> Vec<T> {
    (0..2 + g.rng.below(2)).map(|_| T::rnd(g, d)).collect()
}
fn one_or_more<T: Rnd>(g: &mut Gen, d: usize) -> BTreeMap<String, T> {
    (0..1 + g.rng.below(3)).map(|_| (String::rnd(g, d), T::rnd(g, d))).collect()
}
impl PartialEq for Inner {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}
impl Rnd for Inner {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        Inner { x: Vec::rnd(g, d), sub: B::new(Small::rnd(g, d)), labeled: L::new(one_or_more(g, d)) }
    }
}
impl PartialEq for Blocks {
    fn eq(&self, o: &Self) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}
impl Rnd for Blocks {
    fn rnd(g: &mut Gen, d: usize) -> Self {
        Blocks {
            attr: String::rnd(g, d),
            one: B::new(Small::rnd(g, d)),
            many: B::new(two_or_more(g, d)),
            labeled: L::new(one_or_more(g, d)),
            two: L::new((0..1 + g.rng.below(2)).map(|_| (String::rnd(g, d), L::new((0..1 + g.rng.below(2)).map(|_| (String::rnd(g, d), two_or_more(g, d))).collect()))).collect()),
            variant: if bool::rnd(g, d) { EnBlock::Plain(Small::rnd(g, d)) } else { EnBlock::Fields { a: u8::rnd(g, d), b: String::rnd(g, d) } },
        }
    }
}

fn same<T: PartialEq + Debug>(how: &str, via: &dyn Debug, want: &T, got: Result<T, hcl::Error>) -> Result<(), String> {
    match got {
        Ok(v) if &v == want => Ok(()),
        Ok(v) => Err(format!("{how} yields {v:?} (through {via:?})")),
        Err(e) => Err(format!("{how} fails: {e} (through {via:?})")),
    }
}

fn through_value<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) -> Result<(), String> {
    let v = hcl::to_value(x).map_err(|e| format!("to_value: {e}"))?;
    same("from_value(to_value)", &v, x, hcl::from_value(v.clone()))?;
    let e = hcl::to_expression(x).map_err(|e| format!("to_expression: {e}"))?;
    same("deserializing the expression", &e, x, T::deserialize(e.clone()))?;
    ensure(identical(&Value::from(e.clone()), &v), || format!("the expression is the value {:?}, to_value gives {v:?}", Value::from(e)))
}

fn through_text<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) -> Result<(), String> {
    let t = hcl::to_string(x).map_err(|e| format!("to_string: {e}"))?;
    same("from_str(to_string)", &t, x, hcl::from_str(&t))?;
    let b = Body::from_serializable(x).map_err(|e| format!("Body::from_serializable: {e}"))?;
    same("from_body", &b, x, hcl::from_body(b.clone()))?;
    same("from_slice", &t, x, hcl::from_slice(t.as_bytes()))?;
    same("from_reader", &t, x, hcl::from_reader(t.as_bytes()))?;
    let mut out = vec![];
    hcl::to_writer(&mut out, x).map_err(|e| format!("to_writer: {e}"))?;
    ensure(out == t.as_bytes(), || "to_writer writes something else than to_string".into())
}

/// A value with identifiers as keys at its top level.
fn top_value(g: &mut Gen) -> Value {
    let n = g.rng.below(5);
    let mut m = Map::new();
    for _ in 0..n {
        m.insert(g.ident(), Value::rnd(g, 3));
    }
    Value::Object(m)
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Exprs {
    e: Expression,
    list: Vec<Expression>,
}

pub fn c21(run: &mut Run) {
    run.rule("random data of a family of structs, enums, maps, sequences, options, newtypes and block wrappers through text, bodies, values and expressions; HCL trees through serde; data HCL cannot hold is refused; non-trivial: every case");
    for i in 0..run.iters(4_000) {
        macro_rules! go {
            ($t:ty, $d:expr, $text:expr, $value:expr) => {{
                let mut g = Gen::new(&mut run.rng);
                let x = <$t>::rnd(&mut g, $d);
                let input = format!("{x:?}");
                run.case(stringify!($t), &input, true, || {
                    if $value {
                        through_value(&x)?;
                    }
                    if $text {
                        through_text(&x)?;
                    }
                    Ok(())
                });
            }};
        }
        match i % 4 {
            0 => go!(Top, 3, true, true),
            1 => go!(Blocks, 3, true, true),
            2 => go!(Nested, 4, true, true),
            _ => {
                go!(Scalars, 1, true, true);
                go!(Inner, 3, true, true);
                go!(NewStruct, 2, true, true);
                go!(Small, 2, true, true);
            }
        }
        go!(IntKeys, 3, true, false);
        go!(En, 4, false, true);
        go!(u64, 1, false, true);
        go!(f64, 1, false, true);
        go!(f32, 1, false, true);
        go!(i64, 1, false, true);
        go!(char, 1, false, true);
        go!(String, 1, false, true);
        go!(Vec<Option<En>>, 3, false, true);
        go!(BTreeMap<NewKey, Tup>, 3, false, true);
        go!(HashMap<Key, Option<New>>, 3, false, true);
        go!((En, Unit, Tup), 2, false, true);
        go!(Untagged, 4, false, true);
        // values as text
        let mut g = Gen::new(&mut run.rng);
        let v = top_value(&mut g);
        run.case("value as a document", &format!("{v:?}"), true, || {
            let t = hcl::to_string(&v).map_err(|e| format!("to_string: {e}"))?;
            let back: Value = hcl::from_str(&t).map_err(|e| format!("from_str: {e}"))?;
            ensure(identical(&back, &v), || format!("{t:?} reads as {back:?}"))?;
            let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
            let back: Value = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            ensure(identical(&back, &v), || format!("through JSON {j}: {back:?}"))?;
            let back: serde_json::Value = hcl::from_str(&t).map_err(|e| format!("from_str as JSON: {e}"))?;
            ensure(back == j, || format!("{t:?} reads as JSON {back}, not {j}"))
        });
        // HCL trees as data
        let (doc, text) = random_doc(&mut run.rng, true);
        run.case("HCL tree as data", &text, true, || match doc {
            Doc::Body(_) => {
                let b: Body = hcl::parse(&text).map_err(|e| e.to_string())?;
                if format!("{b:?}").contains("-0") || text.contains("--") || text.contains("- -") {
                    return Ok(());
                }
                same("Body::from_serializable", &text, &b, Body::from_serializable(&b))?;
                let t = hcl::to_string(&b).map_err(|e| format!("to_string: {e}"))?;
                same("from_str::<Body>", &t, &b, hcl::from_str::<Body>(&t))?;
                same("from_body::<Body>", &t, &b, hcl::from_body::<Body>(b.clone()))
            }
            Doc::Expr(_) => {
                let e: Expression = text.parse().map_err(|e: hcl::Error| e.to_string())?;
                let x = Exprs { e: e.clone(), list: vec![e.clone(), Expression::Null, e.clone()] };
                same("to_expression", &text, &e, hcl::to_expression(&e))?;
                same("Expression::deserialize", &text, &e, Expression::deserialize(e.clone()))?;
                let b = Body::from_serializable(&x).map_err(|e| e.to_string())?;
                same("from_body", &b, &x, hcl::from_body::<Exprs>(b.clone()))
            }
            Doc::Tmpl(_) => Ok(()),
        });
        if run.full() {
            return;
        }
    }
    nested(run);
    refusals(run);
}

/// Text made while something else is being written.
struct Inside<T>(T, bool);
impl<T: Serialize> Serialize for Inside<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 {
            // one that fails, and one that panics
            let _ = hcl::to_string(&BTreeMap::from([("a", B::new(1))]));
            let _ = std::panic::catch_unwind(|| hcl::to_string(&Bad));
        }
        s.serialize_str(&hcl::to_string(&self.0).map_err(serde::ser::Error::custom)?)
    }
}
struct Bad;
impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        panic!("refused")
    }
}
#[derive(Serialize)]
struct Outside<T> {
    text: T,
    block: B<Small>,
    rest: Blocks,
    expr: Expression,
}

/// Serializing inside of a `Serialize` impl changes nothing around it.
fn nested(run: &mut Run) {
    for i in 0..run.iters(600) {
        let mut g = Gen::new(&mut run.rng);
        let (x, block, rest) = (Inner::rnd(&mut g, 3), Small::rnd(&mut g, 2), Blocks::rnd(&mut g, 2));
        let expr = Expression::from(Value::rnd(&mut g, 2));
        run.case("serialize while serializing", &format!("{x:?} in {block:?} {rest:?} {expr:?}"), true, || {
            let text = hcl::to_string(&x).map_err(|e| e.to_string())?;
            let want = hcl::to_string(&Outside { text: text.clone(), block: B::new(block.clone()), rest: rest.clone(), expr: expr.clone() });
            let got = hcl::to_string(&Outside { text: Inside(&x, i % 3 == 0), block: B::new(block.clone()), rest: rest.clone(), expr: expr.clone() });
            let (want, got) = (want.map_err(|e| e.to_string())?, got.map_err(|e| e.to_string())?);
            ensure(want == got, || format!("written as {got:?}, not {want:?}"))?;
            // what was written before leaves nothing behind
            let j = serde_json::to_value(B::new(block.clone())).map_err(|e| e.to_string())?;
            ensure(j == serde_json::to_value(&block).map_err(|e| e.to_string())?, || format!("a block as JSON: {j}"))
        });
    }
}

/// Data HCL cannot hold.
fn refusals(run: &mut Run) {
    macro_rules! refused {
        ($name:expr, $x:expr) => {
            run.case("refused", $name, true, || match hcl::to_string(&$x) {
                Err(_) => Ok(()),
                Ok(t) => Err(format!("written as {t:?}")),
            })
        };
    }
    let m = |k: &str| BTreeMap::from([(k.to_string(), 1)]);
    refused!("a number alone", 1u8);
    refused!("a string alone", "x");
    refused!("unit", ());
    refused!("a list of numbers", vec![1, 2]);
    for k in ["", "1a", "a b", "a.b", "-a", "a\n", "ä ", "${a}", "\"a\""] {
        refused!(&format!("attribute name {k:?}"), m(k));
        refused!(&format!("block name {k:?}"), BTreeMap::from([(k.to_string(), B::new(m("x")))]));
        refused!(&format!("labeled block name {k:?}"), BTreeMap::from([(k.to_string(), L::new(m("x")))]));
    }
    #[derive(Serialize, PartialEq, Eq, PartialOrd, Ord)]
    enum VariantKey {
        A(String),
    }
    refused!("map with newtype variants as keys", BTreeMap::from([("a", BTreeMap::from([(VariantKey::A("x".into()), 2u8)]))]));
    refused!("map with integer keys", BTreeMap::from([(1u8, 2u8)]));
    refused!("map with list keys", BTreeMap::from([("a", BTreeMap::from([(vec![1u8], 2u8)]))]));
    refused!("map with option keys", BTreeMap::from([("a", BTreeMap::from([(None::<String>, 2u8)]))]));
    refused!("map with bool keys", BTreeMap::from([("a", BTreeMap::from([(true, 2u8)]))]));
    refused!("a block of a number", BTreeMap::from([("a", B::new(1))]));
    refused!("a block of a list of numbers", BTreeMap::from([("a", B::new(vec![1]))]));
    refused!("a labeled block of a number", BTreeMap::from([("a", L::new(1))]));
    refused!("i128", BTreeMap::from([("a", i128::MAX)]));
    refused!("u128", BTreeMap::from([("a", u128::MAX)]));
    macro_rules! mismatch {
        ($name:expr, $t:ty, $text:expr) => {
            run.case("refused when read", $name, true, || match hcl::from_str::<$t>($text) {
                Err(_) => Ok(()),
                Ok(v) => Err(format!("read as {v:?}")),
            })
        };
    }
    mismatch!("300 as u8", BTreeMap<String, u8>, "a = 300");
    mismatch!("-1 as u64", BTreeMap<String, u64>, "a = -1");
    mismatch!("2^63 as i64", BTreeMap<String, i64>, "a = 9223372036854775808");
    mismatch!("1.5 as i64", BTreeMap<String, i64>, "a = 1.5");
    mismatch!("string as number", BTreeMap<String, i64>, "a = \"1\"");
    mismatch!("number as bool", BTreeMap<String, bool>, "a = 1");
    mismatch!("null as number", BTreeMap<String, i64>, "a = null");
    mismatch!("long string as char", BTreeMap<String, char>, "a = \"ab\"");
    mismatch!("unknown variant", BTreeMap<String, Key>, "a = \"Blue\"");
    mismatch!("short tuple", BTreeMap<String, (u8, u8, u8)>, "a = [1, 2]");
    mismatch!("missing field", Small, "a = 1");
}

// ---- C22 ------------------------------------------------------------------------------------------

// `lossy`: the behaviour of the known finding, blocks with labels replace those without and the other
// way round.
fn group(mut blocks: Vec<(Vec<String>, &Body)>, lossy: bool) -> Value {
    if lossy {
        let last = blocks.last().unwrap().0.is_empty();
        let from = blocks.iter().rposition(|b| b.0.is_empty() != last).map_or(0, |i| i + 1);
        blocks.drain(..from);
    }
    // (remaining labels, body) of all blocks that share what came before
    let labelled = blocks.iter().filter(|b| !b.0.is_empty()).count();
    if labelled == 0 {
        let mut v: Vec<Value> = blocks.iter().map(|b| to_value(b.1, lossy)).collect();
        return if v.len() == 1 { v.pop().unwrap() } else { Value::Array(v) };
    }
    let mut names: Vec<&str> = vec![];
    for (l, _) in &blocks {
        if let Some(l) = l.first() {
            if !names.contains(&l.as_str()) {
                names.push(l);
            }
        }
    }
    let obj = Value::Object(
        names
            .iter()
            .map(|n| {
                let sub = blocks.iter().filter(|b| b.0.first().map(String::as_str) == Some(n)).map(|b| (b.0[1..].to_vec(), b.1)).collect();
                (n.to_string(), group(sub, lossy))
            })
            .collect(),
    );
    if labelled == blocks.len() {
        return obj;
    }
    let mut obj = Some(obj);
    let mut list = vec![];
    for (l, b) in &blocks {
        if l.is_empty() {
            list.push(to_value(b, lossy));
        } else if let Some(o) = obj.take() {
            list.push(o);
        }
    }
    Value::Array(list)
}

/// An expression as data: what is not data becomes the text of a template.
fn plain(e: &Expression) -> Value {
    let text = |e: &Expression| {
        let mut out = vec![];
        let mut f = hcl::format::Formatter::builder().compact(true).build(&mut out);
        hcl::format::Format::format(e, &mut f).unwrap();
        format!("${{{}}}", String::from_utf8(out).unwrap())
    };
    match e {
        Expression::Null => Value::Null,
        Expression::Bool(b) => Value::Bool(*b),
        Expression::Number(n) => Value::Number(n.clone()),
        Expression::String(s) => Value::String(s.clone()),
        Expression::Array(a) => Value::Array(a.iter().map(plain).collect()),
        Expression::Object(o) => {
            let mut out: Vec<(String, Value)> = vec![];
            for (k, v) in o {
                let k = match k {
                    hcl::expr::ObjectKey::Identifier(i) => i.to_string(),
                    hcl::expr::ObjectKey::Expression(Expression::String(s)) => s.clone(),
                    _ => unreachable!(),
                };
                match out.iter_mut().find(|o| o.0 == k) {
                    Some(o) => o.1 = plain(v),
                    None => out.push((k, plain(v))),
                }
            }
            Value::Object(out.into_iter().collect())
        }
        Expression::TemplateExpr(t) => Value::String(t.to_string()),
        Expression::Parenthesis(e) => plain(e),
        e => Value::String(text(e)),
    }
}

fn to_value(body: &Body, lossy: bool) -> Value {
    let mut out: Vec<(String, Value)> = vec![];
    let name = |s: &Structure| match s {
        Structure::Attribute(a) => a.key.to_string(),
        Structure::Block(b) => b.identifier.to_string(),
    };
    for s in body.iter() {
        let n = name(s);
        if out.iter().any(|o| o.0 == n) {
            continue;
        }
        // An attribute and blocks of the same name exclude each other, the last ones win.
        let all: Vec<&Structure> = body.iter().filter(|t| name(t) == n).collect();
        let last_attr = all.iter().rposition(|s| s.is_attribute());
        let v = match last_attr {
            Some(i) if i + 1 == all.len() => plain(&all[i].as_attribute().unwrap().expr),
            _ => {
                let from = last_attr.map_or(0, |i| i + 1);
                let blocks = all[from..].iter().map(|s| s.as_block().unwrap());
                group(blocks.map(|b| (b.labels.iter().map(|l| l.as_str().to_string()).collect(), &b.body)).collect(), lossy)
            }
        };
        out.push((n, v));
    }
    Value::Object(out.into_iter().collect())
}

fn json_order(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}

fn random_expr(rng: &mut Rng, d: usize) -> Expression {
    let keys = ["a", "b", "", "x y", "${", "null"];
    match rng.below(if d == 0 { 8 } else { 12 }) {
        0 => Expression::Null,
        1 => (rng.below(2) == 0).into(),
        2 => (rng.below(20) as i64 - 10).into(),
        3 => (*rng.pick(&["", "x", "${a}", "$${", "true", "1"])).into(),
        4 => "\"${a}-%{ if b }c%{ endif }\"".parse().unwrap(),
        5 => "1 + f(a.b[0], \"x\")".parse().unwrap(),
        6 => "[for k, v in a : \"${k}\" if v]".parse().unwrap(),
        7 => "<<-EOT\n  a\n   ${b}\n  EOT\n".parse().unwrap_or(Expression::Null),
        8 => Expression::Parenthesis(Box::new(random_expr(rng, d - 1))),
        9 => Expression::Array((0..rng.below(4)).map(|_| random_expr(rng, d - 1)).collect()),
        _ => {
            let mut o = hcl::expr::Object::new();
            for _ in 0..rng.below(5) {
                let k = *rng.pick(&keys);
                let k = match hcl::Identifier::new(k) {
                    Ok(i) if k != "null" && rng.chance(1, 2) => hcl::expr::ObjectKey::Identifier(i),
                    _ => hcl::expr::ObjectKey::from(k),
                };
                o.insert(k, random_expr(rng, d - 1));
            }
            Expression::Object(o)
        }
    }
}

fn random_body(rng: &mut Rng, d: usize, unique: &mut u64) -> Body {
    let n = rng.below(if d == 0 { 3 } else { 7 });
    let names = ["a", "b", "c"];
    let labels = ["l", "m", "x y", "a", ""];
    let mut body = Body::builder();
    let mut seen: Vec<&str> = vec![];
    for _ in 0..n {
        let name = *rng.pick(&names);
        if d == 0 || rng.chance(1, 4) {
            if seen.contains(&name) {
                continue;
            }
            seen.push(name);
            *unique += 1;
            let u = *unique;
            body = match rng.below(8) {
                5 | 6 => {
                    let e = random_expr(rng, 3);
                    body.add_attribute((name, Expression::from_iter([("e", e), ("u", u.into())])))
                }
                0 => body.add_attribute((name, Expression::from(vec![u]))),
                1 => body.add_attribute((name, Expression::from_iter([("k", u)]))),
                2 => body.add_attribute((name, Expression::Variable(hcl::Variable::new(format!("v{u}")).unwrap()))),
                _ => body.add_attribute((name, u)),
            };
        } else {
            let mut b = hcl::Block::builder(name);
            for _ in 0..rng.below(4) {
                let l = *rng.pick(&labels);
                b = if rng.chance(1, 2) && hcl::Identifier::new(l).is_ok() {
                    b.add_label(hcl::Identifier::new(l).unwrap())
                } else {
                    b.add_label(l)
                };
            }
            body = body.add_block(b.add_structures(random_body(rng, d - 1, unique)).build());
        }
    }
    body.build()
}

fn check_c22(run: &mut Run, body: Body) {
    check_c22_(run, body, true)
}

fn check_c22_(run: &mut Run, body: Body, allow_known: bool) {
    let text = match hcl::to_string(&body) {
        Ok(t) => t,
        Err(e) => format!("{body:?}: {e}"),
    };
    run.case("body as a value", &text, text.contains('{'), || {
        let mut want = to_value(&body, false);
        let got = Value::from(body.clone());
        if allow_known && json_order(&got) != json_order(&want) {
            want = to_value(&body, true);
        }
        ensure(json_order(&got) == json_order(&want), || format!("becomes {} instead of {}", json_order(&got), json_order(&want)))?;
        let got: Value = hcl::from_body(body.clone()).map_err(|e| e.to_string())?;
        ensure(json_order(&got) == json_order(&want), || format!("from_body gives {}", json_order(&got)))?;
        let got: Value = hcl::from_str(&text).map_err(|e| e.to_string())?;
        ensure(json_order(&got) == json_order(&want), || format!("from_str gives {}", json_order(&got)))?;
        let got: serde_json::Value = hcl::from_str(&text).map_err(|e| e.to_string())?;
        ensure(got.to_string() == json_order(&want), || format!("as JSON {got}"))?;
        let got = Value::from(Expression::from(body.clone()));
        ensure(json_order(&got) == json_order(&want), || format!("through an expression {}", json_order(&got)))?;
        for b in body.blocks() {
            let alone = Body::from(vec![Structure::Block(b.clone())]);
            let got = Value::from(b.clone());
            let strict = to_value(&alone, false);
            let known = allow_known && json_order(&got) != json_order(&strict);
            let alone = if known { to_value(&alone, true) } else { strict };
            ensure(json_order(&got) == json_order(&alone), || format!("one block becomes {}", json_order(&got)))?;
        }
        Ok(())
    });
}

pub fn c22(run: &mut Run) {
    run.rule("bodies of up to seven attributes and blocks per level with colliding names and up to three labels, three levels deep; all sequences of up to four blocks out of six shapes; non-trivial: contains a block");
    let shapes: Vec<(&str, Vec<&str>)> = vec![("a", vec![]), ("a", vec!["l"]), ("a", vec!["m"]), ("a", vec!["l", "l"]), ("b", vec![]), ("a", vec!["l", "m"])];
    let n = shapes.len();
    for len in 0..=4u32 {
        for code in 0..n.pow(len) {
            let (mut c, mut b, mut k) = (code, Body::builder(), 0);
            for _ in 0..len {
                let (name, labels) = &shapes[c % n];
                c /= n;
                k += 1;
                let mut block = hcl::Block::builder(*name);
                for l in labels {
                    block = block.add_label(*l);
                }
                b = b.add_block(block.add_attribute(("x", k)).build());
            }
            check_c22(run, b.build());
        }
    }
    run.exhausted("all sequences of up to four blocks out of six shapes");
    for text in ["a {}\na \"l\" {}\n", "a \"l\" {}\na {}\n"] {
        check_c22_(run, hcl::parse(text).unwrap(), false);
    }
    let mut u = 0;
    for _ in 0..run.iters(7_000) {
        let b = random_body(&mut run.rng, 3, &mut u);
        check_c22(run, b);
    }
}
