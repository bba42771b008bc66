"""Shared by the evaluation recipes (C09-C14): the syntax tree and value types extracted from /repo,
what evaluation means (`ev`), and contracts on every function of crates/hcl-rs/src/eval.

Each recipe verifies the bodies of the functions its property depends on; every other function is
assembled with the same contract and no body (external_body) -- it is verified by the recipe of the
property it belongs to, so callers are checked against contracts only.
"""
import re
import rx

R = "crates/hcl-rs/src/"
P = "crates/hcl-primitives/src/"
USES = "use vstd::seq::*;\nuse vstd::map::*;\nuse vstd::string::*;\nuse std::collections::VecDeque;\n"

TYPES = r'''
global size_of usize == 8;

// ---- opaque types: only what the contracts below say about them is used --------------------------
#[verifier::external_body] pub struct Identifier { s: String }
impl View for Identifier { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct FuncName { s: String }
impl View for FuncName { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
#[verifier::external_body] pub struct Number { n: u64 }
#[verifier::external_body] pub struct TemplateExpr { s: String }
#[verifier::external_body] pub struct Func { f: fn() }
#[verifier::external_body] pub struct Error { e: Box<ErrorKind> }
// IndexMap and VecMap: a list of entries with distinct keys, in order of insertion
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(T)]
pub struct Map<K, T> { v: Vec<(K, T)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(T)]
pub struct VecMap<K, T> { v: Vec<(K, T)> }
pub struct Object<K, T> { pub entries: Vec<(K, T)> }
pub type Variable = Identifier;
pub type EvalResult<T> = Result<T, Error>;

impl Clone for Identifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for FuncName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Expression { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Number { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Number {}
impl Clone for UnaryOperator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for UnaryOperator {}
impl Clone for BinaryOperator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BinaryOperator {}
impl Clone for Strip { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Strip {}

// ---- a vector, a string and a map are determined by their contents --------------------------------
pub mod ax {
    use super::*;
    pub uninterp spec fn mkv(s: Seq<Value>) -> Vec<Value>;
    pub broadcast axiom fn mkv_1(v: Vec<Value>) ensures mkv(#[trigger] v@) == v;
    pub broadcast axiom fn mkv_2(s: Seq<Value>) ensures (#[trigger] mkv(s))@ == s;
    pub uninterp spec fn mks(s: Seq<char>) -> String;
    pub broadcast axiom fn mks_1(v: String) ensures mks(#[trigger] v@) == v;
    pub broadcast axiom fn mks_2(s: Seq<char>) ensures (#[trigger] mks(s))@ == s;
    pub open spec fn distinct(s: Seq<(Seq<char>, Value)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
    pub uninterp spec fn ents(m: Map<String, Value>) -> Seq<(Seq<char>, Value)>;
    pub uninterp spec fn mkm(s: Seq<(Seq<char>, Value)>) -> Map<String, Value>;
    pub broadcast axiom fn mkm_1(m: Map<String, Value>) ensures mkm(#[trigger] ents(m)) == m, distinct(ents(m));
    pub broadcast axiom fn mkm_2(s: Seq<(Seq<char>, Value)>) requires distinct(s) ensures (#[trigger] ents(mkm(s))) == s;
}
pub use ax::*;
broadcast use {mkv_1, mkv_2, mks_1, mks_2, mkm_1, mkm_2};

pub uninterp spec fn vars_of(m: Map<Identifier, Value>) -> vstd::map::Map<Seq<char>, Value>;
pub uninterp spec fn funcs_of(m: VecMap<FuncName, FuncDef>) -> vstd::map::Map<Seq<Seq<char>>, FuncDef>;
impl Map<Identifier, Value> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures vars_of(r) == vstd::map::Map::<Seq<char>, Value>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Identifier, v: Value) ensures vars_of(*final(self)) == vars_of(*old(self)).insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Identifier) -> (r: Option<&Value>)
        ensures vars_of(*self).dom().contains(k@) ==> r == Some(&vars_of(*self)[k@]), !vars_of(*self).dom().contains(k@) ==> r is None { unimplemented!() }
}
impl VecMap<FuncName, FuncDef> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures funcs_of(r) == vstd::map::Map::<Seq<Seq<char>>, FuncDef>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: FuncName, v: FuncDef) ensures funcs_of(*final(self)) == funcs_of(*old(self)).insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &FuncName) -> (r: Option<&FuncDef>)
        ensures funcs_of(*self).dom().contains(k@) ==> r == Some(&funcs_of(*self)[k@]), !funcs_of(*self).dom().contains(k@) ==> r is None { unimplemented!() }
}

// ---- errors ----------------------------------------------------------------------------------------
pub uninterp spec fn kind_of(e: Error) -> ErrorKind;
pub open spec fn okv<T>(r: Result<T, Error>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
#[verifier::external_body] pub fn x_unexpected<T>(v: T) -> (r: ErrorKind) { unimplemented!() }
#[verifier::external_body] pub fn x_message() -> String { unimplemented!() }
'''

SPEC = r'''
// ---- what evaluation means -------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct Env { pub vars: vstd::map::Map<Seq<char>, Value>, pub funcs: vstd::map::Map<Seq<Seq<char>>, FuncDef> }
impl Env {
    pub open spec fn bind(self, k: Seq<char>, v: Value) -> Env { Env { vars: self.vars.insert(k, v), funcs: self.funcs } }
    pub open spec fn var(self, k: Seq<char>) -> Option<Value> { if self.vars.dom().contains(k) { Some(self.vars[k]) } else { None } }
}
impl<'a> Context<'a> {
    // the innermost definition wins
    pub open spec fn env(&self) -> Env decreases self {
        match self.parent {
            None => Env { vars: vars_of(self.vars), funcs: funcs_of(self.funcs) },
            Some(p) => Env { vars: p.env().vars.union_prefer_right(vars_of(self.vars)), funcs: p.env().funcs.union_prefer_right(funcs_of(self.funcs)) },
        }
    }
}

// numbers: proved against mathematics under C01-C03, opaque here
pub uninterp spec fn num_neg(a: Number) -> Number;
pub uninterp spec fn num_add(a: Number, b: Number) -> Option<Number>;
pub uninterp spec fn num_sub(a: Number, b: Number) -> Option<Number>;
pub uninterp spec fn num_mul(a: Number, b: Number) -> Option<Number>;
pub uninterp spec fn num_div(a: Number, b: Number) -> Option<Number>;
pub uninterp spec fn num_rem(a: Number, b: Number) -> Option<Number>;
pub uninterp spec fn num_eq(a: Number, b: Number) -> bool;
pub uninterp spec fn num_lt(a: Number, b: Number) -> bool;
pub open spec fn num_le(a: Number, b: Number) -> bool { num_lt(a, b) || num_eq(a, b) }
pub uninterp spec fn num_u64(a: Number) -> Option<u64>;
pub uninterp spec fn num_text(a: Number) -> Seq<char>;
pub uninterp spec fn num_of(i: int) -> Number;
impl Number {
    #[verifier::external_body] pub fn checked_add(self, o: Number) -> (r: Option<Number>) ensures r == num_add(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: Number) -> (r: Option<Number>) ensures r == num_sub(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: Number) -> (r: Option<Number>) ensures r == num_mul(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: Number) -> (r: Option<Number>) ensures r == num_div(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: Number) -> (r: Option<Number>) ensures r == num_rem(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u64(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == num_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn x_neg(self) -> (r: Number) ensures r == num_neg(self) { unimplemented!() }
    #[verifier::external_body] pub fn x_lt(&self, o: &Number) -> (r: bool) ensures r == num_lt(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn x_le(&self, o: &Number) -> (r: bool) ensures r == num_le(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn x_gt(&self, o: &Number) -> (r: bool) ensures r == num_lt(*o, *self) { unimplemented!() }
    #[verifier::external_body] pub fn x_ge(&self, o: &Number) -> (r: bool) ensures r == num_le(*o, *self) { unimplemented!() }
}
// equality of values, derived from the equality of their parts
pub uninterp spec fn value_eq(a: Value, b: Value) -> bool;
pub open spec fn same_kind(a: Value, b: Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true, (Value::Bool(_), Value::Bool(_)) => true, (Value::Number(_), Value::Number(_)) => true,
        (Value::String(_), Value::String(_)) => true, (Value::Array(_), Value::Array(_)) => true, (Value::Object(_), Value::Object(_)) => true,
        _ => false,
    }
}
impl Value {
    #[verifier::external_body] pub fn x_eq(&self, o: &Value) -> (r: bool) ensures r == value_eq(*self, *o), !same_kind(*self, *o) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn x_ne(&self, o: &Value) -> (r: bool) ensures r == !value_eq(*self, *o), !same_kind(*self, *o) ==> r { unimplemented!() }
}
pub uninterp spec fn value_text(v: Value) -> Seq<char>;

// operators (C09)
pub open spec fn lift(o: Option<Number>) -> Option<Value> { match o { Some(n) => Some(Value::Number(n)), None => None } }
pub open spec fn unary(op: UnaryOperator, v: Value) -> Option<Value> {
    match (op, v) {
        (UnaryOperator::Not, Value::Bool(b)) => Some(Value::Bool(!b)),
        (UnaryOperator::Neg, Value::Number(n)) => Some(Value::Number(num_neg(n))),
        _ => None,
    }
}
pub open spec fn binary(l: Value, op: BinaryOperator, r: Value) -> Option<Value> {
    match op {
        BinaryOperator::Eq => Some(Value::Bool(value_eq(l, r))),
        BinaryOperator::NotEq => Some(Value::Bool(!value_eq(l, r))),
        BinaryOperator::And => match (l, r) { (Value::Bool(a), Value::Bool(b)) => Some(Value::Bool(a && b)), _ => None },
        BinaryOperator::Or => match (l, r) { (Value::Bool(a), Value::Bool(b)) => Some(Value::Bool(a || b)), _ => None },
        _ => match (l, r) {
            (Value::Number(a), Value::Number(b)) => match op {
                BinaryOperator::Less => Some(Value::Bool(num_lt(a, b))),
                BinaryOperator::LessEq => Some(Value::Bool(num_le(a, b))),
                BinaryOperator::Greater => Some(Value::Bool(num_lt(b, a))),
                BinaryOperator::GreaterEq => Some(Value::Bool(num_le(b, a))),
                BinaryOperator::Plus => lift(num_add(a, b)),
                BinaryOperator::Minus => lift(num_sub(a, b)),
                BinaryOperator::Mul => lift(num_mul(a, b)),
                BinaryOperator::Div => lift(num_div(a, b)),
                _ => lift(num_rem(a, b)),
            },
            _ => None,
        },
    }
}

// access (C12)
pub open spec fn elem_at(v: Value, i: int) -> Option<Value> {
    match v { Value::Array(a) => if 0 <= i < a@.len() { Some(a@[i]) } else { None }, _ => None }
}
pub open spec fn key_in(s: Seq<(Seq<char>, Value)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn key_at(s: Seq<(Seq<char>, Value)>, k: Seq<char>) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn field(v: Value, k: Seq<char>) -> Option<Value> {
    match v { Value::Object(m) => if key_in(ents(m), k) { Some(ents(m)[key_at(ents(m), k)].1) } else { None }, _ => None }
}
pub open spec fn index_by(v: Value, i: Value) -> Option<Value> {
    match i {
        Value::String(s) => field(v, s@),
        Value::Number(n) => match num_u64(n) { Some(i) => elem_at(v, i as int), None => None },
        _ => None,
    }
}
pub open spec fn attrs(s: Seq<TraversalOperator>) -> nat decreases s.len() {
    if s.len() > 0 && s[0] is GetAttr { 1 + attrs(s.drop_first()) } else { 0 }
}
pub open spec fn trav(v: Value, s: Seq<TraversalOperator>, c: Env) -> Option<Value> decreases s, 1nat, 0nat {
    if s.len() == 0 { Some(v) } else {
        let rest = s.drop_first();
        match s[0] {
            TraversalOperator::LegacyIndex(i) => match elem_at(v, i as int) { Some(x) => trav(x, rest, c), None => None },
            TraversalOperator::Index(e) => match ev(e, c) { Some(i) => match index_by(v, i) { Some(x) => trav(x, rest, c), None => None }, None => None },
            TraversalOperator::GetAttr(n) => match field(v, n@) { Some(x) => trav(x, rest, c), None => None },
            TraversalOperator::AttrSplat => {
                let n = attrs(rest) as int;
                if 0 <= n < s.len() { match splat(v, s.subrange(1, 1 + n), c) { Some(x) => trav(x, s.subrange(1 + n, s.len() as int), c), None => None } } else { None }
            },
            TraversalOperator::FullSplat => splat(v, rest, c),
        }
    }
}
pub open spec fn splat(v: Value, s: Seq<TraversalOperator>, c: Env) -> Option<Value> decreases s, 3nat, 0nat {
    match v {
        Value::Array(a) => match splat_all(a@, a@.len(), s, c) { Some(x) => Some(Value::Array(mkv(x))), None => None },
        Value::Null => Some(Value::Array(mkv(Seq::empty()))),
        _ => match trav(v, s, c) { Some(x) => Some(Value::Array(mkv(seq![x]))), None => None },
    }
}
pub open spec fn splat_all(a: Seq<Value>, n: nat, s: Seq<TraversalOperator>, c: Env) -> Option<Seq<Value>> decreases s, 2nat, n {
    if n == 0 || n > a.len() { Some(Seq::empty()) } else {
        match (splat_all(a, (n - 1) as nat, s, c), trav(a[n - 1], s, c)) { (Some(x), Some(y)) => Some(x.push(y)), _ => None }
    }
}

// calls (C11)
pub uninterp spec fn apply(f: Func, args: Seq<Value>, positional: int) -> Option<Value>;
pub open spec fn sat(p: ParamType, v: Value) -> bool decreases p {
    match p {
        ParamType::Any => true,
        ParamType::Bool => v is Bool,
        ParamType::Number => v is Number,
        ParamType::String => v is String,
        ParamType::Array(e) => v is Array && forall|i: int| 0 <= i < v->Array_0@.len() ==> sat(*e, #[trigger] v->Array_0@[i]),
        ParamType::Object(e) => v is Object && forall|i: int| 0 <= i < ents(v->Object_0).len() ==> sat(*e, (#[trigger] ents(v->Object_0)[i]).1),
        ParamType::Nullable(e) => v is Null || sat(*e, v),
        ParamType::OneOf(es) => es@.len() == 0 || exists|i: int| 0 <= i < es@.len() && sat(#[trigger] es@[i], v),
    }
}
pub open spec fn conforms(d: FuncDef, args: Seq<Value>) -> bool {
    let n = d.params@.len() as int;
    &&& args.len() >= n
    &&& d.variadic_param is None ==> args.len() == n
    &&& forall|i: int| 0 <= i < n ==> sat(d.params@[i], #[trigger] args[i])
    &&& d.variadic_param is Some ==> forall|i: int| n <= i < args.len() ==> sat(d.variadic_param->Some_0, #[trigger] args[i])
}
pub open spec fn call(d: FuncDef, args: Seq<Value>) -> Option<Value> {
    if conforms(d, args) { apply(d.func, args, d.params@.len() as int) } else { None }
}
pub open spec fn call_args(f: FuncCall, n: nat, c: Env) -> Option<Seq<Value>> decreases f, 1nat, n {
    if n == 0 || n > f.args@.len() { Some(Seq::empty()) } else {
        match (call_args(f, (n - 1) as nat, c), ev(f.args@[n - 1], c)) {
            (Some(s), Some(x)) => if f.expand_final && n == f.args@.len() {
                match x { Value::Array(a) => Some(s + a@), _ => None }
            } else { Some(s.push(x)) },
            _ => None,
        }
    }
}

// for expressions (C13)
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } }
pub open spec fn key_text(v: Value) -> Option<Seq<char>> {
    match v { Value::String(s) => Some(s@), Value::Bool(b) => Some(bool_text(b)), Value::Number(n) => Some(num_text(n)), _ => None }
}
pub open spec fn entries(v: Value) -> Option<Seq<(Value, Value)>> {
    match v {
        Value::Array(a) => Some(Seq::new(a@.len(), |i: int| (Value::Number(num_of(i)), a@[i]))),
        Value::Object(m) => Some(ents(m).map_values(|e: (Seq<char>, Value)| (Value::String(mks(e.0)), e.1))),
        _ => None,
    }
}
pub open spec fn bound(key_var: Option<Identifier>, value_var: Identifier, e: (Value, Value), c: Env) -> Env {
    match key_var { Some(k) => c.bind(k@, e.0).bind(value_var@, e.1), None => c.bind(value_var@, e.1) }
}
pub open spec fn as_bool(v: Option<Value>) -> Option<bool> { match v { Some(Value::Bool(b)) => Some(b), _ => None } }
pub open spec fn keeps(cond: Option<Expression>, c: Env) -> Option<bool> decreases cond, 1nat, 0nat {
    match cond { None => Some(true), Some(e) => as_bool(ev(e, c)) }
}
pub open spec fn for_list(f: ForExpr, es: Seq<(Value, Value)>, n: nat, c: Env) -> Option<Seq<Value>> decreases f, 1nat, n {
    if n == 0 || n > es.len() { Some(Seq::empty()) } else {
        let b = bound(f.key_var, f.value_var, es[n - 1], c);
        match (for_list(f, es, (n - 1) as nat, c), keeps(f.cond_expr, b)) {
            (Some(s), Some(true)) => match ev(f.value_expr, b) { Some(x) => Some(s.push(x)), None => None },
            (Some(s), Some(false)) => Some(s),
            _ => None,
        }
    }
}
pub open spec fn group(s: Seq<(Seq<char>, Value)>, k: Seq<char>, v: Value) -> Seq<(Seq<char>, Value)> {
    if key_in(s, k) {
        let i = key_at(s, k);
        match s[i].1 { Value::Array(a) => s.update(i, (k, Value::Array(mkv(a@.push(v))))), _ => s }
    } else { s.push((k, Value::Array(mkv(seq![v])))) }
}
pub open spec fn for_object(f: ForExpr, es: Seq<(Value, Value)>, n: nat, c: Env) -> Option<Seq<(Seq<char>, Value)>> decreases f, 1nat, n {
    if n == 0 || n > es.len() { Some(Seq::empty()) } else {
        let b = bound(f.key_var, f.value_var, es[n - 1], c);
        match (for_object(f, es, (n - 1) as nat, c), keeps(f.cond_expr, b)) {
            (Some(s), Some(true)) => match (f.key_expr, ev(f.value_expr, b)) {
                (Some(ke), Some(x)) => match ev(ke, b) {
                    Some(kv) => match key_text(kv) {
                        Some(k) => if f.grouping { Some(group(s, k, x)) } else if key_in(s, k) { None } else { Some(s.push((k, x))) },
                        None => None,
                    },
                    None => None,
                },
                _ => None,
            },
            (Some(s), Some(false)) => Some(s),
            _ => None,
        }
    }
}

// literal collections
pub open spec fn put(s: Seq<(Seq<char>, Value)>, k: Seq<char>, v: Value) -> Seq<(Seq<char>, Value)> {
    if key_in(s, k) { s.update(key_at(s, k), (k, v)) } else { s.push((k, v)) }
}
pub open spec fn ev_all(v: Vec<Expression>, n: nat, c: Env) -> Option<Seq<Value>> decreases v, n, 0nat {
    if n == 0 || n > v@.len() { Some(Seq::empty()) } else {
        match (ev_all(v, (n - 1) as nat, c), ev(v@[n - 1], c)) { (Some(s), Some(x)) => Some(s.push(x)), _ => None }
    }
}
pub open spec fn ev_key(k: ObjectKey, c: Env) -> Option<Seq<char>> decreases k, 1nat, 0nat {
    match k { ObjectKey::Identifier(i) => Some(i@), ObjectKey::Expression(e) => match ev(e, c) { Some(v) => key_text(v), None => None } }
}
pub open spec fn ev_object(o: Object<ObjectKey, Expression>, n: nat, c: Env) -> Option<Seq<(Seq<char>, Value)>> decreases o, n, 0nat {
    if n == 0 || n > o.entries@.len() { Some(Seq::empty()) } else {
        match (ev_object(o, (n - 1) as nat, c), ev_key(o.entries@[n - 1].0, c), ev(o.entries@[n - 1].1, c)) {
            (Some(s), Some(k), Some(x)) => Some(put(s, k, x)), _ => None
        }
    }
}

// templates (C14): the text of a template expression is parsed first; what it parses to is opaque,
// so is -- in `ev` only -- what evaluating it gives; `texpr` says what that is.
pub uninterp spec fn parsed(t: TemplateExpr) -> Option<Template>;
pub uninterp spec fn ev_texpr(t: TemplateExpr, c: Env) -> Option<Value>;
pub open spec fn texpr(t: TemplateExpr, c: Env) -> Option<Value> {
    match parsed(t) {
        None => None,
        Some(p) => if p.elements@.len() == 1 && p.elements@[0] is Interpolation { ev(p.elements@[0]->Interpolation_0.expr, c) }
            else { match tmpl(p, Strip::None, Strip::None, p.elements@.len(), c) { Some(s) => Some(Value::String(mks(s))), None => None } },
    }
}
pub uninterp spec fn space(c: char) -> bool;
pub open spec fn strips_next(s: Strip) -> bool { s is End || s is Both }
pub open spec fn strips_prev(s: Strip) -> bool { s is Start || s is Both }
pub open spec fn left_strip(e: Element) -> Strip {
    match e {
        Element::Literal(_) => Strip::None,
        Element::Interpolation(i) => i.strip,
        Element::Directive(d) => match *d { Directive::If(i) => i.if_strip, Directive::For(f) => f.for_strip },
    }
}
pub open spec fn right_strip(e: Element) -> Strip {
    match e {
        Element::Literal(_) => Strip::None,
        Element::Interpolation(i) => i.strip,
        Element::Directive(d) => match *d { Directive::If(i) => i.endif_strip, Directive::For(f) => f.endfor_strip },
    }
}
pub open spec fn blank(c: char) -> bool { space(c) && c != '\r' && c != '\n' }
pub open spec fn skip_blank(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && blank(s[0]) { skip_blank(s.drop_first()) } else { s }
}
pub open spec fn skip_blank_back(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && blank(s.last()) { skip_blank_back(s.drop_last()) } else { s }
}
pub open spec fn strip_front(s: Seq<char>) -> Seq<char> {
    let t = skip_blank(s);
    if t.len() >= 2 && t[0] == '\r' && t[1] == '\n' { t.skip(2) } else if t.len() >= 1 && t[0] == '\n' { t.skip(1) } else { t }
}
pub open spec fn strip_back(s: Seq<char>) -> Seq<char> {
    let t = skip_blank_back(s);
    let n = t.len() as int;
    if n >= 2 && t[n - 2] == '\r' && t[n - 1] == '\n' { t.take(n - 2) } else if n >= 1 && t[n - 1] == '\n' { t.take(n - 1) } else { t }
}
pub open spec fn stripped(s: Seq<char>, after: bool, before: bool) -> Seq<char> {
    let t = if after { strip_front(s) } else { s };
    if before { strip_back(t) } else { t }
}
// the text of the first n elements; prev and next are the strip modes that enclose the template
pub open spec fn tmpl(t: Template, prev: Strip, next: Strip, n: nat, c: Env) -> Option<Seq<char>> decreases t, n, 0nat {
    if n == 0 || n > t.elements@.len() { Some(Seq::empty()) } else {
        let k = n - 1;
        let p = if k == 0 { strips_next(prev) } else { strips_next(right_strip(t.elements@[k - 1])) };
        let q = if n == t.elements@.len() { strips_prev(next) } else { strips_prev(left_strip(t.elements@[k + 1])) };
        match (tmpl(t, prev, next, k as nat, c), elem_text(t.elements@[k], p, q, c)) { (Some(s), Some(x)) => Some(s + x), _ => None }
    }
}
pub open spec fn elem_text(e: Element, p: bool, q: bool, c: Env) -> Option<Seq<char>> decreases e, 1nat, 0nat {
    match e {
        Element::Literal(s) => Some(stripped(s@, p, q)),
        Element::Interpolation(i) => shown(ev(i.expr, c)),
        Element::Directive(d) => dir_text(*d, c),
    }
}
pub open spec fn shown(v: Option<Value>) -> Option<Seq<char>> {
    match v { None => None, Some(Value::String(s)) => Some(s@), Some(x) => Some(value_text(x)) }
}
pub open spec fn dir_text(d: Directive, c: Env) -> Option<Seq<char>> decreases d, 1nat, 0nat {
    match d {
        Directive::If(i) => if_text(i, c),
        Directive::For(f) => match ev(f.collection_expr, c) {
            None => None,
            Some(v) => match entries(v) { None => None, Some(es) => for_text(f, es, es.len(), c) },
        },
    }
}
pub open spec fn if_text(i: IfDirective, c: Env) -> Option<Seq<char>> decreases i, 1nat, 0nat {
    match as_bool(ev(i.cond_expr, c)) {
        None => None,
        Some(true) => tmpl(i.true_template, i.if_strip, if i.false_template is Some { i.else_strip } else { i.endif_strip }, i.true_template.elements@.len(), c),
        Some(false) => match i.false_template { None => Some(Seq::empty()), Some(t) => tmpl(t, i.else_strip, i.endif_strip, t.elements@.len(), c) },
    }
}
pub open spec fn for_text(f: ForDirective, es: Seq<(Value, Value)>, n: nat, c: Env) -> Option<Seq<char>> decreases f, n, 0nat {
    if n == 0 || n > es.len() { Some(Seq::empty()) } else {
        match (for_text(f, es, (n - 1) as nat, c), tmpl(f.template, f.for_strip, f.endfor_strip, f.template.elements@.len(), bound(f.key_var, f.value_var, es[n - 1], c))) {
            (Some(s), Some(x)) => Some(s + x), _ => None
        }
    }
}

pub open spec fn ev_unary(u: UnaryOp, c: Env) -> Option<Value> decreases u, 1nat, 0nat {
    match ev(u.expr, c) { Some(v) => unary(u.operator, v), None => None }
}
pub open spec fn ev_binary(b: BinaryOp, c: Env) -> Option<Value> decreases b, 1nat, 0nat {
    match (ev(b.lhs_expr, c), ev(b.rhs_expr, c)) { (Some(l), Some(r)) => binary(l, b.operator, r), _ => None }
}
pub open spec fn ev_op(o: Operation, c: Env) -> Option<Value> decreases o, 1nat, 0nat {
    match o { Operation::Unary(u) => ev_unary(u, c), Operation::Binary(b) => ev_binary(b, c) }
}
pub open spec fn ev_cond(k: Conditional, c: Env) -> Option<Value> decreases k, 1nat, 0nat {
    match as_bool(ev(k.cond_expr, c)) { Some(true) => ev(k.true_expr, c), Some(false) => ev(k.false_expr, c), None => None }
}
pub open spec fn ev_call(f: FuncCall, c: Env) -> Option<Value> decreases f, 2nat, 0nat {
    if c.funcs.dom().contains(f.name@) {
        match call_args(f, f.args@.len(), c) { Some(a) => call(c.funcs[f.name@], a), None => None }
    } else { None }
}
pub open spec fn ev_trav(t: Traversal, c: Env) -> Option<Value> decreases t, 1nat, 0nat {
    match ev(t.expr, c) { Some(v) => trav(v, t.operators@, c), None => None }
}
pub open spec fn for_value(f: ForExpr, es: Seq<(Value, Value)>, c: Env) -> Option<Value> decreases f, 2nat, 0nat {
    if f.key_expr is Some {
        match for_object(f, es, es.len(), c) { Some(s) => Some(Value::Object(mkm(s))), None => None }
    } else {
        match for_list(f, es, es.len(), c) { Some(s) => Some(Value::Array(mkv(s))), None => None }
    }
}
pub open spec fn ev_for(f: ForExpr, c: Env) -> Option<Value> decreases f, 3nat, 0nat {
    match ev(f.collection_expr, c) {
        None => None,
        Some(v) => match entries(v) { None => None, Some(es) => for_value(f, es, c) },
    }
}
pub open spec fn ev(e: Expression, c: Env) -> Option<Value> decreases e, 0nat, 0nat {
    match e {
        Expression::Null => Some(Value::Null),
        Expression::Bool(b) => Some(Value::Bool(b)),
        Expression::Number(n) => Some(Value::Number(n)),
        Expression::String(s) => Some(Value::String(s)),
        Expression::Array(v) => match ev_all(v, v@.len(), c) { Some(s) => Some(Value::Array(mkv(s))), None => None },
        Expression::Object(o) => match ev_object(o, o.entries@.len(), c) { Some(s) => Some(Value::Object(mkm(s))), None => None },
        Expression::TemplateExpr(t) => ev_texpr(*t, c),
        Expression::Variable(i) => c.var(i@),
        Expression::Traversal(t) => ev_trav(*t, c),
        Expression::FuncCall(f) => ev_call(*f, c),
        Expression::Parenthesis(e) => ev(*e, c),
        Expression::Conditional(k) => ev_cond(*k, c),
        Expression::Operation(o) => ev_op(*o, c),
        Expression::ForExpr(f) => ev_for(*f, c),
    }
}
'''


def pub_fields(text):
    """make every field of a struct item public (contracts mention them)"""
    o = text.index("{")
    head, body = text[:o + 1], text[o + 1:]
    body = re.sub(r"pub\s*\([^)]*\)", "", body)
    body = re.sub(r"\bpub\b", "", body)
    toks = rx.lex(body)
    res, last, d, start = "", 0, 0, True
    for t in toks:
        if start and t.k == "id":
            res += body[last:t.a] + "pub "
            last = t.a
            start = False
        if t.k == "p" and t.s in ("<", "(", "["):
            d += 1
        elif t.k == "p" and t.s in (">", ")", "]"):
            d -= 1
        elif t.s == "," and d == 0:
            start = True
    return "pub " + head + res + body[last:]


def types(repo):
    F = lambda p: rx.File(f"{repo}/{p}")
    out = []
    ops = F(P + "expr.rs")
    out += ["pub " + ops.item("enum", "UnaryOperator"), "pub " + ops.item("enum", "BinaryOperator")]
    out.append("pub " + F(P + "template.rs").item("enum", "Strip"))
    em = F(R + "expr/mod.rs")
    out.append("pub " + em.item("enum", "Expression"))
    out.append("pub " + em.item("enum", "ObjectKey"))
    o = F(R + "expr/operation.rs")
    out += ["pub " + o.item("enum", "Operation"), pub_fields(o.item("struct", "UnaryOp")), pub_fields(o.item("struct", "BinaryOp"))]
    t = F(R + "expr/traversal.rs")
    out += [pub_fields(t.item("struct", "Traversal")), "pub " + t.item("enum", "TraversalOperator")]
    out.append(pub_fields(F(R + "expr/func_call.rs").item("struct", "FuncCall")))
    out.append(pub_fields(F(R + "expr/for_expr.rs").item("struct", "ForExpr")))
    out.append(pub_fields(F(R + "expr/conditional.rs").item("struct", "Conditional")))
    t = F(R + "template/mod.rs")
    out.append(pub_fields(t.item("struct", "Template")))
    out += ["pub " + t.item("enum", "Element"), "pub " + t.item("enum", "Directive")]
    out += [pub_fields(t.item("struct", n)) for n in ("Interpolation", "IfDirective", "ForDirective")]
    out.append("pub " + F(R + "value/mod.rs").item("enum", "Value"))
    out.append("pub " + F(R + "eval/error.rs").item("enum", "ErrorKind"))
    f = F(R + "eval/func.rs")
    out += ["pub " + f.item("enum", "ParamType"), pub_fields(f.item("struct", "FuncDef")), pub_fields(f.item("struct", "FuncArgs"))]
    out.append(pub_fields(F(R + "eval/mod.rs").item("struct", "Context")))
    x = F(R + "eval/expr.rs")
    out.append(pub_fields(x.item("struct", "Collection")))
    out.append(pub_fields(x.item("struct", "IntoIter").replace("std::vec::IntoIter<", "XIntoIter<")))
    return out


# ---------------------------------------------------------------------------------- functions
import libchain

X_PRELUDE = libchain.PRELUDE + r'''
// evaluating the text of a template is well-founded (it is parsed to a tree whose template texts are shorter), so `ev_texpr` is what `texpr` says
#[verifier::external_body] pub proof fn texprs_mean() ensures forall|t: TemplateExpr, c: Env| #[trigger] ev_texpr(t, c) == texpr(t, c) {}
#[verifier::external_body] pub fn x_literal(e: &Expression) -> (r: Value)
    ensures *e is Null ==> r is Null, *e is Bool ==> r == Value::Bool(e->Bool_0), *e is Number ==> r == Value::Number(e->Number_0), *e is String ==> r == Value::String(e->String_0) { unimplemented!() }
// ---- trusted wrappers ------------------------------------------------------------------------------
impl Error { #[verifier::external_body] pub fn unexpected<T>(v: T, e: &'static str) -> Error { unimplemented!() } }
pub uninterp spec fn into_kind<T>(t: T) -> ErrorKind;
#[verifier::external_body] pub proof fn into_kind_id(k: ErrorKind) ensures into_kind::<ErrorKind>(k) == k {}
impl<'a> Context<'a> {
    #[verifier::external_body] pub fn error<T>(&self, inner: T) -> (r: Error) ensures kind_of(r) == into_kind(inner) { unimplemented!() }
}
#[verifier::external_body] pub fn x_bool_text(b: bool) -> (r: String) ensures r@ == bool_text(b) { b.to_string() }
#[verifier::external_body] pub fn x_string_of(i: &Identifier) -> (r: String) ensures r@ == i@ { unimplemented!() }
#[verifier::external_body] pub fn x_text_of(i: &Identifier) -> (r: &str) ensures r@ == i@ { unimplemented!() }
#[verifier::external_body] pub fn x_deref(s: &String) -> (r: &str) ensures r@ == s@ { s }
#[verifier::external_body] pub fn x_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
pub trait XValue: Sized { spec fn xv(self) -> Value; fn x_value(self) -> (r: Value) ensures r == self.xv(); }
impl XValue for usize { open spec fn xv(self) -> Value { Value::Number(num_of(self as int)) } #[verifier::external_body] fn x_value(self) -> (r: Value) { unimplemented!() } }
impl XValue for String { open spec fn xv(self) -> Value { Value::String(self) } #[verifier::external_body] fn x_value(self) -> (r: Value) { unimplemented!() } }
pub trait XIntoIterable<T>: Sized { spec fn xs(self) -> Seq<T>; fn x_into_iter(self) -> (r: XIntoIter<T>) ensures r.left() == self.xs(), r.left().len() <= usize::MAX; }
impl<T> XIntoIterable<T> for Vec<T> { open spec fn xs(self) -> Seq<T> { self@ } #[verifier::external_body] fn x_into_iter(self) -> (r: XIntoIter<T>) { unimplemented!() } }
impl XIntoIterable<(String, Value)> for Map<String, Value> {
    open spec fn xs(self) -> Seq<(String, Value)> { ents(self).map_values(|e: (Seq<char>, Value)| (mks(e.0), e.1)) }
    #[verifier::external_body] fn x_into_iter(self) -> (r: XIntoIter<(String, Value)>) { unimplemented!() }
}
impl Map<String, Value> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures ents(r) == Seq::<(Seq<char>, Value)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_new() -> (r: Self) ensures ents(r) == Seq::<(Seq<char>, Value)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == ents(*self).len() { unimplemented!() }
    #[verifier::external_body] pub fn x_value_at(&self, i: usize) -> (r: &Value) requires i < ents(*self).len() ensures *r == ents(*self)[i as int].1 { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove(&mut self, k: &str) -> (r: Option<Value>)
        ensures key_in(ents(*old(self)), k@) ==> r == Some(ents(*old(self))[key_at(ents(*old(self)), k@)].1), !key_in(ents(*old(self)), k@) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn x_contains(&self, k: &String) -> (r: bool) ensures r == key_in(ents(*self), k@) { unimplemented!() }
    #[verifier::external_body] pub fn x_put(&mut self, k: String, v: Value) ensures ents(*final(self)) == put(ents(*old(self)), k@, v) { unimplemented!() }
    // entry(k).or_insert_with(|| d).as_array_mut().unwrap().push(v): the entry has to be an array
    #[verifier::external_body] pub fn x_group_push(&mut self, k: String, d: Value, v: Value)
        requires d is Array, key_in(ents(*old(self)), k@) ==> ents(*old(self))[key_at(ents(*old(self)), k@)].1 is Array
        ensures key_in(ents(*old(self)), k@) ==> ents(*final(self)) == group(ents(*old(self)), k@, v),
            !key_in(ents(*old(self)), k@) ==> ents(*final(self)) == ents(*old(self)).push((k@, Value::Array(mkv(d->Array_0@.push(v)))))
    { unimplemented!() }
}
'''


class Reg:
    """One function: where it is, its contract, and how its body is brought into Verus' subset."""

    def __init__(self, id, prop, src, inside, name, impl, contract, sig=None, body=None, ret="r", rename=None, extra=""):
        self.id, self.prop, self.src, self.inside, self.name, self.impl = id, prop, src, inside, name, impl
        self.contract, self.sig, self.body, self.ret, self.rename, self.extra = contract, sig, body, ret, rename, extra


REGS = []


def reg(*a, **k):
    REGS.append(Reg(*a, **k))


def functions(repo, verify, ids=None):
    files, out, fns = {}, [], []
    for g in REGS:
        if ids is not None and g.id not in ids:
            continue
        src = files.get(g.src) or files.setdefault(g.src, rx.File(f"{repo}/{g.src}"))
        if g.inside and g.inside.startswith("fn "):
            # a function nested in another one, or at file level
            outer = src.fn(g.inside[3:])
            try:
                f = rx.File(g.src, outer.body[1:-1]).fn(g.name)
            except rx.Lost:
                f = src.fn(g.name)
        else:
            f = src.fn(g.name, g.inside)
        f.vis = "pub "
        if g.sig:
            g.sig(f)
        f.sig_rewrite("Self::Output", VALUE_OF.get(g.impl, "Value"), must=False)
        if g.id in verify:
            f.attrs = "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"
            f.rewrite("expr::$f", "$f", "path", must=False)
            f.rewrite("template::$f", "$f", "path", must=False)
            if g.body:
                g.body(f)
            fns.append(f)
        else:
            f.attrs = "#[verifier::external_body]\n"
            f.body = "{ unimplemented!() }"
        f.spec(g.contract, g.ret)
        if g.rename:
            f.rename = g.rename
        if g.id not in verify:
            saved, rx.CANARY = rx.CANARY, False
            try:
                txt = f.render()
            finally:
                rx.CANARY = saved
        else:
            txt = f.render()
        out.append(f"{g.impl} {{\n{g.extra}{txt}}}\n" if g.impl else txt)
    return out, fns


VALUE_OF = {"impl XEval for Vec<Expression>": "Vec<Value>", "impl Object<ObjectKey, Expression>": "Map<String, Value>",
            "impl ObjectKey": "String", "impl Template": "String"}
I = "crates/hcl-rs/src/eval/impls.rs"
M = "crates/hcl-rs/src/eval/mod.rs"
X = "crates/hcl-rs/src/eval/expr.rs"
T = "crates/hcl-rs/src/eval/template.rs"
U = "crates/hcl-rs/src/eval/func.rs"
V = "crates/hcl-rs/src/value/mod.rs"
TM = "crates/hcl-rs/src/template/mod.rs"
PT = "crates/hcl-primitives/src/template.rs"
CTX = "impl<'a> Context<'a>"
ENV = "ctx.env()"


def operators(f):
    libchain.inline_closures(f)
    f.rewrite("Number(-$n)", "Number($n.x_neg())", "operator of Number to its contract", must=False)
    f.rewrite("Bool($a == $b)", "Bool($a.x_eq(&$b))", "operator of Value to its contract", must=False)
    f.rewrite("Bool($a != $b)", "Bool($a.x_ne(&$b))", "operator of Value to its contract", must=False)
    for o, n in (("<=", "x_le"), (">=", "x_ge"), ("<", "x_lt"), (">", "x_gt")):
        f.rewrite(f"Bool($a {o} $b)", f"Bool($a.{n}(&$b))", "operator of Number to its contract", must=False)


# C09
reg("unary", "C09", I, "impl Evaluate for UnaryOp", "evaluate", "impl UnaryOp", f"ensures okv(r) == ev_unary(*self, {ENV})", body=operators)
reg("binary", "C09", I, "impl Evaluate for BinaryOp", "evaluate", "impl BinaryOp", f"ensures okv(r) == ev_binary(*self, {ENV})", body=operators)
reg("operation", "C09", I, "impl Evaluate for Operation", "evaluate", "impl Operation", f"ensures okv(r) == ev_op(*self, {ENV})")

# C10
HAS = "{0}.dom().contains(name@) ==> r == Some(&{0}[name@]), !{0}.dom().contains(name@) ==> r is None"
LOOK = "{0}.dom().contains(name@) ==> r == Ok::<&{1}, Error>(&{0}[name@]), !{0}.dom().contains(name@) ==> r is Err"


def gen(name, ty):
    return lambda f: None


def chained(*res, **kw):
    def go(f):
        libchain.chains(f, **kw)
        libchain.for_loops(f, **kw)
        libchain.options(f, result=res)
    return go


reg("ctx_default", "C10", M, "impl Default for Context<'_>", "default", CTX, "ensures r.parent is None, r.env().vars =~= vstd::map::Map::empty(), r.env().funcs =~= vstd::map::Map::empty(), vars_of(r.vars) =~= vstd::map::Map::empty(), funcs_of(r.funcs) =~= vstd::map::Map::empty()")
reg("ctx_new", "C10", M, CTX, "new", CTX, "ensures r.parent is None, vars_of(r.vars) =~= vstd::map::Map::empty(), funcs_of(r.funcs) =~= vstd::map::Map::empty()")
reg("ctx_child", "C10", M, CTX, "child", CTX, "ensures r.env().vars =~= self.env().vars, r.env().funcs =~= self.env().funcs, r.env() =~= self.env(), vars_of(r.vars) =~= vstd::map::Map::empty(), funcs_of(r.funcs) =~= vstd::map::Map::empty()",
    )
reg("ctx_child_expr", "C10", M, CTX, "child_with_expr", CTX, "ensures r.env() == self.env()")
reg("ctx_declare_var", "C10", M, CTX, "declare_var", CTX, "ensures final(self).env() == old(self).env().bind(name@, value), final(self).parent == old(self).parent",
    sig=lambda f: f.sig_rewrite("<I, T>", "").sig_rewrite("name: I, value: T", "name: Identifier, value: Value").sig_rewrite("where I: Into<Identifier>, T: Into<Value>,", ""),
    body=lambda f: f.rewrite("$x.into()", "$x", "generic argument already converted", must=False).at("end", "proof { assert(final(self).env().vars =~= old(self).env().bind(name@, value).vars); }"))
reg("ctx_declare_func", "C10", M, CTX, "declare_func", CTX, "ensures final(self).env() == (Env { vars: old(self).env().vars, funcs: old(self).env().funcs.insert(name@, func) }), final(self).parent == old(self).parent",
    sig=lambda f: f.sig_rewrite("<I>", "").sig_rewrite("name: I", "name: FuncName").sig_rewrite("where I: Into<FuncName>,", ""),
    body=lambda f: f.rewrite("$x.into()", "$x", "generic argument already converted", must=False).at("end", "proof { assert(final(self).env().funcs =~= old(self).env().funcs.insert(name@, func)); }"))
reg("ctx_var", "C10", M, CTX, "var", CTX, "ensures " + HAS.format("self.env().vars"), body=chained())
reg("ctx_func", "C10", M, CTX, "func", CTX, "ensures " + HAS.format("self.env().funcs"), body=chained())
reg("ctx_lookup_var", "C10", M, CTX, "lookup_var", CTX, "ensures " + LOOK.format("self.env().vars", "Value"), body=chained())
reg("ctx_lookup_func", "C10", M, CTX, "lookup_func", CTX, "ensures " + LOOK.format("self.env().funcs", "FuncDef"), body=chained())


def dispatch(f):
    f.rewrite("Value::from($x.clone())", "x_literal($x)", "conversion of a literal to its contract", must=False)
    libchain.options(f, result=("map", "cloned"))
    f.at("start", "proof { texprs_mean(); }")


reg("expression", "C10", I, "impl Evaluate for Expression", "evaluate", "impl Expression", f"ensures okv(r) == ev(*self, {ENV})", body=dispatch)

# literal collections and object keys: the dispatcher's helpers
reg("vec", "C10", I, "impl<T> Evaluate for Vec<T>", "evaluate", "impl XEval for Vec<Expression>", "", sig=lambda f: setattr(f, "vis", ""),
    body=lambda f: (libchain.chains(f), f.loop(0, '''invariant x_i0 <= self@.len(), ev_all(*self, x_i0 as nat, ctx.env()) == Some(x_out0@)
decreases self@.len() - x_i0''', start="proof { if ev_all(*self, (x_i0 + 1) as nat, ctx.env()) is None { all_none(*self, (x_i0 + 1) as nat, self@.len(), ctx.env()); } }")),
    extra="open spec fn xe(&self, c: Env) -> Option<Vec<Value>> { all_vec(*self, c) }\n")
reg("object", "C10", I, "impl<K, V> Evaluate for Object<K, V>", "evaluate", "impl Object<ObjectKey, Expression>",
    "ensures okv(r) == (match ev_object(*self, self.entries@.len(), ctx.env()) { Some(s) => Some(mkm(s)), None => None })",
    body=lambda f: (f.rewrite("self.iter()", "self.entries.iter()", "the entries of an object", must=False),
                    libchain.chains(f, out_new="Map::x_new()", out_push="let (x_k0, x_v0) = {x}; {o}.x_put(x_k0, x_v0);"),
                    f.rewrite("let (key, expr) = &$x;", "let key = &$x.0; let expr = &$x.1;", "tuple pattern on a reference", must=False),
                    f.rewrite("let (key, expr) = &self.entries[$i];", "let key = &self.entries[$i].0; let expr = &self.entries[$i].1;", "tuple pattern on a reference", must=False),
                    f.loop(0, '''invariant x_i0 <= self.entries@.len(), ev_object(*self, x_i0 as nat, ctx.env()) == Some(ents(x_out0))
decreases self.entries@.len() - x_i0''', start="proof { if ev_object(*self, (x_i0 + 1) as nat, ctx.env()) is None { entries_none(*self, (x_i0 + 1) as nat, self.entries@.len(), ctx.env()); } }")))


def keys(f):
    f.rewrite("value.to_string()", "x_key_text(value)", "Display of a boolean or number to its contract", must=False)
    f.rewrite("ident.to_string()", "x_objkey_text(ident)", "Display of an object key to its contract", must=False)
    libchain.options(f)


reg("object_key", "C10", I, "impl Evaluate for ObjectKey", "evaluate", "impl ObjectKey",
    "ensures match okv(r) { Some(s) => ev_key(*self, ctx.env()) == Some(s@), None => ev_key(*self, ctx.env()) is None }", body=keys)
reg("evaluate_object_key", "C10", X, None, "evaluate_object_key", None,
    '''ensures match okv(r) { Some(s) => ev(*expr, ctx.env()) is Some && key_text(ev(*expr, ctx.env())->Some_0) == Some(s@),
    None => ev(*expr, ctx.env()) is None || key_text(ev(*expr, ctx.env())->Some_0) is None }''', body=keys)
reg("evaluate_bool", "C13", X, None, "evaluate_bool", None, "ensures okv(r) == as_bool(ev(*expr, ctx.env()))", body=chained())
reg("conditional", "C13", I, "impl Evaluate for Conditional", "evaluate", "impl Conditional", "ensures okv(r) == ev_cond(*self, ctx.env())", body=chained())
reg("traversal", "C12", I, "impl Evaluate for Traversal", "evaluate", "impl Traversal", "ensures okv(r) == ev_trav(*self, ctx.env())",
    body=lambda f: f.rewrite("self.operators.iter().collect()", "x_refs(&self.operators)", "std to its contract", must=False))
DQ = '''proof { }'''


def traversal_body(f):
    f.rewrite("std::mem::take(&mut $x)", "x_take(&mut $x)", "std to its contract", must=False)
    f.rewrite("*$i as usize", "(*$i) as usize", "", must=False)
    f.rewrite("evaluate_object_value($v, $n, $c)", "evaluate_object_value($v, x_text_of($n), $c)", "deref to str", must=False)
    f.at("start", "let ghost x_all = trav(value, deq(operators@), ctx.env()); proof { deq_facts(); }")
    f.loop(0, "invariant trav(value, deq(operators@), ctx.env()) == x_all\nensures x_all == Some(value)",
           start="let ghost x_rest = operators@;\nlet ghost x_s0 = seq![*operator] + deq(x_rest); proof { deq_facts(); assert(x_s0.drop_first() =~= deq(x_rest)); assert(x_all == trav(value, x_s0, ctx.env())); }")
    f.loop(1, """invariant deq(x_rest) =~= deq(remaining@) + deq(operators@), attrs(deq(x_rest)) == remaining@.len() + attrs(deq(operators@))
ensures deq(x_rest) =~= deq(remaining@) + deq(operators@), attrs(deq(operators@)) == 0, attrs(deq(x_rest)) == remaining@.len()""",
           start="proof { deq_facts(); }",
           after="proof { deq_facts(); assert(x_s0.subrange(1, 1 + remaining@.len() as int) =~= deq(remaining@)); assert(x_s0.subrange(1 + remaining@.len() as int, x_s0.len() as int) =~= deq(operators@)); }")


def splat_body(f):
    libchain.chains(f)
    libchain.options(f, result=("map",))
    f.rewrite("operators.clone()", "x_clone_deque(&operators)", "std to its contract", must=False)
    f.rewrite("vec![]", "Vec::new()", "vec! to its contract", must=False)
    f.rewrite("vec![$x]", "x_vec1($x)", "vec! to its contract", must=False)
    f.loop(0, """invariant value is Array, x_it0.left().len() <= value->Array_0@.len(), x_it0.left() =~= rest_of(value->Array_0@, x_it0.left().len()),
    splat_all(value->Array_0@, (value->Array_0@.len() - x_it0.left().len()) as nat, deq(operators@), ctx.env()) == Some(x_out0@)
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""", start="""proof { let a = value->Array_0@; let k = (a.len() - x_it0.left().len() - 1) as nat;
    if trav(a[k as int], deq(operators@), ctx.env()) is None { splat_none(a, k, a.len(), deq(operators@), ctx.env()); } }""")


reg("evaluate_traversal", "C12", X, None, "evaluate_traversal", None, "ensures okv(r) == trav(value, deq(operators@), ctx.env())", body=traversal_body)
reg("evaluate_splat", "C12", X, None, "evaluate_splat", None, "ensures okv(r) == splat(value, deq(operators@), ctx.env())", body=splat_body)
for nm, sp, bd in (("evaluate_index_expr", "(match ev(*index_expr, ctx.env()) { Some(i) => index_by(value, i), None => None })",
                    lambda f: (f.rewrite("evaluate_object_value(value, &name, ctx)", "evaluate_object_value(value, x_deref(&name), ctx)", "deref to str", must=False))),
                   ("evaluate_array_value", "elem_at(value, index as int)", None),
                   ("evaluate_object_value", "field(value, key@)", None)):
    def b(f, bd=bd):
        f.rewrite("match value.as_array_mut() { Some($a) => $x_s None => $y_s }", "match value { Value::Array(mut $a) => $x_s value => $y_s }", "as_array_mut put in place", must=False)
        f.rewrite("match value.as_object_mut() { Some($a) => $x_s None => $y_s }", "match value { Value::Object(mut $a) => $x_s value => $y_s }", "as_object_mut put in place", must=False)
        if bd:
            bd(f)
        libchain.options(f)
    reg(nm, "C12", X, None, nm, None, f"ensures okv(r) == {sp}", body=b)

X_PRELUDE += r'''
pub trait XEval { fn evaluate(&self, ctx: &Context) -> (r: EvalResult<Vec<Value>>) ensures okv(r) == self.xe(ctx.env()); spec fn xe(&self, c: Env) -> Option<Vec<Value>>; }
pub proof fn all_none(v: Vec<Expression>, a: nat, b: nat, c: Env)
    requires a <= b <= v@.len(), ev_all(v, a, c) is None
    ensures ev_all(v, b, c) is None
    decreases b
{ if a < b { all_none(v, a, (b - 1) as nat, c); } }
pub proof fn entries_none(o: Object<ObjectKey, Expression>, a: nat, b: nat, c: Env)
    requires a <= b <= o.entries@.len(), ev_object(o, a, c) is None
    ensures ev_object(o, b, c) is None
    decreases b
{ if a < b { entries_none(o, a, (b - 1) as nat, c); } }
pub open spec fn all_vec(v: Vec<Expression>, c: Env) -> Option<Vec<Value>> { match ev_all(v, v@.len(), c) { Some(s) => Some(mkv(s)), None => None } }
pub trait XKeyText: Sized { spec fn kt(self) -> Seq<char>; fn x_kt(self) -> (r: String) ensures r@ == self.kt(); }
impl XKeyText for bool { open spec fn kt(self) -> Seq<char> { bool_text(self) } #[verifier::external_body] fn x_kt(self) -> (r: String) { unimplemented!() } }
impl XKeyText for Number { open spec fn kt(self) -> Seq<char> { num_text(self) } #[verifier::external_body] fn x_kt(self) -> (r: String) { unimplemented!() } }
pub fn x_key_text<T: XKeyText>(t: T) -> (r: String) ensures r@ == t.kt() { t.x_kt() }
#[verifier::external_body] pub fn x_objkey_text(k: &ObjectKey) -> (r: String) ensures *k is Identifier ==> r@ == k->Identifier_0@ { unimplemented!() }
pub fn x_vec1(v: Value) -> (r: Vec<Value>) ensures r@ == seq![v] { let mut r = Vec::new(); r.push(v); assert(r@ =~= seq![v]); r }
pub open spec fn deq(s: Seq<&TraversalOperator>) -> Seq<TraversalOperator> { s.map_values(|x: &TraversalOperator| *x) }
#[verifier::external_body] pub fn x_refs<'a>(v: &'a Vec<TraversalOperator>) -> (r: VecDeque<&'a TraversalOperator>) ensures deq(r@) == v@ { v.iter().collect() }
#[verifier::external_body] pub fn x_take<'a>(v: &mut VecDeque<&'a TraversalOperator>) -> (r: VecDeque<&'a TraversalOperator>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body] pub fn x_clone_deque<'a>(v: &VecDeque<&'a TraversalOperator>) -> (r: VecDeque<&'a TraversalOperator>) ensures r@ == v@ { v.clone() }
pub open spec fn rest_of<T>(s: Seq<T>, n: nat) -> Seq<T> { s.skip(s.len() - n) }
pub proof fn deq_facts()
    ensures forall|s: Seq<&TraversalOperator>| s.len() > 0 ==> deq(s) == seq![*s[0]] + deq(#[trigger] s.subrange(1, s.len() as int)) && deq(s).drop_first() == deq(s.subrange(1, s.len() as int)) && deq(s)[0] == *s[0],
        forall|s: Seq<&TraversalOperator>| #[trigger] deq(s).len() == s.len(),
{
    assert forall|s: Seq<&TraversalOperator>| s.len() > 0 implies deq(s) == seq![*s[0]] + deq(#[trigger] s.subrange(1, s.len() as int)) && deq(s).drop_first() == deq(s.subrange(1, s.len() as int)) && deq(s)[0] == *s[0] by {
        assert(deq(s) =~= seq![*s[0]] + deq(s.subrange(1, s.len() as int)));
        assert(deq(s).drop_first() =~= deq(s.subrange(1, s.len() as int)));
    }
}
pub proof fn rest_step<T>(a: Seq<T>, left: Seq<T>)
    requires left.len() > 0, left.len() <= a.len(), left =~= rest_of(a, left.len())
    ensures left[0] == a[a.len() - left.len()], left.drop_first() == rest_of(a, (left.len() - 1) as nat)
{
    assert(left.drop_first() =~= rest_of(a, (left.len() - 1) as nat));
}
pub proof fn splat_none(a: Seq<Value>, k: nat, n: nat, s: Seq<TraversalOperator>, c: Env)
    requires k < n <= a.len(), trav(a[k as int], s, c) is None
    ensures splat_all(a, n, s, c) is None
    decreases n
{ if k + 1 < n { splat_none(a, k, (n - 1) as nat, s, c); } }
'''

# C11
def call_body(f):
    f.rewrite("func.call(args).map_err($x_s)", "func.call(args).map_err($x_s)", "", must=False)
    libchain.for_loops(f)
    libchain.options(f, result=("map",))
    f.rewrite("args.extend($x_s);", "x_extend(&mut args, $x_s);", "std to its contract", must=False)
    f.at("start", "proof { assert forall|k: ErrorKind| #[trigger] into_kind::<ErrorKind>(k) == k by { into_kind_id(k); } }")
    f.loop(0, """invariant x_i0 <= self.args@.len(), call_args(*self, x_i0 as nat, ctx.env()) == Some(args@)
decreases self.args@.len() - x_i0""", start="""proof { if call_args(*self, (x_i0 + 1) as nat, ctx.env()) is None { args_none(*self, (x_i0 + 1) as nat, self.args@.len(), ctx.env()); } }""")


reg("func_call", "C11", I, "impl Evaluate for FuncCall", "evaluate", "impl FuncCall", """ensures okv(r) == ev_call(*self, ctx.env()),
    // an error of the call itself names the function
    ctx.env().funcs.dom().contains(self.name@) && call_args(*self, self.args@.len(), ctx.env()) is Some && r is Err
        ==> kind_of(r->Err_0) is FuncCall && kind_of(r->Err_0)->FuncCall_0 == self.name""", body=call_body)
reg("evaluate_array", "C11", X, None, "evaluate_array", None, "ensures okv(r) == (match ev(*expr, ctx.env()) { Some(Value::Array(a)) => Some(a), _ => None })", body=chained())


def sat_body(f):
    f.rewrite("$x.is_empty()", "($x.len() == 0)", "std's definition", must=False)
    libchain.chains(f)
    libchain.options(f)
    # one loop per branch: arrays, objects, alternatives
    f.loop(0, """invariant x_i0 <= array@.len(), x_r0, forall|i: int| 0 <= i < x_i0 ==> sat(**elem_type, #[trigger] array@[i])
ensures x_r0 == forall|i: int| 0 <= i < array@.len() ==> sat(**elem_type, #[trigger] array@[i])
decreases array@.len() - x_i0""")
    f.loop(1, """invariant x_i1 <= ents(*object).len(), x_r1, forall|i: int| 0 <= i < x_i1 ==> sat(**elem_type, (#[trigger] ents(*object)[i]).1)
ensures x_r1 == forall|i: int| 0 <= i < ents(*object).len() ==> sat(**elem_type, (#[trigger] ents(*object)[i]).1)
decreases ents(*object).len() - x_i1""")
    f.loop(2, """invariant x_i2 <= elem_types@.len(), !x_r2, forall|i: int| 0 <= i < x_i2 ==> !sat(#[trigger] elem_types@[i], *value)
ensures x_r2 == exists|i: int| 0 <= i < elem_types@.len() && sat(#[trigger] elem_types@[i], *value)
decreases elem_types@.len() - x_i2""")


reg("is_satisfied_by", "C11", U, "impl ParamType", "is_satisfied_by", "impl ParamType", "ensures r == sat(*self, *value)", body=sat_body)


def fcall_body(f):
    f.rewrite("format!($x_s)", "x_message()", "error texts are not specified", must=False)
    f.rewrite("args.split_at($n)", "x_split_at(&args, $n)", "std to its contract", must=False)
    f.rewrite("(self.func)($a)", "x_apply(self, $a)", "calling the function", must=False)
    libchain.for_loops(f)
    f.loop(0, """invariant x_i0 <= self.params@.len(), x_i0 <= pos_args@.len(), forall|i: int| 0 <= i < x_i0 ==> sat(self.params@[i], #[trigger] args@[i])
decreases self.params@.len() - x_i0""")
    f.loop(1, """invariant x_i1 <= var_args@.len(), forall|i: int| self.params@.len() <= i < self.params@.len() + x_i1 ==> sat(*var_param, #[trigger] args@[i])
decreases var_args@.len() - x_i1""", start="proof { assert(var_args@[x_i1 as int] == args@[self.params@.len() + x_i1]); }")


reg("func_def_call", "C11", U, "impl FuncDef", "call", "impl FuncDef", "ensures (match r { Ok(v) => Some(v), Err(_) => None::<Value> }) == call(*self, args@)", body=fcall_body)
reg("func_args_new", "C11", U, "impl FuncArgs", "new", "impl FuncArgs", "ensures r.values == values, r.pos_args_len == pos_args_len")
for nm, sp in (("as_array", "*self is Array ==> r == Some(&self->Array_0), !(*self is Array) ==> r is None"),
               ("as_object", "*self is Object ==> r == Some(&self->Object_0), !(*self is Object) ==> r is None"),
               ("as_bool", "*self is Bool ==> r == Some(self->Bool_0), !(*self is Bool) ==> r is None"),
               ("as_number", "*self is Number ==> r == Some(&self->Number_0), !(*self is Number) ==> r is None"),
               ("as_null", "r is Some == *self is Null"), ("as_str", "r is Some == *self is String"),
               ("is_array", "r == *self is Array"), ("is_object", "r == *self is Object"), ("is_boolean", "r == *self is Bool"), ("is_number", "r == *self is Number"),
               ("is_string", "r == *self is String"), ("is_null", "r == *self is Null")):
    reg("value_" + nm, "C11", V, "impl Value", nm, "impl Value", "ensures " + sp,
        body=lambda f: f.rewrite("Self::String($s) => Some($t)", "Self::String($s) => Some(x_deref($t))", "deref to str", must=False))
VALUE_FNS = {g.id for g in REGS if g.id.startswith("value_")}

X_PRELUDE += r'''
pub proof fn args_none(f: FuncCall, k: nat, n: nat, c: Env)
    requires k <= n <= f.args@.len(), call_args(f, k, c) is None
    ensures call_args(f, n, c) is None
    decreases n
{ if k < n { args_none(f, k, (n - 1) as nat, c); } }
#[verifier::external_body] pub fn x_split_at<'a>(v: &'a Vec<Value>, n: usize) -> (r: (&'a [Value], &'a [Value]))
    requires n <= v@.len() ensures r.0@ == v@.take(n as int), r.1@ == v@.skip(n as int) { v.split_at(n) }
// the function body runs only here
#[verifier::external_body] pub fn x_apply(d: &FuncDef, a: FuncArgs) -> (r: Result<Value, String>)
    requires conforms(*d, a.values@), a.pos_args_len == d.params@.len()
    ensures (match r { Ok(v) => Some(v), Err(_) => None::<Value> }) == apply(d.func, a.values@, a.pos_args_len as int) { unimplemented!() }
'''


# C13
def into_loop(f):
    f.rewrite("Value::from($x)", "($x).x_value()", "conversion to its contract", must=False)


def collection_body(f):
    into_loop(f)
    libchain.chains(f, plain=True)
    f.loop(0, """invariant x_it0.left().len() <= array@.len(), x_it0.left() =~= rest_of(array@, x_it0.left().len()), x_i0 == array@.len() - x_it0.left().len(), array@.len() <= usize::MAX,
    x_out0@ =~= entries(Value::Array(array))->Some_0.take(x_i0 as int)
ensures x_it0.left().len() == 0
decreases x_it0.left().len()""")
    f.loop(1, """invariant x_it1.left().len() <= object.xs().len(), x_it1.left() =~= rest_of(object.xs(), x_it1.left().len()),
    x_out1@ =~= entries(Value::Object(object))->Some_0.take(object.xs().len() - x_it1.left().len())
ensures x_it1.left().len() == 0
decreases x_it1.left().len()""")


FOR_EXTRA = """
    r is Ok ==> *r->Ok_0.ctx == *ctx && opt(r->Ok_0.key_var) == {f}.key_var && *r->Ok_0.value_var == {f}.value_var && opt(r->Ok_0.cond_expr) == {cond}"""
reg("evaluate_collection", "C13", X, None, "evaluate_collection", None,
    "ensures match r { Ok(s) => ev(*expr, ctx.env()) is Some && entries(ev(*expr, ctx.env())->Some_0) == Some(s@), Err(_) => ev(*expr, ctx.env()) is None || entries(ev(*expr, ctx.env())->Some_0) is None }",
    body=collection_body)
COLL = "match r {{ Ok(x) => ev({f}.collection_expr, ctx.env()) is Some && entries(ev({f}.collection_expr, ctx.env())->Some_0) == Some(x.collection@), Err(_) => ev({f}.collection_expr, ctx.env()) is None || entries(ev({f}.collection_expr, ctx.env())->Some_0) is None }},"
CI = "impl<'a> Collection<'a>"
NI = "impl<'a> IntoIter<'a>"


def as_refs(f):
    f.rewrite("$x.as_ref()", "x_as_ref(&$x)", "std to its contract", must=False)


reg("from_for_expr", "C13", X, CI, "from_for_expr", CI, "ensures " + COLL.format(f="for_expr") + FOR_EXTRA.format(f="for_expr", cond="for_expr.cond_expr"))
reg("from_for_directive", "C13", X, CI, "from_for_directive", CI, "ensures " + COLL.format(f="for_directive") + FOR_EXTRA.format(f="for_directive", cond="None::<Expression>"))
reg("collection_len", "C13", X, CI, "len", CI, "ensures r == self.collection@.len()")
reg("collection_into_iter", "C13", X, "impl<'a> IntoIterator for Collection<'a>", "into_iter", CI, "ensures r.iter.left() == self.collection@, r.ctx == self.ctx, r.key_var == self.key_var, r.value_var == self.value_var, r.cond_expr == self.cond_expr",
    sig=lambda f: f.sig_rewrite("Self::IntoIter", "IntoIter<'a>", must=False), rename="x_into_iter", body=lambda f: f.rewrite("$x.into_iter()", "$x.x_into_iter()", "std to its contract", must=False))
reg("iter_cond", "C13", X, NI, "cond", NI, "ensures okv(r) == keeps(opt(self.cond_expr), ctx.env())")
SAME = "final(self).ctx == old(self).ctx, final(self).key_var == old(self).key_var, final(self).value_var == old(self).value_var, final(self).cond_expr == old(self).cond_expr"
reg("iter_next_ctx", "C13", X, NI, "next_ctx", NI, f"""ensures {SAME},
    r is None == (old(self).iter.left().len() == 0), r is None ==> final(self).iter.left() == old(self).iter.left(),
    r is Some ==> final(self).iter.left() == old(self).iter.left().drop_first() && r->Some_0.env() == old(self).here(old(self).iter.left()[0])""")


def next_body(f):
    f.at("start", "let ghost x_all = self.iter.left();")
    f.loop(0, """invariant self.ctx == old(self).ctx, self.key_var == old(self).key_var, self.value_var == old(self).value_var, self.cond_expr == old(self).cond_expr,
    self.iter.left().len() <= x_all.len(), self.iter.left() =~= rest_of(x_all, self.iter.left().len()),
    forall|j: int| 0 <= j < x_all.len() - self.iter.left().len() ==> keeps(opt(self.cond_expr), self.here(#[trigger] x_all[j])) == Some(false)""",
           start="proof { assert(x_all =~= old(self).iter.left()); if self.iter.left().len() > 0 { rest_step(x_all, self.iter.left()); } }")


reg("iter_next", "C13", X, "impl<'a> Iterator for IntoIter<'a>", "next", NI, f"""ensures {SAME},
    final(self).iter.left().len() <= old(self).iter.left().len(), final(self).iter.left() =~= rest_of(old(self).iter.left(), final(self).iter.left().len()),
    ({{ let a = old(self).iter.left(); let k = a.len() - final(self).iter.left().len() - (if r is None {{ 0int }} else {{ 1int }});
        &&& 0 <= k <= a.len()
        &&& skips(opt(old(self).cond_expr), opt(old(self).key_var), *old(self).value_var, a, k as nat, old(self).ctx.env())
        &&& match r {{
            None => k == a.len(),
            Some(Ok(c)) => k < a.len() && c.env() == old(self).here(a[k]) && keeps(opt(old(self).cond_expr), c.env()) == Some(true),
            Some(Err(_)) => k < a.len() && keeps(opt(old(self).cond_expr), old(self).here(a[k])) is None,
        }}
    }})""", sig=lambda f: f.sig_rewrite("Self::Item", "EvalResult<Context<'a>>", must=False), body=next_body)


def for_body(f):
    f.rewrite("$r.entry($k).or_insert_with(|| $d_s).as_array_mut().unwrap().push($v);", "$r.x_group_push($k, $d_s, $v);", "entry API to its contract", must=False)
    f.rewrite("match $r.entry($k) { Entry::Occupied(entry) => $a Entry::Vacant(entry) => $b }",
              "{ let x_key = $k; if $r.x_contains(&x_key) $a else $b }", "entry API to its contract", must=False)
    f.rewrite("entry.key().clone()", "x_key", "entry API to its contract", must=False)
    f.rewrite("entry.insert($v)", "result.x_put(x_key, $v)", "entry API to its contract", must=False)
    libchain.for_loops(f)
    libchain.chains(f, first=1)
    f.at("hide", "hide(for_list); hide(for_object); hide(bound); hide(ev); hide(keeps); hide(key_text); hide(skips);").at("start", "proof { for_means(*self, ctx.env()); }")
    INV = "x_it{0}.ctx.env() == ctx.env(), opt(x_it{0}.key_var) == self.key_var, *x_it{0}.value_var == self.value_var, opt(x_it{0}.cond_expr) == self.cond_expr, x_it{0}.iter.left().len() <= es{0}.len(), x_it{0}.iter.left() =~= rest_of(es{0}, x_it{0}.iter.left().len()), "
    START = "proof {{ let k = (es{0}.len() - x_it{0}.iter.left().len() - 1) as nat; assert(rest_of(es{0}, (es{0}.len() - k) as nat)[0] == es{0}[k as int]); step(*self, es{0}, k, ctx.env()); if self.grouping && for_object(*self, es{0}, k, ctx.env()) is Some {{ object_arrays(*self, es{0}, k, ctx.env()); }} }}"
    for k in (0, 1):
        f.before_loop(k, f"let ghost es{k} = x_it{k}.iter.left();\nproof {{ steps(*self, es{k}, ctx.env()); step0(*self, es{k}, ctx.env()); }}")
    f.loop(0, "invariant " + INV.format(0) + """self.key_expr == Some(*key_expr), for_object(*self, es0, (es0.len() - x_it0.iter.left().len()) as nat, ctx.env()) == Some(ents(result)),
ensures for_object(*self, es0, es0.len(), ctx.env()) == Some(ents(result))""", start=START.format(0))
    f.loop(1, "invariant " + INV.format(1) + """for_list(*self, es1, (es1.len() - x_it1.iter.left().len()) as nat, ctx.env()) == Some(x_out1@),
ensures for_list(*self, es1, es1.len(), ctx.env()) == Some(x_out1@)""", start=START.format(1))


reg("for_expr", "C13", I, "impl Evaluate for ForExpr", "evaluate", "impl ForExpr", "ensures okv(r) == ev_for(*self, ctx.env())", body=for_body)

X_PRELUDE += r"""
pub open spec fn opt<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
#[verifier::external_body] pub fn x_as_ref<'a, T>(o: &'a Option<T>) -> (r: Option<&'a T>) ensures opt(r) == *o { o.as_ref() }
#[verifier::external_body] pub proof fn into_kind_all() ensures forall|k: ErrorKind| #[trigger] into_kind::<ErrorKind>(k) == k {}
impl<'a> IntoIter<'a> {
    // the context of one element
    pub open spec fn here(&self, e: (Value, Value)) -> Env { bound(opt(self.key_var), *self.value_var, e, self.ctx.env()) }
}
// the condition is false for the first n elements
pub open spec fn skips(cond: Option<Expression>, kv: Option<Identifier>, vv: Identifier, s: Seq<(Value, Value)>, n: nat, c: Env) -> bool {
    forall|j: int| 0 <= j < n && j < s.len() ==> keeps(cond, bound(kv, vv, #[trigger] s[j], c)) == Some(false)
}
pub open spec fn skips_at(f: ForExpr, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env) -> bool { skips(f.cond_expr, f.key_var, f.value_var, rest_of(es, (es.len() - a) as nat), (b - a) as nat, c) }
pub proof fn for_means(f: ForExpr, c: Env)
    ensures ev_for(f, c) == (match ev(f.collection_expr, c) {
        None => None,
        Some(v) => match entries(v) { None => None, Some(es) => if f.key_expr is Some {
            match for_object(f, es, es.len(), c) { Some(s) => Some(Value::Object(mkm(s))), None => None }
        } else {
            match for_list(f, es, es.len(), c) { Some(s) => Some(Value::Array(mkv(s))), None => None }
        } } })
{}
pub open spec fn here(f: ForExpr, e: (Value, Value), c: Env) -> Env { bound(f.key_var, f.value_var, e, c) }
// skipped elements leave the result as it is; an element that fails makes the whole fail
pub proof fn list_skip(f: ForExpr, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env)
    requires a <= b <= es.len(), skips_at(f, es, a, b, c)
    ensures for_list(f, es, b, c) == for_list(f, es, a, c)
    decreases b
{ if a < b { list_skip(f, es, a, (b - 1) as nat, c); assert(rest_of(es, (es.len() - a) as nat)[b - 1 - a] == es[b - 1]); assert(keeps(f.cond_expr, here(f, es[b - 1], c)) == Some(false)); } }
pub proof fn list_none(f: ForExpr, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env)
    requires a <= b <= es.len(), for_list(f, es, a, c) is None
    ensures for_list(f, es, b, c) is None
    decreases b
{ if a < b { list_none(f, es, a, (b - 1) as nat, c); } }
pub proof fn object_skip(f: ForExpr, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env)
    requires a <= b <= es.len(), skips_at(f, es, a, b, c)
    ensures for_object(f, es, b, c) == for_object(f, es, a, c)
    decreases b
{ if a < b { object_skip(f, es, a, (b - 1) as nat, c); assert(rest_of(es, (es.len() - a) as nat)[b - 1 - a] == es[b - 1]); assert(keeps(f.cond_expr, here(f, es[b - 1], c)) == Some(false)); } }
pub proof fn object_none(f: ForExpr, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env)
    requires a <= b <= es.len(), for_object(f, es, a, c) is None
    ensures for_object(f, es, b, c) is None
    decreases b
{ if a < b { object_none(f, es, a, (b - 1) as nat, c); } }
pub proof fn steps(f: ForExpr, es: Seq<(Value, Value)>, c: Env)
    ensures
        forall|a: nat, b: nat| a <= b <= es.len() && skips_at(f, es, a, b, c) ==> #[trigger] for_list(f, es, a, c) == #[trigger] for_list(f, es, b, c),
        forall|a: nat, b: nat| a <= b <= es.len() && skips_at(f, es, a, b, c) ==> #[trigger] for_object(f, es, a, c) == #[trigger] for_object(f, es, b, c),
        forall|a: nat| a <= es.len() && #[trigger] for_list(f, es, a, c) is None ==> for_list(f, es, es.len(), c) is None,
        forall|a: nat| a <= es.len() && #[trigger] for_object(f, es, a, c) is None ==> for_object(f, es, es.len(), c) is None,
{
    assert forall|a: nat, b: nat| a <= b <= es.len() && skips_at(f, es, a, b, c) implies #[trigger] for_list(f, es, a, c) == #[trigger] for_list(f, es, b, c) by { list_skip(f, es, a, b, c); }
    assert forall|a: nat, b: nat| a <= b <= es.len() && skips_at(f, es, a, b, c) implies #[trigger] for_object(f, es, a, c) == #[trigger] for_object(f, es, b, c) by { object_skip(f, es, a, b, c); }
    assert forall|a: nat| a <= es.len() && #[trigger] for_list(f, es, a, c) is None implies for_list(f, es, es.len(), c) is None by { list_none(f, es, a, es.len(), c); }
    assert forall|a: nat| a <= es.len() && #[trigger] for_object(f, es, a, c) is None implies for_object(f, es, es.len(), c) is None by { object_none(f, es, a, es.len(), c); }
}
// the definitions, unfolded once
pub proof fn step(f: ForExpr, es: Seq<(Value, Value)>, k: nat, c: Env)
    requires k < es.len()
    ensures
        for_list(f, es, k + 1, c) == (match (for_list(f, es, k, c), keeps(f.cond_expr, here(f, es[k as int], c))) {
            (Some(s), Some(true)) => match ev(f.value_expr, here(f, es[k as int], c)) { Some(x) => Some(s.push(x)), None => None },
            (Some(s), Some(false)) => Some(s),
            _ => None,
        }),
        for_object(f, es, k + 1, c) == (match (for_object(f, es, k, c), keeps(f.cond_expr, here(f, es[k as int], c))) {
            (Some(s), Some(true)) => match (f.key_expr, ev(f.value_expr, here(f, es[k as int], c))) {
                (Some(ke), Some(x)) => match ev(ke, here(f, es[k as int], c)) {
                    Some(kv) => match key_text(kv) {
                        Some(k) => if f.grouping { Some(group(s, k, x)) } else if key_in(s, k) { None } else { Some(s.push((k, x))) },
                        None => None,
                    },
                    None => None,
                },
                _ => None,
            },
            (Some(s), Some(false)) => Some(s),
            _ => None,
        }),
{}
pub proof fn step0(f: ForExpr, es: Seq<(Value, Value)>, c: Env)
    ensures for_list(f, es, 0, c) == Some(Seq::<Value>::empty()), for_object(f, es, 0, c) == Some(Seq::<(Seq<char>, Value)>::empty())
{}
pub proof fn object_arrays(f: ForExpr, es: Seq<(Value, Value)>, n: nat, c: Env)
    requires n <= es.len(), f.grouping, for_object(f, es, n, c) is Some
    ensures forall|i: int| 0 <= i < for_object(f, es, n, c)->Some_0.len() ==> (#[trigger] for_object(f, es, n, c)->Some_0[i]).1 is Array
    decreases n
{ if n > 0 { object_arrays(f, es, (n - 1) as nat, c); } }
"""


# C14
def unnest(f):
    """drop the functions nested in f (they are extracted on their own)"""
    while True:
        toks = rx.lex(f.body)
        i = next((i for i, t in enumerate(toks) if t.k == "id" and t.s == "fn" and i > 0), None)
        if i is None:
            return f
        j = i
        while toks[j].s != "{":
            j = rx.match_close(toks, j) if toks[j].s in ("(", "[") else j
            j += 1
        f.body = f.body[:toks[i].a] + f.body[toks[rx.match_close(toks, j)].b:]


def texts(f):
    unnest(f)
    f.rewrite("$x.is_whitespace()", "x_is_space($x)", "char::is_whitespace is not specified", must=False)
    f.rewrite("$s.trim_start_matches($f)", "x_trim_start($s, |x_c: char| -> (x_b: bool) ensures x_b == blank(x_c) { $f(x_c) })", "std to its contract", must=False)
    f.rewrite("$s.trim_end_matches($f)", "x_trim_end($s, |x_c: char| -> (x_b: bool) ensures x_b == blank(x_c) { $f(x_c) })", "std to its contract", must=False)
    f.rewrite("$s.strip_prefix($p)", "x_strip_prefix($s, $p)", "std to its contract", must=False)
    f.rewrite("$s.strip_suffix($p)", "x_strip_suffix($s, $p)", "std to its contract", must=False)
    libchain.options(f)
    f.rewrite("strip_literal(literal,", "strip_literal(x_deref(literal),", "deref to str", must=False)
    f.rewrite("other.to_string()", "other.x_text()", "Display of a value is not specified", must=False)
    f.rewrite("$r.push_str($x_s)", "x_push_str($r, $x_s)", "std to its contract", must=False)


def trims(f):
    texts(f)
    f.at("start", r"""proof { reveal_strlit("\r\n"); let x_p = "\r\n"@; assert(x_p.len() == 2 && x_p[0] == '\r' && x_p[1] == '\n'); assert('\n'.pat()[0] == '\n'); assert("\r\n".pat()[0] == '\r' && "\r\n".pat()[1] == '\n'); } """)


reg("is_space", "C14", T, "fn strip_literal", "is_space", None, "ensures r == blank(ch)", body=texts)
reg("trim_start", "C14", T, "fn strip_literal", "trim_start", None, "ensures r@ == strip_front(s@)", body=trims)
reg("trim_end", "C14", T, "fn strip_literal", "trim_end", None, "ensures r@ == strip_back(s@)", body=trims)
reg("strip_literal", "C14", T, None, "strip_literal", None, "ensures r@ == stripped(literal@, strips_next(prev_strip), strips_prev(next_strip))", body=texts)
reg("strip_from", "C14", PT, "impl From<(bool, bool)> for Strip", "from", "impl Strip", "ensures strips_prev(r) == x_p.0, strips_next(r) == x_p.1",
    sig=lambda f: f.sig_rewrite("(start, end): (bool, bool)", "x_p: (bool, bool)"), body=lambda f: f.at("start", "let (start, end) = x_p;"))
reg("strip_start", "C14", PT, "impl Strip", "strip_start", "impl Strip", "ensures r == strips_prev(self)")
reg("strip_end", "C14", PT, "impl Strip", "strip_end", "impl Strip", "ensures r == strips_next(self)")
SIDES = "ensures strips_prev(r) == strips_prev(left_strip({0})), strips_next(r) == strips_next(right_strip({0}))"
reg("directive_strip", "C14", TM, "impl Directive", "strip", "impl Directive", "ensures strips_prev(r) == strips_prev(left_of(*self)), strips_next(r) == strips_next(right_of(*self))")
reg("element_strip", "C14", TM, "impl Element", "strip", "impl Element", SIDES.format("*self"))
reg("elements", "C14", TM, "impl Template", "elements", "impl Template", "ensures r@ == self.elements@")
ADDS = "ensures match r {{ Ok(_) => {0} is Some && final(result)@ == old(result)@ + {0}->Some_0, Err(_) => {0} is None }}"


def tmpl_body(f):
    libchain.for_loops(f)
    f.at("hide", "hide(ev); hide(tmpl); hide(elem_text); hide(stripped);")
    f.loop(0, """invariant x_i0 <= elems@.len(), elems@ == template.elements@, len == elems@.len(),
    tmpl(*template, prev_strip, next_strip, x_i0 as nat, ctx.env()) is Some, result@ == old(result)@ + tmpl(*template, prev_strip, next_strip, x_i0 as nat, ctx.env())->Some_0
decreases elems@.len() - x_i0""", start="proof { tmpl_step(*template, prev_strip, next_strip, x_i0 as nat, ctx.env()); if tmpl(*template, prev_strip, next_strip, (x_i0 + 1) as nat, ctx.env()) is None { tmpl_none(*template, prev_strip, next_strip, (x_i0 + 1) as nat, elems@.len(), ctx.env()); } }")
    f.before_loop(0, "proof { tmpl_0(*template, prev_strip, next_strip, ctx.env()); assert(result@ =~= old(result)@ + Seq::<char>::empty()); }")


reg("evaluate_template", "C14", T, None, "evaluate_template", None, ADDS.format("tmpl(*template, prev_strip, next_strip, template.elements@.len(), ctx.env())"), body=tmpl_body)
reg("evaluate_element", "C14", T, None, "evaluate_element", None, ADDS.format("elem_text(*element, strips_next(prev_strip), strips_prev(next_strip), ctx.env())"), body=texts)
reg("evaluate_interpolation", "C14", T, None, "evaluate_interpolation", None, ADDS.format("shown(ev(interp.expr, ctx.env()))"), body=texts)
reg("evaluate_directive", "C14", T, None, "evaluate_directive", None, ADDS.format("dir_text(*dir, ctx.env())"))
reg("evaluate_if_directive", "C14", T, None, "evaluate_if_directive", None, ADDS.format("if_text(*dir, ctx.env())"),
    body=lambda f: f.at("end", ""))


def for_dir_body(f):
    libchain.for_loops(f)
    f.at("hide", "hide(ev); hide(tmpl); hide(for_text); hide(bound); hide(keeps); hide(skips); hide(dir_text);").at("start", "proof { dir_means(*dir, ctx.env()); }")
    f.before_loop(0, "let ghost es0 = x_it0.iter.left(); proof { text_0(*dir, es0, ctx.env()); assert(result@ =~= old(result)@ + Seq::<char>::empty()); all_kept(*dir, ctx.env()); }")
    f.loop(0, """invariant x_it0.ctx.env() == ctx.env(), opt(x_it0.key_var) == dir.key_var, *x_it0.value_var == dir.value_var, x_it0.cond_expr is None, x_it0.iter.left().len() <= es0.len(), x_it0.iter.left() =~= rest_of(es0, x_it0.iter.left().len()),
    for_text(*dir, es0, (es0.len() - x_it0.iter.left().len()) as nat, ctx.env()) is Some, result@ == old(result)@ + for_text(*dir, es0, (es0.len() - x_it0.iter.left().len()) as nat, ctx.env())->Some_0
ensures for_text(*dir, es0, es0.len(), ctx.env()) is Some, result@ == old(result)@ + for_text(*dir, es0, es0.len(), ctx.env())->Some_0""",
           start="""proof { let k = (es0.len() - x_it0.iter.left().len() - 1) as nat; assert(rest_of(es0, (es0.len() - k) as nat)[0] == es0[k as int]); text_step(*dir, es0, k, ctx.env());
    if for_text(*dir, es0, k + 1, ctx.env()) is None { text_none(*dir, es0, k + 1, es0.len(), ctx.env()); } }""")


reg("evaluate_for_directive", "C14", T, None, "evaluate_for_directive", None, ADDS.format("dir_text(Directive::For(*dir), ctx.env())"), body=for_dir_body)
reg("template_evaluate", "C14", I, "impl Evaluate for Template", "evaluate", "impl Template",
    "ensures match okv(r) { Some(s) => tmpl(*self, Strip::None, Strip::None, self.elements@.len(), ctx.env()) == Some(s@), None => tmpl(*self, Strip::None, Strip::None, self.elements@.len(), ctx.env()) is None }")
reg("template_expr", "C14", I, "impl Evaluate for TemplateExpr", "evaluate", "impl TemplateExpr", "ensures okv(r) == texpr(*self, ctx.env())",
    body=lambda f: libchain.options(f, result=("map",)))

X_PRELUDE += r"""
#[verifier::external_body] pub fn x_is_space(c: char) -> (r: bool) ensures r == space(c) { c.is_whitespace() }
// str::trim_{start,end}_matches with a function that decides `blank`
#[verifier::external_body] pub fn x_trim_start<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| #[trigger] f.requires((c,)), forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == blank(c) ensures r@ == skip_blank(s@) { s.trim_start_matches(f) }
#[verifier::external_body] pub fn x_trim_end<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| #[trigger] f.requires((c,)), forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == blank(c) ensures r@ == skip_blank_back(s@) { s.trim_end_matches(f) }
pub trait XPat: Sized { spec fn pat(self) -> Seq<char>; }
impl XPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl XPat for &str { open spec fn pat(self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn x_strip_prefix<'a, P: XPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures r is Some == (s@.len() >= p.pat().len() && forall|i: int| 0 <= i < p.pat().len() ==> s@[i] == #[trigger] p.pat()[i]), r is Some ==> r->Some_0@ == s@.skip(p.pat().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn x_strip_suffix<'a, P: XPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures r is Some == (s@.len() >= p.pat().len() && forall|i: int| 0 <= i < p.pat().len() ==> s@[s@.len() - p.pat().len() + i] == #[trigger] p.pat()[i]), r is Some ==> r->Some_0@ == s@.take(s@.len() - p.pat().len()) { unimplemented!() }
pub trait XStr { spec fn xt(&self) -> Seq<char>; }
impl XStr for str { open spec fn xt(&self) -> Seq<char> { self@ } }
impl XStr for String { open spec fn xt(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn x_push_str<S: XStr + ?Sized>(r: &mut String, s: &S) ensures final(r)@ == old(r)@ + s.xt() { unimplemented!() }
impl Value { #[verifier::external_body] pub fn x_text(&self) -> (r: String) ensures r@ == value_text(*self) { unimplemented!() } }
impl Template { #[verifier::external_body] pub fn from_expr(e: &TemplateExpr) -> (r: Result<Template, Error>) ensures okv(r) == parsed(*e) { unimplemented!() } }
pub open spec fn left_of(d: Directive) -> Strip { match d { Directive::If(i) => i.if_strip, Directive::For(f) => f.for_strip } }
pub open spec fn right_of(d: Directive) -> Strip { match d { Directive::If(i) => i.endif_strip, Directive::For(f) => f.endfor_strip } }
pub open spec fn here_d(f: ForDirective, e: (Value, Value), c: Env) -> Env { bound(f.key_var, f.value_var, e, c) }
pub open spec fn prev_of(t: Template, prev: Strip, k: int) -> bool { if k == 0 { strips_next(prev) } else { strips_next(right_strip(t.elements@[k - 1])) } }
pub open spec fn next_of(t: Template, next: Strip, k: int) -> bool { if k + 1 == t.elements@.len() { strips_prev(next) } else { strips_prev(left_strip(t.elements@[k + 1])) } }
pub proof fn tmpl_0(t: Template, p: Strip, q: Strip, c: Env) ensures tmpl(t, p, q, 0, c) == Some(Seq::<char>::empty()) {}
pub proof fn tmpl_step(t: Template, p: Strip, q: Strip, k: nat, c: Env)
    requires k < t.elements@.len()
    ensures tmpl(t, p, q, k + 1, c) == (match (tmpl(t, p, q, k, c), elem_text(t.elements@[k as int], prev_of(t, p, k as int), next_of(t, q, k as int), c)) { (Some(s), Some(x)) => Some(s + x), _ => None }),
        tmpl(t, p, q, k, c) is Some && tmpl(t, p, q, k + 1, c) is Some ==> forall|o: Seq<char>| #[trigger] (o + tmpl(t, p, q, k, c)->Some_0) + elem_text(t.elements@[k as int], prev_of(t, p, k as int), next_of(t, q, k as int), c)->Some_0 == o + tmpl(t, p, q, k + 1, c)->Some_0,
{
    if tmpl(t, p, q, k, c) is Some && tmpl(t, p, q, k + 1, c) is Some {
        assert forall|o: Seq<char>| #[trigger] (o + tmpl(t, p, q, k, c)->Some_0) + elem_text(t.elements@[k as int], prev_of(t, p, k as int), next_of(t, q, k as int), c)->Some_0 == o + tmpl(t, p, q, k + 1, c)->Some_0 by {
            assert((o + tmpl(t, p, q, k, c)->Some_0) + elem_text(t.elements@[k as int], prev_of(t, p, k as int), next_of(t, q, k as int), c)->Some_0 =~= o + tmpl(t, p, q, k + 1, c)->Some_0);
        }
    }
}
pub proof fn tmpl_none(t: Template, p: Strip, q: Strip, a: nat, b: nat, c: Env)
    requires a <= b <= t.elements@.len(), tmpl(t, p, q, a, c) is None
    ensures tmpl(t, p, q, b, c) is None
    decreases b
{ if a < b { tmpl_none(t, p, q, a, (b - 1) as nat, c); } }
pub proof fn dir_means(d: ForDirective, c: Env)
    ensures dir_text(Directive::For(d), c) == (match ev(d.collection_expr, c) { None => None, Some(v) => match entries(v) { None => None, Some(es) => for_text(d, es, es.len(), c) } })
{}
// a for directive has no condition: nothing is skipped
pub proof fn all_kept(f: ForDirective, c: Env)
    ensures forall|s: Seq<(Value, Value)>, n: nat| #[trigger] skips(None::<Expression>, f.key_var, f.value_var, s, n, c) ==> n == 0 || s.len() == 0,
        forall|x: Env| #[trigger] keeps(None::<Expression>, x) == Some(true),
{
    assert forall|s: Seq<(Value, Value)>, n: nat| #[trigger] skips(None::<Expression>, f.key_var, f.value_var, s, n, c) implies n == 0 || s.len() == 0 by {
        if n > 0 && s.len() > 0 { assert(keeps(None::<Expression>, bound(f.key_var, f.value_var, s[0], c)) == Some(false)); }
    }
}
pub proof fn text_0(f: ForDirective, es: Seq<(Value, Value)>, c: Env) ensures for_text(f, es, 0, c) == Some(Seq::<char>::empty()) {}
pub open spec fn body_text(f: ForDirective, e: (Value, Value), c: Env) -> Option<Seq<char>> { tmpl(f.template, f.for_strip, f.endfor_strip, f.template.elements@.len(), here_d(f, e, c)) }
pub proof fn text_step(f: ForDirective, es: Seq<(Value, Value)>, k: nat, c: Env)
    requires k < es.len()
    ensures for_text(f, es, k + 1, c) == (match (for_text(f, es, k, c), body_text(f, es[k as int], c)) { (Some(s), Some(x)) => Some(s + x), _ => None }),
        for_text(f, es, k + 1, c) is Some ==> forall|o: Seq<char>| #[trigger] (o + for_text(f, es, k, c)->Some_0) + body_text(f, es[k as int], c)->Some_0 == o + for_text(f, es, k + 1, c)->Some_0,
{
    if for_text(f, es, k + 1, c) is Some {
        assert forall|o: Seq<char>| #[trigger] (o + for_text(f, es, k, c)->Some_0) + body_text(f, es[k as int], c)->Some_0 == o + for_text(f, es, k + 1, c)->Some_0 by {
            assert((o + for_text(f, es, k, c)->Some_0) + body_text(f, es[k as int], c)->Some_0 =~= o + for_text(f, es, k + 1, c)->Some_0);
        }
    }
}
pub proof fn text_none(f: ForDirective, es: Seq<(Value, Value)>, a: nat, b: nat, c: Env)
    requires a <= b <= es.len(), for_text(f, es, a, c) is None
    ensures for_text(f, es, b, c) is None
    decreases b
{ if a < b { text_none(f, es, a, (b - 1) as nat, c); } }
"""
