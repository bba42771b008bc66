r"""C21: plain data as values, and values as plain data.

What is under contract: the serializer of values (crates/hcl-rs/src/value/ser.rs) with the serializer of map
keys, the deserializer of values (crates/hcl-rs/src/value/de.rs), and the parts of Number they go through.
`D` is serde's data model: what a type tells a serializer.  `val` says which value each piece of data has,
`kname` which text a map key has; `Tok` is what a deserializer shows a visitor.  `Datum` makes, for every piece
of data, the calls a Serialize implementation makes.  The lemmas at the end say that data of a shape is what
a visitor of that shape rebuilds from its value."""
import re
import mac
import rx
import libchain
from rx import File, Lost
from libeval import pub_fields
NAME = "serde_value"
USES = "use vstd::seq::*;\nuse vstd::string::*;\n"
P = "crates/hcl-rs/src/"
NUM = "crates/hcl-primitives/src/number.rs"
SPIN = "#[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause] "

PRELUDE = libchain.PRELUDE + r"""
pub type Str = Seq<char>;
#[verifier::external_body] #[derive(Debug)] pub struct Error { e: Box<u8> }
// serde's `custom`
#[verifier::external_body] pub fn x_error() -> Error { unimplemented!() }
// ---- numbers ---------------------------------------------------------------------------------------------
pub uninterp spec fn finite(f: f64) -> bool;
pub uninterp spec fn canon(f: f64) -> N;      // N::from_finite_f64: the same number (C01)
pub uninterp spec fn widen(f: f32) -> f64;
pub open spec fn inum(i: int) -> N { if i < 0 { N::NegInt(i as i64) } else { N::PosInt(i as u64) } }
pub open spec fn from_f(f: f64) -> Option<N> { if finite(f) { Some(canon(f)) } else { None } }
#[verifier::external_body] pub fn x_widen(f: f32) -> (r: f64) ensures r == widen(f) { f as f64 }
// a number is stored in one way: integers as integers, the rest as finite floats
pub open spec fn nvalid(n: N) -> bool { match n { N::PosInt(_) => true, N::NegInt(i) => i < 0, N::Float(f) => finite(f) && canon(f) == n } }
pub trait XFrom<T>: Sized { spec fn gives(v: T, r: Self) -> bool; fn x_from(v: T) -> (r: Self) ensures Self::gives(v, r); }
pub trait XInto<U>: Sized { spec fn gives_to(self, r: U) -> bool; fn x_into(self) -> (r: U) ensures self.gives_to(r); }
impl<T, U: XFrom<T>> XInto<U> for T { open spec fn gives_to(self, r: U) -> bool { U::gives(self, r) } fn x_into(self) -> (r: U) { U::x_from(self) } }
"""

PRELUDE2 = r"""
// ---- plain values ----------------------------------------------------------------------------------------
pub ghost enum J { Null, Bool(bool), Num(N), Str(Str), Arr(Seq<J>), Obj(Seq<(Str, J)>) }
pub struct XMap<K, V> { pub entries: Vec<(K, V)> }
pub open spec fn jv(v: Value) -> J decreases v {
    match v {
        Value::Null => J::Null, Value::Bool(b) => J::Bool(b), Value::Number(n) => J::Num(n.n), Value::String(s) => J::Str(s@),
        Value::Array(a) => J::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { jv(a@[i]) } else { J::Null })),
        Value::Object(o) => J::Obj(Seq::new(o.entries@.len(), |i: int| if 0 <= i < o.entries@.len() { (o.entries@[i].0@, jv(o.entries@[i].1)) } else { (Seq::empty(), J::Null) })),
    }
}
pub open spec fn jl(a: Seq<Value>) -> Seq<J> { Seq::new(a.len(), |i: int| jv(a[i])) }
pub open spec fn jm(o: Seq<(String, Value)>) -> Seq<(Str, J)> { Seq::new(o.len(), |i: int| (o[i].0@, jv(o[i].1))) }
pub broadcast proof fn jv_parts(v: Value) ensures v is Array ==> #[trigger] jv(v) == J::Arr(jl(v->Array_0@)), v is Object ==> jv(v) == J::Obj(jm(v->Object_0.entries@)) {
    if v is Array { assert(jv(v)->Arr_0 =~= jl(v->Array_0@)); }
    if v is Object { assert(jv(v)->Obj_0 =~= jm(v->Object_0.entries@)); }
}
// a list of entries with distinct keys, in order of insertion
pub open spec fn find<T>(m: Seq<(Str, T)>, k: Str) -> int decreases m.len() { if m.len() == 0 { 0 } else if m[0].0 == k { 0 } else { 1 + find(m.drop_first(), k) } }
pub open spec fn keyed<T>(m: Seq<(Str, T)>, k: Str) -> bool { find(m, k) < m.len() }
pub open spec fn put<T>(m: Seq<(Str, T)>, k: Str, v: T) -> Seq<(Str, T)> { if keyed(m, k) { m.update(find(m, k), (m[find(m, k)].0, v)) } else { m.push((k, v)) } }
pub open spec fn collect<T>(s: Seq<(Str, T)>) -> Seq<(Str, T)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { put(collect(s.drop_last()), s.last().0, s.last().1) } }
pub open spec fn distinct<T>(s: Seq<(Str, T)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].0 != s[j].0 }
pub broadcast proof fn find_range<T>(m: Seq<(Str, T)>, k: Str) ensures 0 <= #[trigger] find(m, k) <= m.len(), find(m, k) < m.len() ==> m[find(m, k)].0 == k, forall|i: int| 0 <= i < find(m, k) ==> m[i].0 != k decreases m.len() {
    if m.len() > 0 && m[0].0 != k {
        let t = m.drop_first(); find_range(t, k);
        assert forall|i: int| 0 <= i < find(m, k) implies m[i].0 != k by { if i > 0 { assert(m[i] == t[i - 1]); } }
    }
}
pub proof fn find_at<T>(m: Seq<(Str, T)>, i: int) requires distinct(m), 0 <= i < m.len() ensures find(m, m[i].0) == i { find_range(m, m[i].0); }
pub proof fn collect_id<T>(s: Seq<(Str, T)>) requires distinct(s) ensures collect(s) == s decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert(distinct(t)) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i].0 != t[j].0 by { assert(t[i] == s[i] && t[j] == s[j]); } }
        collect_id(t); find_range(t, s.last().0); if keyed(t, s.last().0) { assert(t[find(t, s.last().0)] == s[find(t, s.last().0)]); } assert(t.push((s.last().0, s.last().1)) =~= s); }
    else { assert(s =~= Seq::empty()); }
}
pub broadcast proof fn put_empty<T>(m: Seq<(Str, T)>, k: Str, v: T) requires m.len() == 0 ensures #[trigger] put(m, k, v) == seq![(k, v)] { assert(put(m, k, v) =~= seq![(k, v)]); }
// indexmap::IndexMap
impl XMap<String, Value> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.entries@ == Seq::<(String, Value)>::empty() { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self.entries@.len() { self.entries.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries@.len() == 0) { self.entries.len() == 0 }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.entries@ == Seq::<(String, Value)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures jm(final(self).entries@) == put(jm(old(self).entries@), k@, jv(v)) { unimplemented!() }
}
// `From` of lists and maps of values (json_spec, C22)
impl XFrom<Vec<Value>> for Value { open spec fn gives(v: Vec<Value>, r: Value) -> bool { jv(r) == J::Arr(jl(v@)) } #[verifier::external_body] fn x_from(v: Vec<Value>) -> (r: Value) { unimplemented!() } }
impl XFrom<XMap<String, Value>> for Value { open spec fn gives(v: XMap<String, Value>, r: Value) -> bool { jv(r) == J::Obj(jm(v.entries@)) } #[verifier::external_body] fn x_from(v: XMap<String, Value>) -> (r: Value) { unimplemented!() } }

// ---- serde's data model ----------------------------------------------------------------------------------
pub ghost enum D {
    Bool(bool), Int(int), F32(f32), F64(f64), Char(char), Str(Str), Bytes(Seq<u8>), Unit, None, Some(Box<D>), Newtype(Box<D>),
    UnitVariant(Str), NewtypeVariant(Str, Box<D>), Seq(Seq<D>), TupleVariant(Str, Seq<D>),
    Map(Seq<(D, D)>), Struct(Seq<(Str, D)>), StructVariant(Str, Seq<(Str, D)>),
}
pub open spec fn fnum(f: f64) -> J { match from_f(f) { Some(n) => J::Num(n), None => J::Null } }
pub open spec fn bytes(b: Seq<u8>) -> Seq<J> { Seq::new(b.len(), |i: int| J::Num(inum(b[i] as int))) }
// the value of a piece of data, None where values cannot hold it
pub open spec fn val(d: D) -> Option<J> decreases d {
    match d {
        D::Bool(b) => Some(J::Bool(b)),
        D::Int(i) => Some(J::Num(inum(i))),
        D::F32(f) => Some(fnum(widen(f))),
        D::F64(f) => Some(fnum(f)),
        D::Char(c) => Some(J::Str(seq![c])),
        D::Str(s) => Some(J::Str(s)),
        D::Bytes(b) => Some(J::Arr(bytes(b))),
        D::Unit | D::None => Some(J::Null),
        D::Some(d) => val(*d),
        D::Newtype(d) => val(*d),
        D::UnitVariant(s) => Some(J::Str(s)),
        D::NewtypeVariant(s, d) => match val(*d) { Some(j) => Some(J::Obj(seq![(s, j)])), None => None },
        D::Seq(v) => if vals_ok(v) { Some(J::Arr(vals(v))) } else { None },
        D::TupleVariant(s, v) => if vals_ok(v) { Some(J::Obj(seq![(s, J::Arr(vals(v)))])) } else { None },
        D::Map(m) => if pairs_ok(m) { Some(J::Obj(collect(pairs(m)))) } else { None },
        D::Struct(m) => if fields_ok(m) { Some(J::Obj(collect(fields(m)))) } else { None },
        D::StructVariant(s, m) => if fields_ok(m) { Some(J::Obj(seq![(s, J::Obj(collect(fields(m))))])) } else { None },
    }
}
pub open spec fn vals_ok(v: Seq<D>) -> bool decreases v { forall|i: int| 0 <= i < v.len() ==> val(#[trigger] v[i]) is Some }
pub open spec fn vals(v: Seq<D>) -> Seq<J> decreases v { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { val(v[i])->Some_0 } else { J::Null }) }
pub open spec fn pairs_ok(m: Seq<(D, D)>) -> bool decreases m { forall|i: int| 0 <= i < m.len() ==> kname((#[trigger] m[i]).0) is Some && val(m[i].1) is Some }
pub open spec fn pairs(m: Seq<(D, D)>) -> Seq<(Str, J)> decreases m { Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (kname(m[i].0)->Some_0, val(m[i].1)->Some_0) } else { (Seq::empty(), J::Null) }) }
pub open spec fn fields_ok(m: Seq<(Str, D)>) -> bool decreases m { forall|i: int| 0 <= i < m.len() ==> val((#[trigger] m[i]).1) is Some }
pub open spec fn fields(m: Seq<(Str, D)>) -> Seq<(Str, J)> decreases m { Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (m[i].0, val(m[i].1)->Some_0) } else { (Seq::empty(), J::Null) }) }
// the text of a map key, None where it is refused
pub open spec fn kname(d: D) -> Option<Str> decreases d {
    match d { D::Char(c) => Some(seq![c]), D::Str(s) => Some(s), D::UnitVariant(s) => Some(s), D::Some(d) => kname(*d), D::Newtype(d) => kname(*d), _ => None }
}
pub open spec fn gives(r: Result<Value, Error>, o: Option<J>) -> bool { (r is Ok) == (o is Some) && (r is Ok ==> jv(r->Ok_0) == o->Some_0) }
pub open spec fn names(r: Result<String, Error>, o: Option<Str>) -> bool { (r is Ok) == (o is Some) && (r is Ok ==> r->Ok_0@ == o->Some_0) }
// a Serialize implementation tells the serializer its data
pub trait Serialize {
    spec fn data(&self) -> D;
    fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) ensures gives(r, val(self.data()));
    fn serialize_s(&self, s: StringSerializer) -> (r: Result<String, Error>) ensures names(r, kname(self.data()));
}
impl Serialize for str {
    open spec fn data(&self) -> D { D::Str(self@) }
    fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) { s.serialize_str(self) }
    fn serialize_s(&self, s: StringSerializer) -> (r: Result<String, Error>) { s.serialize_str(self) }
}
pub trait Display { spec fn shown(&self) -> Str; fn x_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl Display for char { open spec fn shown(&self) -> Str { seq![*self] } #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
"""

DRIVER = r"""
// ---- every piece of data, told to the serializer ---------------------------------------------------------
pub enum Datum {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64), Char(char), Str(String), Shown(String), Bytes(Vec<u8>), Unit, UnitStruct, None, Some(Box<Datum>), Newtype(Box<Datum>),
    UnitVariant(String), NewtypeVariant(String, Box<Datum>), Seq(Vec<Datum>), Tuple(Vec<Datum>), TupleStruct(Vec<Datum>), TupleVariant(String, Vec<Datum>),
    Map(Vec<(Datum, Datum)>), Struct(Vec<(String, Datum)>), StructVariant(String, Vec<(String, Datum)>),
}
pub open spec fn dm(d: Datum) -> D decreases d {
    match d {
        Datum::Bool(b) => D::Bool(b),
        Datum::I8(i) => D::Int(i as int), Datum::I16(i) => D::Int(i as int), Datum::I32(i) => D::Int(i as int), Datum::I64(i) => D::Int(i as int),
        Datum::U8(i) => D::Int(i as int), Datum::U16(i) => D::Int(i as int), Datum::U32(i) => D::Int(i as int), Datum::U64(i) => D::Int(i as int),
        Datum::F32(f) => D::F32(f), Datum::F64(f) => D::F64(f), Datum::Char(c) => D::Char(c), Datum::Str(s) => D::Str(s@), Datum::Shown(s) => D::Str(s@), Datum::Bytes(b) => D::Bytes(b@),
        Datum::Unit | Datum::UnitStruct => D::Unit, Datum::None => D::None, Datum::Some(d) => D::Some(Box::new(dm(*d))), Datum::Newtype(d) => D::Newtype(Box::new(dm(*d))),
        Datum::UnitVariant(s) => D::UnitVariant(s@), Datum::NewtypeVariant(s, d) => D::NewtypeVariant(s@, Box::new(dm(*d))),
        Datum::Seq(v) => D::Seq(dl(v)), Datum::Tuple(v) => D::Seq(dl(v)), Datum::TupleStruct(v) => D::Seq(dl(v)), Datum::TupleVariant(s, v) => D::TupleVariant(s@, dl(v)),
        Datum::Map(m) => D::Map(Seq::new(m@.len(), |i: int| if 0 <= i < m@.len() { (dm(m@[i].0), dm(m@[i].1)) } else { (D::Unit, D::Unit) })),
        Datum::Struct(m) => D::Struct(df(m)), Datum::StructVariant(s, m) => D::StructVariant(s@, df(m)),
    }
}
pub open spec fn dl(v: Vec<Datum>) -> Seq<D> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { dm(v@[i]) } else { D::Unit }) }
pub open spec fn df(m: Vec<(String, Datum)>) -> Seq<(Str, D)> decreases m { Seq::new(m@.len(), |i: int| if 0 <= i < m@.len() { (m@[i].0@, dm(m@[i].1)) } else { (Seq::empty(), D::Unit) }) }
impl Display for String { open spec fn shown(&self) -> Str { self@ } #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
// the parts of a piece of data (induction: they are smaller)
pub struct Part { d: Datum }
#[verifier::external_body] pub fn part(d: &Datum) -> (r: &Part) ensures r.data() == dm(*d) { unimplemented!() }
impl Serialize for Part {
    uninterp spec fn data(&self) -> D;
    #[verifier::external_body] fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) { unimplemented!() }
    #[verifier::external_body] fn serialize_s(&self, s: StringSerializer) -> (r: Result<String, Error>) { unimplemented!() }
}
impl Serialize for Datum {
    open spec fn data(&self) -> D { dm(*self) }
    SPIN fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) {
        broadcast use {jv_parts, put_empty};
        match self {
            Datum::Bool(b) => s.serialize_bool(*b),
            Datum::I8(i) => s.serialize_i8(*i), Datum::I16(i) => s.serialize_i16(*i), Datum::I32(i) => s.serialize_i32(*i), Datum::I64(i) => s.serialize_i64(*i),
            Datum::U8(i) => s.serialize_u8(*i), Datum::U16(i) => s.serialize_u16(*i), Datum::U32(i) => s.serialize_u32(*i), Datum::U64(i) => s.serialize_u64(*i),
            Datum::F32(f) => s.serialize_f32(*f), Datum::F64(f) => s.serialize_f64(*f), Datum::Char(c) => s.serialize_char(*c), Datum::Str(t) => s.serialize_str(t.as_str()), Datum::Shown(t) => s.collect_str(t), Datum::Bytes(b) => s.serialize_bytes(b.as_slice()),
            Datum::Unit => s.serialize_unit(), Datum::UnitStruct => s.serialize_unit_struct("Name"), Datum::None => s.serialize_none(), Datum::Some(d) => s.serialize_some(part(d)), Datum::Newtype(d) => s.serialize_newtype_struct("Name", part(d)),
            Datum::UnitVariant(t) => s.serialize_unit_variant("Name", 0, t.as_str()), Datum::NewtypeVariant(t, d) => s.serialize_newtype_variant("Name", 0, t.as_str(), part(d)),
            Datum::Seq(v) => { let mut q = s.serialize_seq(Some(v.len()))?; ELEMS(serialize_element) q.end() }
            Datum::Tuple(v) => { let mut q = s.serialize_tuple(v.len())?; ELEMS(x_serialize_tuple_element) q.x_end_tuple() }
            Datum::TupleStruct(v) => { let mut q = s.serialize_tuple_struct("Name", v.len())?; ELEMS(x_serialize_tuple_field) q.x_end_tuple_struct() }
            Datum::TupleVariant(t, v) => { let mut q = s.serialize_tuple_variant("Name", 0, t.as_str(), v.len())?; ELEMS(serialize_field) q.end() }
            Datum::Map(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                let ghost ds = dm(*self)->Map_0; let mut i: usize = 0; proof { assert(!pairs_ok(ds) ==> val(dm(*self)) is None); assert forall|j: int| 0 <= j < ds.len() && (kname((#[trigger] ds[j]).0) is None || val(ds[j].1) is None) implies !pairs_ok(ds) by {} }
                while i < m.len() invariant 0 <= i <= m@.len(), ds == dm(*self)->Map_0, *self == Datum::Map(*m), !pairs_ok(ds) ==> val(dm(*self)) is None, forall|j: int| 0 <= j < ds.len() && (kname((#[trigger] ds[j]).0) is None || val(ds[j].1) is None) ==> !pairs_ok(ds), ds.len() == m@.len(), jm(q.map.entries@) == collect(pairs(ds).take(i as int)), forall|j: int| 0 <= j < i ==> kname((#[trigger] ds[j]).0) is Some && val(ds[j].1) is Some decreases m.len() - i {
                    proof { assert(ds[i as int] == (dm(m@[i as int].0), dm(m@[i as int].1))); assert(pairs(ds).take(i + 1).drop_last() =~= pairs(ds).take(i as int)); }
                    q.serialize_key(part(&m[i].0))?; q.serialize_value(part(&m[i].1))?; i += 1;
                }
                proof { assert(pairs(ds).take(i as int) =~= pairs(ds)); assert(pairs_ok(ds)); }
                q.end()
            }
            Datum::Struct(m) => { let mut q = s.serialize_struct("Name", m.len())?; FIELDS(x_serialize_struct_field) q.x_end_struct() }
            Datum::StructVariant(t, m) => { let mut q = s.serialize_struct_variant("Name", 0, t.as_str(), m.len())?; FIELDS(serialize_field) q.end() }
        }
    }
    SPIN fn serialize_s(&self, s: StringSerializer) -> (r: Result<String, Error>) {
        match self {
            Datum::Bool(b) => s.serialize_bool(*b),
            Datum::I8(i) => s.serialize_i8(*i), Datum::I16(i) => s.serialize_i16(*i), Datum::I32(i) => s.serialize_i32(*i), Datum::I64(i) => s.serialize_i64(*i),
            Datum::U8(i) => s.serialize_u8(*i), Datum::U16(i) => s.serialize_u16(*i), Datum::U32(i) => s.serialize_u32(*i), Datum::U64(i) => s.serialize_u64(*i),
            Datum::F32(f) => s.serialize_f32(*f), Datum::F64(f) => s.serialize_f64(*f), Datum::Char(c) => s.serialize_char(*c), Datum::Str(t) => s.serialize_str(t.as_str()), Datum::Shown(t) => s.collect_str(t), Datum::Bytes(b) => s.serialize_bytes(b.as_slice()),
            Datum::Unit => s.serialize_unit(), Datum::UnitStruct => s.serialize_unit_struct("Name"), Datum::None => s.serialize_none(), Datum::Some(d) => s.serialize_some(part(d)), Datum::Newtype(d) => s.serialize_newtype_struct("Name", part(d)),
            Datum::UnitVariant(t) => s.serialize_unit_variant("Name", 0, t.as_str()), Datum::NewtypeVariant(t, d) => s.serialize_newtype_variant("Name", 0, t.as_str(), part(d)),
            Datum::Seq(v) => refused(s.serialize_seq(Some(v.len()))), Datum::Tuple(v) => refused(s.serialize_tuple(v.len())), Datum::TupleStruct(v) => refused(s.serialize_tuple_struct("Name", v.len())), Datum::TupleVariant(t, v) => refused(s.serialize_tuple_variant("Name", 0, t.as_str(), v.len())),
            Datum::Map(m) => refused(s.serialize_map(Some(m.len()))), Datum::Struct(m) => refused(s.serialize_struct("Name", m.len())), Datum::StructVariant(t, m) => refused(s.serialize_struct_variant("Name", 0, t.as_str(), m.len())),
        }
    }
}
pub struct Impossible { }
fn refused(r: Result<Impossible, Error>) -> (q: Result<String, Error>) requires r is Err ensures q is Err { match r { Ok(_) => Err(x_error()), Err(e) => Err(e) } }
"""
DRIVER = re.sub(r"ELEMS\((\w+)\)", r"""let ghost ds = dl(*v); let mut i: usize = 0; proof { assert(!vals_ok(ds) ==> val(dm(*self)) is None); assert forall|j: int| 0 <= j < ds.len() && val(#[trigger] ds[j]) is None implies !vals_ok(ds) by {} }
                while i < v.len() invariant 0 <= i <= v@.len(), ds == dl(*v), !vals_ok(ds) ==> val(dm(*self)) is None, forall|j: int| 0 <= j < ds.len() && val(#[trigger] ds[j]) is None ==> !vals_ok(ds), KEEP jl(q.vec@) == vals(ds).take(i as int), forall|j: int| 0 <= j < i ==> val(#[trigger] ds[j]) is Some decreases v.len() - i {
                    proof { assert(ds[i as int] == dm(v@[i as int])); assert(vals(ds).take(i + 1) =~= vals(ds).take(i as int).push(val(ds[i as int])->Some_0)); }
                    q.\1(part(&v[i]))?; i += 1;
                }
                proof { assert(vals(ds).take(i as int) =~= vals(ds)); assert(vals_ok(ds)); }""", DRIVER)
DRIVER = re.sub(r"FIELDS\((\w+)\)", r"""let ghost ds = df(*m); let mut i: usize = 0; proof { assert(!fields_ok(ds) ==> val(dm(*self)) is None); assert forall|j: int| 0 <= j < ds.len() && val((#[trigger] ds[j]).1) is None implies !fields_ok(ds) by {} }
                while i < m.len() invariant 0 <= i <= m@.len(), ds == df(*m), !fields_ok(ds) ==> val(dm(*self)) is None, forall|j: int| 0 <= j < ds.len() && val((#[trigger] ds[j]).1) is None ==> !fields_ok(ds), KEEP jm(q.map.entries@) == collect(fields(ds).take(i as int)), forall|j: int| 0 <= j < i ==> val((#[trigger] ds[j]).1) is Some decreases m.len() - i {
                    proof { assert(ds[i as int] == (m@[i as int].0@, dm(m@[i as int].1))); assert(fields(ds).take(i + 1).drop_last() =~= fields(ds).take(i as int)); }
                    q.\1(m[i].0.as_str(), part(&m[i].1))?; i += 1;
                }
                proof { assert(fields(ds).take(i as int) =~= fields(ds)); assert(fields_ok(ds)); }""", DRIVER)
# the name of a variant stays
_parts = DRIVER.split("KEEP ")
DRIVER = "".join(p + ("" if i == len(_parts) - 1 else "q.name@ == t@, " if "Variant(t" in p[p.rindex("Datum::"):] else "") for i, p in enumerate(_parts)).replace("SPIN ", SPIN)

VISIT = r"""
// ---- what a deserializer shows a visitor -----------------------------------------------------------------
pub ghost enum Tok { Unit, None, Some(J), Newtype(J), Bool(bool), I64(i64), U64(u64), F64(f64), Str(Str), Seq(Seq<J>), Map(Seq<(J, J)>), Variant(Str, Option<J>), NoVariant }
// a visitor: `sees` says what it makes of what it is shown (None: an error)
pub trait Visitor: Sized {
    type Value;
    spec fn sees(self, t: Tok, r: Option<Self::Value>) -> bool;
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Unit, ok(r));
    fn visit_none(self) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::None, ok(r));
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Bool(v), ok(r));
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::I64(v), ok(r));
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::U64(v), ok(r));
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::F64(v), ok(r));
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Str(v@), ok(r));
    fn visit_string(self, v: String) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Str(v@), ok(r));
    fn visit_some(self, d: ValueDeserializer) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Some(jv(d.value)), ok(r));
    fn visit_newtype_struct(self, d: ValueDeserializer) -> (r: Result<Self::Value, Error>) ensures self.sees(Tok::Newtype(jv(d.value)), ok(r));
    fn visit_seq<A: SeqAccess>(self, a: A) -> (r: Result<Self::Value, Error>) ensures !a.bad() ==> self.sees(Tok::Seq(a.left()), ok(r));
    fn visit_map<A: MapAccess>(self, a: A) -> (r: Result<Self::Value, Error>) ensures !a.bad() ==> self.sees(Tok::Map(a.left()), ok(r));
    fn visit_enum<A: XEnum>(self, a: A) -> (r: Result<Self::Value, Error>) ensures self.sees(a.shows(), ok(r));
}
pub open spec fn ok<T>(r: Result<T, Error>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
// the elements and entries a visitor may ask for, read as values; `bad`: one of them cannot be read
pub trait SeqAccess: Sized {
    spec fn left(&self) -> Seq<J>; spec fn bad(&self) -> bool;
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_element(&mut self) -> (r: Result<Option<Value>, Error>) ensures final(self).bad() == old(self).bad(), r is Err ==> old(self).bad(),
        r is Ok ==> (r->Ok_0 is None) == (old(self).left().len() == 0), r is Ok && r->Ok_0 is None ==> final(self).left() == old(self).left(),
        r is Ok && r->Ok_0 is Some ==> jv(r->Ok_0->Some_0) == old(self).left()[0] && final(self).left() == old(self).left().drop_first();
}
pub trait MapAccess: Sized {
    spec fn left(&self) -> Seq<(J, J)>; spec fn bad(&self) -> bool;
    fn size_hint(&self) -> (r: Option<usize>);
    // (the keys are read as texts)
    fn next_entry(&mut self) -> (r: Result<Option<(String, Value)>, Error>) ensures final(self).bad() == old(self).bad(), r is Err ==> old(self).bad() || (old(self).left().len() > 0 && !(old(self).left()[0].0 is Str)),
        r is Ok ==> (r->Ok_0 is None) == (old(self).left().len() == 0), r is Ok && r->Ok_0 is None ==> final(self).left() == old(self).left(),
        r is Ok && r->Ok_0 is Some ==> J::Str(r->Ok_0->Some_0.0@) == old(self).left()[0].0 && jv(r->Ok_0->Some_0.1) == old(self).left()[0].1 && final(self).left() == old(self).left().drop_first();
}
// serde's SeqDeserializer and MapDeserializer over values
#[verifier::external_body] pub struct XSeqDe { e: Box<u8> }
impl XSeqDe { pub uninterp spec fn s_left(&self) -> Seq<J>; }
impl SeqAccess for XSeqDe { open spec fn left(&self) -> Seq<J> { self.s_left() } open spec fn bad(&self) -> bool { false } #[verifier::external_body] fn size_hint(&self) -> (r: Option<usize>) { unimplemented!() } #[verifier::external_body] fn next_element(&mut self) -> (r: Result<Option<Value>, Error>) { unimplemented!() } }
#[verifier::external_body] pub struct MapDeserializer { e: Box<u8> }
impl MapDeserializer { pub uninterp spec fn s_left(&self) -> Seq<(J, J)>; #[verifier::external_body] pub fn new(v: Vec<(Value, Value)>) -> (r: Self) ensures r.s_left() == jpairs(v@) { unimplemented!() } }
impl MapAccess for MapDeserializer { open spec fn left(&self) -> Seq<(J, J)> { self.s_left() } open spec fn bad(&self) -> bool { false } #[verifier::external_body] fn size_hint(&self) -> (r: Option<usize>) { unimplemented!() } #[verifier::external_body] fn next_entry(&mut self) -> (r: Result<Option<(String, Value)>, Error>) { unimplemented!() } }
pub open spec fn jpairs(v: Seq<(Value, Value)>) -> Seq<(J, J)> { Seq::new(v.len(), |i: int| (jv(v[i].0), jv(v[i].1))) }
// an enum, as a visitor is shown it: the name of the variant, and what it holds
pub trait XEnum: Sized { spec fn shows(self) -> Tok; }
// serde's StringDeserializer: a variant without content
pub struct StringDeserializer { pub s: String }
impl XEnum for StringDeserializer { open spec fn shows(self) -> Tok { Tok::Variant(self.s@, None) } }
pub trait XIntoDe { type De; spec fn de_ok(self, r: Self::De) -> bool; fn into_deserializer(self) -> (r: Self::De) ensures self.de_ok(r); }
impl XIntoDe for String { type De = StringDeserializer; open spec fn de_ok(self, r: StringDeserializer) -> bool { r.s == self } fn into_deserializer(self) -> (r: StringDeserializer) { StringDeserializer { s: self } } }
impl XIntoDe for Vec<Value> { type De = XSeqDe; open spec fn de_ok(self, r: XSeqDe) -> bool { r.s_left() == jl(self@) } #[verifier::external_body] fn into_deserializer(self) -> (r: XSeqDe) { unimplemented!() } }
// what a seed is given
pub trait XDe: Sized { spec fn holds(self) -> J; }
impl XDe for StringDeserializer { open spec fn holds(self) -> J { J::Str(self.s@) } }
impl XDe for ValueDeserializer { open spec fn holds(self) -> J { jv(self.value) } }
pub trait DeserializeSeed: Sized { type Value; spec fn grows(self, j: J, r: Option<Self::Value>) -> bool; fn deserialize<X: XDe>(self, d: X) -> (r: Result<Self::Value, Error>) ensures self.grows(d.holds(), ok(r)); }
// how a value is shown: as it is, as an option, as a newtype, as an enum
pub open spec fn any(j: J) -> Tok {
    match j { J::Null => Tok::Unit, J::Bool(b) => Tok::Bool(b), J::Num(N::PosInt(i)) => Tok::U64(i), J::Num(N::NegInt(i)) => Tok::I64(i), J::Num(N::Float(f)) => Tok::F64(f), J::Str(s) => Tok::Str(s), J::Arr(v) => Tok::Seq(v), J::Obj(m) => Tok::Map(strs(m)) }
}
pub open spec fn strs(m: Seq<(Str, J)>) -> Seq<(J, J)> { Seq::new(m.len(), |i: int| (J::Str(m[i].0), m[i].1)) }
pub open spec fn option(j: J) -> Tok { if j is Null { Tok::None } else { Tok::Some(j) } }
pub open spec fn enumeration(j: J) -> Option<Tok> { match j { J::Str(s) => Some(Tok::Variant(s, None)), J::Obj(m) => Some(first(m)), _ => None } }
pub open spec fn first(m: Seq<(Str, J)>) -> Tok { if m.len() == 0 { Tok::NoVariant } else { Tok::Variant(m[0].0, Some(m[0].1)) } }
impl XEnum for EnumAccess { open spec fn shows(self) -> Tok { first(jm(self.iter.left())) } }
// ---- the visitor of Value --------------------------------------------------------------------------------
pub struct ValueVisitor;
pub open spec fn whole(t: Tok) -> Option<J> {
    match t {
        Tok::Unit | Tok::None => Some(J::Null), Tok::Bool(b) => Some(J::Bool(b)), Tok::I64(i) => Some(J::Num(inum(i as int))), Tok::U64(i) => Some(J::Num(inum(i as int))), Tok::F64(f) => Some(fnum(f)), Tok::Str(s) => Some(J::Str(s)),
        Tok::Some(j) => Some(j), Tok::Seq(s) => Some(J::Arr(s)), Tok::Map(m) => if texts(m) { Some(J::Obj(collect(entries(m)))) } else { None }, _ => None,
    }
}
pub open spec fn texts(m: Seq<(J, J)>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Str }
pub open spec fn entries(m: Seq<(J, J)>) -> Seq<(Str, J)> { Seq::new(m.len(), |i: int| (m[i].0->Str_0, m[i].1)) }
// the numbers of a value are stored in the one way, and the keys of its objects differ
pub open spec fn wf(j: J) -> bool decreases j { match j { J::Num(n) => nvalid(n), J::Arr(v) => forall|i: int| 0 <= i < v.len() ==> wf(#[trigger] v[i]), J::Obj(m) => distinct(m) && forall|i: int| 0 <= i < m.len() ==> wf((#[trigger] m[i]).1), _ => true } }
"""

VALUE = r"""
impl Visitor for ValueVisitor {
    type Value = Value;
    open spec fn sees(self, t: Tok, r: Option<Value>) -> bool { let w = whole(t); match t { Tok::Some(j) => wf(j) ==> r is Some && jv(r->Some_0) == j, Tok::Newtype(_) | Tok::Variant(..) | Tok::NoVariant => true, _ => (r is Some) == (w is Some) && (r is Some ==> jv(r->Some_0) == w->Some_0) } }
    fn visit_unit(self) -> (r: Result<Value, Error>) { self.x_visit_unit() }
    fn visit_none(self) -> (r: Result<Value, Error>) { self.x_visit_none() }
    fn visit_bool(self, v: bool) -> (r: Result<Value, Error>) { self.x_visit_bool(v) }
    fn visit_i64(self, v: i64) -> (r: Result<Value, Error>) { self.x_visit_i64(v) }
    fn visit_u64(self, v: u64) -> (r: Result<Value, Error>) { self.x_visit_u64(v) }
    fn visit_f64(self, v: f64) -> (r: Result<Value, Error>) { self.x_visit_f64(v) }
    fn visit_str(self, v: &str) -> (r: Result<Value, Error>) { self.x_visit_str(v) }
    fn visit_string(self, v: String) -> (r: Result<Value, Error>) { self.x_visit_string(v) }
    fn visit_seq<A: SeqAccess>(self, a: A) -> (r: Result<Value, Error>) { self.x_visit_seq(a) }
    fn visit_map<A: MapAccess>(self, a: A) -> (r: Result<Value, Error>) { self.x_visit_map(a) }
    // the value inside an option (visit_some below), and what this visitor does not know
    #[verifier::external_body] fn visit_some(self, d: ValueDeserializer) -> (r: Result<Value, Error>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct(self, d: ValueDeserializer) -> (r: Result<Value, Error>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<A: XEnum>(self, a: A) -> (r: Result<Value, Error>) { unimplemented!() }
}
#[verifier::external_body] pub fn x_value_deserialize(d: ValueDeserializer) -> (r: Result<Value, Error>) ensures wf(jv(d.value)) ==> r is Ok && jv(r->Ok_0) == jv(d.value) { unimplemented!() }
// what is shown of a value is the value
pub proof fn whole_any(j: J) requires true ensures wf(j) ==> whole(any(j)) == Some(j) {
    if wf(j) && j is Obj { let m = j->Obj_0; collect_id(m); assert(entries(strs(m)) =~= m); assert(texts(strs(m))); }
}
// ---- the data of a value ---------------------------------------------------------------------------------
pub open spec fn dn(n: N) -> D { match n { N::PosInt(i) => D::Int(i as int), N::NegInt(i) => D::Int(i as int), N::Float(f) => D::F64(f) } }
pub open spec fn dv(j: J) -> D decreases j {
    match j { J::Null => D::Unit, J::Bool(b) => D::Bool(b), J::Num(n) => dn(n), J::Str(s) => D::Str(s), J::Arr(v) => D::Seq(dvs(v)), J::Obj(m) => D::Map(dms(m)) }
}
pub open spec fn dvs(v: Seq<J>) -> Seq<D> decreases v { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { dv(v[i]) } else { D::Unit }) }
pub open spec fn dms(m: Seq<(Str, J)>) -> Seq<(D, D)> decreases m { Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (D::Str(m[i].0), dv(m[i].1)) } else { (D::Unit, D::Unit) }) }
// how serde tells a serializer about numbers, lists and maps
impl Number { #[verifier::external_body] pub fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) ensures gives(r, val(dn(self.n))) { unimplemented!() } }
pub trait XTell { spec fn told(&self) -> D; fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) ensures gives(r, val(self.told())); }
impl XTell for Vec<Value> { open spec fn told(&self) -> D { D::Seq(dvs(jl(self@))) } #[verifier::external_body] fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) { unimplemented!() } }
impl XTell for XMap<String, Value> { open spec fn told(&self) -> D { D::Map(dms(jm(self.entries@))) } #[verifier::external_body] fn serialize_v(&self, s: ValueSerializer) -> (r: Result<Value, Error>) { unimplemented!() } }
pub proof fn if_value(v: Value) ensures v is Array ==> dv(jv(v)) == D::Seq(dvs(jl(v->Array_0@))), v is Object ==> dv(jv(v)) == D::Map(dms(jm(v->Object_0.entries@))) { jv_parts(v); }
"""

LEMMAS = r"""
// a value as a value is the value
pub proof fn value_value(j: J) requires wf(j) ensures val(dv(j)) == Some(j) decreases j {
    match j {
        J::Arr(v) => { let d = dvs(v); assert forall|i: int| 0 <= i < d.len() implies val(#[trigger] d[i]) == Some(v[i]) by { value_value(v[i]); } assert(vals_ok(d)); assert(vals(d) =~= v); }
        J::Obj(m) => { let d = dms(m); assert forall|i: int| 0 <= i < d.len() implies kname((#[trigger] d[i]).0) == Some(m[i].0) && val(d[i].1) == Some(m[i].1) by { value_value(m[i].1); } assert(pairs_ok(d)); assert(pairs(d) =~= m); collect_id(m); }
        _ => { }
    }
}
// ---- data of a shape, and what a visitor of that shape rebuilds -------------------------------------------
pub ghost enum Sh { Bool, Int(int, int), F64, Char, Str, Unit, Opt(Box<Sh>), Newtype(Box<Sh>), Seq(Box<Sh>), Tuple(Seq<Sh>), Map(Box<Sh>), Struct(Seq<(Str, Sh)>), Enum(Seq<(Str, Va)>) }
pub ghost enum Va { Unit, Newtype(Box<Sh>), Tuple(Seq<Sh>), Struct(Seq<(Str, Sh)>) }
pub uninterp spec fn int_f(i: int) -> f64;
pub open spec fn flt(n: N) -> f64 { match n { N::PosInt(i) => int_f(i as int), N::NegInt(i) => int_f(i as int), N::Float(f) => f } }
// (C01: every finite float but -0.0)
pub open spec fn kept(f: f64) -> bool { finite(f) && flt(canon(f)) == f && nvalid(canon(f)) }
pub open spec fn known(v: Seq<(Str, Va)>, n: Str) -> bool { 0 <= find(v, n) < v.len() }
pub open spec fn at(v: Seq<(Str, Va)>, n: Str) -> Va { v[find(v, n)].1 }
// data of a shape that values tell apart: a present option does not look absent
pub open spec fn fits(d: D, s: Sh) -> bool decreases d {
    match (d, s) {
        (D::Bool(_), Sh::Bool) => true, (D::Int(i), Sh::Int(lo, hi)) => lo <= i <= hi && i64::MIN <= i <= u64::MAX, (D::F64(f), Sh::F64) => kept(f), (D::Char(_), Sh::Char) => true, (D::Str(_), Sh::Str) => true, (D::Unit, Sh::Unit) => true,
        (D::None, Sh::Opt(_)) => true, (D::Some(d), Sh::Opt(s)) => fits(*d, *s) && val(*d) != Some(J::Null), (D::Newtype(d), Sh::Newtype(s)) => fits(*d, *s),
        (D::Seq(v), Sh::Seq(s)) => forall|i: int| 0 <= i < v.len() ==> fits(#[trigger] v[i], *s),
        (D::Seq(v), Sh::Tuple(t)) => fits_tuple(v, t),
        (D::Map(m), Sh::Map(s)) => keys_differ(m) && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Str && fits(m[i].1, *s),
        (D::Struct(m), Sh::Struct(f)) => fits_fields(m, f),
        (D::UnitVariant(n), Sh::Enum(v)) => known(v, n) && at(v, n) is Unit,
        (D::NewtypeVariant(n, d), Sh::Enum(v)) => known(v, n) && at(v, n) is Newtype && fits(*d, *at(v, n)->Newtype_0),
        (D::TupleVariant(n, d), Sh::Enum(v)) => known(v, n) && at(v, n) is Tuple && fits_tuple(d, at(v, n)->Tuple_0),
        (D::StructVariant(n, m), Sh::Enum(v)) => known(v, n) && at(v, n) is Struct && fits_fields(m, at(v, n)->Struct_0),
        _ => false,
    }
}
pub open spec fn keys_differ(m: Seq<(D, D)>) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 }
pub open spec fn fits_tuple(v: Seq<D>, t: Seq<Sh>) -> bool decreases v { v.len() == t.len() && forall|i: int| 0 <= i < v.len() ==> fits(#[trigger] v[i], t[i]) }
pub open spec fn fits_fields(m: Seq<(Str, D)>, f: Seq<(Str, Sh)>) -> bool decreases m { m.len() == f.len() && distinct(m) && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == f[i].0 && fits(m[i].1, f[i].1) }
pub open spec fn dec(s: Sh, j: J) -> Option<D> decreases s {
    match s {
        Sh::Bool => match any(j) { Tok::Bool(b) => Some(D::Bool(b)), _ => None },
        Sh::Int(lo, hi) => match any(j) { Tok::U64(i) => if lo <= i <= hi { Some(D::Int(i as int)) } else { None }, Tok::I64(i) => if lo <= i <= hi { Some(D::Int(i as int)) } else { None }, _ => None },
        Sh::F64 => match any(j) { Tok::F64(f) => Some(D::F64(f)), Tok::U64(i) => Some(D::F64(int_f(i as int))), Tok::I64(i) => Some(D::F64(int_f(i as int))), _ => None },
        Sh::Char => match any(j) { Tok::Str(t) => if t.len() == 1 { Some(D::Char(t[0])) } else { None }, _ => None },
        Sh::Str => match any(j) { Tok::Str(t) => Some(D::Str(t)), _ => None },
        Sh::Unit => match any(j) { Tok::Unit => Some(D::Unit), _ => None },
        Sh::Opt(s) => match option(j) { Tok::None => Some(D::None), Tok::Some(j) => match dec(*s, j) { Some(d) => Some(D::Some(Box::new(d))), None => None }, _ => None },
        Sh::Newtype(s) => match dec(*s, j) { Some(d) => Some(D::Newtype(Box::new(d))), None => None },
        Sh::Seq(s) => match any(j) { Tok::Seq(v) => if forall|i: int| 0 <= i < v.len() ==> dec(*s, #[trigger] v[i]) is Some { Some(D::Seq(Seq::new(v.len(), |i: int| dec(*s, v[i])->Some_0))) } else { None }, _ => None },
        Sh::Tuple(t) => match dec_tuple(t, any(j)) { Some(v) => Some(D::Seq(v)), None => None },
        Sh::Map(s) => match any(j) { Tok::Map(m) => if forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Str && dec(*s, m[i].1) is Some { Some(D::Map(Seq::new(m.len(), |i: int| (D::Str(m[i].0->Str_0), dec(*s, m[i].1)->Some_0)))) } else { None }, _ => None },
        Sh::Struct(f) => match dec_fields(f, any(j)) { Some(m) => Some(D::Struct(m)), None => None },
        Sh::Enum(v) => match enumeration(j) {
            Some(Tok::Variant(n, c)) => if !known(v, n) { None } else { dec_variant(v[find(v, n)].1, n, c) },
            _ => None,
        },
    }
}
// the visitor asks for what the variant holds: nothing, a value, a list or a map
pub open spec fn dec_variant(a: Va, n: Str, c: Option<J>) -> Option<D> decreases a {
    match (a, c) {
        (Va::Unit, None) => Some(D::UnitVariant(n)),
        (Va::Newtype(s), Some(c)) => match dec(*s, c) { Some(d) => Some(D::NewtypeVariant(n, Box::new(d))), None => None },
        (Va::Tuple(t), Some(c)) => match dec_tuple(t, any(c)) { Some(v) => Some(D::TupleVariant(n, v)), None => None },
        (Va::Struct(f), Some(c)) => match dec_fields(f, any(c)) { Some(m) => Some(D::StructVariant(n, m)), None => None },
        _ => None,
    }
}
pub open spec fn dec_tuple(t: Seq<Sh>, k: Tok) -> Option<Seq<D>> decreases t {
    match k { Tok::Seq(v) => if v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> dec(#[trigger] t[i], v[i]) is Some { Some(Seq::new(t.len(), |i: int| if 0 <= i < t.len() { dec(t[i], v[i])->Some_0 } else { D::Unit })) } else { None }, _ => None }
}
// a struct takes every field from the entry of its name
pub open spec fn dec_fields(f: Seq<(Str, Sh)>, k: Tok) -> Option<Seq<(Str, D)>> decreases f {
    match k { Tok::Map(m) => { let e = entries(m); if texts(m) && forall|i: int| 0 <= i < f.len() ==> keyed(e, (#[trigger] f[i]).0) && dec(f[i].1, e[find(e, f[i].0)].1) is Some { Some(Seq::new(f.len(), |i: int| if 0 <= i < f.len() { (f[i].0, dec(f[i].1, e[find(e, f[i].0)].1)->Some_0) } else { (Seq::empty(), D::Unit) })) } else { None } }, _ => None }
}
pub proof fn back(d: D, s: Sh) requires fits(d, s) ensures val(d) is Some, dec(s, val(d)->Some_0) == Some(d) decreases d {
    match (d, s) {
        (D::Char(c), Sh::Char) => { assert(seq![c][0] == c); }
        (D::Some(x), Sh::Opt(t)) => { back(*x, *t); }
        (D::Newtype(x), Sh::Newtype(t)) => { back(*x, *t); }
        (D::Seq(v), Sh::Seq(t)) => {
            assert forall|i: int| 0 <= i < v.len() implies val(#[trigger] v[i]) is Some && dec(*t, val(v[i])->Some_0) == Some(v[i]) by { back(v[i], *t); }
            let w = vals(v); assert(vals_ok(v)); assert(val(d) == Some(J::Arr(w)));
            assert forall|i: int| 0 <= i < w.len() implies dec(*t, #[trigger] w[i]) == Some(v[i]) by { assert(w[i] == val(v[i])->Some_0); }
            assert(any(J::Arr(w)) == Tok::Seq(w)); assert(dec(s, J::Arr(w)) is Some); assert(dec(s, J::Arr(w))->Some_0->Seq_0 =~= v);
        }
        (D::Seq(v), Sh::Tuple(t)) => { back_tuple(v, t); }
        (D::Map(m), Sh::Map(t)) => {
            assert forall|i: int| 0 <= i < m.len() implies kname((#[trigger] m[i]).0) == Some(m[i].0->Str_0) && val(m[i].1) is Some && dec(*t, val(m[i].1)->Some_0) == Some(m[i].1) by { back(m[i].1, *t); }
            let w = pairs(m); assert(pairs_ok(m));
            assert(distinct(w)) by { assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i].0 != w[j].0 by { assert(m[i].0 != m[j].0); } }
            collect_id(w); assert(val(d) == Some(J::Obj(w)));
            let q = strs(w);
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 is Str && dec(*t, q[i].1) == Some(m[i].1) by { assert(w[i] == (kname(m[i].0)->Some_0, val(m[i].1)->Some_0)); }
            assert(any(J::Obj(w)) == Tok::Map(q)); assert(dec(s, J::Obj(w)) is Some); let z = dec(s, J::Obj(w))->Some_0->Map_0;
            assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == m[i] by { assert(q[i].0 == J::Str(w[i].0)); assert(m[i].0 is Str); }
            assert(z =~= m);
        }
        (D::Struct(m), Sh::Struct(f)) => { back_fields(m, f); }
        (D::UnitVariant(n), Sh::Enum(v)) => { assert(dec_variant(at(v, n), n, None) == Some(d)); }
        (D::NewtypeVariant(n, x), Sh::Enum(v)) => { back(*x, *at(v, n)->Newtype_0); let c = val(*x)->Some_0; assert(seq![(n, c)][0] == (n, c)); assert(dec_variant(at(v, n), n, Some(c)) == Some(d)); }
        (D::TupleVariant(n, x), Sh::Enum(v)) => { back_tuple(x, at(v, n)->Tuple_0); let c = J::Arr(vals(x)); assert(seq![(n, c)][0] == (n, c)); assert(dec_variant(at(v, n), n, Some(c)) == Some(d)); }
        (D::StructVariant(n, m), Sh::Enum(v)) => { back_fields(m, at(v, n)->Struct_0); let c = J::Obj(collect(fields(m))); assert(seq![(n, c)][0] == (n, c)); assert(dec_variant(at(v, n), n, Some(c)) == Some(d)); }
        _ => { }
    }
}
pub proof fn back_tuple(v: Seq<D>, t: Seq<Sh>) requires fits_tuple(v, t) ensures vals_ok(v), dec_tuple(t, any(J::Arr(vals(v)))) == Some(v) decreases v {
    assert forall|i: int| 0 <= i < v.len() implies val(#[trigger] v[i]) is Some && dec(t[i], val(v[i])->Some_0) == Some(v[i]) by { back(v[i], t[i]); }
    let w = vals(v);
    assert forall|i: int| 0 <= i < t.len() implies dec(#[trigger] t[i], w[i]) == Some(v[i]) by { assert(val(v[i]) is Some); assert(w[i] == val(v[i])->Some_0); }
    assert(Seq::new(t.len(), |i: int| if 0 <= i < t.len() { dec(t[i], w[i])->Some_0 } else { D::Unit }) =~= v);
}
pub proof fn back_fields(m: Seq<(Str, D)>, f: Seq<(Str, Sh)>) requires fits_fields(m, f) ensures fields_ok(m), dec_fields(f, any(J::Obj(collect(fields(m))))) == Some(m) decreases m {
    assert forall|i: int| 0 <= i < m.len() implies val((#[trigger] m[i]).1) is Some && dec(f[i].1, val(m[i].1)->Some_0) == Some(m[i].1) by { back(m[i].1, f[i].1); }
    let w = fields(m);
    assert(distinct(w)) by { assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i].0 != w[j].0 by { assert(m[i].0 != m[j].0); } }
    collect_id(w); let e = entries(strs(w)); assert(e =~= w); assert(texts(strs(w)));
    assert forall|i: int| 0 <= i < f.len() implies keyed(e, (#[trigger] f[i]).0) && dec(f[i].1, e[find(e, f[i].0)].1) == Some(m[i].1) by { assert(m[i].0 == f[i].0); assert(w[i] == (m[i].0, val(m[i].1)->Some_0)); find_at(w, i); }
    assert(Seq::new(f.len(), |i: int| if 0 <= i < f.len() { (f[i].0, dec(f[i].1, e[find(e, f[i].0)].1)->Some_0) } else { (Seq::empty(), D::Unit) }) =~= m);
}
"""

def build(repo):
    files = {}

    def F(path):
        if path not in files:
            files[path] = File(f"{repo}/{path}")
        return files[path]

    macs = F(P + "macros.rs")
    macros = {n: macs.macro_rules(n) for n in ("serialize_self", "serialize_self_method", "forward_to_serialize_seq", "forward_to_serialize_seq_method", "impl_forward_to_serialize_seq", "serialize_unsupported", "serialize_unsupported_method")}
    macros.update({n: F(NUM).macro_rules(n) for n in ("impl_from_unsigned", "impl_from_signed")})

    def X(path):
        """the file with the repository's macros written out"""
        if ("x", path) not in files:
            t = re.sub(r"(?s)#\[cfg\(test\)\]\s*mod \w+ \{.*", "", F(path).text)
            files["x", path] = File(f"{repo}/{path}", text=mac.expand(t, macros))
        return files["x", path]

    fns, out = [], [PRELUDE]

    def item(path, kind, name):
        t = F(path).item(kind, name)
        t = re.sub(r"\bMap\s*<", "XMap<", t)
        if kind == "struct" and "{" in t:
            t = pub_fields(t)
        else:
            t = "pub " + t
        out.append(re.sub(r"^pub (pub(\(\w+\))?|\(\w+\)) ", "pub ", t) + "\n")
    out.append("#[derive(Clone, Copy)]\n")
    item(NUM, "enum", "N")
    out.append("#[derive(Clone, Copy)]\n")
    item(NUM, "struct", "Number")
    item(P + "value/mod.rs", "enum", "Value")
    S = P + "value/ser.rs"
    item(S, "struct", "ValueSerializer")
    item(P + "ser/mod.rs", "struct", "StringSerializer")
    for s in ("SerializeSeq", "SerializeTupleVariant", "SerializeMap", "SerializeStructVariant"):
        item(S, "struct", s)
    out.append(PRELUDE2)

    def common(f):
        libchain.mut_self(f)
        b = f.body
        b = re.sub(r"\blet\s+_\s*=\s*\w+\s*;", "", b)
        b = re.sub(r"\.\s*to_string\(\)", ".x_to_string()", b)
        b = re.sub(r"\.\s*into\(\)", ".x_into()", b)
        b = re.sub(r"\bMap::", "XMap::", b)
        b = re.sub(r"\bStringDeserializer<Error>", "StringDeserializer", b)
        b = re.sub(r"\b(\w+)\s+as\s+f64\b", r"x_widen(\1)", b)
        b = re.sub(r"\b(?:serde::)?(?:ser|de)::Error::custom\b", "Error::custom", b)
        b = re.sub(r"Error::custom\(\s*std::format!\([^()]*(?:\([^()]*\)[^()]*)*\)\s*\)", "x_error()", b)
        b = re.sub(r'Error::custom\(\s*"[^"]*"\s*\)', "x_error()", b)
        if b != f.body:
            f.rewrites.append(f"{f.name}: conversions as the traits of the recipe, the texts of errors dropped")
        f.body = b
        g = f.sig
        g = re.sub(r"\bwhere\b.*$", "", g, flags=re.S).rstrip(", \n")
        g = re.sub(r"&'static\s+str", "&str", g)
        g = re.sub(r"fn\s+(\w+)\s*<\s*T\s*>", lambda m: f"fn {m.group(1)}<T: ?Sized + " + ("Display" if m.group(1) == "collect_str" else "Serialize") + ">", g)
        m = re.search(r"->\s*(?:crate::)?Result\s*<(.*)>\s*$", g, re.S)
        if m:
            g = g[:m.start()] + "-> Result<" + re.sub(r",\s*(Self::)?Error\s*$", "", m.group(1).strip()) + ", Error>"
        f.sig = g
        libchain.options(f)
        return f

    def emit(f, impl, contract, name=None, types=None, prep=None, after=None):
        if prep:
            prep(f)
        common(f)
        for k, v in (types or {}).items():
            f.sig = re.sub(rf"\b{re.escape(k)}\b", v, f.sig)
        if name:
            f.sig = re.sub(r"^fn\s+\w+", "fn " + name, f.sig)
            f.rename = name
        if after:
            after(f)
        f.spec(contract)
        f.vis, f.attrs = "pub ", SPIN
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    # ---- numbers ----
    f = F(NUM).fn("from", "impl From<i64> for N")
    emit(f, "impl N", "ensures r == inum(i as int)", name="x_from_i64")
    out.append("impl XFrom<i64> for N { open spec fn gives(v: i64, r: N) -> bool { r == inum(v as int) } fn x_from(v: i64) -> (r: N) { N::x_from_i64(v) } }\n")
    for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        f = X(NUM).fn("from", f"impl From<{t}> for Number")
        m = re.match(r"fn\s+from\s*\(\s*(\w+)\s*:", f.sig)
        if not m:
            raise Lost("From for Number")
        f.body = re.sub(r"\bSelf\b", "Number", f.body)
        f.body = re.sub(r"\bN::from\(", "N::x_from(", f.body)
        f.body = re.sub(r"#\[allow\([^)]*\)\]", "", f.body)
        emit(f, "impl Number", f"ensures r.n == inum({m.group(1)} as int)", name=f"x_from_{t}")
        out.append(f"impl XFrom<{t}> for Number {{ open spec fn gives(v: {t}, r: Number) -> bool {{ r.n == inum(v as int) }} fn x_from(v: {t}) -> (r: Number) {{ Number::x_from_{t}(v) }} }}\n")
    out.append("impl Number { #[verifier::external_body] pub fn from_f64(f: f64) -> (r: Option<Number>) ensures (r is Some) == (from_f(f) is Some), r is Some ==> r->Some_0.n == from_f(f)->Some_0 { unimplemented!() } }\n")

    # ---- serializers ----
    VT = {"Self::Ok": "Value", "Self::SerializeSeq": "SerializeSeq", "Self::SerializeTuple": "SerializeSeq", "Self::SerializeTupleStruct": "SerializeSeq", "Self::SerializeTupleVariant": "SerializeTupleVariant", "Self::SerializeMap": "SerializeMap", "Self::SerializeStruct": "SerializeMap", "Self::SerializeStructVariant": "SerializeStructVariant"}
    ser = X(S)

    def types_of(header, path):
        """the associated types, as written"""
        q = X(path)
        b = "".join(q.text[q.toks[i].a:q.toks[j].b] for i, j in q.block(header))
        d = {f"Self::{k}": re.sub(r"\s+", "", v) for k, v in re.findall(r"\btype\s+(\w+)\s*=\s*([^;]+);", b)}
        return {k: re.sub(r"^Impossible<.*", "Impossible", v) for k, v in d.items() if k != "Self::Error"}

    def params(f):
        toks = rx.lex(f.sig)
        i = next(i for i, t in enumerate(toks) if t.s == "(")
        inner = f.sig[toks[i].b:toks[rx.match_close(toks, i)].a]
        return re.findall(r"\b(\w+)\s*:\s*(?!:)", inner)

    def args(f):
        """the argument names after self, whatever they are called"""
        return [p for p in params(f) if p not in ("T",)]

    def ser_specs(num):
        """contract of each serializer method over its last arguments"""
        c = {"bool": "D::Bool({0})", "char": "D::Char({0})", "str": "D::Str({0}@)", "bytes": "D::Bytes({0}@)", "unit": "D::Unit", "unit_struct": "D::Unit", "none": "D::None", "some": "D::Some(Box::new({0}.data()))", "f32": "D::F32({0})", "f64": "D::F64({0})",
             "newtype_struct": "D::Newtype(Box::new({1}.data()))", "unit_variant": "D::UnitVariant({2}@)", "newtype_variant": "D::NewtypeVariant({2}@, Box::new({3}.data()))"}
        for t in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
            c[t] = "D::Int({0} as int)"
        return c

    PLAIN = ("bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str bytes unit unit_struct none some newtype_struct unit_variant newtype_variant").split()
    COMPOUND = ("seq", "tuple", "tuple_struct", "tuple_variant", "map", "struct", "struct_variant")

    def serializer(path, header, ty, rel, fun, ser_fn, prep=None):
        types = types_of(header, path)
        specs = ser_specs(None)
        src = X(path)
        for n in PLAIN:
            f = src.fn("serialize_" + n, header)
            a = args(f)
            d = specs[n].format(*a)
            f.body = re.sub(r"\.\s*serialize\(\s*self\s*\)", f".{ser_fn}(self)", f.body)
            emit(f, f"impl {ty}", f"ensures {rel}(r, {fun}({d}))", types=types, prep=prep)
        f = src.fn("collect_str", header)
        emit(f, f"impl {ty}", f"ensures {rel}(r, {fun}(D::Str({args(f)[-1]}.shown())))", types=types, prep=prep)
        return types

    # strings (map keys)
    KH, VH = "impl ser::Serializer for StringSerializer", "impl ser::Serializer for ValueSerializer"
    kt = serializer(P + "ser/mod.rs", KH, "StringSerializer", "names", "kname", "serialize_s")
    for n in COMPOUND:
        f = X(P + "ser/mod.rs").fn("serialize_" + n, KH)
        emit(f, "impl StringSerializer", "ensures r is Err", types=kt)

    # values
    def vprep(f):
        if f.name == "serialize_bytes":
            a = args(f)[0]
            f.body = re.sub(rf"\bin\s+&?{a}\s*\{{", f"in {a}.iter() {{", f.body)
            libchain.for_loops(f)
            libchain.chains(f, plain=True)
            m = re.search(r"let mut (\w+)\s*=\s*Vec::(?:new\(\)|with_capacity\([^;]*\));", f.body)
            if len(re.findall(r"\bwhile\b", f.body)) == 1 and m:
                o = m.group(1)
                f.body = re.sub(rf"let mut {o}\s*=", f"let mut {o}: Vec<Value> =", f.body)
                f.loop(0, f"invariant 0 <= x_i0 <= {a}@.len(), {o}@.len() == x_i0, forall|j: int| 0 <= j < x_i0 ==> jv(#[trigger] {o}@[j]) == bytes({a}@)[j]".replace("x_i0", (re.findall(r"while\s*\(?\s*(x_\w+)\s*<", f.body) + ["x_i0"])[0]), after=f"proof {{ assert(jl({o}@) =~= bytes({a}@)); }}")
        f.at("start", "broadcast use {jv_parts, put_empty};")
    vt = serializer(S, VH, "ValueSerializer", "gives", "val", "serialize_v", prep=vprep)
    for n, c in (("seq", "r is Ok, r->Ok_0.vec@.len() == 0"), ("tuple", "r is Ok, r->Ok_0.vec@.len() == 0"), ("tuple_struct", "r is Ok, r->Ok_0.vec@.len() == 0"), ("tuple_variant", "r is Ok, r->Ok_0.vec@.len() == 0, r->Ok_0.name@ == {2}@"),
                 ("map", "r is Ok, r->Ok_0.map.entries@.len() == 0"), ("struct", "r is Ok, r->Ok_0.map.entries@.len() == 0"), ("struct_variant", "r is Ok, r->Ok_0.map.entries@.len() == 0, r->Ok_0.name@ == {2}@")):
        f = ser.fn("serialize_" + n, VH)
        emit(f, "impl ValueSerializer", "ensures " + c.format(*(args(f) + ["x"] * 4)), types=vt)
    f = F(P + "value/mod.rs").fn("to_value")
    f.body = re.sub(r"\.\s*serialize\(", ".serialize_v(", f.body)
    f.sig = "fn to_value<T: ?Sized + Serialize>(value: &T) -> Result<Value>" if re.match(r"fn\s+to_value\s*<\s*T\s*>\s*\(\s*value\s*:\s*T\s*\)", f.sig) else f.sig
    emit(f, None, "ensures gives(r, val(value.data()))")

    ELEM = "ensures (r is Ok) == (val({0}.data()) is Some), r is Ok ==> jl(final(self).vec@) == jl(old(self).vec@).push(val({0}.data())->Some_0){K}"
    push = "proof { if r is Ok { assert(jl(final(self).vec@) =~= jl(old(self).vec@).push(val(value.data())->Some_0)); } }"

    def elem(header, ty, fn, name=None, keep=""):
        f = ser.fn(fn, header)
        a = args(f)[-1]
        f.body = re.sub(r"\b(?:serde::)?ser::SerializeSeq::(\w+)\(\s*self\b", r"SerializeSeq::\1(self", f.body)
        # what is pushed, seen as values
        def after(f):
            f.rewrite("self.vec.push($x_s);", "{ let x_p = $x_s; let ghost x_b = self.vec@; self.vec.push(x_p); proof { assert(jl(self.vec@) =~= jl(x_b).push(jv(x_p))); } }", "push", must=False)
        emit(f, f"impl {ty}", ELEM.replace("{0}", a).replace("{K}", keep), name=name, types={"Self::Ok": "Value"}, after=after)

    def end(header, ty, contract, name=None):
        f = ser.fn("end", header)
        f.body = re.sub(r"\b(?:serde::)?ser::(SerializeSeq|SerializeMap)::end\(", r"\1::end(", f.body)
        f.at("start", "broadcast use {jv_parts, put_empty};")
        emit(f, f"impl {ty}", f"ensures r is Ok, jv(r->Ok_0) == {contract}", name=name, types={"Self::Ok": "Value"})
    ARR = "J::Arr(jl(self.vec@))"
    elem("impl ser::SerializeSeq for SerializeSeq", "SerializeSeq", "serialize_element")
    end("impl ser::SerializeSeq for SerializeSeq", "SerializeSeq", ARR)
    elem("impl ser::SerializeTuple for SerializeSeq", "SerializeSeq", "serialize_element", "x_serialize_tuple_element")
    end("impl ser::SerializeTuple for SerializeSeq", "SerializeSeq", ARR, "x_end_tuple")
    elem("impl ser::SerializeTupleStruct for SerializeSeq", "SerializeSeq", "serialize_field", "x_serialize_tuple_field")
    end("impl ser::SerializeTupleStruct for SerializeSeq", "SerializeSeq", ARR, "x_end_tuple_struct")
    elem("impl ser::SerializeTupleVariant for SerializeTupleVariant", "SerializeTupleVariant", "serialize_field", keep=", final(self).name == old(self).name")
    end("impl ser::SerializeTupleVariant for SerializeTupleVariant", "SerializeTupleVariant", f"J::Obj(seq![(self.name@, {ARR})])")
    M = "impl ser::SerializeMap for SerializeMap"
    f = ser.fn("serialize_key", M)
    f.body = re.sub(r"\.\s*serialize\(", ".serialize_s(", f.body)
    a = args(f)[-1]
    emit(f, "impl SerializeMap", f"ensures (r is Ok) == (kname({a}.data()) is Some), final(self).map == old(self).map, r is Ok ==> final(self).next_key is Some && final(self).next_key->Some_0@ == kname({a}.data())->Some_0")
    f = ser.fn("serialize_value", M)
    a = args(f)[-1]
    emit(f, "impl SerializeMap", f"requires old(self).next_key is Some ensures (r is Ok) == (val({a}.data()) is Some), r is Ok ==> jm(final(self).map.entries@) == put(jm(old(self).map.entries@), old(self).next_key->Some_0@, val({a}.data())->Some_0)")
    end(M, "SerializeMap", "J::Obj(jm(self.map.entries@))")
    # serde's default for an entry
    out.append("impl SerializeMap { pub fn x_serialize_entry<K: ?Sized + Serialize, T: ?Sized + Serialize>(&mut self, key: &K, value: &T) -> (r: Result<(), Error>)\n"
               "    ensures (r is Ok) == (kname(key.data()) is Some && val(value.data()) is Some), r is Ok ==> jm(final(self).map.entries@) == put(jm(old(self).map.entries@), kname(key.data())->Some_0, val(value.data())->Some_0)\n"
               "{ self.serialize_key(key)?; self.serialize_value(value) } }\n")
    FLD = "ensures (r is Ok) == (val({1}.data()) is Some), r is Ok ==> jm(final(self).map.entries@) == put(jm(old(self).map.entries@), {0}@, val({1}.data())->Some_0)"
    f = ser.fn("serialize_field", "impl ser::SerializeStruct for SerializeMap")
    f.body = re.sub(r"\b(?:serde::)?ser::SerializeMap::serialize_entry\(\s*self\b", "SerializeMap::x_serialize_entry(self", f.body)
    emit(f, "impl SerializeMap", FLD.format(*args(f)), name="x_serialize_struct_field")
    end("impl ser::SerializeStruct for SerializeMap", "SerializeMap", "J::Obj(jm(self.map.entries@))", "x_end_struct")
    f = ser.fn("serialize_field", "impl ser::SerializeStructVariant for SerializeStructVariant")
    emit(f, "impl SerializeStructVariant", FLD.format(*args(f)) + ", final(self).name == old(self).name")
    end("impl ser::SerializeStructVariant for SerializeStructVariant", "SerializeStructVariant", "J::Obj(seq![(self.name@, J::Obj(jm(self.map.entries@)))])")
    out.append(DRIVER)

    # ---- deserializer ----
    DE = P + "value/de.rs"
    for n in ("ValueDeserializer", "VariantAccess", "EnumAccess"):
        item(DE, "struct", n)
    out[-1] = out[-1].replace("map::IntoIter<String, Value>", "XIntoIter<(String, Value)>")
    out.append(VISIT)

    def dprep(f):
        b = f.body
        b = re.sub(r"\bde::Deserializer::(\w+)\(\s*(ValueDeserializer::new\([^()]*\))\s*,", r"\2.\1(", b)
        b = re.sub(r"\.\s*deserialize::<\s*StringDeserializer<Error>\s*>\(", ".deserialize(", b)
        b = re.sub(r"\.\s*map_err\(\s*de::Error::custom\s*\)", ".x_custom()", b)
        f.body = b
        f.sig = re.sub(r"<V>", "<V: DeserializeSeed>" if f.name == "variant_seed" else "<V: Visitor>", f.sig, count=1)
        f.sig = re.sub(r"<T>", "<T: DeserializeSeed>", f.sig, count=1)
        f.sig = re.sub(r"&'static\s*\[&'static\s+str\]", "&[&str]", f.sig)

    def dsig(f):
        f.sig = f.sig.replace("V::Error", "Error")
    out.append("impl<T> XCustom for Result<T, Error> { type T = T; open spec fn here(self) -> Option<T> { ok(self) } fn x_custom(self) -> (r: Result<T, Error>) { match self { Ok(v) => Ok(v), Err(_) => Err(x_error()) } } }\n"
               "pub trait XCustom: Sized { type T; spec fn here(self) -> Option<Self::T>; fn x_custom(self) -> (r: Result<Self::T, Error>) ensures ok(r) == self.here(); }\n")
    VD = "impl<'de> de::Deserializer<'de> for ValueDeserializer"
    f = F(NUM).fn("deserialize_any", "impl<'de> serde::Deserializer<'de> for Number")
    f.sig = re.sub(r"Self::Error", "Error", f.sig)
    emit(f, "impl Number", f"ensures {args(f)[-1]}.sees(any(J::Num(self.n)), ok(r))", prep=dprep)
    for ty, p in (("ValueDeserializer", "value"), ("VariantAccess", "value")):
        f = F(DE).fn("new", f"impl {ty}")
        emit(f, f"impl {ty}", f"ensures r.{p} == {args(f)[-1]}")
    f = F(DE).fn("new", "impl EnumAccess")
    a = args(f)[-1]
    f.sig = re.sub(r"\bMap<", "XMap<", f.sig)
    f.body = re.sub(rf"\b{a}\.into_iter\(\)", f"x_into_iter({a}.entries)", f.body)
    emit(f, "impl EnumAccess", f"ensures r.iter.left() == {a}.entries@")

    def dany(f):
        dprep(f)
        f.body = re.sub(r"\b(\w+)\.into_iter\(\)\.map\(", r"\1.entries.into_iter().map(", f.body)
        m = re.search(r"\b(\w+)\.entries\.into_iter\(\)\.map\(", f.body)
        if not m:
            raise Lost("deserialize_any: the entries of an object")
        o = m.group(1)
        toks = rx.lex(f.body)
        i = next(i for i, t in enumerate(toks) if t.a == m.end() - 1)
        e = rx.match_close(toks, i)
        f.body = f.body[:toks[e].b] + ".collect()" + f.body[toks[e].b:]
        f.rewrites.append("the entries of an object gathered before they are handed on")
        libchain.chains(f, plain=True)
        f.body = f.body.replace("let mut x_out0 = Vec::new();", "let mut x_out0: Vec<(Value, Value)> = Vec::new();")
        f.body = re.sub(r"=\s*\((\w+)\.entries\)\.x_into_iter\(\)", r"= x_into_iter(\1.entries)", f.body)
        f.before_loop(0, "let ghost mut x_n = 0int;")
        f.loop(0, f"invariant 0 <= x_n <= {o}.entries@.len(), x_out0@.len() == x_n, x_it0.left() == {o}.entries@.subrange(x_n, {o}.entries@.len() as int), forall|j: int| 0 <= j < x_n ==> jv((#[trigger] x_out0@[j]).0) == J::Str({o}.entries@[j].0@) && jv(x_out0@[j].1) == jv({o}.entries@[j].1), ensures x_n == {o}.entries@.len()",
               end=f"proof {{ x_n = x_n + 1; assert(x_it0.left() =~= {o}.entries@.subrange(x_n, {o}.entries@.len() as int)); }}",
               after=f"proof {{ assert(jpairs(x_out0@) =~= strs(jm({o}.entries@))); }}")
        f.at("start", "broadcast use jv_parts;")
    f = F(DE).fn("deserialize_any", VD)
    emit(f, "impl ValueDeserializer", f"ensures {args(f)[-1]}.sees(any(jv(self.value)), ok(r))", prep=dany, types={"V::Value": "V::Value"})
    fwd = re.search(r"forward_to_deserialize_any!\s*\{([^}]*)\}", "".join(F(DE).text[F(DE).toks[i].a:F(DE).toks[j].b] for i, j in F(DE).block(VD)))
    fwd = fwd.group(1).split() if fwd else []
    SELFD = "bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier".split()
    for n in SELFD:
        c = "ensures {v}.sees(any(jv(self.value)), ok(r))"
        if n in fwd:
            extra = {"unit_struct": "_name: &str, ", "tuple": "_len: usize, ", "tuple_struct": "_name: &str, _len: usize, ", "struct": "_name: &str, _fields: &[&str], "}.get(n, "")
            out.append(f"// forward_to_deserialize_any!\nimpl ValueDeserializer {{ pub fn deserialize_{n}<V: Visitor>(self, {extra}visitor: V) -> (r: Result<V::Value, Error>) {c.format(v='visitor')} {{ self.deserialize_any(visitor) }} }}\n")
        else:
            f = F(DE).fn("deserialize_" + n, VD)
            emit(f, "impl ValueDeserializer", c.format(v=args(f)[-1]), prep=dprep)
    for n, c in (("newtype_struct", "{v}.sees(Tok::Newtype(jv(self.value)), ok(r))"), ("option", "{v}.sees(option(jv(self.value)), ok(r))"), ("enum", "enumeration(jv(self.value)) is Some ==> {v}.sees(enumeration(jv(self.value))->Some_0, ok(r)), enumeration(jv(self.value)) is None ==> r is Err")):
        f = F(DE).fn("deserialize_" + n, VD)
        emit(f, "impl ValueDeserializer", "ensures " + c.format(v=args(f)[-1]), prep=lambda f: (dprep(f), f.at("start", "broadcast use jv_parts;")))
    f = F(DE).fn("variant_seed", "impl<'de> de::EnumAccess<'de> for EnumAccess")
    f.sig = f.sig.replace("Self::Variant", "VariantAccess")
    a = args(f)[-1]
    emit(f, "impl EnumAccess", f"ensures self.iter.left().len() == 0 ==> r is Err, self.iter.left().len() > 0 ==> {a}.grows(J::Str(self.iter.left()[0].0@), match r {{ Ok(p) => Some(p.0), Err(_) => None }}) && (r is Ok ==> r->Ok_0.1.value == self.iter.left()[0].1)", prep=dprep)
    VA = "impl<'de> de::VariantAccess<'de> for VariantAccess"
    for n, c in (("unit_variant", "r is Err"), ("newtype_variant_seed", "{v}.grows(jv(self.value), ok(r))"), ("tuple_variant", "{v}.sees(any(jv(self.value)), ok(r))"), ("struct_variant", "{v}.sees(any(jv(self.value)), ok(r))")):
        f = F(DE).fn(n, VA)
        emit(f, "impl VariantAccess", "ensures " + c.format(v=(["x"] + args(f))[-1]), prep=dprep)
    # ---- Value, read ----
    VV = "impl<'de> Visitor<'de> for ValueVisitor"

    def vv(n, contract, prep=None, sig=None):
        f = F(DE).fn(n, VV)
        a = (["x"] + args(f))[-1]

        def p(f):
            f.sig = re.sub(r"<E>", "", f.sig)
            f.sig = re.sub(r"<D>", "", f.sig)
            f.sig = re.sub(r":\s*D\b", ": ValueDeserializer", f.sig)
            f.sig = re.sub(r"<V>", "<V: " + ("SeqAccess" if n == "visit_seq" else "MapAccess") + ">", f.sig)
            f.sig = re.sub(r"->\s*Result<Value,.*?(?=\bwhere\b|$)", "-> Result<Value> ", f.sig, flags=re.S)
            f.body = re.sub(r"\b(?:de::)?Deserialize::deserialize\(", "x_value_deserialize(", f.body)
            f.at("start", "broadcast use {jv_parts, put_empty};")
            if prep:
                prep(f, a)
            if mutable:
                f.sig = re.sub(rf"\bmut\s+{a}\b", "x_arg", f.sig)
                f.at("start", f"let mut {a} = x_arg;")
        mutable = re.search(rf"\bmut\s+{a}\s*:", f.sig)
        emit(f, "impl ValueVisitor", "ensures " + contract.replace("{v}", "x_arg" if mutable else a), prep=p, name="x_" + n)
    EXACT = "r is Ok && jv(r->Ok_0) == whole(%s)->Some_0"
    for n, t in (("visit_bool", "Tok::Bool({v})"), ("visit_i64", "Tok::I64({v})"), ("visit_u64", "Tok::U64({v})"), ("visit_f64", "Tok::F64({v})"), ("visit_string", "Tok::Str({v}@)"), ("visit_str", "Tok::Str({v}@)"), ("visit_none", "Tok::None"), ("visit_unit", "Tok::Unit")):
        vv(n, EXACT % t, prep=lambda f, a: setattr(f, "body", re.sub(r"\bself\.visit_(\w+)\(", r"self.x_visit_\1(", f.body)))

    def vseq(f, a):
        f.loop(0, f"invariant 0 <= x_n <= x_all.len(), x_bad == x_arg.bad(), x_all == x_arg.left(), {a}.bad() == x_bad, {a}.left() == x_all.subrange(x_n, x_all.len() as int), VEC@.len() == x_n, forall|j: int| 0 <= j < x_n ==> jv(#[trigger] VEC@[j]) == x_all[j], ensures x_n == x_all.len()".replace("VEC", re.search(r"let mut (\w+)\s*=", f.body).group(1)),
               end=f"proof {{ x_n = x_n + 1; assert({a}.left() =~= x_all.subrange(x_n, x_all.len() as int)); }}", after="proof { assert(jl(VEC@) =~= x_all); }".replace("VEC", re.search(r"let mut (\w+)\s*=", f.body).group(1)))
        f.before_loop(0, f"let ghost x_all = {a}.left(); let ghost x_bad = {a}.bad(); let ghost mut x_n = 0int;")
    vv("visit_seq", "r is Ok ==> jv(r->Ok_0) == J::Arr({v}.left()), r is Err ==> {v}.bad()", prep=vseq)

    def vmap(f, a):
        v = re.search(r"let mut (\w+)\s*=", f.body).group(1)
        f.loop(0, f"invariant 0 <= x_n <= x_all.len(), x_bad == x_arg.bad(), x_all == x_arg.left(), {a}.bad() == x_bad, {a}.left() == x_all.subrange(x_n, x_all.len() as int), jm({v}.entries@) == collect(entries(x_all).take(x_n)), forall|j: int| 0 <= j < x_n ==> (#[trigger] x_all[j]).0 is Str, ensures x_n == x_all.len()", start="",
               end=f"proof {{ x_n = x_n + 1; assert({a}.left() =~= x_all.subrange(x_n, x_all.len() as int)); assert(entries(x_all).take(x_n).drop_last() =~= entries(x_all).take(x_n - 1)); }}", after=f"proof {{ assert(entries(x_all).take(x_n) =~= entries(x_all)); assert(texts(x_all)); }}")
        f.before_loop(0, f"let ghost x_all = {a}.left(); let ghost x_bad = {a}.bad(); let ghost mut x_n = 0int; proof {{ assert(jm({v}.entries@) =~= Seq::empty()); assert(entries(x_all).take(0) =~= Seq::empty()); }}")
    vv("visit_map", "r is Ok ==> texts({v}.left()) && jv(r->Ok_0) == J::Obj(collect(entries({v}.left()))), r is Err ==> {v}.bad() || !texts({v}.left())", prep=vmap)
    out.append(VALUE)
    vv("visit_some", "wf(jv({v}.value)) ==> r is Ok && jv(r->Ok_0) == jv({v}.value)")
    f = F(DE).fn("deserialize", "impl<'de> Deserialize<'de> for Value")
    m = re.search(r"(?s)struct ValueVisitor;.*?(\bimpl<'de> Visitor<'de> for ValueVisitor\s*)", f.body)
    if not m:
        raise Lost("the visitor of Value")
    toks = rx.lex(f.body)
    i = next(i for i, t in enumerate(toks) if t.a >= m.end())
    f.body = "{" + f.body[toks[rx.match_close(toks, i)].b:]
    emit(f, None, "ensures wf(jv(deserializer.value)) ==> r is Ok && jv(r->Ok_0) == jv(deserializer.value)".replace("deserializer", args(f)[-1]), name="x_read", prep=lambda f: (setattr(f, "sig", f"fn deserialize({args(f)[-1]}: ValueDeserializer) -> Result<Value>"), f.at("start", f"proof {{ whole_any(jv({args(f)[-1]}.value)); }}")))
    # ---- Value, written ----
    for path, h, ty, spec in ((NUM, "impl serde::Serialize for Number", "Number", "dn(self.n)"), (P + "value/ser.rs", "impl ser::Serialize for Value", "Value", "dv(jv(*self))")):
        f = F(path).fn("serialize", h)
        f.sig = "fn serialize(&self, serializer: ValueSerializer) -> Result<Value>" if re.match(r"fn\s+serialize\s*<\s*S\s*>\s*\(\s*&self\s*,\s*serializer\s*:\s*S\s*\)", f.sig) else f.sig
        f.body = re.sub(r"\.\s*serialize\(", ".serialize_v(", f.body)
        f.body = re.sub(r"\bmatch\s+\*self\b", "match self", f.body)
        f.body = re.sub(r"\(\s*ref\s+(\w+)\s*\)", r"(\1)", f.body)
        f.body = re.sub(r"Bool\((\w+)\)\s*=>\s*serializer\.serialize_bool\(\1\)", r"Bool(\1) => serializer.serialize_bool(*\1)", f.body)
        emit(f, None, f"ensures gives(r, val({spec.replace('self', 'x_self')}))", name=f"x_serialize_{ty}", prep=lambda f: (setattr(f, "sig", f.sig.replace("&self", f"x_self: &{ty}")), setattr(f, "body", re.sub(r"\bself\b", "x_self", f.body)), f.at("start", "broadcast use jv_parts; proof { if_value(*x_self); }" if ty == "Value" else "")))
    out.append(LEMMAS)
    return out, fns
