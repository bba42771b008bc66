r"""C22: bodies as plain values.

What is under contract: crates/hcl-rs/src/structure/json_spec.rs as a whole, and what it calls: the
`From` and `FromIterator` of `Expression` and `Value`, and the parts of a block.  A body is read as the
list of its structures, each with its path (name, or identifier and labels) and its value; `nodes_of`
says how they are put together, and the lemmas at the end say what is found at a path."""
import re
import rx
import libchain
from rx import File, Lost
from libeval import pub_fields
NAME = "json_spec"
USES = "use vstd::seq::*;\nuse vstd::string::*;\n"
P = "crates/hcl-rs/src/"
SPIN = "#[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause] "

PRELUDE = libchain.PRELUDE + r"""
// what is only moved
#[verifier::external_body] pub struct Identifier { e: Box<u8> }
#[verifier::external_body] pub struct Number { e: Box<u8> }
#[verifier::external_body] pub struct TemplateExpr { e: Box<u8> }
#[verifier::external_body] pub struct Variable { e: Box<u8> }
#[verifier::external_body] pub struct Traversal { e: Box<u8> }
#[verifier::external_body] pub struct FuncCall { e: Box<u8> }
#[verifier::external_body] pub struct Conditional { e: Box<u8> }
#[verifier::external_body] pub struct Operation { e: Box<u8> }
#[verifier::external_body] pub struct ForExpr { e: Box<u8> }
pub type Str = Seq<char>;
pub uninterp spec fn id_text(i: Identifier) -> Str;
impl Identifier {
    #[verifier::external_body] pub fn into_inner(self) -> (r: String) ensures r@ == id_text(self) { unimplemented!() }
    #[verifier::external_body] pub fn unchecked(s: String) -> (r: Self) ensures id_text(r) == s@ { unimplemented!() }
    #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) ensures r@ == id_text(*self) { unimplemented!() }
}
// the texts of what has no plain value of its own (C06, C20 say what they are)
pub uninterp spec fn tpl_text(t: TemplateExpr) -> Str;
impl TemplateExpr { #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) ensures r@ == tpl_text(*self) { unimplemented!() } }
pub uninterp spec fn expr_text(e: Expression) -> Str;
impl Expression { #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) ensures r@ == expr_text(*self) { unimplemented!() } }
pub uninterp spec fn interpolated(e: Expression) -> Str;
#[verifier::external_body] #[derive(Debug)] pub struct FmtError { e: Box<u8> }
#[verifier::external_body] pub fn x_to_interpolated_string(e: &Expression) -> (r: Result<String, FmtError>) ensures r is Ok, r->Ok_0@ == interpolated(*e) { unimplemented!() }

// ---- plain values and nodes, as mathematical values ------------------------------------------------------
pub ghost enum J { Null, Bool(bool), Num(Number), Str(Str), Arr(Seq<J>), Obj(Seq<(Str, J)>) }
pub ghost enum N { Map(Seq<(Str, N)>), Body(Seq<J>), Expr(J) }
// a list of entries with distinct keys, in order of insertion
pub open spec fn find<T>(m: Seq<(Str, T)>, k: Str) -> int decreases m.len() { if m.len() == 0 { 0 } else if m[0].0 == k { 0 } else { 1 + find(m.drop_first(), k) } }
pub open spec fn keyed<T>(m: Seq<(Str, T)>, k: Str) -> bool { find(m, k) < m.len() }
pub open spec fn put<T>(m: Seq<(Str, T)>, k: Str, v: T) -> Seq<(Str, T)> { if keyed(m, k) { m.update(find(m, k), (m[find(m, k)].0, v)) } else { m.push((k, v)) } }
pub open spec fn collect<T>(s: Seq<(Str, T)>) -> Seq<(Str, T)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { put(collect(s.drop_last()), s.last().0, s.last().1) } }
pub open spec fn distinct<T>(s: Seq<(Str, T)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].0 != s[j].0 }
pub broadcast proof fn find_range<T>(m: Seq<(Str, T)>, k: Str) ensures 0 <= #[trigger] find(m, k) <= m.len(), find(m, k) < m.len() ==> m[find(m, k)].0 == k, forall|i: int| 0 <= i < find(m, k) ==> m[i].0 != k decreases m.len() {
    if m.len() > 0 && m[0].0 != k {
        let t = m.drop_first(); find_range(t, k);
        assert forall|i: int| 0 <= i < find(m, k) implies m[i].0 != k by { if i > 0 { assert(m[i] == t[i - 1]); } }
    }
}
pub proof fn find_at<T>(m: Seq<(Str, T)>, i: int) requires distinct(m), 0 <= i < m.len() ensures find(m, m[i].0) == i { find_range(m, m[i].0); }
pub proof fn put_distinct<T>(m: Seq<(Str, T)>, k: Str, v: T) requires distinct(m) ensures distinct(put(m, k, v)) { find_range(m, k); }
pub proof fn collect_id<T>(s: Seq<(Str, T)>) requires distinct(s) ensures collect(s) == s decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert(distinct(t)) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i].0 != t[j].0 by { assert(t[i] == s[i] && t[j] == s[j]); } }
        collect_id(t); find_range(t, s.last().0); if keyed(t, s.last().0) { assert(t[find(t, s.last().0)] == s[find(t, s.last().0)]); } assert(t.push((s.last().0, s.last().1)) =~= s); }
    else { assert(s =~= Seq::empty()); }
}
// ---- the value of an expression --------------------------------------------------------------------------
pub open spec fn je(e: Expression) -> J decreases e {
    match e {
        Expression::Null => J::Null,
        Expression::Bool(b) => J::Bool(b),
        Expression::Number(n) => J::Num(n),
        Expression::String(s) => J::Str(s@),
        Expression::Array(a) => J::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { je(a@[i]) } else { J::Null })),
        Expression::Object(o) => J::Obj(collect(jents(o))),
        Expression::TemplateExpr(t) => J::Str(tpl_text(*t)),
        Expression::Parenthesis(e) => je(*e),
        other => J::Str(interpolated(other)),
    }
}
pub open spec fn jents(o: XMap<ObjectKey, Expression>) -> Seq<(Str, J)> decreases o { Seq::new(o.entries@.len(), |i: int| if 0 <= i < o.entries@.len() { (okey(o.entries@[i].0), je(o.entries@[i].1)) } else { (Seq::empty(), J::Null) }) }
pub open spec fn okey(k: ObjectKey) -> Str { match k { ObjectKey::Identifier(i) => id_text(i), ObjectKey::Expression(e) => match e { Expression::String(s) => s@, e => expr_text(e) } } }
pub open spec fn jv(v: Value) -> J decreases v {
    match v {
        Value::Null => J::Null, Value::Bool(b) => J::Bool(b), Value::Number(n) => J::Num(n), Value::String(s) => J::Str(s@),
        Value::Array(a) => J::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { jv(a@[i]) } else { J::Null })),
        Value::Object(o) => J::Obj(Seq::new(o.entries@.len(), |i: int| if 0 <= i < o.entries@.len() { (o.entries@[i].0@, jv(o.entries@[i].1)) } else { (Seq::empty(), J::Null) })),
    }
}
// ---- structures, and how a body puts them together -------------------------------------------------------
pub ghost struct Item { pub path: Seq<Str>, pub block: bool, pub v: J }
pub open spec fn label(l: BlockLabel) -> Str { match l { BlockLabel::Identifier(i) => id_text(i), BlockLabel::String(s) => s@ } }
pub open spec fn labels(l: Seq<BlockLabel>) -> Seq<Str> { Seq::new(l.len(), |i: int| label(l[i])) }
pub open spec fn path(b: Block) -> Seq<Str> { seq![id_text(b.identifier)] + labels(b.labels@) }
pub open spec fn item(s: Structure) -> Item decreases s {
    match s { Structure::Attribute(a) => Item { path: seq![id_text(a.key)], block: false, v: je(a.expr) }, Structure::Block(b) => Item { path: path(b), block: true, v: jbody(b.body) } }
}
pub open spec fn jbody(b: Body) -> J decreases b { J::Obj(jmap(nodes_of(bitems(b.0)))) }
pub open spec fn bitems(b: Vec<Structure>) -> Seq<Item> decreases b { Seq::new(b@.len(), |i: int| if 0 <= i < b@.len() { item(b@[i]) } else { Item { path: Seq::empty(), block: false, v: J::Null } }) }
pub open spec fn items(s: Seq<Structure>) -> Seq<Item> { Seq::new(s.len(), |i: int| item(s[i])) }
// a structure as a node below its name
pub open spec fn line(p: Seq<Str>, v: J) -> N decreases p.len() { if p.len() == 0 { N::Body(seq![v]) } else { N::Map(seq![(p[0], line(p.drop_first(), v))]) } }
// one node put next to another of the same name: objects entry by entry, blocks one after the other, otherwise the later one
pub open spec fn merge(a: N, b: N) -> N decreases b, 0nat {
    match (a, b) { (N::Map(l), N::Map(r)) => N::Map(merge_all(l, r)), (N::Body(l), N::Body(r)) => N::Body(l + r), _ => b }
}
pub open spec fn merge_into(m: Seq<(Str, N)>, k: Str, n: N) -> Seq<(Str, N)> decreases n, 1nat { if keyed(m, k) { m.update(find(m, k), (m[find(m, k)].0, merge(m[find(m, k)].1, n))) } else { m.push((k, n)) } }
pub open spec fn merge_all(m: Seq<(Str, N)>, r: Seq<(Str, N)>) -> Seq<(Str, N)> decreases r, 0nat { if r.len() == 0 { m } else { merge_into(merge_all(m, r.drop_last()), r.last().0, r.last().1) } }
pub open spec fn add(m: Seq<(Str, N)>, i: Item) -> Seq<(Str, N)> { if i.block { merge_into(m, i.path[0], line(i.path.drop_first(), i.v)) } else { put(m, i.path[0], N::Expr(i.v)) } }
pub open spec fn nodes_of(s: Seq<Item>) -> Seq<(Str, N)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { add(nodes_of(s.drop_last()), s.last()) } }
// the value of a node: a single block is an object, several are a list
pub open spec fn jn(n: N) -> J decreases n { match n { N::Map(m) => J::Obj(jmap(m)), N::Body(v) => if v.len() == 1 { v[0] } else { J::Arr(v) }, N::Expr(j) => j } }
pub open spec fn jmap(m: Seq<(Str, N)>) -> Seq<(Str, J)> decreases m { Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (m[i].0, jn(m[i].1)) } else { (Seq::empty(), J::Null) }) }
// all maps of a node have distinct keys
pub open spec fn wf(n: N) -> bool decreases n { match n { N::Map(m) => wfm(m), _ => true } }
pub open spec fn wfm(m: Seq<(Str, N)>) -> bool decreases m { distinct(m) && (forall|i: int| 0 <= i < m.len() ==> wf((#[trigger] m[i]).1)) }
"""

PRELUDE2 = r"""
// ---- how maps, lists and conversions are read ------------------------------------------------------------
pub trait XJ: Sized { spec fn j(self) -> J; }
impl XJ for Expression { open spec fn j(self) -> J { je(self) } }
impl XJ for Value { open spec fn j(self) -> J { jv(self) } }
impl XJ for String { open spec fn j(self) -> J { J::Str(self@) } }
impl XJ for ObjectKey { open spec fn j(self) -> J { J::Str(okey(self)) } }
// (`ok`: what is said of the result holds)
pub trait XFrom<T>: XJ { spec fn conv(v: T) -> J; spec fn ok(v: T) -> bool; spec fn exact(v: T, r: Self) -> bool; fn x_from(v: T) -> (r: Self) ensures Self::ok(v) ==> r.j() == Self::conv(v), Self::exact(v, r); }
pub trait XInto<U: XJ>: Sized { spec fn conv_to(self) -> J; spec fn ok_to(self) -> bool; spec fn exact_to(self, r: U) -> bool; fn x_into(self) -> (r: U) ensures self.ok_to() ==> r.j() == self.conv_to(), self.exact_to(r); }
impl<T, U: XFrom<T>> XInto<U> for T { open spec fn conv_to(self) -> J { U::conv(self) } open spec fn ok_to(self) -> bool { U::ok(self) } open spec fn exact_to(self, r: U) -> bool { U::exact(self, r) } fn x_into(self) -> (r: U) { U::x_from(self) } }
impl<T: XJ> XFrom<T> for T { open spec fn conv(v: T) -> J { v.j() } open spec fn ok(v: T) -> bool { true } open spec fn exact(v: T, r: T) -> bool { r == v } fn x_from(v: T) -> (r: T) { v } }
pub trait XIter: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn x_into_iter(self) -> (r: XIntoIter<Self::Item>) ensures r.left() == self.items(); }
impl<T> XIter for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } fn x_into_iter(self) -> (r: XIntoIter<T>) { x_into_iter(self) } }
pub trait XFromIter<T>: XJ { spec fn made(v: Seq<T>, r: Self) -> bool; fn x_from_iter<I: XIter<Item = T>>(v: I) -> (r: Self) ensures Self::made(v.items(), r); }
// vecmap::VecMap and indexmap::IndexMap
pub struct XMap<K, V> { pub entries: Vec<(K, V)> }
impl<K, V> XIter for XMap<K, V> { type Item = (K, V); open spec fn items(self) -> Seq<(K, V)> { self.entries@ } fn x_into_iter(self) -> (r: XIntoIter<(K, V)>) { x_into_iter(self.entries) } }
pub open spec fn text(j: J) -> Str { match j { J::Str(s) => s, _ => Seq::empty() } }
pub open spec fn jconv<U: XJ, T: XInto<U>>(s: Seq<T>) -> Seq<J> { Seq::new(s.len(), |i: int| XInto::<U>::conv_to(s[i])) }
pub open spec fn jconv2<A: XJ, B: XJ, K: XInto<A>, V: XInto<B>>(s: Seq<(K, V)>) -> Seq<(Str, J)> { Seq::new(s.len(), |i: int| (text(XInto::<A>::conv_to(s[i].0)), XInto::<B>::conv_to(s[i].1))) }
pub open spec fn js<U: XJ>(s: Seq<U>) -> Seq<J> { Seq::new(s.len(), |i: int| s[i].j()) }
pub open spec fn jpairs<K: XJ, V: XJ>(s: Seq<(K, V)>) -> Seq<(Str, J)> { Seq::new(s.len(), |i: int| (text(s[i].0.j()), s[i].1.j())) }
pub open spec fn oks<U: XJ, T: XInto<U>>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> XInto::<U>::ok_to(#[trigger] s[i]) }
pub open spec fn oks2<A: XJ, B: XJ, K: XInto<A>, V: XInto<B>>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> XInto::<A>::ok_to((#[trigger] s[i]).0) && XInto::<B>::ok_to(s[i].1) }
pub trait XColl<T>: Sized { spec fn made_of(v: Seq<T>, r: Self) -> bool; fn x_coll(v: Vec<T>) -> (r: Self) ensures Self::made_of(v@, r); }
impl<T> XColl<T> for Vec<T> { open spec fn made_of(v: Seq<T>, r: Self) -> bool { r@ == v } fn x_coll(v: Vec<T>) -> (r: Self) { v } }
// object keys of different texts are different keys, so entries whose keys differ in their texts are all kept
impl<V: XJ> XColl<(ObjectKey, V)> for XMap<ObjectKey, V> {
    open spec fn made_of(v: Seq<(ObjectKey, V)>, r: Self) -> bool { distinct(jpairs(v)) ==> r.entries@ == v }
    #[verifier::external_body] fn x_coll(v: Vec<(ObjectKey, V)>) -> (r: Self) { unimplemented!() }
}
impl<V: XJ> XColl<(String, V)> for XMap<String, V> {
    open spec fn made_of(v: Seq<(String, V)>, r: Self) -> bool { jpairs(r.entries@) == collect(jpairs(v)) }
    #[verifier::external_body] fn x_coll(v: Vec<(String, V)>) -> (r: Self) { unimplemented!() }
}
// ---- nodes -----------------------------------------------------------------------------------------------
pub open spec fn nn(n: JsonNode) -> N decreases n {
    match n { JsonNode::Map(m) => N::Map(nm(m)), JsonNode::Body(v) => N::Body(bodies(v@)), JsonNode::Expr(e) => N::Expr(je(e)) }
}
pub open spec fn bodies(v: Seq<Body>) -> Seq<J> { Seq::new(v.len(), |i: int| jbody(v[i])) }
pub open spec fn nm(m: XMap<String, JsonNode>) -> Seq<(Str, N)> decreases m { Seq::new(m.entries@.len(), |i: int| if 0 <= i < m.entries@.len() { (m.entries@[i].0@, nn(m.entries@[i].1)) } else { (Seq::empty(), N::Expr(J::Null)) }) }
pub open spec fn ns(s: Seq<(String, JsonNode)>) -> Seq<(Str, N)> { Seq::new(s.len(), |i: int| (s[i].0@, nn(s[i].1))) }
pub enum XEntry { Occupied(usize), Vacant(String) }
impl XMap<String, JsonNode> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures nm(r) == Seq::<(Str, N)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: JsonNode) -> (r: Option<JsonNode>) ensures nm(*final(self)) == put(nm(*old(self)), k@, nn(v)) { unimplemented!() }
    // entry(): the place of the key, or that there is none
    #[verifier::external_body] pub fn x_entry(&self, k: String) -> (r: XEntry) ensures (r is Occupied) == keyed(nm(*self), k@), r is Occupied ==> r->Occupied_0 == find(nm(*self), k@), r is Vacant ==> r->Vacant_0@ == k@ { unimplemented!() }
    #[verifier::external_body] pub fn x_take(&mut self, i: usize) -> (r: JsonNode)
        requires i < nm(*old(self)).len()
        ensures nn(r) == nm(*old(self))[i as int].1, nm(*final(self)).len() == nm(*old(self)).len(), forall|j: int| 0 <= j < nm(*old(self)).len() && j != i ==> nm(*final(self))[j] == nm(*old(self))[j], nm(*final(self))[i as int].0 == nm(*old(self))[i as int].0 { unimplemented!() }
    #[verifier::external_body] pub fn x_back(&mut self, i: usize, v: JsonNode)
        requires i < nm(*old(self)).len()
        ensures nm(*final(self)) == nm(*old(self)).update(i as int, (nm(*old(self))[i as int].0, nn(v))) { unimplemented!() }
    #[verifier::external_body] pub fn x_vacant(&mut self, k: String, v: JsonNode) requires !keyed(nm(*old(self)), k@) ensures nm(*final(self)) == nm(*old(self)).push((k@, nn(v))) { unimplemented!() }
    // std::iter::once(entry).collect()
    #[verifier::external_body] pub fn x_once(k: String, v: JsonNode) -> (r: Self) ensures nm(r) == seq![(k@, nn(v))] { unimplemented!() }
}
impl<T> XIntoIter<T> { #[verifier::external_body] pub fn x_collect(self) -> (r: Vec<T>) ensures r@ == self.left() { unimplemented!() } }
#[verifier::external_body] pub fn x_append<T>(l: &mut Vec<T>, r: &mut Vec<T>) ensures final(l)@ == old(l)@ + old(r)@, final(r)@ == Seq::<T>::empty() { l.append(r) }
#[verifier::external_body] pub fn x_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@.remove(i as int) { v.remove(i) }
pub fn x_list(m: XMap<String, JsonNode>) -> (r: Vec<(String, JsonNode)>) ensures r@ == m.entries@, ns(r@) == nm(m) { broadcast use x_nm; m.entries }
pub broadcast proof fn x_nm(m: XMap<String, JsonNode>) ensures #[trigger] nm(m) == ns(m.entries@) { assert(nm(m) =~= ns(m.entries@)); }
pub proof fn x_opairs(r: Expression, s: Seq<(Str, J)>) requires r is Object, jpairs(r->Object_0.entries@) == s ensures je(r) == J::Obj(collect(s)) {
    let o = r->Object_0;
    assert(jpairs(o.entries@) =~= jents(o));
}
pub proof fn x_arr(e: Expression) requires e is Array ensures je(e) == J::Arr(js(e->Array_0@)) { assert(je(e)->Arr_0 =~= js(e->Array_0@)); }
pub proof fn x_obj(e: Expression) requires e is Object ensures je(e) == J::Obj(collect(jpairs(e->Object_0.entries@))) { x_opairs(e, jpairs(e->Object_0.entries@)); }
pub proof fn x_body(b: Body) ensures jbody(b) == J::Obj(jmap(nodes_of(items(b.0@)))) {
    assert(bitems(b.0) =~= items(b.0@));
}
pub proof fn x_nodes(m: XMap<String, JsonNode>) requires wfm(nm(m))
    ensures oks2::<ObjectKey, Expression, String, JsonNode>(m.entries@), distinct(jconv2::<ObjectKey, Expression, String, JsonNode>(m.entries@)), collect(jconv2::<ObjectKey, Expression, String, JsonNode>(m.entries@)) == jmap(nm(m)) {
    let s = jconv2::<ObjectKey, Expression, String, JsonNode>(m.entries@);
    assert forall|i: int| 0 <= i < m.entries@.len() implies wf(nn((#[trigger] m.entries@[i]).1)) by { assert(wf(nm(m)[i].1)); }
    assert(s =~= jmap(nm(m)));
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i].0 != s[j].0 by { assert(nm(m)[i].0 != nm(m)[j].0); }
    collect_id(s);
}
// what is put together keeps its keys apart
pub proof fn wf_line(p: Seq<Str>, v: J) ensures wf(line(p, v)) decreases p.len() { if p.len() > 0 { wf_line(p.drop_first(), v); } }
pub proof fn wf_one(k: Str, n: N) requires wf(n) ensures wfm(seq![(k, n)]) { let m = seq![(k, n)]; assert forall|i: int| 0 <= i < m.len() implies wf((#[trigger] m[i]).1) by { assert(m[i].1 == n); } }
pub proof fn wf_merge(a: N, b: N) requires wf(a), wf(b) ensures wf(merge(a, b)) decreases b, 0nat { if a is Map && b is Map { wf_all(a->Map_0, b->Map_0); } }
pub proof fn wf_into(m: Seq<(Str, N)>, k: Str, n: N) requires wfm(m), wf(n) ensures wfm(merge_into(m, k, n)) decreases n, 1nat {
    find_range(m, k);
    if keyed(m, k) { assert(wf(m[find(m, k)].1)); wf_merge(m[find(m, k)].1, n); }
}
pub proof fn wf_all(m: Seq<(Str, N)>, r: Seq<(Str, N)>) requires wfm(m), wfm(r) ensures wfm(merge_all(m, r)) decreases r, 0nat {
    if r.len() > 0 { assert(wf(r[r.len() - 1].1)); let t = r.drop_last(); assert(wfm(t)) by { assert forall|i: int| 0 <= i < t.len() implies wf((#[trigger] t[i]).1) by { assert(t[i] == r[i]); } } wf_all(m, t); wf_into(merge_all(m, t), r.last().0, r.last().1); }
}
pub proof fn wf_nodes(s: Seq<Item>) ensures wfm(nodes_of(s)) decreases s.len() {
    if s.len() > 0 {
        wf_nodes(s.drop_last());
        let (m, i) = (nodes_of(s.drop_last()), s.last());
        if i.block { wf_line(i.path.drop_first(), i.v); wf_into(m, i.path[0], line(i.path.drop_first(), i.v)); } else { find_range(m, i.path[0]); put_distinct(m, i.path[0], N::Expr(i.v)); }
    }
}
"""


THEOREMS = r"""
// ---- what is found in the value of a body ----------------------------------------------------------------
pub open spec fn get<T>(m: Seq<(Str, T)>, k: Str) -> Option<T> { if keyed(m, k) { Some(m[find(m, k)].1) } else { None } }
pub open spec fn look(n: N, q: Seq<Str>) -> Option<N> decreases q.len() { if q.len() == 0 { Some(n) } else if n is Map && keyed(n->Map_0, q[0]) { look(n->Map_0[find(n->Map_0, q[0])].1, q.drop_first()) } else { None } }
pub open spec fn jlook(j: J, q: Seq<Str>) -> Option<J> decreases q.len() { if q.len() == 0 { Some(j) } else if j is Obj && keyed(j->Obj_0, q[0]) { jlook(j->Obj_0[find(j->Obj_0, q[0])].1, q.drop_first()) } else { None } }
pub open spec fn apart(p: Seq<Str>, q: Seq<Str>) -> bool decreases p.len() { p.len() > 0 && q.len() > 0 && (p[0] != q[0] || apart(p.drop_first(), q.drop_first())) }
// the bodies of the blocks with the identifier and the labels q, in order; an attribute of that name takes their place
pub open spec fn vals(s: Seq<Item>, q: Seq<Str>) -> Seq<J> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().block { if s.last().path == q { vals(s.drop_last(), q).push(s.last().v) } else { vals(s.drop_last(), q) } }
    else if s.last().path[0] == q[0] { Seq::empty() } else { vals(s.drop_last(), q) }
}
// no block whose identifier and labels go on where those of q end, or the other way round
pub open spec fn clear(s: Seq<Item>, q: Seq<Str>) -> bool decreases s.len() {
    s.len() == 0 || (if s.last().block { (s.last().path == q || apart(s.last().path, q)) && clear(s.drop_last(), q) } else { s.last().path[0] == q[0] || clear(s.drop_last(), q) })
}
pub proof fn find_unique<T>(m: Seq<(Str, T)>, k: Str, i: int) requires 0 <= i < m.len(), m[i].0 == k, forall|j: int| 0 <= j < i ==> m[j].0 != k ensures find(m, k) == i { find_range(m, k); }
pub proof fn find_none<T>(m: Seq<(Str, T)>, k: Str) requires forall|j: int| 0 <= j < m.len() ==> m[j].0 != k ensures find(m, k) == m.len() { find_range(m, k); }
pub proof fn get_update<T>(m: Seq<(Str, T)>, i: int, v: T, k: Str) requires distinct(m), 0 <= i < m.len() ensures get(m.update(i, (m[i].0, v)), k) == (if k == m[i].0 { Some(v) } else { get(m, k) }), distinct(m.update(i, (m[i].0, v))) {
    let u = m.update(i, (m[i].0, v));
    find_range(m, k); find_range(u, k);
    if keyed(m, k) { find_unique(u, k, find(m, k)); if k == m[i].0 { find_at(m, i); } } else { assert forall|j: int| 0 <= j < u.len() implies u[j].0 != k by { assert(m[j].0 != k); } find_none(u, k); }
}
pub proof fn get_push<T>(m: Seq<(Str, T)>, n: Str, v: T, k: Str) requires !keyed(m, n) ensures get(m.push((n, v)), k) == (if k == n { Some(v) } else { get(m, k) }) {
    let u = m.push((n, v)); find_range(m, k); find_range(m, n); find_range(u, k);
    if k == n { find_unique(u, k, m.len() as int); } else if keyed(m, k) { find_unique(u, k, find(m, k)); } else { find_none(u, k); }
}
pub proof fn get_put<T>(m: Seq<(Str, T)>, n: Str, v: T, k: Str) requires distinct(m) ensures get(put(m, n, v), k) == (if k == n { Some(v) } else { get(m, k) }) {
    find_range(m, n); if keyed(m, n) { get_update(m, find(m, n), v, k); } else { get_push(m, n, v, k); }
}
pub proof fn get_merge(m: Seq<(Str, N)>, n: Str, v: N, k: Str) requires distinct(m)
    ensures get(merge_into(m, n, v), k) == (if k == n { match get(m, n) { Some(x) => Some(merge(x, v)), None => Some(v) } } else { get(m, k) }) {
    find_range(m, n); if keyed(m, n) { get_update(m, find(m, n), merge(m[find(m, n)].1, v), k); } else { get_push(m, n, v, k); }
}
pub proof fn look_get(n: N, q: Seq<Str>) requires q.len() > 0 ensures look(n, q) == (if n is Map { match get(n->Map_0, q[0]) { Some(x) => look(x, q.drop_first()), None => None } } else { None }) { }
pub open spec fn bodies_at(o: Option<N>) -> Seq<J> { match o { Some(N::Body(l)) => l, _ => Seq::empty() } }
// putting a block next to what is there: its body comes after the bodies of the same labels, and nothing apart from it changes
pub proof fn line_found(p: Seq<Str>, v: J) ensures look(line(p, v), p) == Some(N::Body(seq![v])) decreases p.len() {
    if p.len() > 0 { line_found(p.drop_first(), v); let m = seq![(p[0], line(p.drop_first(), v))]; find_unique(m, p[0], 0); }
}
pub proof fn line_apart(p: Seq<Str>, v: J, q: Seq<Str>) requires apart(p, q) ensures look(line(p, v), q) is None decreases p.len() {
    let m = seq![(p[0], line(p.drop_first(), v))];
    if p[0] == q[0] { line_apart(p.drop_first(), v, q.drop_first()); find_unique(m, p[0], 0); } else { find_none(m, q[0]); }
}
pub proof fn one_entry(m: Seq<(Str, N)>, k: Str, n: N) ensures merge_all(m, seq![(k, n)]) == merge_into(m, k, n) {
    let r = seq![(k, n)]; assert(r.drop_last() =~= Seq::empty()); assert(merge_all(m, r.drop_last()) == m);
}
pub proof fn merge_same(n: N, p: Seq<Str>, v: J) requires wf(n) ensures look(merge(n, line(p, v)), p) == Some(N::Body(bodies_at(look(n, p)).push(v))) decreases p.len() {
    if p.len() == 0 { assert(Seq::<J>::empty().push(v) =~= seq![v]); if n is Body { assert(n->Body_0 + seq![v] =~= n->Body_0.push(v)); } }
    else if n is Map {
        let m = n->Map_0; let l = line(p.drop_first(), v);
        one_entry(m, p[0], l); get_merge(m, p[0], l, p[0]);
        look_get(n, p); look_get(merge(n, line(p, v)), p);
        if keyed(m, p[0]) { find_range(m, p[0]); assert(wf(m[find(m, p[0])].1)); merge_same(m[find(m, p[0])].1, p.drop_first(), v); }
        else { line_found(p.drop_first(), v); assert(Seq::<J>::empty().push(v) =~= seq![v]); }
    } else { line_found(p, v); assert(Seq::<J>::empty().push(v) =~= seq![v]); }
}
pub proof fn merge_apart(n: N, p: Seq<Str>, v: J, q: Seq<Str>) requires wf(n), apart(p, q) ensures look(merge(n, line(p, v)), q) == look(n, q) decreases p.len() {
    if n is Map {
        let m = n->Map_0; let l = line(p.drop_first(), v);
        one_entry(m, p[0], l); get_merge(m, p[0], l, q[0]);
        look_get(n, q); look_get(merge(n, line(p, v)), q);
        if p[0] == q[0] {
            if keyed(m, p[0]) { find_range(m, p[0]); assert(wf(m[find(m, p[0])].1)); merge_apart(m[find(m, p[0])].1, p.drop_first(), v, q.drop_first()); }
            else { line_apart(p.drop_first(), v, q.drop_first()); }
        }
    } else { line_apart(p, v, q); }
}
pub open spec fn named(s: Seq<Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).path.len() > 0 && (s[i].block || s[i].path.len() == 1) }
// a block adds to the object of the body what its line adds
pub proof fn add_block(m: Seq<(Str, N)>, i: Item) requires i.block, i.path.len() > 0 ensures N::Map(add(m, i)) == merge(N::Map(m), line(i.path, i.v)) { one_entry(m, i.path[0], line(i.path.drop_first(), i.v)); }
pub proof fn found(s: Seq<Item>, q: Seq<Str>) requires named(s), clear(s, q), q.len() > 0
    ensures vals(s, q).len() > 0 ==> look(N::Map(nodes_of(s)), q) == Some(N::Body(vals(s, q))),
        vals(s, q).len() == 0 ==> !(look(N::Map(nodes_of(s)), q) is Some && look(N::Map(nodes_of(s)), q)->Some_0 is Body),
    decreases s.len()
{
    if s.len() > 0 {
        let (t, i) = (s.drop_last(), s.last());
        assert(named(t)) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).path.len() > 0 && (t[j].block || t[j].path.len() == 1) by { assert(t[j] == s[j]); } }
        let m = nodes_of(t);
        wf_nodes(t);
        assert(s[s.len() - 1] == i);
        if i.block {
            found(t, q); add_block(m, i);
            if i.path == q { merge_same(N::Map(m), q, i.v); if vals(t, q).len() == 0 { assert(vals(t, q) =~= Seq::empty()); } } else { merge_apart(N::Map(m), i.path, i.v, q); }
        } else {
            get_put(m, i.path[0], N::Expr(i.v), q[0]);
            look_get(N::Map(nodes_of(s)), q); look_get(N::Map(m), q);
            if i.path[0] == q[0] { assert(vals(s, q).len() == 0); if q.len() > 1 { look_get(N::Expr(i.v), q.drop_first()); } } else { found(t, q); }
        }
    } else { look_get(N::Map(nodes_of(s)), q); find_none(nodes_of(s), q[0]); }
}
// an attribute is found under its name, unless a later structure has that name
pub open spec fn attr_at(s: Seq<Item>, i: int, k: Str) -> bool { 0 <= i < s.len() && !s[i].block && s[i].path[0] == k && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).path[0] != k }
pub proof fn attr_found(s: Seq<Item>, i: int, k: Str) requires named(s), attr_at(s, i, k) ensures get(nodes_of(s), k) == Some(N::Expr(s[i].v)) decreases s.len() {
    let (t, l) = (s.drop_last(), s.last());
    let m = nodes_of(t);
    wf_nodes(t);
    assert(s[s.len() - 1] == l);
    if i == s.len() - 1 { get_put(m, l.path[0], N::Expr(l.v), k); }
    else {
        assert(named(t)) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).path.len() > 0 && (t[j].block || t[j].path.len() == 1) by { assert(t[j] == s[j]); } }
        assert(attr_at(t, i, k)) by { assert(t[i] == s[i]); assert forall|j: int| i < j < t.len() implies (#[trigger] t[j]).path[0] != k by { assert(t[j] == s[j]); } }
        attr_found(t, i, k);
        if l.block { get_merge(m, l.path[0], line(l.path.drop_first(), l.v), k); } else { get_put(m, l.path[0], N::Expr(l.v), k); }
    }
}
// and no name comes from nowhere
pub proof fn none_new(s: Seq<Item>, k: Str) requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).path[0] != k ensures get(nodes_of(s), k) is None decreases s.len() {
    if s.len() > 0 {
        let (t, l) = (s.drop_last(), s.last());
        assert(s[s.len() - 1] == l);
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).path[0] != k by { assert(t[j] == s[j]); }
        none_new(t, k); wf_nodes(t);
        if l.block { get_merge(nodes_of(t), l.path[0], line(l.path.drop_first(), l.v), k); } else { get_put(nodes_of(t), l.path[0], N::Expr(l.v), k); }
    } else { find_none(nodes_of(s), k); }
}
// the same in the value
pub proof fn jfind(m: Seq<(Str, N)>, k: Str) ensures find(jmap(m), k) == find(m, k) {
    find_range(m, k); let u = jmap(m);
    if keyed(m, k) { assert forall|j: int| 0 <= j < find(m, k) implies u[j].0 != k by { assert(m[j].0 != k); } find_unique(u, k, find(m, k)); } else { assert forall|j: int| 0 <= j < u.len() implies u[j].0 != k by { assert(m[j].0 != k); } find_none(u, k); }
}
pub proof fn jlooked(n: N, q: Seq<Str>) requires look(n, q) is Some ensures jlook(jn(n), q) == Some(jn(look(n, q)->Some_0)) decreases q.len() {
    if q.len() > 0 { jfind(n->Map_0, q[0]); find_range(n->Map_0, q[0]); jlooked(n->Map_0[find(n->Map_0, q[0])].1, q.drop_first()); }
}
pub proof fn items_named(s: Seq<Structure>) ensures named(items(s)) { assert forall|i: int| 0 <= i < items(s).len() implies (#[trigger] items(s)[i]).path.len() > 0 && (items(s)[i].block || items(s)[i].path.len() == 1) by { assert(items(s)[i] == item(s[i])); } }
pub fn block_found(b: Body, q: Ghost<Seq<Str>>) -> (r: Value)
    requires q@.len() > 0, clear(items(b.0@), q@), vals(items(b.0@), q@).len() > 0
    ensures ({ let v = vals(items(b.0@), q@); jlook(jv(r), q@) == Some(if v.len() == 1 { v[0] } else { J::Arr(v) }) })
{
    proof { items_named(b.0@); found(items(b.0@), q@); jlooked(N::Map(nodes_of(items(b.0@))), q@); }
    Value::x_from(b)
}
pub fn attribute_found(b: Body, k: Ghost<Str>, i: Ghost<int>) -> (r: Value)
    requires attr_at(items(b.0@), i@, k@)
    ensures jlook(jv(r), seq![k@]) == Some(je(b.0@[i@]->Attribute_0.expr))
{
    proof {
        let s = items(b.0@); items_named(b.0@); attr_found(s, i@, k@);
        let n = N::Map(nodes_of(s)); look_get(n, seq![k@]); assert(s[i@] == item(b.0@[i@]));
        assert(look(N::Expr(s[i@].v), seq![k@].drop_first()) == Some(N::Expr(s[i@].v))); jlooked(n, seq![k@]);
    }
    Value::x_from(b)
}
pub fn none_invented(b: Body, k: Ghost<Str>) -> (r: Value)
    requires forall|j: int| 0 <= j < b.0@.len() ==> item(#[trigger] b.0@[j]).path[0] != k@
    ensures jlook(jv(r), seq![k@]) is None
{
    proof { let s = items(b.0@); assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).path[0] != k@ by { assert(s[j] == item(b.0@[j])); } none_new(s, k@); jfind(nodes_of(s), k@); }
    Value::x_from(b)
}
"""


def S(text, items):
    return re.sub(r"\bS\b", items, text)


def build(repo):
    files = {}

    def F(path):
        if path not in files:
            files[path] = File(f"{repo}/{path}")
        return files[path]

    fns, out = [], [PRELUDE]

    def item(path, kind, name):
        t = F(path).item(kind, name)
        t = re.sub(r"\b(Object|Map)\s*<", "XMap<", t)
        if kind == "struct":
            t = pub_fields(t) if "{" in t else "pub " + re.sub(r"\(\s*(?:pub(?:\([^)]*\))?\s+)?", "(pub ", t, count=1)
        else:
            t = "pub " + t
        out.append(re.sub(r"^pub pub(\(\w+\))?", "pub", t) + "\n")

    item(P + "structure/mod.rs", "enum", "Structure")
    item(P + "structure/attribute.rs", "struct", "Attribute")
    item(P + "structure/block.rs", "struct", "Block")
    item(P + "structure/block.rs", "enum", "BlockLabel")
    item(P + "structure/body.rs", "struct", "Body")
    item(P + "structure/json_spec.rs", "enum", "JsonNode")
    item(P + "expr/mod.rs", "enum", "Expression")
    item(P + "expr/mod.rs", "enum", "ObjectKey")
    item(P + "value/mod.rs", "enum", "Value")
    out.append(PRELUDE2)

    def common(f):
        libchain.mut_self(f)
        b = f.body
        b = re.sub(r"\.\s*to_string\(\)", ".x_to_string()", b)
        b = re.sub(r"\.\s*into\(\)", ".x_into()", b)
        b = re.sub(r"::from_iter\(", "::x_from_iter(", b)
        b = re.sub(r"\bInto::into\b", "XInto::x_into", b)
        b = re.sub(r"::from\b", "::x_from", b)
        b = re.sub(r"\bMap::", "XMap::", b)
        b = re.sub(r"\bformat::to_interpolated_string\b", "x_to_interpolated_string", b)
        if b != f.body:
            f.rewrites.append(f"{f.name}: into/from/collect/iterators as the traits of the recipe")
        f.body = b
        f.sig = re.sub(r"\bInto\s*<", "XInto<", f.sig)
        f.sig = re.sub(r"\bIntoIterator\b", "XIter", f.sig)
        f.sig = re.sub(r"\bMap\s*<", "XMap<", f.sig)
        return f

    def emit(f, impl, contract, vis="pub ", prep=None, after=None, sig=None):
        if sig:
            f.sig = sig
        if prep:
            prep(f)
        common(f)
        if after:
            after(f)
        f.spec(contract)
        f.vis, f.attrs = vis, SPIN
        fns.append(f)
        out.append(impl.replace("FN }", f"\n{f.render()}}}\n") if impl and "FN }" in impl else f"{impl} {{\n{f.render()}}}\n" if impl else f.render())

    def chain(f):
        """`.into_iter().map(..).collect()` as a loop, and what it is collected into"""
        libchain.chains(f, plain=True)
        f.body = re.sub(r"\bx_out0\s*\}", "XColl::x_coll(x_out0) }", f.body)
        f.body = re.sub(r"(\w+)\.\s*into_iter\(\)\s*\.\s*collect\(\)", r"XFromIter::x_from_iter(\1)", f.body)

    def frm(path, header, conv, ok="true", exact="true", prep=None, after=None):
        m = re.match(r"impl(<.*>)? From<(.*)> for (\w+)$", header)
        g, s, t = m.group(1) or "", m.group(2), m.group(3)
        f = F(path).fn("from", header)
        v = re.match(r"fn\s+from\s*\(\s*(?:mut\s+)?(\w+)\s*:", f.sig)
        if not v:
            raise Lost(f"{header}: unexpected signature")
        v = v.group(1)
        if header.startswith("impl<T> "):
            g = "<T: IntoJsonSpec>"
        g = g.replace("Into<", "XInto<")
        nm = re.sub(r"\W+", "_", f"from_{s}_for_{t}").strip("_")
        f.name, f.param = nm, v
        conv, ok, exact = re.sub(r"\bV\b", v, conv), re.sub(r"\bV\b", v, ok), re.sub(r"\bV\b", v, exact)
        f.body = re.sub(r"\bSelf\b", t, f.body)
        chain(f)
        m = "mut " if re.match(r"fn\s+from\s*\(\s*mut\b", f.sig) else ""
        emit(f, None, f"ensures {ok} ==> r.j() == {conv}, {exact}", prep=prep, after=after, sig=f"fn {nm}{g}({m}{v}: {s}) -> {t}")
        out.append(f"impl{g} XFrom<{s}> for {t} {{ open spec fn conv({v}: {s}) -> J {{ {conv} }} open spec fn ok({v}: {s}) -> bool {{ {ok} }} open spec fn exact({v}: {s}, r: Self) -> bool {{ {exact} }} #[verifier::external_body] fn x_from({v}: {s}) -> (r: Self) {{ {nm}({v}) }} }}\n")

    def gather(f, items, elem, inv, end, mark=""):
        f.body = f.body.replace("let mut x_out0 = Vec::new();", f"let mut x_out0: Vec<{elem}> = Vec::new();")
        f.before_loop(0, "let ghost mut x_n = 0int;")
        f.loop(0, f"invariant 0 <= x_n <= {items}.len(), x_out0@.len() == x_n, x_it0.left() == {items}.subrange(x_n, {items}.len() as int), {S(inv, items)}, ensures x_n == {items}.len()", end=f"proof {{ x_n = x_n + 1; assert(x_it0.left() =~= {items}.subrange(x_n, {items}.len() as int)); }}")
        if mark:
            f.body = f.body.replace("XColl::x_coll(x_out0)", S(mark, items) + " XColl::x_coll(x_out0)")
        f.body = "{ let x_r = " + f.body + "; proof { " + S(end, items) + " } x_r }"

    def from_iter(path, header, elem, made, inv, end, mark=""):
        """FromIterator: the loop over the elements, and the trait instances that call it"""
        m = re.match(r"impl<(.*)> FromIterator<(.*)> for (\w+)$", header)
        g, el, t = m.group(1).replace("Into<", "XInto<"), m.group(2), m.group(3)
        f = F(path).fn("from_iter", header)
        v = re.match(r"fn\s+from_iter\s*<.*?>\s*\(\s*(\w+)\s*:", f.sig)
        if not v:
            raise Lost(f"{header}: unexpected signature")
        v = v.group(1)
        f.name = re.sub(r"\W+", "_", f"{t}_from_{el}").strip("_")
        f.body = re.sub(r"\bSelf\b", t, f.body)
        chain(f)

        def after(f):
            gather(f, v + ".items()", elem, inv, end, mark)
        emit(f, None, f"ensures {S(made, v + '.items()')}", after=after, sig=f"fn {f.name}<{g}, XI: XIter<Item = {el}>>({v}: XI) -> {t}")
        md = S(made, "v")
        out.append(f"impl<{g}> XFromIter<{el}> for {t} {{ open spec fn made(v: Seq<{el}>, r: Self) -> bool {{ {md} }} #[verifier::external_body] fn x_from_iter<XI: XIter<Item = {el}>>(v: XI) -> (r: Self) {{ {f.name}(v) }} }}\n")

    def entries(f):
        """entry(): the place of the key; what is there is taken out, changed and put back"""
        f.rewrite("map.entry($k)", "map.x_entry($k)", "entry")
        f.rewrite("Entry::Occupied($o) => $p.into_mut().$m($a),", "XEntry::Occupied($o) => { let mut x_v = map.x_take($p); x_v.$m($a); map.x_back($p, x_v); }", "the occupied place")
        f.rewrite("Entry::Vacant($v)", "XEntry::Vacant($v)", "entry")
        f.rewrite("v.insert($x)", "map.x_vacant(v, $x)", "the vacant place")

    def merging(f):
        f.rewrite("$l.append($r_s)", "x_append($l, $r_s)", "Vec::append")
        f.at("start", "broadcast use x_nm; proof { assert forall|l: Seq<Body>, r: Seq<Body>| #[trigger] bodies(l + r) =~= bodies(l) + bodies(r) by {} }")
        libchain.for_loops(f)
        f.body = re.sub(r"= \((\w+)\)\.x_into_iter\(\);", r"= x_list(\1).x_into_iter();", f.body)
        f.before_loop(0, "let ghost x_all = x_it0.left(); let ghost x_m = nm(*lhs); let ghost mut x_n = 0int; proof { assert(nn(*old(self)) == N::Map(x_m)); }")
        f.loop(0, "invariant 0 <= x_n <= x_all.len(), x_it0.left() == x_all.subrange(x_n, x_all.len() as int), nn(*old(self)) == N::Map(x_m), nm(*lhs) == merge_all(x_m, ns(x_all).take(x_n)), ensures x_n == x_all.len()", end="proof { x_n = x_n + 1; assert(x_it0.left() =~= x_all.subrange(x_n, x_all.len() as int)); assert(ns(x_all).take(x_n).drop_last() =~= ns(x_all).take(x_n - 1)); }", after="proof { assert(ns(x_all).take(x_n) =~= ns(x_all)); assert(nn(other) == N::Map(ns(x_all))); assert(merge(N::Map(x_m), N::Map(ns(x_all))) == N::Map(nm(*lhs))); }")

    def node(f):
        p = f.param
        f.body = re.sub(r"\bx_from_iter\((\w+)\)", r"x_from_iter({ proof { if wf(nn(x_v)) { x_nodes(\1); } } \1 })", f.body)
        f.rewrite("$v.remove($i)", "x_remove(&mut $v, $i)", "Vec::remove", must=False)
        f.at("start", f"let ghost x_v = {p};")
        f.body = "{ let x_r = " + f.body + "; proof { if x_v is Body { let v = x_v->Body_0@; assert forall|i: int| 0 <= i < v.len() implies jbody(#[trigger] v[i]) == J::Obj(jmap(nodes_of(items(v[i].0@)))) by { x_body(v[i]); } assert(jconv::<Expression, Body>(v) =~= bodies(v)); } } x_r }"

    def body(f):
        """`.fold(init, |acc, x| ..)` over the structures as a loop"""
        toks = rx.lex(f.body)
        i = next((i for i in range(1, len(toks) - 2) if toks[i].s == "." and toks[i + 1].s == "fold" and toks[i + 2].s == "("), None)
        if i is None:
            raise Lost("no fold over the structures")
        args, e = libchain.split_args(f.body, toks, i + 2)
        s = libchain.receiver(toks, i)
        if re.sub(r"\s+", "", f.body[toks[s].a:toks[i - 1].b]) != "self.into_iter()":
            raise Lost("fold over something else")
        params, b = libchain.closure(args[1])
        if re.search(r"\?|\breturn\b", b):
            raise Lost("closure body leaves the closure")
        out = f"{{ let mut x_acc = {args[0]}; let mut x_it0 = x_into_iter(self.0); while let Some({params[1]}) = x_it0.next() {{ x_acc = {{ let {params[0]} = x_acc; {b} }}; }} x_acc }}"
        f.rewrites.append("into_json_nodes: `self.into_iter().fold(..)` as a while loop")
        f.body = f.body[:toks[s].a] + out + f.body[toks[e].b:]
        f.body = re.sub(r"\bin\s+(\w+\.into_json_nodes\(\))\s*\{", r"in x_list(\1).into_iter() {", f.body)
        f.at("start", "broadcast use x_nm;")
        libchain.for_loops(f, first=1)
        f.before_loop(0, "let ghost x_s = items(self.0@); let ghost mut x_n = 0int;")
        f.loop(0, "invariant 0 <= x_n <= self.0@.len(), x_s == items(self.0@), x_it0.left() == self.0@.subrange(x_n, self.0@.len() as int), nm(x_acc) == nodes_of(x_s.take(x_n)), ensures x_n == self.0@.len()",
               start="let ghost x_o = nm(x_acc);",
               end="proof { x_n = x_n + 1; assert(x_it0.left() =~= self.0@.subrange(x_n, self.0@.len() as int)); assert(x_s.take(x_n).drop_last() =~= x_s.take(x_n - 1)); assert(x_s.take(x_n).last() == item(self.0@[x_n - 1])); let x_i = item(self.0@[x_n - 1]); assert(x_i.block ==> x_i.path.drop_first() =~= labels(self.0@[x_n - 1]->Block_0.labels@)); assert(nm(x_acc) == add(x_o, x_i)); }",
               after="proof { assert(x_s.take(x_n) =~= x_s); wf_nodes(x_s); }")
        f.before_loop(1, "let ghost x_all = x_it1.left(); let ghost x_m = nm(map); let ghost mut x_j = 0int;")
        f.loop(1, "invariant 0 <= x_j <= x_all.len(), x_it1.left() == x_all.subrange(x_j, x_all.len() as int), nm(map) == merge_all(x_m, ns(x_all).take(x_j)), ensures x_j == x_all.len()",
               end="proof { x_j = x_j + 1; assert(x_it1.left() =~= x_all.subrange(x_j, x_all.len() as int)); assert(ns(x_all).take(x_j).drop_last() =~= ns(x_all).take(x_j - 1)); }",
               after="proof { let x_q = ns(x_all); assert(x_q.take(x_j) =~= x_q); assert(x_q.len() == 1); assert(x_q.drop_last() =~= Seq::empty()); assert(merge_all(x_m, x_q) == merge_into(merge_all(x_m, x_q.drop_last()), x_q[0].0, x_q[0].1)); }")

    def block(f):
        f.rewrite("labels.collect()", "labels.x_collect()", "what is left of the labels", must=False)
        f.rewrite("std::iter::once(($k_s, $v_s)).collect()", "XMap::x_once($k_s, $v_s)", "a map of one entry")
        f.body = re.sub(r"\.\s*into_iter\(\)", ".x_into_iter()", f.body)
        f.at("start", "proof { x_body(self.body); wf_line(labels(self.labels@), jbody(self.body)); let l = self.labels@; if l.len() > 0 { assert(labels(l).drop_first() =~= labels(l.drop_first())); } assert forall|s: Seq<Body>| s.len() == 1 implies #[trigger] bodies(s) =~= seq![jbody(s[0])] by {} wf_one(id_text(self.identifier), line(labels(l), jbody(self.body))); }")

    def at(text):
        return lambda f: f.at("start", text)

    E, V, J = P + "expr/mod.rs", P + "value/", P + "structure/json_spec.rs"
    frm(E, "impl From<String> for Expression", "J::Str(V@)", exact="r is String")
    frm(V + "from.rs", "impl From<String> for Value", "J::Str(V@)")
    # ObjectKey: From<T: Into<Expression>>, of a text
    f = F(E).fn("from", "impl<T> From<T> for ObjectKey")
    emit(f, None, "ensures okey(r) == value@", sig="fn from_String_for_ObjectKey(value: String) -> ObjectKey")
    out.append("impl XFrom<String> for ObjectKey { open spec fn conv(v: String) -> J { J::Str(v@) } open spec fn ok(v: String) -> bool { true } open spec fn exact(v: String, r: Self) -> bool { true } #[verifier::external_body] fn x_from(v: String) -> (r: Self) { from_String_for_ObjectKey(v) } }\n")
    frm(E, "impl From<ObjectKey> for String", "J::Str(okey(V))")
    out.append("impl ObjectKey { #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) ensures r@ == okey(*self) { unimplemented!() } }\n")
    # lists and maps of expressions and values
    def lists(t, j):
        return (f"oks::<{t}, T>(S) ==> r.j() == J::Arr(jconv::<{t}, T>(S))",
                f"oks::<{t}, T>(S) ==> forall|i: int| 0 <= i < x_n ==> {j}(#[trigger] x_out0@[i]) == XInto::<{t}>::conv_to(S[i])",
                f"if oks::<{t}, T>(S) {{ assert({j}(x_r)->Arr_0 =~= jconv::<{t}, T>(S)); }}")
    from_iter(E, "impl<T: Into<Expression>> FromIterator<T> for Expression", "Expression", *lists("Expression", "je"))
    l = lists("Expression", "je")
    frm(E, "impl<T: Into<Expression>> From<Vec<T>> for Expression", "J::Arr(jconv::<Expression, T>(V@))", ok="oks::<Expression, T>(V@)", after=lambda f: gather(f, "f@", "Expression", l[1], l[2]))
    from_iter(V + "from.rs", "impl<T: Into<Value>> FromIterator<T> for Value", "Value", *lists("Value", "jv"))
    def pairs(t, k, key, j):
        ok = f"oks2::<{k}, {t}, K, V>(S)" + (f" && distinct(jconv2::<{k}, {t}, K, V>(S))" if k == "ObjectKey" else "")
        return (f"{ok} ==> r.j() == J::Obj(collect(jconv2::<{k}, {t}, K, V>(S)))",
                f"oks2::<{k}, {t}, K, V>(S) ==> forall|i: int| 0 <= i < x_n ==> {key}((#[trigger] x_out0@[i]).0) == text(XInto::<{k}>::conv_to(S[i].0)) && {j}(x_out0@[i].1) == XInto::<{t}>::conv_to(S[i].1)",
                f"if {ok} {{ let s = jconv2::<{k}, {t}, K, V>(S); " + ("collect_id(s); " if k == "ObjectKey" else "") + "{LAST} }")
    po = pairs("Expression", "ObjectKey", "okey", "je")
    from_iter(E, "impl<K: Into<ObjectKey>, V: Into<Expression>> FromIterator<(K, V)> for Expression", "(ObjectKey, Expression)", po[0], po[1], po[2].replace("{LAST}", "x_opairs(x_r, s); "), mark="let ghost x_v = x_out0@; proof { if OK { assert(jpairs(x_v) =~= jconv2::<ObjectKey, Expression, K, V>(S)); } }".replace("OK", "oks2::<ObjectKey, Expression, K, V>(S)"))
    pv = pairs("Value", "String", "XS", "jv")
    pv = [x.replace("XS((#[trigger] x_out0@[i]).0)", "(#[trigger] x_out0@[i]).0@") for x in pv]
    from_iter(V + "from.rs", "impl<K: Into<String>, V: Into<Value>> FromIterator<(K, V)> for Value", "(String, Value)", pv[0], pv[1], pv[2].replace("{LAST}", "assert(jv(x_r)->Obj_0 =~= jpairs(x_r->Object_0.entries@)); "), mark="let ghost x_v = x_out0@; proof { if OK { assert(jpairs(x_v) =~= jconv2::<String, Value, K, V>(S)); } }".replace("OK", "oks2::<String, Value, K, V>(S)"))
    # the value of an expression
    frm(E, "impl From<Expression> for Value", "je(V)", after=lambda f: f.at("start", f"proof {{ if {f.param} is Array {{ x_arr({f.param}); assert(jconv::<Value, Expression>({f.param}->Array_0@) =~= js({f.param}->Array_0@)); }} if {f.param} is Object {{ x_obj({f.param}); assert(jconv2::<String, Value, ObjectKey, Expression>({f.param}->Object_0.entries@) =~= jpairs({f.param}->Object_0.entries@)); }} }}"))
    # bodies and blocks
    f = F(P + "structure/block.rs").fn("into_inner", "impl BlockLabel")
    emit(f, "impl BlockLabel", "ensures r@ == label(self)")
    f = F(J).fn("into_json_spec", "pub(crate) trait IntoJsonSpec: Sized")
    common(f)
    f.spec("ensures je(r) == J::Obj(jmap(self.nodes()))")
    f.body = f.body.replace("self.into_json_nodes()", "{ let x_m = self.into_json_nodes(); proof { x_nodes(x_m); } x_m }")
    f.attrs = SPIN
    fns.append(f)
    out.append("pub trait IntoJsonSpec: Sized {\n    spec fn nodes(self) -> Seq<(Str, N)>;\n    fn into_json_nodes(self) -> (r: XMap<String, JsonNode>) ensures nm(r) == self.nodes(), wfm(self.nodes());\n" + f.render() + "}\n")
    for to in "Expression", "Value":
        frm(J, f"impl<T> From<T> for {to}", "J::Obj(jmap(V.nodes()))")
    frm(J, "impl From<JsonNode> for Expression", "jn(nn(V))", ok="wf(nn(V))", after=node)
    f = F(J).fn("into_json_nodes", "impl IntoJsonSpec for Body")
    emit(f, "impl IntoJsonSpec for Body { open spec fn nodes(self) -> Seq<(Str, N)> { nodes_of(items(self.0@)) } FN }", "ensures nm(r) == nodes_of(items(self.0@)), wfm(nm(r))", prep=body, vis="")
    f = F(J).fn("into_json_nodes", "impl IntoJsonSpec for Block")
    emit(f, "impl IntoJsonSpec for Block { open spec fn nodes(self) -> Seq<(Str, N)> { seq![(id_text(self.identifier), line(labels(self.labels@), jbody(self.body)))] } FN }", "ensures nm(r) == seq![(id_text(self.identifier), line(labels(self.labels@), jbody(self.body)))], wfm(nm(r))", prep=block, vis="")
    f = F(J).fn("deep_merge_into", "impl JsonNode")
    emit(f, "impl JsonNode", "ensures nm(*final(map)) == merge_into(nm(*old(map)), key@, nn(self))", prep=entries)
    f = F(J).fn("deep_merge", "impl JsonNode")
    emit(f, "impl JsonNode", "ensures nn(*final(self)) == merge(nn(*old(self)), nn(other))", prep=merging)
    out.append(THEOREMS)
    return out, fns
