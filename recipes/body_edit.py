r"""C08: the editable body (crates/hcl-edit/src/structure/body.rs and the structures it holds)."""
import re
import rx
import libchain
from libeval import pub_fields
NAME = "body_edit"
USES = "use vstd::seq::*;\nuse vstd::string::*;\nuse std::ops::Range;\n"
D = "crates/hcl-edit/src/structure/"

PRELUDE = libchain.PRELUDE + r"""
global size_of usize == 8;
// what the edits do not look into
#[verifier::external_body] pub struct Decor { e: Box<u8> }
impl Decor { pub uninterp spec fn x_none(&self) -> bool; }
#[verifier::external_body] pub struct RawString { e: Box<u8> }
#[verifier::external_body] pub struct Expression { e: Box<u8> }
#[verifier::external_body] pub struct BlockLabel { e: Box<u8> }
#[verifier::external_body] pub struct Ident { e: Box<u8> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Decorated<T> { t: T }
pub uninterp spec fn id_text(i: Decorated<Ident>) -> Seq<char>;
impl Decorated<Ident> { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == id_text(*self) { unimplemented!() } }
#[verifier::external_body] pub fn x_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub struct XBody { e: Box<u8> }   // Box<Body> of a block
// a boxed lazy iterator: what it yields
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct XBoxed<T> { it: std::vec::IntoIter<T> }
impl<T> XBoxed<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first(),
    { self.it.next() }
}
#[verifier::external_body] pub fn x_boxed<T>(v: Vec<T>) -> (r: XBoxed<T>) ensures r.left() == v@ { XBoxed { it: v.into_iter() } }
#[verifier::external_body] pub fn x_refs<'a, T>(v: &'a Vec<T>) -> (r: XBoxed<&'a T>) ensures r.left().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.left()[i]) == v@[i] { unimplemented!() }
pub fn x_ok<T, E>(r: Result<T, E>) -> (o: Option<T>) ensures o == (match r { Ok(t) => Some(t), Err(_) => None }) { match r { Ok(t) => Some(t), Err(_) => None } }
impl<T> XIntoIter<T> {
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= isize::MAX { self.it.size_hint() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn x_into_iter(self) -> (r: Self) ensures r == self { self }
}
#[verifier::external_body] pub fn x_reserve<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
"""

SPEC = r"""
// ---- the plain list ------------------------------------------------------------------------------------
pub open spec fn is_attr(s: Structure, k: Seq<char>) -> bool { s is Attribute && id_text(s->Attribute_0.key) == k }
pub open spec fn is_blk(s: Structure, k: Seq<char>) -> bool { s is Block && id_text(s->Block_0.ident) == k }
// the attribute with a key
pub open spec fn attr(ss: Seq<Structure>, k: Seq<char>) -> Option<Attribute> decreases ss.len() {
    if ss.len() == 0 { None } else if is_attr(ss[0], k) { Some(ss[0]->Attribute_0) } else { attr(ss.drop_first(), k) }
}
pub open spec fn without_attr(ss: Seq<Structure>, k: Seq<char>) -> Seq<Structure> decreases ss.len() {
    if ss.len() == 0 { ss } else if is_attr(ss[0], k) { ss.drop_first() } else { seq![ss[0]] + without_attr(ss.drop_first(), k) }
}
// the blocks with an identifier, and the rest
pub open spec fn blks(ss: Seq<Structure>, k: Seq<char>) -> Seq<Block> decreases ss.len() {
    if ss.len() == 0 { seq![] } else if is_blk(ss[0], k) { seq![ss[0]->Block_0] + blks(ss.drop_first(), k) } else { blks(ss.drop_first(), k) }
}
pub open spec fn without(ss: Seq<Structure>, k: Seq<char>) -> Seq<Structure> decreases ss.len() {
    if ss.len() == 0 { seq![] } else if is_blk(ss[0], k) { without(ss.drop_first(), k) } else { seq![ss[0]] + without(ss.drop_first(), k) }
}
pub open spec fn attrs(ss: Seq<Structure>) -> Seq<Attribute> decreases ss.len() {
    if ss.len() == 0 { seq![] } else if ss[0] is Attribute { seq![ss[0]->Attribute_0] + attrs(ss.drop_first()) } else { attrs(ss.drop_first()) }
}
pub open spec fn all_blks(ss: Seq<Structure>) -> Seq<Block> decreases ss.len() {
    if ss.len() == 0 { seq![] } else if ss[0] is Block { seq![ss[0]->Block_0] + all_blks(ss.drop_first()) } else { all_blks(ss.drop_first()) }
}
pub open spec fn refused(ss: Seq<Structure>, s: Structure) -> bool { s is Attribute && attr(ss, id_text(s->Attribute_0.key)) is Some }
pub open spec fn pushed(ss: Seq<Structure>, s: Structure) -> Seq<Structure> { if refused(ss, s) { ss } else { ss.push(s) } }
pub open spec fn inserted(ss: Seq<Structure>, i: int, s: Structure) -> Seq<Structure> { if refused(ss, s) { ss } else { ss.insert(i, s) } }
pub open spec fn extended(ss: Seq<Structure>, t: Seq<Structure>) -> Seq<Structure> decreases t.len() { if t.len() == 0 { ss } else { extended(pushed(ss, t[0]), t.drop_first()) } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|r: &T| *r) }
// no two attributes have the same key
pub open spec fn distinct(ss: Seq<Structure>) -> bool { forall|i: int, j: int| 0 <= i < j < ss.len() && (#[trigger] ss[i]) is Attribute && (#[trigger] ss[j]) is Attribute ==> id_text(ss[i]->Attribute_0.key) != id_text(ss[j]->Attribute_0.key) }
pub proof fn attr_is(ss: Seq<Structure>, k: Seq<char>)
    ensures attr(ss, k) is None ==> forall|i: int| 0 <= i < ss.len() ==> !is_attr(#[trigger] ss[i], k),
        attr(ss, k) is Some ==> exists|i: int| 0 <= i < ss.len() && is_attr(#[trigger] ss[i], k) && attr(ss, k) == Some(ss[i]->Attribute_0),
        distinct(ss) ==> forall|i: int| 0 <= i < ss.len() && is_attr(#[trigger] ss[i], k) ==> attr(ss, k) == Some(ss[i]->Attribute_0),
    decreases ss.len()
{
    if ss.len() > 0 {
        let t = ss.drop_first();
        attr_is(t, k);
        if is_attr(ss[0], k) { if distinct(ss) { assert forall|i: int| 0 <= i < ss.len() && is_attr(#[trigger] ss[i], k) implies attr(ss, k) == Some(ss[i]->Attribute_0) by { if i > 0 { assert(ss[0] is Attribute && ss[i] is Attribute); } } } }
        else {
            assert forall|i: int| 0 <= i < ss.len() && is_attr(#[trigger] ss[i], k) implies attr(t, k) is Some by { if i > 0 { assert(t[i - 1] == ss[i]); } }
            if attr(t, k) is Some { let i = choose|i: int| 0 <= i < t.len() && is_attr(#[trigger] t[i], k) && attr(t, k) == Some(t[i]->Attribute_0); assert(ss[i + 1] == t[i]); }
            if distinct(ss) { assert(distinct(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() && (#[trigger] t[i]) is Attribute && (#[trigger] t[j]) is Attribute implies id_text(t[i]->Attribute_0.key) != id_text(t[j]->Attribute_0.key) by { assert(ss[i + 1] == t[i] && ss[j + 1] == t[j]); } }
                assert forall|i: int| 0 <= i < ss.len() && is_attr(#[trigger] ss[i], k) implies attr(ss, k) == Some(ss[i]->Attribute_0) by { if i > 0 { assert(t[i - 1] == ss[i]); } } }
        }
    }
}
pub proof fn attr_at(ss: Seq<Structure>, k: Seq<char>, i: int)
    requires 0 <= i < ss.len(), is_attr(ss[i], k), forall|j: int| 0 <= j < i ==> !is_attr(#[trigger] ss[j], k)
    ensures attr(ss, k) == Some(ss[i]->Attribute_0), without_attr(ss, k) == ss.remove(i)
    decreases ss.len()
{
    if i > 0 {
        let t = ss.drop_first();
        assert(!is_attr(ss[0], k));
        assert forall|j: int| 0 <= j < i - 1 implies !is_attr(#[trigger] t[j], k) by { assert(t[j] == ss[j + 1]); }
        attr_at(t, k, i - 1);
        assert(ss.remove(i) =~= seq![ss[0]] + t.remove(i - 1));
    } else { assert(ss.remove(0) =~= ss.drop_first()); }
}
pub proof fn no_attr(ss: Seq<Structure>, k: Seq<char>)
    requires forall|j: int| 0 <= j < ss.len() ==> !is_attr(#[trigger] ss[j], k)
    ensures attr(ss, k) is None, without_attr(ss, k) == ss
    decreases ss.len()
{
    if ss.len() > 0 { let t = ss.drop_first(); assert(!is_attr(ss[0], k)); assert forall|j: int| 0 <= j < t.len() implies !is_attr(#[trigger] t[j], k) by { assert(t[j] == ss[j + 1]); } no_attr(t, k); assert(seq![ss[0]] + t =~= ss); }
}
pub proof fn blk_at(ss: Seq<Structure>, k: Seq<char>, i: int)
    requires 0 <= i < ss.len(), is_blk(ss[i], k), forall|j: int| 0 <= j < i ==> !is_blk(#[trigger] ss[j], k)
    ensures blks(ss, k) == seq![ss[i]->Block_0] + blks(ss.remove(i), k), without(ss.remove(i), k) == without(ss, k)
    decreases ss.len()
{
    let t = ss.drop_first();
    if i > 0 {
        assert(!is_blk(ss[0], k));
        assert forall|j: int| 0 <= j < i - 1 implies !is_blk(#[trigger] t[j], k) by { assert(t[j] == ss[j + 1]); }
        blk_at(t, k, i - 1);
        assert(ss.remove(i).drop_first() =~= t.remove(i - 1));
        assert(ss.remove(i)[0] == ss[0]);
    } else { assert(ss.remove(0) =~= t); }
}
pub proof fn no_blk(ss: Seq<Structure>, k: Seq<char>)
    requires forall|j: int| 0 <= j < ss.len() ==> !is_blk(#[trigger] ss[j], k)
    ensures blks(ss, k).len() == 0, without(ss, k) == ss
    decreases ss.len()
{
    if ss.len() > 0 { let t = ss.drop_first(); assert(!is_blk(ss[0], k)); assert forall|j: int| 0 <= j < t.len() implies !is_blk(#[trigger] t[j], k) by { assert(t[j] == ss[j + 1]); } no_blk(t, k); assert(seq![ss[0]] + t =~= ss); } else { assert(without(ss, k) =~= ss); }
}
pub proof fn stays_distinct(ss: Seq<Structure>, i: int, s: Structure)
    requires distinct(ss), 0 <= i <= ss.len()
    ensures distinct(inserted(ss, i, s)), distinct(pushed(ss, s))
{
    if !refused(ss, s) {
        if s is Attribute { attr_is(ss, id_text(s->Attribute_0.key)); }
        let r = ss.insert(i, s);
        assert forall|a: int, b: int| 0 <= a < b < r.len() && (#[trigger] r[a]) is Attribute && (#[trigger] r[b]) is Attribute implies id_text(r[a]->Attribute_0.key) != id_text(r[b]->Attribute_0.key) by {
            let a0 = if a < i { a } else { a - 1 }; let b0 = if b < i { b } else { b - 1 };
            if a != i { assert(r[a] == ss[a0]); } if b != i { assert(r[b] == ss[b0]); }
            if a == i { assert(!is_attr(ss[b0], id_text(s->Attribute_0.key))); } else if b == i { assert(!is_attr(ss[a0], id_text(s->Attribute_0.key))); }
        }
        let q = ss.push(s);
        assert forall|a: int, b: int| 0 <= a < b < q.len() && (#[trigger] q[a]) is Attribute && (#[trigger] q[b]) is Attribute implies id_text(q[a]->Attribute_0.key) != id_text(q[b]->Attribute_0.key) by {
            assert(q[a] == ss[a]); if b < ss.len() { assert(q[b] == ss[b]); } else { assert(!is_attr(ss[a], id_text(s->Attribute_0.key))); }
        }
    }
}
pub proof fn extended_distinct(ss: Seq<Structure>, t: Seq<Structure>) requires distinct(ss) ensures distinct(extended(ss, t)) decreases t.len()
{ if t.len() > 0 { stays_distinct(ss, 0, t[0]); extended_distinct(pushed(ss, t[0]), t.drop_first()); } }
"""


def build(repo):
    body, mod, at, bl = (rx.File(f"{repo}/{D}{n}.rs") for n in ("body", "mod", "attribute", "block"))
    out, fns = [PRELUDE], []

    def types(f, found=None):
        for a, b in (("impl Into<Structure>", "Structure"), ("impl Into<Attribute>", "Attribute"), ("impl Into<Block>", "Block"),
                     ("IntoAttributes", "XBoxed<Attribute>"), ("Attributes<'_>", "XBoxed<&Attribute>"), ("IntoBlocks", "XBoxed<Block>"), ("Blocks<'_>", "XBoxed<&Block>"), ("Blocks<'a>", "XBoxed<&'a Block>"),
                     ("Iter<'_>", "XBoxed<&Structure>"), ("Self::IntoIter", "XBoxed<Structure>")):
            f.sig_rewrite(a, b, must=False)
        f.rewrite("self.key.as_str() == $k", "x_eq(self.key.as_str(), $k)", "str equality", must=False)
        f.rewrite("self.ident.as_str() == $k", "x_eq(self.ident.as_str(), $k)", "str equality", must=False)
        f.body = re.sub(r"\(&(\w+)\.(key|ident)\)", r"(\1.\2.as_str())", f.body)
        f.rewrite("$s.into()", "$s", "the conversion into the structure is made by the caller", must=False)
        libchain.mut_self(f)
        libchain.pipes(f)
        if found:
            f.body = f.body.replace("let mut x_r0 = None;", f"let mut x_r0: Option<{found}> = None;")
        libchain.chains(f, plain=True, first=f.body.count("let mut x_i"))
        libchain.options(f)
        libchain.methods(f, {"ok": "x_ok({r})"})
        f.body = re.sub(r"(^|[;{}]\s*)_ = ", r"\1let _ = ", f.body)
        f.rewrite("Box::new(self.structures.iter())", "x_refs(&self.structures)", "a boxed iterator is what it yields", must=False)
        f.rewrite("Box::new(self.structures.into_iter())", "x_boxed(self.structures)", "a boxed iterator is what it yields", must=False)
        f.body = f.body.replace("(self.structures).x_into_iter()", "x_into_iter(self.structures)")
        return f

    def take(impl, f, contract, ret="r"):
        f.vis = "pub "
        f.spec(contract, ret)
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n")
    out.append(pub_fields(at.item("struct", "Attribute")))
    out.append(pub_fields(bl.item("struct", "Block")).replace("body: Body", "body: XBody"))
    x = mod.item("enum", "Structure")
    out.append(x if x.startswith("pub ") else "pub " + x)
    out.append(pub_fields(body.item("struct", "Body")))
    out.append(SPEC)
    out.append("""// derive(Default)
impl Body { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.structures@.len() == 0, r.decor.x_none(), r.span is None, !r.prefer_oneline, !r.prefer_omit_trailing_newline { unimplemented!() } }
""")
    S = "impl Structure"
    A, B = "self is Attribute", "self is Block"
    take(S, mod.fn("is_attribute", S), f"ensures r == ({A})")
    take(S, mod.fn("is_block", S), f"ensures r == ({B})")
    for nm, v in (("attribute", "Attribute"), ("block", "Block")):
        take(S, mod.fn("into_" + nm, S), f"ensures self is {v} ==> r == Ok::<{v}, Structure>(self->{v}_0), !(self is {v}) ==> r == Err::<{v}, Structure>(self)")
        take(S, mod.fn("as_" + nm, S), f"ensures self is {v} ==> r is Some && *r->Some_0 == self->{v}_0, !(self is {v}) ==> r is None")
        f = mod.fn("from", f"impl From<{v}> for Structure")
        f.name = "x_from_" + nm
        f.sig = f.sig.replace("fn from", "fn x_from_" + nm)
        take(S, f, f"ensures r is {v}, r->{v}_0 == value")
    take("impl Attribute", types(at.fn("has_key", "impl Attribute")), "ensures r == (id_text(self.key) == key@)")
    take("impl Block", types(bl.fn("has_ident", "impl Block")), "ensures r == (id_text(self.ident) == ident@)")
    I = "impl Body"
    SS, OLD, NEW = "self.structures@", "old(self).structures@", "final(self).structures@"
    KEEP = ", final(self).prefer_oneline == old(self).prefer_oneline, final(self).prefer_omit_trailing_newline == old(self).prefer_omit_trailing_newline, final(self).decor == old(self).decor, final(self).span == old(self).span"
    take(I, types(body.fn("is_empty", I)), f"ensures r == ({SS}.len() == 0)")
    take(I, types(body.fn("len", I)), f"ensures r == {SS}.len()")
    take(I, types(body.fn("clear", I)), f"ensures {NEW}.len() == 0" + KEEP)
    take(I, types(body.fn("get", I)), f"ensures index < {SS}.len() ==> r is Some && *r->Some_0 == {SS}[index as int], index >= {SS}.len() ==> r is None")
    STEP = "proof { assert(%s.skip(x_i0 as int).drop_first() =~= %s.skip(x_i0 + 1)); }" % (SS, SS)
    f = types(body.fn("get_attribute", I), "&Attribute")
    f.loop(0, f"invariant_except_break x_r0 is None, attr({SS}.skip(x_i0 as int), key@) == attr({SS}, key@), x_i0 <= {SS}.len() ensures x_r0 is Some == attr({SS}, key@) is Some, x_r0 is Some ==> *x_r0->Some_0 == attr({SS}, key@)->Some_0 decreases {SS}.len() - x_i0",
           start=STEP, after="")
    f.before_loop(0, f"proof {{ assert({SS}.skip(0) =~= {SS}); assert({SS}.skip({SS}.len() as int) =~= Seq::<Structure>::empty()); }}")
    take(I, f, f"ensures r is Some == attr({SS}, key@) is Some, r is Some ==> *r->Some_0 == attr({SS}, key@)->Some_0")
    take(I, types(body.fn("has_attribute", I)), f"ensures r == attr({SS}, key@) is Some")

    def collects(nm, spec, contract):
        f = types(body.fn(nm, I))
        f.loop(0, f"invariant x_i0 <= {SS}.len(), derefs(x_out0@) + {spec.replace('SS', SS + '.skip(x_i0 as int)')} == {spec.replace('SS', SS)} decreases {SS}.len() - x_i0",
               start=STEP + f" let ghost x_o = derefs(x_out0@); let ghost x_rest = {spec.replace('SS', SS + '.skip(x_i0 + 1)')};", end="proof { if x_out0@.len() > x_o.len() { assert(derefs(x_out0@) =~= x_o.push(*x_out0@.last())); assert(x_o + (seq![*x_out0@.last()] + x_rest) =~= x_o.push(*x_out0@.last()) + x_rest); } }",
               after=f"proof {{ assert({SS}.skip({SS}.len() as int) =~= Seq::<Structure>::empty()); assert(derefs(x_out0@) + {spec.replace('SS', SS + '.skip(x_i0 as int)')} =~= derefs(x_out0@)); }}")
        f.before_loop(0, f"proof {{ assert({SS}.skip(0) =~= {SS}); assert(derefs(x_out0@) =~= seq![]); assert(derefs(x_out0@) + {spec.replace('SS', SS)} =~= {spec.replace('SS', SS)}); }}")
        take(I, f, contract)
    collects("get_blocks", "blks(SS, ident@)", f"ensures derefs(r.left()) == blks({SS}, ident@)")
    collects("attributes", "attrs(SS)", f"ensures derefs(r.left()) == attrs({SS})")
    collects("blocks", "all_blks(SS)", f"ensures derefs(r.left()) == all_blks({SS})")
    take(I, types(body.fn("has_blocks", I)), f"ensures r == (blks({SS}, ident@).len() > 0)")
    f = types(body.fn("try_insert", I))
    take(I, f, f"requires index <= {OLD}.len() ensures {NEW} == inserted({OLD}, index as int, structure), r is Err == refused({OLD}, structure), r is Err ==> r->Err_0 == structure->Attribute_0" + KEEP)
    take(I, types(body.fn("insert", I)), f"requires index <= {OLD}.len() ensures {NEW} == inserted({OLD}, index as int, structure)" + KEEP)
    take(I, types(body.fn("try_push", I)), f"ensures {NEW} == pushed({OLD}, structure), r is Err == refused({OLD}, structure), r is Err ==> r->Err_0 == structure->Attribute_0" + KEEP)
    take(I, types(body.fn("push", I)), f"ensures {NEW} == pushed({OLD}, structure)" + KEEP)
    take(I, types(body.fn("pop", I)), f"ensures {OLD}.len() == 0 ==> r is None && {NEW} == {OLD}, {OLD}.len() > 0 ==> r == Some({OLD}.last()) && {NEW} == {OLD}.drop_last()" + KEEP)
    take(I, types(body.fn("remove", I)), f"requires index < {OLD}.len() ensures r == {OLD}[index as int], {NEW} == {OLD}.remove(index as int)" + KEEP)
    for nm, isf, key in (("remove_attribute", "is_attr", "key"), ("remove_block", "is_blk", "ident")):
        f = types(body.fn(nm, I))
        lem = ("attr_at", "no_attr") if nm == "remove_attribute" else ("blk_at", "no_blk")
        f.loop(0, f"""invariant_except_break x_r0 is None, x_i0 <= {SS}.len(), self == old(self), forall|j: int| 0 <= j < x_i0 ==> !{isf}(#[trigger] {SS}[j], {key}@)
ensures self == old(self), x_r0 is None ==> forall|j: int| 0 <= j < {SS}.len() ==> !{isf}(#[trigger] {SS}[j], {key}@),
    x_r0 is Some ==> x_r0->Some_0 < {SS}.len() && {isf}({SS}[x_r0->Some_0 as int], {key}@) && forall|j: int| 0 <= j < x_r0->Some_0 ==> !{isf}(#[trigger] {SS}[j], {key}@)
decreases {SS}.len() - x_i0""", after=f"proof {{ if x_r0 is Some {{ {lem[0]}({SS}, {key}@, x_r0->Some_0 as int); }} else {{ {lem[1]}({SS}, {key}@); }} }}")
        if nm == "remove_attribute":
            take(I, f, f"ensures r == attr({OLD}, key@), {NEW} == without_attr({OLD}, key@)" + KEEP)
        else:
            take(I, f, f"""ensures r is None == (blks({OLD}, ident@).len() == 0), r is None ==> {NEW} == {OLD} && without({OLD}, ident@) == {OLD},
    r is Some ==> blks({OLD}, ident@) == seq![r->Some_0] + blks({NEW}, ident@) && without({NEW}, ident@) == without({OLD}, ident@) && {NEW}.len() < {OLD}.len()""" + KEEP)
    f = types(body.fn("remove_blocks", I))
    f.loop(0, f"""invariant removed@ + blks({SS}, ident@) == blks({OLD}, ident@), without({SS}, ident@) == without({OLD}, ident@){KEEP.replace('final(self)', 'self')}
ensures blks({SS}, ident@).len() == 0, without({SS}, ident@) == {SS}
decreases {SS}.len()""", start="let ghost x_r = removed@;", end=f"proof {{ assert(x_r + (seq![block] + blks({SS}, ident@)) =~= x_r.push(block) + blks({SS}, ident@)); }}", after=f"proof {{ assert(removed@ + blks({SS}, ident@) =~= removed@); }}")
    f.before_loop(0, f"proof {{ assert(removed@ + blks({SS}, ident@) =~= blks({SS}, ident@)); }}")
    take(I, f, f"ensures r@ == blks({OLD}, ident@), {NEW} == without({OLD}, ident@)" + KEEP)
    f = types(body.fn("iter", I))
    take(I, f, f"ensures derefs(r.left()) =~= {SS}")

    # consuming iterators
    def consumes(nm, spec):
        f = types(body.fn(nm, I))
        ALL = spec.replace("SS", SS)
        LEFT = spec.replace("SS", "x_it0.left()")
        f.loop(0, f"invariant x_out0@ + {LEFT} == {ALL} ensures x_it0.left().len() == 0, x_out0@ + {LEFT} == {ALL} decreases x_it0.left().len()",
               start="let ghost x_o = x_out0@; let ghost x_rest = x_it0.left();",
               end=f"proof {{ if x_out0@.len() > x_o.len() {{ assert(x_o + (seq![x_out0@.last()] + {spec.replace('SS', 'x_rest')}) =~= x_out0@ + {spec.replace('SS', 'x_rest')}); }} }}",
               after=f"proof {{ assert(x_out0@ + {LEFT} =~= x_out0@); }}")
        f.before_loop(0, f"proof {{ assert(x_out0@ + {ALL} =~= {ALL}); }}")
        take(I, f, f"ensures r.left() == {ALL}")
    consumes("into_attributes", "attrs(SS)")
    consumes("into_blocks", "all_blks(SS)")
    take(I, types(body.fn("into_iter", "impl IntoIterator for Body")), f"ensures r.left() == {SS}")
    # a body made of structures
    ND = "r.decor.x_none(), r.span is None, !r.prefer_oneline, !r.prefer_omit_trailing_newline"
    f = types(body.fn("new", I))
    take(I, f, f"ensures r.structures@.len() == 0, {ND}")
    f = types(body.fn("with_capacity", I))
    f.rewrite("..Default::default()", "..Body::default()", "the default of the struct", must=False)
    take(I, f, f"ensures r.structures@.len() == 0, {ND}")

    def items(f, sig):
        f.sig = sig
        f.rewrites.append(f"{f.name}: the iterable is a list of structures")
        f.body = f.body.replace("iter.for_each(", "iter.into_iter().for_each(")
        f.body = re.sub(r"iter\s*\.into_iter\(\)\s*\.map\(Into::into\)", "iter", f.body)
        return types(f)
    f = items(body.fn("extend", "impl<T> Extend<T> for Body"), "fn extend(&mut self, iterable: XIntoIter<Structure>)")
    f.rewrite("self.structures.reserve($n)", "x_reserve(&mut self.structures, $n)", "reserving does not change the list", must=False)
    if "x_it0" in f.body:
        f.loop(0, f"invariant extended({SS}, x_it0.left()) == extended({OLD}, iterable.left()){KEEP.replace('final(self)', 'self')} ensures x_it0.left().len() == 0 decreases x_it0.left().len()")
        f.before_loop(0, f"proof {{ assert({SS} == {OLD}); }}")
    take(I, f, f"ensures {NEW} == extended({OLD}, iterable.left())" + KEEP)
    f = items(body.fn("from_iter", "impl<T> FromIterator<T> for Body"), "fn from_iter(iterable: XIntoIter<Structure>) -> Self")
    f.rewrite("body.extend(iter)", "proof { assert(body.structures@ =~= Seq::<Structure>::empty()); } body.extend(iter)", "ghost", must=False)
    take(I, f, f"ensures r.structures@ == extended(Seq::<Structure>::empty(), iterable.left()), {ND}")
    f = types(body.fn("from", "impl From<Vec<Structure>> for Body"))
    f.rewrite("Body::from_iter(structures)", "Body::from_iter(x_into_iter(structures))", "the iterator of the vector", must=False)
    take(I, f, f"ensures r.structures@ == extended(Seq::<Structure>::empty(), structures@), {ND}")
    B, BK = "impl BodyBuilder", ", r.body.decor == self.body.decor, r.body.span == self.body.span, r.body.prefer_oneline == self.body.prefer_oneline, r.body.prefer_omit_trailing_newline == self.body.prefer_omit_trailing_newline"
    out.append(pub_fields(body.item("struct", "BodyBuilder")))
    f = types(body.fn("structure", B))
    take(B, f, "ensures r.body.structures@ == pushed(self.body.structures@, structure)" + BK)
    for nm, var in (("attribute", "attr"), ("block", "block")):
        f = types(body.fn(nm, B))
        f.rewrite("self.structure($x)", f"self.structure(Structure::x_from_{nm}($x))", "the conversion into the structure", must=False)
        take(B, f, f"ensures r.body.structures@ == pushed(self.body.structures@, Structure::{nm.capitalize()}({var}))" + BK)
    for nm in ("structures", "attributes", "blocks"):
        f = items(body.fn(nm, B), f"fn {nm}({'mut ' if 'mut self' in body.fn(nm, B).sig else ''}self, iter: XIntoIter<Structure>) -> BodyBuilder")
        take(B, f, "ensures r.body.structures@ == extended(self.body.structures@, iter.left())" + BK)
    take(B, types(body.fn("build", B)), "ensures r == self.body")
    return out, fns
