"""C06: identifiers (crates/hcl-primitives/src/ident.rs)."""
import rx, libstr

NAME = "ident"
SRC = "crates/hcl-primitives/src/ident.rs"
WRAP = "crates/hcl-rs/src/ident.rs"
USES = libstr.USES

PRELUDE = libstr.PRELUDE + r'''
// ---- trusted: the character classes of the unicode-ident crate, total functions of the character ---
pub uninterp spec fn xid_start(c: char) -> bool;
pub uninterp spec fn xid_continue(c: char) -> bool;
#[verifier::external_body]
pub fn x_is_xid_start(c: char) -> (r: bool) ensures r == xid_start(c), r ==> xid_continue(c) { unimplemented!() }
#[verifier::external_body]
pub fn x_is_xid_continue(c: char) -> (r: bool) ensures r == xid_continue(c), c == '_' ==> r { unimplemented!() }
#[verifier::external_body]
pub proof fn xid_facts() ensures xid_continue('_'), forall|c: char| #[trigger] xid_start(c) ==> xid_continue(c) {}

// ---- InternalString, a string with a short inline form: only its text matters here ------------------
#[verifier::external_body]
pub struct InternalString { s: String }
impl View for InternalString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn x_internal(s: &str) -> (r: InternalString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn x_internal_owned(s: String) -> (r: InternalString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn x_text(s: &InternalString) -> (r: &str) ensures r@ == s@ { unimplemented!() }
pub struct Error { pub any: u8 }
#[verifier::external_body]
pub fn x_error() -> Error { unimplemented!() }
// `assert!` with a false condition does not return
#[verifier::external_body]
pub fn x_assert(c: bool) ensures c { assert!(c) }
#[verifier::external_body]
pub fn x_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn x_unwrap(c: Option<char>) -> (r: char) requires c is Some ensures c == Some(r) { c.unwrap() }

// ---- specification -------------------------------------------------------------------------------
pub open spec fn id_start(c: char) -> bool { xid_start(c) || c == '_' }
pub open spec fn id_continue(c: char) -> bool { xid_continue(c) || c == '-' }
pub open spec fn valid(s: Seq<char>) -> bool {
    s.len() > 0 && id_start(s[0]) && forall|i: int| 1 <= i < s.len() ==> id_continue(#[trigger] s[i])
}
pub struct Ident(pub InternalString);
pub proof fn sanitizing_is_idempotent(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires valid(b), valid(b) ==> c == b
    ensures c == b
{}
'''


def build(repo):
    src = rx.File(f"{repo}/{SRC}")
    out, fns = [PRELUDE], []

    def done(f, impl=None):
        fns.append(f)
        return f.render()

    for n, x, s in (("is_id_start", "xid_start", "id_start"), ("is_id_continue", "xid_continue", "id_continue")):
        f = src.fn(n)
        f.rewrite(f"unicode_ident::is_{x}($c)", f"x_is_{x}($c)", "unicode-ident to its contract", must=False)
        f.spec(f"ensures r == {s}(ch)")
        out.append(done(f))
    f = libstr.desugar(src.fn("is_ident"))
    f.rewrite("$s.is_empty()", "x_is_empty($s)", "std to its contract", must=False)
    f.rewrite("$s.next().unwrap()", "x_unwrap($s.next())", "std to its contract", must=False)
    f.spec("ensures r == valid(s@)")
    f.at("start", "proof { if s@.len() > 0 { assert(forall|i: int| 0 <= i < s@.drop_first().len() ==> s@.drop_first()[i] == s@[i + 1]); assert(forall|i: int| 1 <= i < s@.len() ==> #[trigger] s@[i] == s@.drop_first()[i - 1]); } }")
    out.append(done(f))

    out.append("impl Ident {")
    gen = "instantiated with the string type all conversions end in"
    f = libstr.desugar(src.fn("new", "impl Ident"))
    f.sig_rewrite("<T>", "", gen).sig_rewrite("ident: T", "ident: InternalString").sig_rewrite("where T: Into<InternalString>,", "")
    f.rewrite("let ident = ident.into();", "", gen, must=False)
    f.rewrite("assert!($c($a_s), $m_s)", "x_assert($c($a_s))", "assert! to its contract", must=False)
    f.rewrite("is_ident(&ident)", "is_ident(x_text(&ident))", "deref to str", must=False)
    f.spec("ensures r.0@ == ident@, valid(r.0@)")
    out.append(done(f))
    f = libstr.desugar(src.fn("try_new", "impl Ident"))
    f.sig_rewrite("<T>", "", gen).sig_rewrite("ident: T", "ident: InternalString").sig_rewrite("where T: Into<InternalString>,", "")
    f.rewrite("let ident = ident.into();", "", gen, must=False)
    f.rewrite("is_ident(&ident)", "is_ident(x_text(&ident))", "deref to str", must=False)
    f.rewrite("Error::new($m_s)", "x_error()", "error text is not specified", must=False)
    f.spec("ensures r is Ok == valid(ident@), r is Ok ==> r->Ok_0.0@ == ident@")
    out.append(done(f))
    f = src.fn("new_sanitized", "impl Ident")
    f.sig_rewrite("<T>", "", gen).sig_rewrite("ident: T", "ident: &str").sig_rewrite("where T: AsRef<str>,", "")
    f.rewrite("let input = ident.as_ref();", "let input = ident;", gen, must=False)
    f.rewrite("input.is_empty()", "x_is_empty(input)", "std to its contract", must=False)
    f.rewrite("InternalString::from(ident)", "x_internal_owned(ident)", "std to its contract", must=False)
    f.rewrite("InternalString::from($s)", "x_internal($s)", "std to its contract", must=False)
    f.rewrite("input.len()", "x_len(input)", "std to its contract", must=False)
    libstr.desugar(f)
    f.sig_rewrite("Self", "Ident", must=False)
    f.spec("ensures valid(r.0@), valid(ident@) ==> r.0@ == ident@")
    f.at("start", 'proof { xid_facts(); reveal_strlit("_"); }')
    f.loop(0, '''invariant input@.len() > 0, ident@.len() > 0 ==> valid(ident@), (ident@.len() == 0) == (x_it.index() == 0),
    0 <= x_it.index() <= input@.len(), x_it.left() == input@.skip(x_it.index()), xid_continue('_'), forall|c: char| #[trigger] xid_start(c) ==> xid_continue(c),
    valid(input@) ==> ident@ == input@.take(x_it.index()),
ensures x_it.left().len() == 0, valid(ident@), valid(input@) ==> ident@ == input@
decreases x_it.left().len()''',
           start="proof { assert(ch == input@[i as int]); assert(input@.skip(i as int).drop_first() =~= input@.skip(i + 1)); assert(input@.take(i as int).push(ch) =~= input@.take(i + 1)); }")
    f.rewrite("while let Some(($i, $c)) = x_it.next()", "while let Some(($i, $c)) = x_it.next()", "", must=False)
    out.append(done(f))
    out.append("}")
    return out, fns
