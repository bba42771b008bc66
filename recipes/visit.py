r"""C29: walking a tree.

What is under contract: crates/hcl-edit/src/visit.rs and visit_mut.rs as a whole - the functions that visit the
parts of a node, and what the methods of the traits do by default - and the accessors and iterators of hcl-edit
they walk over.  A visitor is anything that keeps a log of the calls of its hooks; TABLE says, per node, which
parts are visited with which hook, in which order.  Every function is proved, for every visitor, to append exactly
these calls, and (mutable) to change the node nowhere else than in the parts it handed out."""
import re
import rx
import libchain
from rx import File, Lost
from libeval import pub_fields
NAME = "visit"
USES = "use vstd::seq::*;\nuse std::ops::Range;\n"
E = "crates/hcl-edit/src/"
SPIN = "#[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause] "

# hook: (type of the node, its parts in document order); a part: (how, hook, field)
#   one = a field, opt = an optional one, many = each element of a list, arm = what a variant holds
# `ro` marks what a mutable walk does not hand out
TABLE = {
    "body": ("Body", [("many", "structure", "structures")]),
    "structure": ("Structure", [("arm", "attr", "Attribute"), ("arm", "block", "Block")]),
    "attr": ("Attribute", [("ro", "ident", "key"), ("one", "expr", "value")]),
    "block": ("Block", [("one", "ident", "ident"), ("many", "block_label", "labels"), ("one", "body", "body")]),
    "block_label": ("BlockLabel", [("arm", "string", "String"), ("arm", "ident", "Ident")]),
    "expr": ("Expression", [("arm", "null", "Null"), ("arm", "bool", "Bool"), ("arm", "number", "Number"), ("arm", "string", "String"), ("arm", "array", "Array"),
                            ("arm", "object", "Object"), ("arm", "string_template", "StringTemplate"), ("arm", "heredoc_template", "HeredocTemplate"),
                            ("arm", "parenthesis", "Parenthesis"), ("arm", "ident", "Variable"), ("arm", "conditional", "Conditional"), ("arm", "func_call", "FuncCall"),
                            ("arm", "traversal", "Traversal"), ("arm", "unary_op", "UnaryOp"), ("arm", "binary_op", "BinaryOp"), ("arm", "for_expr", "ForExpr")]),
    "array": ("Array", [("many", "expr", "values")]),
    "object": ("Object", [("pairs", "object_item", "items")]),
    "object_key": ("ObjectKey", [("arm", "ident", "Ident"), ("arm", "expr", "Expression")]),
    "object_value": ("ObjectValue", [("one", "expr", "expr")]),
    "parenthesis": ("Parenthesis", [("one", "expr", "inner")]),
    "conditional": ("Conditional", [("one", "expr", "cond_expr"), ("one", "expr", "true_expr"), ("one", "expr", "false_expr")]),
    "unary_op": ("UnaryOp", [("one", "unary_operator", "operator"), ("one", "expr", "expr")]),
    "binary_op": ("BinaryOp", [("one", "expr", "lhs_expr"), ("one", "binary_operator", "operator"), ("one", "expr", "rhs_expr")]),
    "traversal": ("Traversal", [("one", "expr", "expr"), ("values", "traversal_operator", "operators")]),
    "traversal_operator": ("TraversalOperator", [("arm", "splat", "AttrSplat"), ("arm", "splat", "FullSplat"), ("arm", "ident", "GetAttr"), ("arm", "expr", "Index"), ("arm", "u64", "LegacyIndex")]),
    "func_call": ("FuncCall", [("one", "func_name", "name"), ("one", "func_args", "args")]),
    "func_name": ("FuncName", [("many", "ident", "namespace"), ("one", "ident", "name")]),
    "func_args": ("FuncArgs", [("many", "expr", "args")]),
    "for_expr": ("ForExpr", [("one", "for_intro", "intro"), ("opt", "expr", "key_expr"), ("one", "expr", "value_expr"), ("opt", "for_cond", "cond")]),
    "for_intro": ("ForIntro", [("opt", "ident", "key_var"), ("one", "ident", "value_var"), ("one", "expr", "collection_expr")]),
    "for_cond": ("ForCond", [("one", "expr", "expr")]),
    "string_template": ("StringTemplate", [("many", "element", "template.elements")]),
    "heredoc_template": ("HeredocTemplate", [("one", "template", "template")]),
    "template": ("Template", [("many", "element", "elements")]),
    "element": ("Element", [("arm", "literal", "Literal"), ("arm", "interpolation", "Interpolation"), ("arm", "directive", "Directive")]),
    "interpolation": ("Interpolation", [("one", "expr", "expr")]),
    "directive": ("Directive", [("arm", "if_directive", "If"), ("arm", "for_directive", "For")]),
    "if_directive": ("IfDirective", [("one", "if_template_expr", "if_expr"), ("opt", "else_template_expr", "else_expr"), ("one", "endif_template_expr", "endif_expr")]),
    "for_directive": ("ForDirective", [("one", "for_template_expr", "for_expr"), ("one", "endfor_template_expr", "endfor_expr")]),
    "if_template_expr": ("IfTemplateExpr", [("one", "expr", "cond_expr"), ("one", "template", "template")]),
    "else_template_expr": ("ElseTemplateExpr", [("one", "template", "template")]),
    "for_template_expr": ("ForTemplateExpr", [("opt", "ident", "key_var"), ("one", "ident", "value_var"), ("one", "expr", "collection_expr"), ("one", "template", "template")]),
}
# hooks without parts
LEAVES = {"ident": "Decorated<Ident>", "null": "Decorated<Null>", "bool": "Decorated<bool>", "u64": "Decorated<u64>", "number": "Formatted<Number>", "string": "Decorated<String>",
          "splat": "Decorated<Splat>", "literal": "Spanned<String>", "unary_operator": "Spanned<UnaryOperator>", "binary_operator": "Decorated<BinaryOperator>",
          "endif_template_expr": "EndifTemplateExpr", "endfor_template_expr": "EndforTemplateExpr"}
# how a hook of VisitMut receives its node, where that is not `&mut`: (type of the parameter, field of the place)
HANDLES = {"structure": ("StructureMut", "structure"), "attr": ("AttributeMut", "attr"), "object_key": ("ObjectKeyMut", "key")}
LISTS = {"Body": "Structure", "Array": "Expression", "FuncArgs": "Expression", "Template": "Element", "StringTemplate": "Element", "Object": "(ObjectKey, ObjectValue)"}

camel = lambda s: "".join(w.capitalize() for w in s.split("_"))
ty = lambda h: TABLE[h][0] if h in TABLE else LEAVES[h]
HOOKS = list(LEAVES) + list(TABLE)

PRELUDE = r"""
global size_of usize == 8;
#[verifier::external_body] pub struct Ident { e: Box<u8> }
#[verifier::external_body] pub struct Number { e: Box<u8> }
#[verifier::external_body] pub struct Decor { e: Box<u8> }
#[verifier::external_body] pub struct RawString { e: Box<u8> }
// vecmap-rs: an object is the list of its entries
pub struct XMap<K, V> { pub entries: Vec<(K, V)> }
// what a loop walks over: the list behind `iter()` or `iter_mut()`
pub trait XL: Sized { type T; spec fn l(&self) -> Seq<Self::T>; spec fn rest(a: Self, b: Self) -> bool;
    fn x_l(&self) -> (r: &Vec<Self::T>) ensures r@ == self.l();
    fn x_lm(&mut self) -> (r: &mut Vec<Self::T>) ensures r@ == old(self).l(), final(self).l() == final(r)@, Self::rest(*old(self), *final(self)); }
impl<T> XL for Vec<T> { type T = T; open spec fn l(&self) -> Seq<T> { self@ } open spec fn rest(a: Self, b: Self) -> bool { true }
    fn x_l(&self) -> (r: &Vec<T>) { self } fn x_lm(&mut self) -> (r: &mut Vec<T>) { self } }
"""


def specs():
    """the events, and the parts of every node"""
    o = ["pub enum Ev { " + ", ".join(f"{camel(h)}({ty(h)})" for h in HOOKS) + ", ObjectItem(ObjectKey, ObjectValue) }\n",
         "pub enum EvM { " + ", ".join(f"{camel(h)}({ty(h)}, {ty(h)})" for h in HOOKS) + ", ObjectItem((ObjectKey, ObjectValue), (ObjectKey, ObjectValue)) }\n"]
    kinds = {}
    for h, (t, parts) in TABLE.items():
        for how, hook, f in parts:
            if how in ("many", "pairs", "values"):
                kinds[(how, hook)] = 1
    for how, hook in kinds:
        e, x = camel(hook), "(ObjectKey, ObjectValue)" if how == "pairs" else f"Decorated<{ty(hook)}>" if how == "values" else ty(hook)
        a = {"many": "a[i]", "values": "a[i].value", "pairs": "a[i].0, a[i].1"}[how]
        am, bm = {"many": ("a[i]", "b[i]"), "values": ("a[i].value", "b[i].value"), "pairs": ("a[i]", "b[i]")}[how]
        o.append(f"pub open spec fn each_{hook}(a: Seq<{x}>) -> Seq<Ev> {{ Seq::new(a.len(), |i: int| Ev::{e}({a})) }}\n")
        o.append(f"pub open spec fn eachm_{hook}(a: Seq<{x}>, b: Seq<{x}>) -> Seq<EvM> {{ Seq::new(a.len(), |i: int| EvM::{e}({am}, {bm})) }}\n")
        if how == "values":
            o.append(f"pub open spec fn held_{hook}(a: Seq<{x}>, b: Seq<{x}>) -> bool {{ a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (Decorated {{ value: b[i].value, ..a[i] }}) }}\n")
    for h, (t, parts) in TABLE.items():
        if parts[0][0] == "arm":
            star = lambda hook, x: x if not boxed(t, hook) else f"*{x}"
            o.append(f"pub open spec fn parts_{h}(n: {t}) -> Seq<Ev> {{ match n {{ " + ", ".join(f"{t}::{v}(x) => seq![Ev::{camel(hook)}({star(hook, 'x')})]" for _, hook, v in parts) + " } }\n")
            if h == "object_key":
                continue
            o.append(f"pub open spec fn partsm_{h}(a: {t}, b: {t}) -> Seq<EvM> {{ match (a, b) {{ " + ", ".join(f"({t}::{v}(x), {t}::{v}(y)) => seq![EvM::{camel(hook)}({star(hook, 'x')}, {star(hook, 'y')})]" for _, hook, v in parts) + ", _ => Seq::empty() } }\n")
            o.append(f"pub open spec fn kept_{h}(a: {t}, b: {t}) -> bool {{ match (a, b) {{ " + ", ".join(f"({t}::{v}(x), {t}::{v}(y)) => true" for _, hook, v in parts) + ", _ => false } }\n")
            continue
        s, m, keep, fields = [], [], [], []
        for how, hook, f in parts:
            e = camel(hook)
            if how in ("one", "ro"):
                s.append(f"seq![Ev::{e}(n.{f})]")
                if how == "one":
                    m.append(f"seq![EvM::{e}(a.{f}, b.{f})]")
            elif how == "opt":
                s.append(f"(match n.{f} {{ Some(x) => seq![Ev::{e}(x)], None => Seq::empty() }})")
                m.append(f"(match (a.{f}, b.{f}) {{ (Some(x), Some(y)) => seq![EvM::{e}(x, y)], _ => Seq::empty() }})")
                keep.append(f"(a.{f} is Some <==> b.{f} is Some)")
            else:
                p = f + (".entries" if how == "pairs" else "")
                s.append(f"each_{hook}(n.{p}@)")
                m.append(f"eachm_{hook}(a.{p}@, b.{p}@)")
                keep.append(f"a.{p}@.len() == b.{p}@.len()" if how != "values" else f"held_{hook}(a.{p}@, b.{p}@)")
            if how != "ro":
                fields.append(f)
        upd = ", ".join(f"{f}: b.{f}" for f in fields) if "." not in fields[0] else "template: Template { elements: b.template.elements, ..a.template }"
        o.append(f"pub open spec fn parts_{h}(n: {t}) -> Seq<Ev> {{ {' + '.join(s)} }}\n")
        o.append(f"pub open spec fn partsm_{h}(a: {t}, b: {t}) -> Seq<EvM> {{ {' + '.join(m)} }}\n")
        o.append(f"pub open spec fn kept_{h}(a: {t}, b: {t}) -> bool {{ b == ({t} {{ {upd}, ..a }})" + "".join(" && " + k for k in keep) + " }\n")
    return o


BOXED = {}


def boxed(t, hook):
    return (t, ty(hook)) in BOXED


def build(repo):
    files, fns, out = {}, [], [PRELUDE]

    def F(path):
        if path not in files:
            files[path] = File(f"{repo}/{path}")
        return files[path]

    def item(path, kind, name):
        t = F(path).item(kind, name)
        t = re.sub(r"\bVecMap\s*<", "XMap<", t)
        if kind == "struct" and "{" in t:
            t = pub_fields(t)
        elif "(" in t and kind == "struct":
            t = "pub " + re.sub(r"\(\s*(?:pub(?:\([^)]*\))?\s+)?", "(pub ", t, count=1)
        else:
            t = "pub " + t
        if kind == "enum":
            for v, b in re.findall(r"\b(\w+)\(\s*Box<\s*(\w+)\s*>\s*\)", t):
                BOXED[(name, b)] = v
        out.append(re.sub(r"^pub pub\b", "pub", t) + "\n")

    R, X, T, S = "crates/hcl-primitives/src/", E + "expr/", E + "template/", E + "structure/"
    item(R + "template.rs", "enum", "Strip")
    item(R + "expr.rs", "enum", "UnaryOperator")
    item(R + "expr.rs", "enum", "BinaryOperator")
    for n in ("Spanned", "Decorated", "Formatted"):
        item(E + "repr.rs", "struct", n)
    for path, kind, names in [(X + "mod.rs", "enum", ["Expression"]), (X + "mod.rs", "struct", ["Parenthesis", "Null"]), (X + "array.rs", "struct", ["Array"]), (X + "object.rs", "struct", ["Object", "ObjectValue", "ObjectKeyMut"]),
                              (X + "object.rs", "enum", ["ObjectKey", "ObjectValueAssignment", "ObjectValueTerminator"]), (X + "conditional.rs", "struct", ["Conditional"]), (X + "for_expr.rs", "struct", ["ForExpr", "ForIntro", "ForCond"]),
                              (X + "func_call.rs", "struct", ["FuncName", "FuncCall", "FuncArgs"]), (X + "operation.rs", "struct", ["UnaryOp", "BinaryOp"]), (X + "traversal.rs", "struct", ["Traversal", "Splat"]), (X + "traversal.rs", "enum", ["TraversalOperator"]),
                              (T + "mod.rs", "struct", ["Template", "StringTemplate", "HeredocTemplate", "Interpolation", "IfDirective", "IfTemplateExpr", "ElseTemplateExpr", "EndifTemplateExpr", "ForDirective", "ForTemplateExpr", "EndforTemplateExpr"]),
                              (T + "mod.rs", "enum", ["Element", "Directive"]), (S + "mod.rs", "enum", ["Structure"]), (S + "mod.rs", "struct", ["StructureMut"]), (S + "attribute.rs", "struct", ["Attribute", "AttributeMut"]),
                              (S + "block.rs", "struct", ["Block"]), (S + "block.rs", "enum", ["BlockLabel"]), (S + "body.rs", "struct", ["Body"])]:
        for nm in names:
            item(path, kind, nm)
    out.extend(specs())

    # ---- accessors ----
    def inh(path, name, inside, impl, contract, sig=None, prep=None):
        f = F(path).fn(name, inside)
        if sig:
            f.sig = sig
        if prep:
            prep(f)
        f.spec(contract)
        f.vis, f.attrs = "pub ", SPIN
        fns.append(f)
        out.append(f"{impl} {{\n{f.render()}}}\n")

    for n in ("Spanned", "Decorated"):
        i = f"impl<T> {n}<T>"
        keep = "*final(self) == (" + n + " { value: *final(r), ..*old(self) })"
        inh(E + "repr.rs", "value", i, i, "ensures *r == self.value")
        inh(E + "repr.rs", "value_mut", i, i, f"ensures *r == old(self).value, {keep}")
        inh(E + "repr.rs", "as_ref", f"impl<T> AsRef<T> for {n}<T>", i, "ensures *r == self.value")
        inh(E + "repr.rs", "as_mut", f"impl<T> AsMut<T> for {n}<T>", i, f"ensures *r == old(self).value, {keep}")
        inh(E + "repr.rs", "deref", f"impl<T> Deref for {n}<T>", i, "ensures *r == self.value")
        inh(E + "repr.rs", "deref_mut", f"impl<T> DerefMut for {n}<T>", i, f"ensures *r == old(self).value, {keep}")

    for t, field, path, names in [("ObjectValue", "expr", X + "object.rs", ("expr", "expr_mut")), ("Parenthesis", "inner", X + "mod.rs", ("inner", "inner_mut"))]:
        i = f"impl {t}"
        inh(path, names[0], i, i, f"ensures *r == self.{field}")
        inh(path, names[1], i, i, f"ensures *r == old(self).{field}, *final(self) == ({t} {{ {field}: *final(r), ..*old(self) }})")
    inh(T + "mod.rs", "deref", "impl Deref for StringTemplate", "impl StringTemplate", "ensures *r == self.template", sig="fn deref(&self) -> &Template")
    inh(T + "mod.rs", "deref_mut", "impl DerefMut for StringTemplate", "impl StringTemplate", "ensures *r == old(self).template, *final(self) == (StringTemplate { template: *final(r), ..*old(self) })", sig="fn deref_mut(&mut self) -> &mut Template")

    some = lambda v: f"r is Some ==> *r->Some_0 == old(self)->{v}_0 && *final(self) == Structure::{v}(*final(r->Some_0)), r is None ==> *final(self) == *old(self)"
    inh(S + "mod.rs", "as_attribute_mut", "impl Structure", "impl Structure", f"ensures r is Some <==> *old(self) is Attribute, {some('Attribute')}")
    inh(S + "mod.rs", "as_block_mut", "impl Structure", "impl Structure", f"ensures r is Some <==> *old(self) is Block, {some('Block')}")
    H = "impl<'a> StructureMut<'a>"
    inh(S + "mod.rs", "new", H, H, "ensures *r.structure == *old(structure), *final(r.structure) == *final(structure)")

    def mapped(f):
        f.body, k = re.subn(r"(self\s*\.\s*structure\s*\.\s*\w+\(\))\s*\.\s*map\(\s*([\w:]+)\s*\)", r"match \1 { Some(x_a) => Some(\2(x_a)), None => None }", f.body)
        if k:
            f.rewrites.append(f"{f.name}: Option::map as match")
        libchain.options(f, result=())

    old = "*old(self).structure"
    new = "*final(self).structure"
    fin = "*final(final(self).structure) == *final(old(self).structure)"
    out.append("pub open spec fn cur(s: StructureMut) -> Structure { *s.structure }\n")
    inh(S + "mod.rs", "as_attribute_mut", H, H, f"ensures r is Some <==> cur(*old(self)) is Attribute, r is Some ==> *r->Some_0.attr == cur(*old(self))->Attribute_0 && cur(*final(self)) == Structure::Attribute(*final(r->Some_0.attr)), r is None ==> cur(*final(self)) == cur(*old(self)), {fin}", prep=mapped)
    inh(S + "mod.rs", "as_block_mut", H, H, f"ensures r is Some <==> cur(*old(self)) is Block, r is Some ==> *r->Some_0 == cur(*old(self))->Block_0 && cur(*final(self)) == Structure::Block(*final(r->Some_0)), r is None ==> cur(*final(self)) == cur(*old(self)), {fin}", prep=mapped)
    H = "impl<'a> AttributeMut<'a>"
    inh(S + "attribute.rs", "new", H, H, "ensures *r.attr == *old(attr), *final(r.attr) == *final(attr)")
    out.append("pub open spec fn cur_attr(s: AttributeMut) -> Attribute { *s.attr }\n")
    inh(S + "attribute.rs", "value_mut", H, H, "ensures *r == cur_attr(*old(self)).value, cur_attr(*final(self)) == (Attribute { value: *final(r), ..cur_attr(*old(self)) }), *final(final(self).attr) == *final(old(self).attr)")
    H = "impl<'k> ObjectKeyMut<'k>"
    inh(X + "object.rs", "new", H, H, "ensures *r.key == *old(key), *final(r.key) == *final(key)")

    # ---- iterators: the list, and what is made of each element ----
    def iters(t, path, field, header=None, slot="{t}: b.{f}"):
        elem = LISTS[t]
        pairs = t == "Object"
        f = F(path).fn("iter", f"impl {t}")
        body = f.body
        place = r"(self(?:\s*\.\s*\w+)*?)"
        m = re.match(r"\{\s*Box::new\(\s*" + place + r"\s*\.\s*iter\(\)\s*,?\s*\)\s*\}$", body)
        if not m:
            raise Lost(f"{t}::iter: not an iterator over a field")
        f.rewrites.append(f"{t}::iter: the iterator as the list it walks over")
        acc = m.group(1) + (".entries" if pairs else "")
        f.sig, f.body = f"fn iter(&self) -> &Vec<{elem}>", "{ &" + acc + " }"
        p = field + (".entries" if pairs else "")
        f.spec(f"ensures *r == self.{p}")
        f.vis, f.attrs = "pub ", SPIN
        fns.append(f)
        out.append(f"impl {t} {{ {f.render()} }}\n")
        f = F(path).fn("iter_mut", f"impl {t}")
        m = re.match(r"\{\s*Box::new\(\s*" + place + r"\s*\.\s*iter_mut(2?)\(\)\s*(?:\.\s*map\((.*)\)\s*)?,?\s*\)\s*\}$", f.body, re.S)
        if not m or (m.group(2) == "2") != pairs:
            raise Lost(f"{t}::iter_mut: not an iterator over a field")
        f.rewrites.append(f"{t}::iter_mut: the iterator as the list it walks over, and its map as the function below")
        item = m.group(3)
        acc = m.group(1) + (".entries" if pairs else "")
        upd = f"{field}: XMap {{ entries: *final(r) }}" if pairs else f"{field}: *final(r)"
        f.sig, f.body = f"fn iter_mut(&mut self) -> &mut Vec<{elem}>", "{ &mut " + acc + " }"
        f.spec(f"ensures *r == old(self).{p}, *final(self) == ({t} {{ {upd}, ..*old(self) }})")
        f.vis, f.attrs = "pub ", SPIN
        fns.append(f)
        out.append(f"impl {t} {{ {f.render()} }}\n")
        if item:
            args, call = ("(k0, v0)", "k0, v0") if pairs else ("x_a", "x_a")
            pat, x = libchain.app(item.strip().rstrip(","), "x_a")
            g = rx.Fn(f"iter_mut_item_{t}", "", "", path)
            if t == "Body":
                g.sig = "fn iter_mut_item_Body(x_a: &mut Structure) -> StructureMut"
                g.spec("ensures *r.structure == *old(x_a), *final(r.structure) == *final(x_a)")
                g.body = f"{{ let {pat} = x_a; {x} }}" if pat != "x_a" else f"{{ {x} }}"
            elif pairs:
                g.sig = "fn iter_mut_item_Object(x_a: &mut (ObjectKey, ObjectValue)) -> (ObjectKeyMut, &mut ObjectValue)"
                g.spec("ensures *r.0.key == old(x_a).0, *r.1 == old(x_a).1, *final(x_a) == (*final(r.0.key), *final(r.1))")
                g.body = f"{{ let {pat} = (&mut x_a.0, &mut x_a.1); {x} }}"
            else:
                raise Lost(f"{t}::iter_mut: an unexpected map")
            g.vis, g.attrs = "pub ", SPIN
            fns.append(g)
            out.append(g.render())
        elif t in ("Body", "Object"):
            raise Lost(f"{t}::iter_mut: no map")

    def into(t, path, mut, contract):
        hdr = f"impl<'a> IntoIterator for &'a {'mut ' if mut else ''}{t}"
        f = F(path).fn("into_iter", hdr)
        f.name = "x_lm" if mut else "x_l"
        elem = LISTS[t]
        f.sig = f"fn x_lm(&mut self) -> &mut Vec<{elem}>" if mut else f"fn x_l(&self) -> &Vec<{elem}>"
        f.attrs = SPIN
        f.spec("")
        fns.append(f)
        return f.render()

    for t, path, field in [("Body", S + "body.rs", "structures"), ("Array", X + "array.rs", "values"), ("FuncArgs", X + "func_call.rs", "args"), ("Template", T + "mod.rs", "elements"), ("Object", X + "object.rs", "items"), ("StringTemplate", T + "mod.rs", None)]:
        if field:
            iters(t, path, field)
        p = {"Object": "items.entries", "StringTemplate": "template.elements"}.get(t) or field
        upd = {"Object": "items: b.items", "StringTemplate": "template: Template { elements: b.template.elements, ..a.template }"}.get(t) or f"{field}: b.{field}"
        out.append(f"impl XL for {t} {{ type T = {LISTS[t]}; open spec fn l(&self) -> Seq<{LISTS[t]}> {{ self.{p}@ }} open spec fn rest(a: Self, b: Self) -> bool {{ b == ({t} {{ {upd}, ..a }}) }}\n"
                   + into(t, path, False, "") + into(t, path, True, "") + "}\n")

    # ---- the traits ----
    def hooks(path, trait, leaf, full, mut):
        """the hooks of the trait, and what they do by default"""
        src = F(path)
        tk = src.toks
        (lo, hi), = src.block(f"pub trait {trait}")
        bodies, i = {}, lo
        for mac, in ((leaf,), (full,)):
            text = src.macro_rules(mac)
            m = re.search(r"\$\(\s*(fn\s+\$name\b.*\})\s*\)\s*[*+]", text, re.S)
            if not m:
                raise Lost(f"{path}: macro {mac} has an unexpected form")
            use = [j for j in range(lo, hi) if tk[j].s == mac and tk[j + 1].s == "!"]
            if len(use) != 1:
                raise Lost(f"{path}: {mac}! is used {len(use)} times in {trait}")
            e = rx.match_close(tk, use[0] + 2)
            inner = src.text[tk[use[0] + 2].b:tk[e].a]
            for part in inner.split(","):
                if not part.strip():
                    continue
                name, t = [x.strip() for x in part.split("=>")]
                text1 = re.sub(r"\$name\b", name, m.group(1))
                bodies[name] = File(f"{path}", text=re.sub(r"\$t\b", t, text1)).fn(name)
        j = lo
        while j < hi:
            if tk[j].s == "fn":
                bodies[tk[j + 1].s] = src._fn_at(j)
            if tk[j].s == "{":
                j = rx.match_close(tk, j)
            j += 1
        return bodies

    suffix = lambda mut: "_mut" if mut else ""

    def param(h, mut):
        if not mut:
            return f"node: &{ty(h)}"
        if h in HANDLES:
            return f"node: {HANDLES[h][0]}"
        return f"node: &mut {ty(h)}"

    def place(h, node="node", mut=True):
        return f"{node}.{HANDLES[h][1]}" if h in HANDLES else node

    def contract(h, mut, own=True):
        """what the function that visits the parts promises"""
        if not mut:
            if h == "object_item":
                return "ensures final(v).log() == old(v).log() + seq![Ev::ObjectKey(*key), Ev::ObjectValue(*value)]"
            return f"ensures final(v).log() == old(v).log()" + (f" + parts_{h}(*node)" if h in TABLE else "")
        if h == "object_item":
            return "ensures final(v).log() == old(v).log() + seq![EvM::ObjectKey(*old(key.key), *final(key.key)), EvM::ObjectValue(*old(value), *final(value))]"
        a, b = f"*old({place(h)})", f"*final({place(h)})"
        if h in LEAVES or h == "object_key":
            return f"ensures final(v).log() == old(v).log(), {b} == {a}"
        return f"ensures final(v).log() == old(v).log() + partsm_{h}({a}, {b}), kept_{h}({a}, {b})"

    def hook_contract(h, mut):
        if not mut:
            e = "ObjectItem(*key, *value)" if h == "object_item" else f"{camel(h)}(*node)"
            return f"ensures final(self).log() == old(self).log().push(Ev::{e})"
        if h == "object_item":
            return "ensures final(self).log() == old(self).log().push(EvM::ObjectItem((*old(key.key), *old(value)), (*final(key.key), *final(value))))"
        return f"ensures final(self).log() == old(self).log().push(EvM::{camel(h)}(*old({place(h)}), *final({place(h)})))"

    def vlist(h, mut):
        if h == "object_item":
            return "key: ObjectKeyMut, value: &mut ObjectValue" if mut else "key: &ObjectKey, value: &ObjectValue"
        return param(h, mut)

    def loops(f, mut, h):
        """for loops over a node's list as while loops over the indices"""
        while True:   # for_each as a loop
            toks = rx.lex(f.body)
            i = next((i for i, t in enumerate(toks) if t.s == "for_each" and toks[i - 1].s == "." and toks[i + 1].s == "("), None)
            if i is None:
                break
            a = libchain.receiver(toks, i - 1)
            args, e = libchain.split_args(f.body, toks, i + 1)
            pat, x = libchain.app(args[0], "x_o")
            f.body = f.body[:toks[a].a] + f"for {pat} in {f.body[toks[a].a:toks[i - 2].b]} {{ {x}; }}" + f.body[toks[e].b:]
            f.rewrites.append(f"{f.name}: for_each as a loop")
        k = 0
        while True:
            toks = rx.lex(f.body)
            i = next((i for i, t in enumerate(toks) if t.k == "id" and t.s == "for" and toks[i + 1].s != "<"), None)
            if i is None:
                break
            j = i
            while toks[j].s != "in":
                j += 1
            b = j
            while toks[b].s != "{":
                if toks[b].k == "p" and toks[b].s in ("(", "["):
                    b = rx.match_close(toks, b)
                b += 1
            c = rx.match_close(toks, b)
            pat, src, blk = f.body[toks[i].b:toks[j].a].strip(), f.body[toks[j].b:toks[b].a].strip(), f.body[toks[b].b:toks[c].a]
            src = re.sub(r"\s*\.\s*iter(_mut)?\(\)$", "", src)
            root = re.sub(r"^&\s*(mut\s+)?|^\*", "", re.sub(r"^&\s*mut\s+\*\s*", "", src)).strip()
            whole = root == "node"
            how = next((x for x in TABLE[h][1] if x[0] in ("many", "pairs", "values")), None) if h in TABLE else None
            if how is None:
                raise Lost(f"{f.name}: a loop where the node has no list")
            hook = how[1]
            m = re.match(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)$", pat)
            if mut:
                it = f"&mut x_v{k}[x_i{k}]"
                if whole and TABLE[h][0] in ("Body", "Object"):
                    it = f"iter_mut_item_{TABLE[h][0]}({it})"
                bind = f"let {pat} = {it};" if not m else f"let ({m.group(1)}, {m.group(2)}) = {it};"
            else:
                it = f"&x_v{k}[x_i{k}]"
                bind = f"let {pat} = {it};" if not m else f"let {m.group(1)} = &x_v{k}[x_i{k}].0; let {m.group(2)} = &x_v{k}[x_i{k}].1;"
            call = f"({root}).x_lm()" if mut else f"({root}).x_l()"
            e = "eachm" if mut else "each"
            args = (lambda n: f"x_l{k}.take({n}), x_v{k}@.take({n})") if mut else (lambda n: f"x_v{k}@.take({n})")
            ev = {"many": f"x_l{k}[x_i{k} - 1], x_v{k}@[x_i{k} - 1]", "pairs": f"x_l{k}[x_i{k} - 1], x_v{k}@[x_i{k} - 1]", "values": f"x_l{k}[x_i{k} - 1].value, x_v{k}@[x_i{k} - 1].value"}[how[0]] if mut else \
                 {"many": f"x_v{k}@[x_i{k} - 1]", "pairs": f"x_v{k}@[x_i{k} - 1].0, x_v{k}@[x_i{k} - 1].1", "values": f"x_v{k}@[x_i{k} - 1].value"}[how[0]]
            ghost = f"let ghost x_l{k} = x_v{k}@; " if mut else ""
            f.body = (f.body[:toks[i].a] + f"{{ let x_v{k} = {call}; {ghost}let ghost x_b{k} = v.log(); let mut x_i{k}: usize = 0; while x_i{k} < x_v{k}.len() {{ {bind} x_i{k} += 1; {blk} }} "
                      f"proof {{ assert(x_v{k}@.take(x_i{k} as int) =~= x_v{k}@); " + (f"assert(x_l{k}.take(x_i{k} as int) =~= x_l{k}); " if mut else "") + "} }" + f.body[toks[c].b:])
            held = f", forall|j: int| 0 <= j < x_i{k} ==> #[trigger] x_v{k}@[j] == (Decorated {{ value: x_v{k}@[j].value, ..x_l{k}[j] }})" if mut and how[0] == "values" else ""
            inv = f"invariant x_i{k} <= x_v{k}@.len(), v.log() == x_b{k} + {e}_{hook}({args(f'x_i{k} as int')}){held}"
            if mut:
                inv += f", x_v{k}@.len() == x_l{k}.len(), forall|j: int| x_i{k} <= j < x_l{k}.len() ==> x_v{k}@[j] == x_l{k}[j]"
            end = f"proof {{ assert({e}_{hook}({args(f'x_i{k} as int')}) =~= {e}_{hook}({args(f'x_i{k} - 1')}).push({'EvM' if mut else 'Ev'}::{camel(hook)}({ev}))); }}"
            f.loop(k, inv, end=end)
            f.rewrites.append(f"{f.name}: `for {pat} in {src}` as a loop over the indices")
            k += 1

    def or_patterns(f):
        while True:
            m = re.search(r"([\w:]+\(\s*\w+\s*\))\s*\|\s*([\w:]+\(\s*\w+\s*\)(?:\s*\|\s*[\w:]+\(\s*\w+\s*\))*)\s*=>", f.body)
            if not m:
                return
            toks = [t for t in rx.lex(f.body) if t.a >= m.end()]
            if toks[0].s == "{":
                e = toks[rx.match_close(toks, 0)].b
            else:
                i = 0
                while toks[i].s not in (",", "}"):
                    i = rx.match_close(toks, i) if toks[i].k == "p" and toks[i].s in ("(", "[", "{") else i
                    i += 1
                e = toks[i].a
            arm = f.body[m.end():e]
            f.body = f.body[:m.start()] + f"{m.group(1)} =>{arm}, {m.group(2)} =>{arm}" + f.body[e:]
            f.rewrites.append(f"{f.name}: an or-pattern as two arms")

    def common(f, mut):
        if mut:
            or_patterns(f)
        f.body = re.sub(r"(^|[;{}]\s*)_ = ", r"\1let _ = ", f.body)
        d = "deref_mut" if mut else "deref"
        # the coercion from Decorated<TraversalOperator>
        new = re.sub(r"\bvisit_traversal_operator" + suffix(mut) + r"\(\s*(\w+)\s*\)", lambda m: m.group(0) if m.group(1) == "self" else f"visit_traversal_operator{suffix(mut)}({m.group(1)}.{d}())", f.body)
        if new != f.body:
            f.rewrites.append(f"{f.name}: deref coercion written out")
        f.body = new

    for path, trait, leaf, full, mut in [(E + "visit.rs", "Visit", "empty_visit_methods", "visit_methods", False), (E + "visit_mut.rs", "VisitMut", "empty_visit_mut_methods", "visit_mut_methods", True)]:
        sf = suffix(mut)
        bodies = hooks(path, trait, leaf, full, mut)
        want = {f"visit_{h}{sf}": h for h in HOOKS + ["object_item"]}
        if set(bodies) != set(want):
            raise Lost(f"{path}: the hooks of {trait} are others than in TABLE: {sorted(set(bodies) ^ set(want))}")
        ev = "EvM" if mut else "Ev"
        out.append(f"pub trait {trait} {{ spec fn log(&self) -> Seq<{ev}>;\n" + "".join(f"    fn {n}(&mut self, {vlist(h, mut)}) {hook_contract(h, mut)};\n" for n, h in want.items()) + "}\n")
        for n, h in want.items():
            if h in LEAVES or (mut and h == "object_key"):
                continue
            f = F(path).fn(n)
            m = re.search(r"\(\s*v\s*:\s*&mut V\s*,\s*(.*?)\)\s*where", f.sig, re.S)
            if not m:
                raise Lost(f"{n}: unexpected signature")
            f.sig = f"fn {n}<V: {trait} + ?Sized>(v: &mut V, {m.group(1)})"
            common(f, mut)
            loops(f, mut, h)
            libchain.options(f, result=())
            f.spec(contract(h, mut), None)
            if h not in ("object_item",) and TABLE[h][1][0][0] != "arm":
                b = f"partsm_{h}(*old({place(h)}), *final({place(h)}))" if mut else f"parts_{h}(*node)"
            f.at("end", "")
            f.vis, f.attrs = "pub ", SPIN
            fns.append(f)
            out.append(f.render())
        for n, h in want.items():
            f = bodies[n]
            f.name = f"default_{n}"
            m = re.search(r"\(\s*&mut self\s*,\s*(.*)\)\s*$", f.sig, re.S)
            if not m:
                raise Lost(f"{trait}::{n}: unexpected signature")
            f.sig = f"fn default_{n}<V: {trait} + ?Sized>(v: &mut V, {m.group(1)})"
            f.body = re.sub(r"\bself\b", "v", f.body)
            common(f, mut)
            f.rewrites.append(f"{f.name}: a default method (macro expanded) as a function of the visitor")
            f.spec(contract(h, mut), None)
            f.vis, f.attrs = "pub ", SPIN
            fns.append(f)
            out.append(f.render())
    return out, fns
