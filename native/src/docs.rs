//! Properties about text: parsing, printing, formatting, spans, error positions.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use hcl::format::{Format, Formatter};
use hcl::{Expression, Template, Value};
use hcl_edit::parser::{parse_body, parse_expr, parse_template};
use std::str::FromStr;

#[derive(Clone, Debug)]
pub enum Doc {
    Body(Vec<Item>),
    Expr(E),
    Tmpl(Vec<T>),
}

/// A random tree and a document that has it.
pub fn random_doc(rng: &mut Rng, exotic: bool) -> (Doc, String) {
    let noise = *rng.pick(&[0u64, 0, 8, 30]);
    let kind = rng.below(5);
    let depth = 1 + rng.below(4);
    let mut g = if exotic { Gen::syntax(rng) } else { Gen::new(rng) };
    match kind {
        0 | 1 => {
            let b = g.body(3, 4);
            let t = render_body(rng, &b, noise);
            (Doc::Body(b), t)
        }
        2 | 3 => {
            let e = g.expr(Ty::Any, depth);
            let t = render_expr(rng, &e, noise, false);
            (Doc::Expr(e), t)
        }
        _ => {
            let p = bare_template(g.parts(depth, 5));
            let t = render_template(rng, &p, noise);
            (Doc::Tmpl(p), t)
        }
    }
}

fn pe<T, X: std::fmt::Display>(r: Result<T, X>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

// ---- C28 ------------------------------------------------------------------------------------------

fn check_parse(doc: &Doc, text: &str) -> Res {
    match doc {
        Doc::Body(b) => {
            let parsed = pe(parse_body(text), "the document is refused")?;
            let plain: hcl::Body = parsed.clone().into();
            same_body(b, &plain)?;
            let back: hcl_edit::structure::Body = plain.clone().into();
            let again: hcl::Body = back.into();
            ensure(plain == again, || format!("plain -> editable -> plain changes the body: {plain:?} to {again:?}"))?;
            let direct = pe(hcl::parse(text), "hcl::parse")?;
            ensure(plain == direct, || format!("hcl::parse yields another body: {direct:?}"))?;
            // piecewise conversions agree with the conversion of the whole
            for (e, p) in parsed.iter().zip(plain.iter()) {
                let s: hcl::Structure = e.clone().into();
                ensure(&s == p, || format!("structure converts to {s:?} alone and {p:?} in its body"))?;
                match (e, p) {
                    (hcl_edit::structure::Structure::Attribute(e), hcl::Structure::Attribute(p)) => {
                        let a: hcl::Attribute = e.clone().into();
                        ensure(&a == p, || format!("attribute converts to {a:?}"))?;
                        let b: hcl_edit::structure::Attribute = p.clone().into();
                        ensure(&hcl::Attribute::from(b) == p, || "attribute round trip".into())?;
                    }
                    (hcl_edit::structure::Structure::Block(e), hcl::Structure::Block(p)) => {
                        let a: hcl::Block = e.clone().into();
                        ensure(&a == p, || format!("block converts to {a:?}"))?;
                        let b: hcl_edit::structure::Block = p.clone().into();
                        ensure(&hcl::Block::from(b) == p, || "block round trip".into())?;
                    }
                    _ => return Err("structure kinds differ".into()),
                }
            }
            Ok(())
        }
        Doc::Expr(e) => {
            let parsed = pe(parse_expr(text), "the expression is refused")?;
            let plain: Expression = parsed.into();
            same(e, &plain)?;
            let back: hcl_edit::expr::Expression = plain.clone().into();
            let again: Expression = back.into();
            ensure(plain == again, || format!("plain -> editable -> plain changes the expression: {plain:?} to {again:?}"))?;
            let direct = pe(Expression::from_str(text), "Expression::from_str")?;
            ensure(plain == direct, || format!("Expression::from_str yields another expression: {direct:?}"))
        }
        Doc::Tmpl(p) => {
            let parsed = pe(parse_template(text), "the template is refused")?;
            let plain: Template = parsed.into();
            same_parts(p, plain.elements())?;
            let back: hcl_edit::template::Template = plain.clone().into();
            let again: Template = back.into();
            ensure(plain == again, || format!("plain -> editable -> plain changes the template: {plain:?} to {again:?}"))?;
            let direct = pe(Template::from_str(text), "Template::from_str")?;
            ensure(plain == direct, || format!("Template::from_str yields another template: {direct:?}"))
        }
    }
}

pub fn c28(run: &mut Run) {
    run.rule("random trees of the whole grammar rendered with random layout, comments and spellings: parse, compare with the tree known beforehand, convert both ways; non-trivial: text longer than 20 bytes");
    for _ in 0..run.iters(40_000) {
        let (doc, text) = random_doc(&mut run.rng, true);
        run.case("parse and convert", &text, text.len() > 20, || check_parse(&doc, &text));
        if run.full() {
            return;
        }
    }
    // keys that differ in the text of a template only
    run.case("plain to editable and back", r#"{"${a}" = 1, "${ a }" = 2}"#, true, || {
        use hcl::expr::{Object, ObjectKey, TemplateExpr};
        let key = |t: &str| ObjectKey::Expression(TemplateExpr::from(t).into());
        let mut o = Object::new();
        o.insert(key("${a}"), Expression::from(1));
        o.insert(key("${ a }"), Expression::from(2));
        let e = Expression::Object(o);
        let x: hcl::edit::expr::Expression = e.clone().into();
        let back: Expression = x.into();
        ensure(back == e, || format!("{back:?}"))
    });
}

// ---- C19 ------------------------------------------------------------------------------------------

pub fn c19(run: &mut Run) {
    run.rule("random documents with random layout, comments, CRLF, heredocs and number spellings are printed unchanged; non-trivial: text longer than 20 bytes");
    let fixed = [
        "o = {b = 1, b = 2}\n", "", "\n", "# only a comment", "a = 1", "a = 1 // c", "a {}\n", "a \"b\" c {\n}\n", "a { b = 1 }\n",
        "a = <<EOT\nEOT\n", "a = <<-EOT\n    x\n   y\n   EOT\n", "a = <<-EOT\r\n\t x\r\n\tEOT\r\n", "a = 007\n", "a = 1.50e+3\n",
        "a = {\n}\n", "a = [\n]\n", "a = [1,]\n", "a = f()\n", "a = f(1,\n)\n", "a = f(x...)\n", "a = {a:1,\n b=2}\n", "\u{feff}a = 1\n",
    ];
    for text in fixed {
        run.case("print a body unchanged", text, true, || print_body(text));
    }
    for _ in 0..run.iters(40_000) {
        let (doc, text) = random_doc(&mut run.rng, true);
        let what = match doc {
            Doc::Body(_) => "print a body unchanged",
            Doc::Expr(_) => "print an expression unchanged",
            Doc::Tmpl(_) => "print a template unchanged",
        };
        run.case(what, &text, text.len() > 20, || match doc {
            Doc::Body(_) => print_body(&text),
            Doc::Expr(_) => {
                let Ok(e) = parse_expr(&text) else { return Ok(()) };
                eq_text(&text, &e.to_string())
            }
            Doc::Tmpl(_) => {
                let Ok(e) = parse_template(&text) else { return Ok(()) };
                eq_text(&text, &e.to_string())
            }
        });
        if run.full() {
            return;
        }
    }
}

fn print_body(text: &str) -> Res {
    match parse_body(text) {
        Ok(b) => eq_text(text, &b.to_string()),
        Err(_) => Ok(()),
    }
}

/// Byte for byte, up to the spelling of characters in quoted strings.
fn eq_text(want: &str, got: &str) -> Res {
    if want == got || respell(want) == respell(got) {
        return Ok(());
    }
    Err(format!("printed as {got:?}"))
}

/// Writes `\uXXXX` escapes the way the encoder does.
fn respell(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c == '\\' {
            let n = match s[i + 1..].chars().next() {
                Some('u') => 4,
                Some('U') => 8,
                Some(c2) => {
                    out.push(c);
                    out.push(c2);
                    it.next();
                    continue;
                }
                None => 0,
            };
            let hex = s.get(i + 2..i + 2 + n).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
            if let (true, Some(h)) = (n > 0, hex) {
                match h {
                    '"' => out.push_str("\\\""),
                    '\\' => out.push_str("\\\\"),
                    '\n' => out.push_str("\\n"),
                    '\r' => out.push_str("\\r"),
                    '\t' => out.push_str("\\t"),
                    h if (h as u32) < 0x20 || h as u32 == 0x7f => out.push_str(&format!("<{:x}>", h as u32)),
                    h => out.push(h),
                }
                for _ in 0..n + 1 {
                    it.next();
                }
                continue;
            }
        }
        out.push(c);
    }
    out.replace("\\b", "<8>").replace("\\f", "<c>")
}

// ---- C20 / C18 ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    indent: &'static str,
    dense: bool,
    arrays: bool,
    objects: bool,
    idents: bool,
}

pub fn all_opts() -> Vec<Opts> {
    let mut v = vec![];
    for indent in ["  ", "", "\t", "    "] {
        for b in 0..16 {
            v.push(Opts { indent, dense: b & 1 != 0, arrays: b & 2 != 0, objects: b & 4 != 0, idents: b & 8 != 0 });
        }
    }
    v
}

fn formatter(o: Opts) -> Formatter<'static, Vec<u8>> {
    Formatter::builder()
        .indent(o.indent.as_bytes())
        .dense(o.dense)
        .compact_arrays(o.arrays)
        .compact_objects(o.objects)
        .prefer_ident_keys(o.idents)
        .build_vec()
}

enum Tree {
    Body(hcl::Body),
    Expr(Expression),
    Tmpl(Template),
    Val(Value),
}

fn plain(doc: &Doc, text: &str) -> Option<Tree> {
    Some(match doc {
        Doc::Body(_) => Tree::Body(hcl::parse(text).ok()?),
        Doc::Expr(_) => Tree::Expr(Expression::from_str(text).ok()?),
        Doc::Tmpl(_) => Tree::Tmpl(Template::from_str(text).ok()?),
    })
}

/// Identifier keys and quoted keys with the same text stand for the same key.
fn same_key(a: &hcl::expr::ObjectKey, b: &hcl::expr::ObjectKey) -> bool {
    use hcl::expr::ObjectKey as K;
    match (a, b) {
        (K::Expression(Expression::String(s)), K::Identifier(i)) | (K::Identifier(i), K::Expression(Expression::String(s))) => s == i.as_str(),
        (K::Expression(Expression::Variable(s)), K::Identifier(i)) => s.as_str() == i.as_str(),
        (K::Expression(a), K::Expression(b)) => same_plain(a, b),
        (a, b) => a == b,
    }
}

/// Equality of expressions that knows about preferred identifier keys.
fn same_plain(a: &Expression, b: &Expression) -> bool {
    use hcl::expr::{Operation as O, TraversalOperator as TO};
    use Expression as X;
    match (a, b) {
        (X::Object(a), X::Object(b)) => {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|((k, v), (l, w))| same_key(k, l) && same_plain(v, w))
        }
        (X::Array(a), X::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_plain(a, b)),
        (X::Parenthesis(a), X::Parenthesis(b)) => same_plain(a, b),
        (X::Conditional(a), X::Conditional(b)) => {
            same_plain(&a.cond_expr, &b.cond_expr) && same_plain(&a.true_expr, &b.true_expr) && same_plain(&a.false_expr, &b.false_expr)
        }
        (X::FuncCall(a), X::FuncCall(b)) => {
            a.name == b.name && a.expand_final == b.expand_final && a.args.len() == b.args.len() && a.args.iter().zip(&b.args).all(|(a, b)| same_plain(a, b))
        }
        (X::Operation(a), X::Operation(b)) => match (&**a, &**b) {
            (O::Unary(a), O::Unary(b)) => a.operator == b.operator && same_plain(&a.expr, &b.expr),
            (O::Binary(a), O::Binary(b)) => a.operator == b.operator && same_plain(&a.lhs_expr, &b.lhs_expr) && same_plain(&a.rhs_expr, &b.rhs_expr),
            _ => false,
        },
        (X::Traversal(a), X::Traversal(b)) => {
            same_plain(&a.expr, &b.expr)
                && a.operators.len() == b.operators.len()
                && a.operators.iter().zip(&b.operators).all(|(a, b)| match (a, b) {
                    (TO::Index(a), TO::Index(b)) => same_plain(a, b),
                    (a, b) => a == b,
                })
        }
        (X::ForExpr(a), X::ForExpr(b)) => {
            a.key_var == b.key_var
                && a.value_var == b.value_var
                && a.grouping == b.grouping
                && same_plain(&a.collection_expr, &b.collection_expr)
                && same_plain(&a.value_expr, &b.value_expr)
                && match (&a.key_expr, &b.key_expr) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_plain(a, b),
                    _ => false,
                }
                && match (&a.cond_expr, &b.cond_expr) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_plain(a, b),
                    _ => false,
                }
        }
        (a, b) => a == b,
    }
}

fn same_template(a: &Template, b: &Template) -> bool {
    use hcl::template::{Directive as D, Element as L};
    let opt = |a: &Option<Template>, b: &Option<Template>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_template(a, b),
        _ => false,
    };
    a.elements().len() == b.elements().len()
        && a.elements().iter().zip(b.elements()).all(|(a, b)| match (a, b) {
            (L::Interpolation(a), L::Interpolation(b)) => a.strip == b.strip && same_plain(&a.expr, &b.expr),
            (L::Directive(a), L::Directive(b)) => match (&**a, &**b) {
                (D::If(a), D::If(b)) => {
                    same_plain(&a.cond_expr, &b.cond_expr)
                        && same_template(&a.true_template, &b.true_template)
                        && opt(&a.false_template, &b.false_template)
                        && (a.if_strip, a.else_strip, a.endif_strip) == (b.if_strip, b.else_strip, b.endif_strip)
                }
                (D::For(a), D::For(b)) => {
                    (&a.key_var, &a.value_var, a.for_strip, a.endfor_strip) == (&b.key_var, &b.value_var, b.for_strip, b.endfor_strip)
                        && same_plain(&a.collection_expr, &b.collection_expr)
                        && same_template(&a.template, &b.template)
                }
                _ => false,
            },
            (a, b) => a == b,
        })
}

fn same_plain_body(a: &hcl::Body, b: &hcl::Body) -> bool {
    use hcl::Structure as S;
    a.iter().count() == b.iter().count()
        && a.iter().zip(b.iter()).all(|(a, b)| match (a, b) {
            (S::Attribute(a), S::Attribute(b)) => a.key == b.key && same_plain(&a.expr, &b.expr),
            (S::Block(a), S::Block(b)) => a.identifier == b.identifier && a.labels == b.labels && same_plain_body(&a.body, &b.body),
            _ => false,
        })
}

fn reparse(t: &Tree, f: &mut Formatter<Vec<u8>>, idents: bool) -> Res {
    match t {
        Tree::Body(b) => {
            let s = pe(b.format_string(f), "formatting fails")?;
            let back = hcl::parse(&s).map_err(|e| format!("formatted as {s:?}, which is refused: {e}"))?;
            let eq = if idents { same_plain_body(b, &back) } else { *b == back };
            ensure(eq, || format!("formatted as {s:?}, which parses to {back:?} instead of {b:?}"))
        }
        Tree::Expr(e) => {
            let s = pe(e.format_string(f), "formatting fails")?;
            let back = Expression::from_str(&s).map_err(|e| format!("formatted as {s:?}, which is refused: {e}"))?;
            let eq = if idents { same_plain(e, &back) } else { *e == back };
            ensure(eq, || format!("formatted as {s:?}, which parses to {back:?} instead of {e:?}"))
        }
        Tree::Tmpl(t) => {
            let s = pe(t.format_string(f), "formatting fails")?;
            let back = Template::from_str(&s).map_err(|e| format!("formatted as {s:?}, which is refused: {e}"))?;
            let eq = if idents { same_template(t, &back) } else { *t == back };
            ensure(eq, || format!("formatted as {s:?}, which parses to {back:?} instead of {t:?}"))
        }
        Tree::Val(v) => {
            let s = pe(v.format_string(f), "formatting fails")?;
            let back = Expression::from_str(&s).map_err(|e| format!("formatted as {s:?}, which is refused: {e}"))?;
            let ctx = hcl::eval::Context::new();
            let w: Value = pe(hcl::eval::Evaluate::evaluate(&back, &ctx), "the formatted value does not evaluate")?;
            ensure(identical(v, &w), || format!("formatted as {s:?}, which is {w:?} instead of {v:?}"))
        }
    }
}

pub fn value(g: &mut Gen, depth: usize) -> Value {
    match g.rng.below(if depth == 0 { 6 } else { 10 }) {
        0 => Value::Null,
        1 => Value::Bool(g.rng.chance(1, 2)),
        2 | 3 => {
            let s = *g.rng.pick(&["0", "1", "-1", "1.5", "-0.25", "18446744073709551615", "-9223372036854775808", "1e300", "1e-7", "1e19"]);
            Value::Number(number(s))
        }
        4 | 5 => Value::String(plain_text(g)),
        6 | 7 => Value::Array((0..g.rng.below(4)).map(|_| value(g, depth - 1)).collect()),
        _ => {
            let mut m = hcl::Map::new();
            for _ in 0..g.rng.below(4) {
                let k = match g.rng.below(9) {
                    // no identifiers when they are unquoted
                    0 => g.rng.pick(&["null", "true", "false", "for", "if", "in"]).to_string(),
                    1..=4 => g.ident(),
                    _ => plain_text(g),
                };
                m.insert(k, value(g, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// Text that is not taken for a template.
pub fn plain_text(g: &mut Gen) -> String {
    g.text(4).replace("${", "$(").replace("%{", "%(")
}

pub fn c20(run: &mut Run) {
    run.rule("random parsed trees and plain values formatted with all 64 option sets parse back to an equal tree; non-trivial: text longer than 20 bytes");
    let opts = all_opts();
    for text in ["--0", "-(-0)", "!-1", "--1", "- -1", "-a", "-[]", "!{}.a", "-\"a\""] {
        run.case("format and parse", text, true, || reparse(&Tree::Expr(pe(Expression::from_str(text), "refused")?), &mut formatter(opts[0]), false));
    }
    for i in 0..run.iters(30_000) {
        let o = opts[i % opts.len()];
        if i % 5 == 4 {
            let mut g = Gen::syntax(&mut run.rng);
            let v = value(&mut g, 3);
            let input = format!("{o:?} {v:?}");
            run.case("format a value and parse it", &input, true, || reparse(&Tree::Val(v), &mut formatter(o), o.idents));
            continue;
        }
        let (doc, text) = random_doc(&mut run.rng, true);
        let input = format!("{o:?} {text}");
        run.case("format and parse", &input, text.len() > 20, || match plain(&doc, &text) {
            None => Ok(()),
            Some(t) => reparse(&t, &mut formatter(o), o.idents),
        });
        if run.full() {
            return;
        }
    }
}

/// The nesting of every line of formatted text without heredocs and templates.  A bracket nests the
/// lines up to its counterpart if its line ends with it.
fn indentation(s: &str, indent: &str) -> Res {
    let mut open: Vec<bool> = vec![];
    for (n, line) in s.split('\n').enumerate() {
        let depth = |o: &[bool]| o.iter().filter(|b| **b).count();
        let mut at = depth(&open);
        let mut leading = true;
        let mut quoted = false;
        let mut esc = false;
        let text = line.trim_start_matches([' ', '\t']);
        for (i, c) in text.char_indices() {
            if quoted {
                if esc {
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == '"' {
                    quoted = false;
                }
                continue;
            }
            match c {
                '"' => quoted = true,
                '{' | '[' => open.push(i + 1 == text.len()),
                '}' | ']' => {
                    open.pop().ok_or_else(|| format!("unbalanced brackets in {s:?}"))?;
                    if leading {
                        at = depth(&open);
                    }
                }
                _ => {}
            }
            if !matches!(c, '}' | ']') {
                leading = false;
            }
        }
        if line.is_empty() {
            continue;
        }
        let want = indent.repeat(at);
        let rest = line.strip_prefix(&want).filter(|r| !r.starts_with([' ', '\t']));
        ensure(rest.is_some(), || format!("line {} of {s:?} is not indented {at} times with {indent:?}", n + 1))?;
    }
    ensure(open.is_empty(), || format!("unbalanced brackets in {s:?}"))
}

fn value_body(g: &mut Gen, depth: usize) -> hcl::Body {
    let mut b = hcl::Body::builder();
    for i in 0..g.rng.below(4) {
        if depth > 0 && g.rng.chance(2, 5) {
            let mut bl = hcl::Block::builder(hcl::Identifier::sanitized(g.ident()));
            for _ in 0..g.rng.below(3) {
                bl = bl.add_label(plain_text(g));
            }
            b = b.add_block(bl.add_structures(value_body(g, depth - 1)).build());
        } else {
            let v = value(g, 3);
            b = b.add_attribute((hcl::Identifier::sanitized(format!("{}{i}", g.ident())), Expression::from(v)));
        }
    }
    b.build()
}

pub fn c18(run: &mut Run) {
    run.rule("all 64 option sets; one formatter is used for a random history of bodies, expressions, templates and values, whose outputs must equal those of a fresh formatter, parse back, and be indented by nesting; non-trivial: history of at least two values");
    let opts = all_opts();
    for i in 0..run.iters(4_000) {
        let o = opts[i % opts.len()];
        let mut f = formatter(o);
        let n = 1 + run.rng.below(5);
        let mut hist = vec![];
        for k in 0..n {
            let tree;
            let mut nested = false;
            let shown;
            match run.rng.below(3) {
                0 => {
                    let (doc, text) = random_doc(&mut run.rng, true);
                    match plain(&doc, &text) {
                        Some(t) => tree = t,
                        None => continue,
                    }
                    shown = text;
                }
                1 => {
                    let mut g = Gen::syntax(&mut run.rng);
                    let v = value(&mut g, 4);
                    shown = format!("{v:?}");
                    tree = Tree::Val(v);
                    nested = true;
                }
                _ => {
                    let mut g = Gen::syntax(&mut run.rng);
                    let b = value_body(&mut g, 3);
                    shown = format!("{b:?}");
                    tree = Tree::Body(b);
                    nested = true;
                }
            }
            hist.push(shown);
            let input = format!("{o:?} {hist:?}");
            run.case("a formatter with history", &input, k > 0, || {
                let mut fresh = formatter(o);
                let (a, b) = match &tree {
                    Tree::Body(b) => (b.format_string(&mut f), b.format_string(&mut fresh)),
                    Tree::Expr(b) => (b.format_string(&mut f), b.format_string(&mut fresh)),
                    Tree::Tmpl(b) => (b.format_string(&mut f), b.format_string(&mut fresh)),
                    Tree::Val(b) => (b.format_string(&mut f), b.format_string(&mut fresh)),
                };
                let (a, b) = (pe(a, "formatting fails")?, pe(b, "formatting fails")?);
                // a blank line separates a body from the one in front of it
                ensure(a == b || a.strip_prefix('\n') == Some(&b), || format!("formatted as {a:?}, but as {b:?} by a fresh formatter"))?;
                if nested {
                    indentation(&b, o.indent)?;
                }
                reparse(&tree, &mut f, o.idents)
            });
        }
        if run.full() {
            return;
        }
    }
    // Options that cannot change what a value is: all sets give trees equal to each other.
    for _ in 0..run.iters(300) {
        let (doc, text) = random_doc(&mut run.rng, true);
        for o in &opts {
            let input = format!("{o:?} {text}");
            run.case("option set", &input, true, || match plain(&doc, &text) {
                None => Ok(()),
                Some(t) => reparse(&t, &mut formatter(*o), o.idents),
            });
        }
    }
}
