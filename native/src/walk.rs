//! C29: what the default visitors walk over, against an independent enumeration of the tree.
use crate::core::*;
use crate::docs::{random_doc, Doc};
use crate::model::*;
use hcl_edit::parser::{parse_body, parse_expr, parse_template};
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{expr as ex, structure as st, template as tp, Decorated, Formatted, Ident, Number, Spanned};

type Log = Vec<(&'static str, usize)>;

fn at<T>(n: &T) -> usize {
    std::ptr::from_ref(n).cast::<u8>() as usize
}

#[derive(Default)]
struct Walk(Log);

impl Walk {
    fn hit<T>(&mut self, what: &'static str, n: &T) {
        self.0.push((what, at(n)));
    }
}

impl Visit for Walk {
    fn visit_ident(&mut self, n: &Decorated<Ident>) { self.hit("ident", n); }
    fn visit_null(&mut self, n: &Decorated<ex::Null>) { self.hit("null", n); }
    fn visit_bool(&mut self, n: &Decorated<bool>) { self.hit("bool", n); }
    fn visit_u64(&mut self, n: &Decorated<u64>) { self.hit("u64", n); }
    fn visit_number(&mut self, n: &Formatted<Number>) { self.hit("number", n); }
    fn visit_string(&mut self, n: &Decorated<String>) { self.hit("string", n); }
    fn visit_splat(&mut self, n: &Decorated<ex::Splat>) { self.hit("splat", n); }
    fn visit_literal(&mut self, n: &Spanned<String>) { self.hit("literal", n); }
    fn visit_unary_operator(&mut self, n: &Spanned<ex::UnaryOperator>) { self.hit("unary_operator", n); }
    fn visit_binary_operator(&mut self, n: &Decorated<ex::BinaryOperator>) { self.hit("binary_operator", n); }
    fn visit_endif_template_expr(&mut self, n: &tp::EndifTemplateExpr) { self.hit("endif_template_expr", n); }
    fn visit_endfor_template_expr(&mut self, n: &tp::EndforTemplateExpr) { self.hit("endfor_template_expr", n); }
    fn visit_body(&mut self, n: &st::Body) { self.hit("body", n); visit::visit_body(self, n); }
    fn visit_block(&mut self, n: &st::Block) { self.hit("block", n); visit::visit_block(self, n); }
    fn visit_block_label(&mut self, n: &st::BlockLabel) { self.hit("block_label", n); visit::visit_block_label(self, n); }
    fn visit_expr(&mut self, n: &ex::Expression) { self.hit("expr", n); visit::visit_expr(self, n); }
    fn visit_array(&mut self, n: &ex::Array) { self.hit("array", n); visit::visit_array(self, n); }
    fn visit_object(&mut self, n: &ex::Object) { self.hit("object", n); visit::visit_object(self, n); }
    fn visit_object_value(&mut self, n: &ex::ObjectValue) { self.hit("object_value", n); visit::visit_object_value(self, n); }
    fn visit_parenthesis(&mut self, n: &ex::Parenthesis) { self.hit("parenthesis", n); visit::visit_parenthesis(self, n); }
    fn visit_conditional(&mut self, n: &ex::Conditional) { self.hit("conditional", n); visit::visit_conditional(self, n); }
    fn visit_unary_op(&mut self, n: &ex::UnaryOp) { self.hit("unary_op", n); visit::visit_unary_op(self, n); }
    fn visit_binary_op(&mut self, n: &ex::BinaryOp) { self.hit("binary_op", n); visit::visit_binary_op(self, n); }
    fn visit_traversal(&mut self, n: &ex::Traversal) { self.hit("traversal", n); visit::visit_traversal(self, n); }
    fn visit_traversal_operator(&mut self, n: &ex::TraversalOperator) { self.hit("traversal_operator", n); visit::visit_traversal_operator(self, n); }
    fn visit_func_call(&mut self, n: &ex::FuncCall) { self.hit("func_call", n); visit::visit_func_call(self, n); }
    fn visit_func_name(&mut self, n: &ex::FuncName) { self.hit("func_name", n); visit::visit_func_name(self, n); }
    fn visit_func_args(&mut self, n: &ex::FuncArgs) { self.hit("func_args", n); visit::visit_func_args(self, n); }
    fn visit_for_expr(&mut self, n: &ex::ForExpr) { self.hit("for_expr", n); visit::visit_for_expr(self, n); }
    fn visit_for_intro(&mut self, n: &ex::ForIntro) { self.hit("for_intro", n); visit::visit_for_intro(self, n); }
    fn visit_for_cond(&mut self, n: &ex::ForCond) { self.hit("for_cond", n); visit::visit_for_cond(self, n); }
    fn visit_string_template(&mut self, n: &tp::StringTemplate) { self.hit("string_template", n); visit::visit_string_template(self, n); }
    fn visit_heredoc_template(&mut self, n: &tp::HeredocTemplate) { self.hit("heredoc_template", n); visit::visit_heredoc_template(self, n); }
    fn visit_template(&mut self, n: &tp::Template) { self.hit("template", n); visit::visit_template(self, n); }
    fn visit_element(&mut self, n: &tp::Element) { self.hit("element", n); visit::visit_element(self, n); }
    fn visit_interpolation(&mut self, n: &tp::Interpolation) { self.hit("interpolation", n); visit::visit_interpolation(self, n); }
    fn visit_directive(&mut self, n: &tp::Directive) { self.hit("directive", n); visit::visit_directive(self, n); }
    fn visit_if_directive(&mut self, n: &tp::IfDirective) { self.hit("if_directive", n); visit::visit_if_directive(self, n); }
    fn visit_for_directive(&mut self, n: &tp::ForDirective) { self.hit("for_directive", n); visit::visit_for_directive(self, n); }
    fn visit_if_template_expr(&mut self, n: &tp::IfTemplateExpr) { self.hit("if_template_expr", n); visit::visit_if_template_expr(self, n); }
    fn visit_else_template_expr(&mut self, n: &tp::ElseTemplateExpr) { self.hit("else_template_expr", n); visit::visit_else_template_expr(self, n); }
    fn visit_for_template_expr(&mut self, n: &tp::ForTemplateExpr) { self.hit("for_template_expr", n); visit::visit_for_template_expr(self, n); }
    fn visit_structure(&mut self, n: &st::Structure) { self.hit("structure", n); visit::visit_structure(self, n); }
    fn visit_attr(&mut self, n: &st::Attribute) { self.hit("attr", n); visit::visit_attr(self, n); }
    fn visit_object_key(&mut self, n: &ex::ObjectKey) { self.hit("object_key", n); visit::visit_object_key(self, n); }
    fn visit_object_item(&mut self, k: &ex::ObjectKey, v: &ex::ObjectValue) { self.hit("object_item", v); visit::visit_object_item(self, k, v); }
}

#[derive(Default)]
struct WalkMut(Log);

impl WalkMut {
    fn hit<T>(&mut self, what: &'static str, n: &T) {
        self.0.push((what, at(n)));
    }
}

impl VisitMut for WalkMut {
    fn visit_ident_mut(&mut self, n: &mut Decorated<Ident>) { self.hit("ident", n); }
    fn visit_null_mut(&mut self, n: &mut Decorated<ex::Null>) { self.hit("null", n); }
    fn visit_bool_mut(&mut self, n: &mut Decorated<bool>) { self.hit("bool", n); }
    fn visit_u64_mut(&mut self, n: &mut Decorated<u64>) { self.hit("u64", n); }
    fn visit_number_mut(&mut self, n: &mut Formatted<Number>) { self.hit("number", n); }
    fn visit_string_mut(&mut self, n: &mut Decorated<String>) { self.hit("string", n); }
    fn visit_splat_mut(&mut self, n: &mut Decorated<ex::Splat>) { self.hit("splat", n); }
    fn visit_literal_mut(&mut self, n: &mut Spanned<String>) { self.hit("literal", n); }
    fn visit_unary_operator_mut(&mut self, n: &mut Spanned<ex::UnaryOperator>) { self.hit("unary_operator", n); }
    fn visit_binary_operator_mut(&mut self, n: &mut Decorated<ex::BinaryOperator>) { self.hit("binary_operator", n); }
    fn visit_endif_template_expr_mut(&mut self, n: &mut tp::EndifTemplateExpr) { self.hit("endif_template_expr", n); }
    fn visit_endfor_template_expr_mut(&mut self, n: &mut tp::EndforTemplateExpr) { self.hit("endfor_template_expr", n); }
    fn visit_body_mut(&mut self, n: &mut st::Body) { self.hit("body", n); visit_mut::visit_body_mut(self, n); }
    fn visit_block_mut(&mut self, n: &mut st::Block) { self.hit("block", n); visit_mut::visit_block_mut(self, n); }
    fn visit_block_label_mut(&mut self, n: &mut st::BlockLabel) { self.hit("block_label", n); visit_mut::visit_block_label_mut(self, n); }
    fn visit_expr_mut(&mut self, n: &mut ex::Expression) { self.hit("expr", n); visit_mut::visit_expr_mut(self, n); }
    fn visit_array_mut(&mut self, n: &mut ex::Array) { self.hit("array", n); visit_mut::visit_array_mut(self, n); }
    fn visit_object_mut(&mut self, n: &mut ex::Object) { self.hit("object", n); visit_mut::visit_object_mut(self, n); }
    fn visit_object_value_mut(&mut self, n: &mut ex::ObjectValue) { self.hit("object_value", n); visit_mut::visit_object_value_mut(self, n); }
    fn visit_parenthesis_mut(&mut self, n: &mut ex::Parenthesis) { self.hit("parenthesis", n); visit_mut::visit_parenthesis_mut(self, n); }
    fn visit_conditional_mut(&mut self, n: &mut ex::Conditional) { self.hit("conditional", n); visit_mut::visit_conditional_mut(self, n); }
    fn visit_unary_op_mut(&mut self, n: &mut ex::UnaryOp) { self.hit("unary_op", n); visit_mut::visit_unary_op_mut(self, n); }
    fn visit_binary_op_mut(&mut self, n: &mut ex::BinaryOp) { self.hit("binary_op", n); visit_mut::visit_binary_op_mut(self, n); }
    fn visit_traversal_mut(&mut self, n: &mut ex::Traversal) { self.hit("traversal", n); visit_mut::visit_traversal_mut(self, n); }
    fn visit_traversal_operator_mut(&mut self, n: &mut ex::TraversalOperator) { self.hit("traversal_operator", n); visit_mut::visit_traversal_operator_mut(self, n); }
    fn visit_func_call_mut(&mut self, n: &mut ex::FuncCall) { self.hit("func_call", n); visit_mut::visit_func_call_mut(self, n); }
    fn visit_func_name_mut(&mut self, n: &mut ex::FuncName) { self.hit("func_name", n); visit_mut::visit_func_name_mut(self, n); }
    fn visit_func_args_mut(&mut self, n: &mut ex::FuncArgs) { self.hit("func_args", n); visit_mut::visit_func_args_mut(self, n); }
    fn visit_for_expr_mut(&mut self, n: &mut ex::ForExpr) { self.hit("for_expr", n); visit_mut::visit_for_expr_mut(self, n); }
    fn visit_for_intro_mut(&mut self, n: &mut ex::ForIntro) { self.hit("for_intro", n); visit_mut::visit_for_intro_mut(self, n); }
    fn visit_for_cond_mut(&mut self, n: &mut ex::ForCond) { self.hit("for_cond", n); visit_mut::visit_for_cond_mut(self, n); }
    fn visit_string_template_mut(&mut self, n: &mut tp::StringTemplate) { self.hit("string_template", n); visit_mut::visit_string_template_mut(self, n); }
    fn visit_heredoc_template_mut(&mut self, n: &mut tp::HeredocTemplate) { self.hit("heredoc_template", n); visit_mut::visit_heredoc_template_mut(self, n); }
    fn visit_template_mut(&mut self, n: &mut tp::Template) { self.hit("template", n); visit_mut::visit_template_mut(self, n); }
    fn visit_element_mut(&mut self, n: &mut tp::Element) { self.hit("element", n); visit_mut::visit_element_mut(self, n); }
    fn visit_interpolation_mut(&mut self, n: &mut tp::Interpolation) { self.hit("interpolation", n); visit_mut::visit_interpolation_mut(self, n); }
    fn visit_directive_mut(&mut self, n: &mut tp::Directive) { self.hit("directive", n); visit_mut::visit_directive_mut(self, n); }
    fn visit_if_directive_mut(&mut self, n: &mut tp::IfDirective) { self.hit("if_directive", n); visit_mut::visit_if_directive_mut(self, n); }
    fn visit_for_directive_mut(&mut self, n: &mut tp::ForDirective) { self.hit("for_directive", n); visit_mut::visit_for_directive_mut(self, n); }
    fn visit_if_template_expr_mut(&mut self, n: &mut tp::IfTemplateExpr) { self.hit("if_template_expr", n); visit_mut::visit_if_template_expr_mut(self, n); }
    fn visit_else_template_expr_mut(&mut self, n: &mut tp::ElseTemplateExpr) { self.hit("else_template_expr", n); visit_mut::visit_else_template_expr_mut(self, n); }
    fn visit_for_template_expr_mut(&mut self, n: &mut tp::ForTemplateExpr) { self.hit("for_template_expr", n); visit_mut::visit_for_template_expr_mut(self, n); }
    fn visit_structure_mut(&mut self, n: st::StructureMut) {
        match (n.as_attribute(), n.as_block()) {
            (Some(a), None) => self.hit("structure", a),
            (None, Some(b)) => self.hit("structure", b),
            _ => self.hit("no structure", &()),
        }
        visit_mut::visit_structure_mut(self, n);
    }
    fn visit_attr_mut(&mut self, n: st::AttributeMut) { self.hit("attr", n.get()); visit_mut::visit_attr_mut(self, n); }
    fn visit_object_key_mut(&mut self, n: ex::ObjectKeyMut) { self.hit("object_key", n.get()); }
    fn visit_object_item_mut(&mut self, k: ex::ObjectKeyMut, v: &mut ex::ObjectValue) { self.hit("object_item", v); visit_mut::visit_object_item_mut(self, k, v); }
}

/// The parts of a node in document order; `mutable`: without the parts that are not handed out mutably.
struct Parts {
    log: Log,
    mutable: bool,
}

impl Parts {
    fn p<T>(&mut self, what: &'static str, n: &T) {
        self.log.push((what, at(n)));
    }
    fn body(&mut self, b: &st::Body) {
        self.p("body", b);
        for i in 0..b.len() {
            let s = b.get(i).unwrap();
            match (s, self.mutable) {
                (st::Structure::Attribute(a), true) => self.p("structure", a),
                (st::Structure::Block(a), true) => self.p("structure", a),
                _ => self.p("structure", s),
            }
            match s {
                st::Structure::Attribute(a) => {
                    self.p("attr", a);
                    if !self.mutable {
                        self.p("ident", &a.key);
                    }
                    self.expr(&a.value);
                }
                st::Structure::Block(b) => {
                    self.p("block", b);
                    self.p("ident", &b.ident);
                    for l in &b.labels {
                        self.p("block_label", l);
                        match l {
                            st::BlockLabel::Ident(i) => self.p("ident", i),
                            st::BlockLabel::String(s) => self.p("string", s),
                        }
                    }
                    self.body(&b.body);
                }
            }
        }
    }
    fn expr(&mut self, e: &ex::Expression) {
        self.p("expr", e);
        use ex::Expression as E;
        match e {
            E::Null(n) => self.p("null", n),
            E::Bool(n) => self.p("bool", n),
            E::Number(n) => self.p("number", n),
            E::String(n) => self.p("string", n),
            E::Variable(n) => self.p("ident", n),
            E::Array(a) => {
                self.p("array", a);
                for i in 0..a.len() {
                    self.expr(a.get(i).unwrap());
                }
            }
            E::Object(o) => {
                self.p("object", o);
                for (k, v) in o.iter() {
                    self.p("object_item", v);
                    self.p("object_key", k);
                    if !self.mutable {
                        match k {
                            ex::ObjectKey::Ident(i) => self.p("ident", i),
                            ex::ObjectKey::Expression(e) => self.expr(e),
                        }
                    }
                    self.p("object_value", v);
                    self.expr(v.expr());
                }
            }
            E::StringTemplate(t) => {
                self.p("string_template", t);
                for e in t.iter() {
                    self.element(e);
                }
            }
            E::HeredocTemplate(t) => {
                self.p("heredoc_template", &**t);
                self.template(&t.template);
            }
            E::Parenthesis(p) => {
                self.p("parenthesis", &**p);
                self.expr(p.inner());
            }
            E::Conditional(c) => {
                self.p("conditional", &**c);
                self.expr(&c.cond_expr);
                self.expr(&c.true_expr);
                self.expr(&c.false_expr);
            }
            E::UnaryOp(o) => {
                self.p("unary_op", &**o);
                self.p("unary_operator", &o.operator);
                self.expr(&o.expr);
            }
            E::BinaryOp(o) => {
                self.p("binary_op", &**o);
                self.expr(&o.lhs_expr);
                self.p("binary_operator", &o.operator);
                self.expr(&o.rhs_expr);
            }
            E::Traversal(t) => {
                self.p("traversal", &**t);
                self.expr(&t.expr);
                for o in &t.operators {
                    self.p("traversal_operator", o.value());
                    match o.value() {
                        ex::TraversalOperator::AttrSplat(s) | ex::TraversalOperator::FullSplat(s) => self.p("splat", s),
                        ex::TraversalOperator::GetAttr(i) => self.p("ident", i),
                        ex::TraversalOperator::Index(e) => self.expr(e),
                        ex::TraversalOperator::LegacyIndex(u) => self.p("u64", u),
                    }
                }
            }
            E::FuncCall(c) => {
                self.p("func_call", &**c);
                self.p("func_name", &c.name);
                for n in &c.name.namespace {
                    self.p("ident", n);
                }
                self.p("ident", &c.name.name);
                self.p("func_args", &c.args);
                for i in 0..c.args.len() {
                    self.expr(c.args.get(i).unwrap());
                }
            }
            E::ForExpr(f) => {
                self.p("for_expr", &**f);
                self.p("for_intro", &f.intro);
                if let Some(k) = &f.intro.key_var {
                    self.p("ident", k);
                }
                self.p("ident", &f.intro.value_var);
                self.expr(&f.intro.collection_expr);
                if let Some(k) = &f.key_expr {
                    self.expr(k);
                }
                self.expr(&f.value_expr);
                if let Some(c) = &f.cond {
                    self.p("for_cond", c);
                    self.expr(&c.expr);
                }
            }
        }
    }
    fn template(&mut self, t: &tp::Template) {
        self.p("template", t);
        for i in 0..t.len() {
            self.element(t.get(i).unwrap());
        }
    }
    fn element(&mut self, e: &tp::Element) {
        self.p("element", e);
        match e {
            tp::Element::Literal(l) => self.p("literal", l),
            tp::Element::Interpolation(i) => {
                self.p("interpolation", i);
                self.expr(&i.expr);
            }
            tp::Element::Directive(d) => {
                self.p("directive", &**d);
                match &**d {
                    tp::Directive::If(d) => {
                        self.p("if_directive", d);
                        self.p("if_template_expr", &d.if_expr);
                        self.expr(&d.if_expr.cond_expr);
                        self.template(&d.if_expr.template);
                        if let Some(e) = &d.else_expr {
                            self.p("else_template_expr", e);
                            self.template(&e.template);
                        }
                        self.p("endif_template_expr", &d.endif_expr);
                    }
                    tp::Directive::For(d) => {
                        self.p("for_directive", d);
                        self.p("for_template_expr", &d.for_expr);
                        if let Some(k) = &d.for_expr.key_var {
                            self.p("ident", k);
                        }
                        self.p("ident", &d.for_expr.value_var);
                        self.expr(&d.for_expr.collection_expr);
                        self.template(&d.for_expr.template);
                        self.p("endfor_template_expr", &d.endfor_expr);
                    }
                }
            }
        }
    }
}

fn same(what: &str, got: &Log, want: &Log) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let name = |l: &Log| l.get(i).map_or("the end", |e| e.0);
    Err(format!("{what}: part {i} is {}{}, expected {} ({} of {} parts)", name(got), if name(got) == name(want) { " (another one)" } else { "" }, name(want), got.len(), want.len()))
}

/// Renames everything a hook is given, and changes nothing else.
struct Rename;

impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, n: &mut Decorated<Ident>) {
        *n.value_mut() = Ident::new(format!("{}_z", n.as_str()));
    }
    fn visit_number_mut(&mut self, n: &mut Formatted<Number>) {
        *n.value_mut() = Number::from(77u64);
    }
    fn visit_bool_mut(&mut self, n: &mut Decorated<bool>) {
        *n.value_mut() = !*n.value();
    }
}

#[derive(Default)]
struct Seen(Vec<String>);

impl Visit for Seen {
    fn visit_attr(&mut self, n: &st::Attribute) {
        self.visit_expr(&n.value);
    }
    fn visit_object_key(&mut self, _: &ex::ObjectKey) {}
    fn visit_ident(&mut self, n: &Decorated<Ident>) {
        self.0.push(format!("i:{}", n.as_str()));
    }
    fn visit_number(&mut self, n: &Formatted<Number>) {
        self.0.push(n.value().to_string());
    }
    fn visit_bool(&mut self, n: &Decorated<bool>) {
        self.0.push(n.value().to_string());
    }
    fn visit_string(&mut self, n: &Decorated<String>) {
        self.0.push(format!("{:?}", n.value()));
    }
}

fn renamed(before: &[String], after: &[String]) -> Res {
    let want: Vec<String> = before
        .iter()
        .map(|s| match s.as_str() {
            "true" => "false".into(),
            "false" => "true".into(),
            s if s.starts_with('"') => s.into(),
            s if s.trim_start_matches('-').starts_with(|c: char| c.is_ascii_digit()) => "77".into(),
            s => format!("{s}_z"),
        })
        .collect();
    if want == after {
        Ok(())
    } else {
        let i = want.iter().zip(after).take_while(|(a, b)| a == b).count();
        Err(format!("after a mutable walk that renames, {:?} instead of {:?}", after.get(i), want.get(i)))
    }
}

macro_rules! walk {
    ($tree:expr, $parts:ident, $visit:ident, $visit_mut:ident) => {{
        let mut tree = $tree;
        let (mut w, mut p) = (Walk::default(), Parts { log: vec![], mutable: false });
        w.$visit(&tree);
        p.$parts(&tree);
        same("the walk", &w.0, &p.log)?;
        let (mut w, mut p) = (WalkMut::default(), Parts { log: vec![], mutable: true });
        let text = tree.to_string();
        w.$visit_mut(&mut tree);
        p.$parts(&tree);
        same("the mutable walk", &w.0, &p.log)?;
        if tree.to_string() != text {
            return Err(format!("a mutable walk that changes nothing leaves {:?}", tree.to_string()));
        }
        let (mut a, mut b) = (Seen::default(), Seen::default());
        a.$visit(&tree);
        Rename.$visit_mut(&mut tree);
        b.$visit(&tree);
        renamed(&a.0, &b.0)
    }};
}

fn walks(doc: &Doc, text: &str) -> Res {
    match doc {
        Doc::Body(_) => match parse_body(text) {
            Ok(b) => walk!(b, body, visit_body, visit_body_mut),
            Err(_) => Ok(()),
        },
        Doc::Expr(_) => match parse_expr(text) {
            Ok(b) => walk!(b, expr, visit_expr, visit_expr_mut),
            Err(_) => Ok(()),
        },
        Doc::Tmpl(_) => match parse_template(text) {
            Ok(b) => walk!(b, template, visit_template, visit_template_mut),
            Err(_) => Ok(()),
        },
    }
}

pub fn c29(run: &mut Run) {
    run.rule("random documents with random layout: the hooks that are called (by address) against an independent enumeration of the parts, with Visit and VisitMut, and the tree after a renaming walk; non-trivial: text longer than 20 bytes");
    for _ in 0..run.iters(12_000) {
        let (doc, text) = random_doc(&mut run.rng, true);
        run.case("walk", &text, text.len() > 20, || walks(&doc, &text));
        if run.full() {
            return;
        }
    }
}
