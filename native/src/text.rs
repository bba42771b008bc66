//! Properties about text, continued: operator chains, spans, arbitrary input, error positions, strings.
use crate::core::*;
use crate::docs::{plain_text, random_doc, Doc};
use crate::gen::*;
use crate::model::*;
use hcl::Expression;
use hcl_edit::expr as ex;
use hcl_edit::parser::{parse_body, parse_expr, parse_template};
use hcl_edit::visit::{self, Visit};
use hcl_edit::{structure as st, template as tp, Span};
use std::ops::Range;
use std::str::FromStr;

// ---- C15 ------------------------------------------------------------------------------------------

/// Groups a flat chain by precedence, from left to right among equals.
fn group(mut operands: Vec<E>, mut ops: Vec<&'static str>) -> E {
    for level in (1..=6).rev() {
        let mut i = 0;
        while i < ops.len() {
            if prec(ops[i]) == level {
                let r = operands.remove(i + 1);
                let l = std::mem::replace(&mut operands[i], E::Null);
                operands[i] = E::Bin(Box::new(l), ops.remove(i), Box::new(r));
            } else {
                i += 1;
            }
        }
    }
    operands.pop().unwrap()
}

fn chain(run: &mut Run, operands: Vec<E>, ops: Vec<&'static str>, noise: u64) {
    let mut text = String::new();
    for (i, o) in operands.iter().enumerate() {
        let t = render_expr(&mut run.rng, o, 0, false);
        if i > 0 {
            let sep: [&str; 2] = if noise == 0 {
                [" ", " "]
            } else {
                let s = [" ", "", "\t", " /* + */ ", "  "];
                [*run.rng.pick(&s), *run.rng.pick(&s)]
            };
            let mut put = |s: &str| {
                // `a-b` is one identifier, `1- -1`, `//` and `/*` are no operators
                let (a, b) = (text.chars().last(), s.chars().next());
                if matches!((a, b), (Some(a), Some(b)) if (a.is_alphanumeric() || a == '_') && b == '-' || a == '-' || a == '/' && !text.ends_with("+ */") && (b == '/' || b == '*') || a == '<' && b == '<') {
                    text.push(' ');
                }
                text.push_str(s);
            };
            put(sep[0]);
            put(ops[i - 1]);
            put(sep[1]);
            put(&t);
        } else {
            text.push_str(&t);
        }
    }
    let want = group(operands, ops.clone());
    run.case("operator chain", &text, ops.len() > 1, || {
        let e = Expression::from_str(&text).map_err(|e| format!("refused: {e}"))?;
        same(&want, &e)?;
        let e = parse_expr(&text).map_err(|e| format!("refused: {e}"))?;
        same(&want, &e.into())
    });
}

pub fn c15(run: &mut Run) {
    use hcl::expr::{BinaryOperator, UnaryOperator};
    run.rule("all operator chains with 1 to 4 operators over variables, random longer chains with signs, parentheses, traversals and comments, against an independent precedence grouping; all short strings as operators; non-trivial: at least two operators");
    let v = |i: usize| E::Var(["a", "b", "c", "d", "e"][i].into());
    let all: Vec<&'static str> = OPS.iter().map(|o| o.0).collect();
    for n in 1..=4 {
        let mut idx = vec![0usize; n];
        loop {
            chain(run, (0..=n).map(v).collect(), idx.iter().map(|i| all[*i]).collect(), 0);
            let mut k = 0;
            while k < n && idx[k] + 1 == all.len() {
                idx[k] = 0;
                k += 1;
            }
            if k == n {
                break;
            }
            idx[k] += 1;
        }
    }
    run.exhausted("chains of up to 4 binary operators over distinct variables");
    for _ in 0..run.iters(20_000) {
        let n = 1 + run.rng.below(11);
        let mut operands = vec![];
        for _ in 0..=n {
            let mut g = Gen::syntax(&mut run.rng);
            g.heredocs = false;
            let e = match g.rng.below(8) {
                0 => un('-', E::Var("a".into())),
                1 => un('!', E::Var("b".into())),
                2 => paren(g.expr(Ty::Num, 2)),
                3 => trav(E::Var("o".into()), vec![g.op(1)]),
                4 => E::Num(g.rng.pick(&["1", "2.5", "-3"]).to_string()),
                5 => E::Call(vec!["f".into()], vec![g.expr(Ty::Num, 1)], false),
                6 => un('!', un('!', trav(E::Var("q".into()), vec![Op::Attr("r".into())]))),
                _ => E::Var("v".into()),
            };
            operands.push(e);
        }
        let ops = (0..n).map(|_| *run.rng.pick(&all)).collect();
        chain(run, operands, ops, 1);
        if run.full() {
            return;
        }
    }
    // conditionals bind weaker than every operator
    for (o, _) in OPS {
        for (p, _) in OPS {
            let text = format!("a {o} b {p} c ? d {o} e {p} f : g {o} h {p} i");
            let part = |l: &[&str]| group(l.iter().map(|s| E::Var((*s).into())).collect(), vec![o, p]);
            let want = E::Cond(Box::new(part(&["a", "b", "c"])), Box::new(part(&["d", "e", "f"])), Box::new(part(&["g", "h", "i"])));
            run.case("operators in a conditional", &text, true, || {
                same(&want, &Expression::from_str(&text).map_err(|e| format!("refused: {e}"))?)
            });
        }
    }
    // spelling of operators
    let mut known = std::collections::HashSet::new();
    all_strings(&["|", "&", "=", "!", "<", ">", "+", "-", "*", "/", "%", " ", "a"], 3, &mut |s| {
        run.case("operator from text", s, true, || {
            let b = BinaryOperator::from_str(s);
            let want = OPS.iter().any(|(o, _)| *o == s);
            ensure(b.is_ok() == want, || format!("BinaryOperator::from_str gives {b:?}"))?;
            if let Ok(b) = b {
                ensure(b.as_str() == s && b.to_string() == s, || format!("{b:?} is spelled {b}"))?;
                ensure(b.precedence() > 0, || "precedence".into())?;
                ensure(known.insert(format!("{b:?}")), || format!("{b:?} has two spellings"))?;
            }
            let u = UnaryOperator::from_str(s);
            ensure(u.is_ok() == (s == "-" || s == "!"), || format!("UnaryOperator::from_str gives {u:?}"))?;
            if let Ok(u) = u {
                ensure(u.as_str() == s && u.to_string() == s, || format!("{u:?} is spelled {u}"))?;
            }
            Ok(())
        });
    });
    run.exhausted("all strings of up to 3 operator characters as operators");
    run.case("relative precedence", "all pairs of operators", true, || {
        for (a, p) in OPS {
            for (b, q) in OPS {
                let (x, y) = (BinaryOperator::from_str(a).unwrap(), BinaryOperator::from_str(b).unwrap());
                ensure(x.precedence().cmp(&y.precedence()) == p.cmp(&q), || format!("precedence of {a} and {b}"))?;
            }
        }
        Ok(())
    });
}

// ---- C27 ------------------------------------------------------------------------------------------

struct Spans<'a> {
    text: &'a str,
    /// Parent span and the end of the last sibling.
    stack: Vec<(Range<usize>, usize)>,
    heredoc: usize,
    quoted: bool,
    nodes: usize,
    err: Option<String>,
}

impl Spans<'_> {
    /// The elements cover their template.
    fn covered(&mut self, n: &tp::Template, s: &std::ops::Range<usize>) {
        let mut at = s.start;
        for e in n.iter() {
            if let Some(x) = e.span() {
                if x.start != at {
                    return self.fail(format!("the text {:?} of a template is in no element", self.text.get(at..x.start)));
                }
                at = x.end;
            }
        }
        if at != s.end && !n.is_empty() {
            self.fail(format!("the text {:?} of a template is in no element", self.text.get(at..s.end)));
        }
    }

    fn fail(&mut self, m: String) {
        self.err.get_or_insert(m);
    }

    fn node(&mut self, what: &str, span: Option<Range<usize>>, required: bool, inner: impl FnOnce(&mut Self)) -> Option<Range<usize>> {
        let Some(s) = span else {
            if required {
                self.fail(format!("{what} has no span"));
            }
            inner(self);
            return None;
        };
        self.nodes += 1;
        let t = self.text;
        if s.start > s.end || s.end > t.len() || !t.is_char_boundary(s.start) || !t.is_char_boundary(s.end) {
            self.fail(format!("{what} has the span {s:?}, which is no range of characters"));
            return None;
        }
        let (parent, last) = self.stack.last().cloned().unwrap();
        if s.start < parent.start || s.end > parent.end {
            self.fail(format!("{what} at {s:?} ({:?}) is not inside of its parent at {parent:?}", &t[s.clone()]));
        }
        if s.start < last {
            self.fail(format!("{what} at {s:?} ({:?}) overlaps its sibling, which ends at {last}", &t[s.clone()]));
        }
        self.stack.last_mut().unwrap().1 = s.end;
        self.stack.push((s.clone(), s.start));
        inner(self);
        self.stack.pop();
        Some(s)
    }

    fn exact(&mut self, what: &str, span: Option<Range<usize>>, want: &str) {
        if let Some(s) = self.node(what, span, true, |_| ()) {
            if &self.text[s.clone()] != want {
                self.fail(format!("{what} {want:?} has the span {s:?} of {:?}", &self.text[s.clone()]));
            }
        }
    }
}

impl Visit for Spans<'_> {
    fn visit_ident(&mut self, n: &hcl_edit::Decorated<hcl_edit::Ident>) {
        self.exact("the identifier", n.span(), n.as_str());
    }
    fn visit_binary_operator(&mut self, n: &hcl_edit::Decorated<ex::BinaryOperator>) {
        self.exact("the operator", n.span(), n.as_str());
    }
    fn visit_unary_operator(&mut self, n: &hcl_edit::Spanned<ex::UnaryOperator>) {
        self.exact("the operator", n.span(), n.as_str());
    }
    fn visit_splat(&mut self, n: &hcl_edit::Decorated<ex::Splat>) {
        self.exact("the splat", n.span(), "*");
    }
    fn visit_u64(&mut self, n: &hcl_edit::Decorated<u64>) {
        if let Some(s) = self.node("the legacy index", n.span(), true, |_| ()) {
            if self.text[s.clone()].parse() != Ok(**n) {
                self.fail(format!("the legacy index {n} has the span of {:?}", &self.text[s]));
            }
        }
    }
    fn visit_structure(&mut self, n: &st::Structure) {
        let s = self.node("the structure", n.span(), true, |v| visit::visit_structure(v, n));
        if let (Some(s), None) = (s, &self.err) {
            let want: hcl::Structure = n.clone().into();
            match parse_body(&self.text[s.clone()]) {
                Ok(b) => {
                    let b: hcl::Body = b.into();
                    if b.iter().collect::<Vec<_>>() != [&want] {
                        self.fail(format!("the text {:?} of a structure parses to {b:?}, not {want:?}", &self.text[s]));
                    }
                }
                Err(e) => self.fail(format!("the text {:?} of a structure does not parse: {e}", &self.text[s])),
            }
        }
    }
    fn visit_body(&mut self, n: &st::Body) {
        self.node("the body", n.span(), false, |v| visit::visit_body(v, n));
    }
    fn visit_block_label(&mut self, n: &st::BlockLabel) {
        match n {
            st::BlockLabel::Ident(i) => self.visit_ident(i),
            st::BlockLabel::String(l) => {
                if let Some(s) = self.node("the label", n.span(), true, |_| ()) {
                    match parse_expr(&self.text[s.clone()]) {
                        Ok(ex::Expression::String(t)) if *t == **l => {}
                        other => self.fail(format!("the label {:?} has the span of {:?} ({other:?})", l.as_str(), &self.text[s])),
                    }
                }
            }
        }
    }
    fn visit_expr(&mut self, n: &ex::Expression) {
        let (q, h) = (self.quoted, self.heredoc);
        self.quoted = matches!(n, ex::Expression::StringTemplate(_));
        self.heredoc = match n {
            ex::Expression::HeredocTemplate(h) => 1 + usize::from(h.indent().is_some()),
            _ => 0,
        };
        let s = self.node("the expression", n.span(), true, |v| match n {
            // spans of the leaves are those of the expression
            ex::Expression::Variable(_) | ex::Expression::String(_) | ex::Expression::Bool(_) | ex::Expression::Null(_) | ex::Expression::Number(_) => {}
            n => visit::visit_expr(v, n),
        });
        (self.quoted, self.heredoc) = (q, h);
        if let (Some(s), None) = (s, &self.err) {
            let want: Expression = n.clone().into();
            // in parentheses, line breaks are allowed everywhere
            match parse_expr(&format!("({}\n)", &self.text[s.clone()])) {
                Ok(ex::Expression::Parenthesis(p)) => {
                    let got: Expression = p.into_inner().into();
                    if got != want {
                        self.fail(format!("the text {:?} of an expression parses to {got:?}, not {want:?}", &self.text[s]));
                    }
                }
                other => self.fail(format!("the text {:?} of an expression does not parse: {other:?}", &self.text[s])),
            }
        }
    }
    fn visit_string_template(&mut self, n: &tp::StringTemplate) {
        visit::visit_string_template(self, n);
    }
    fn visit_template(&mut self, n: &tp::Template) {
        let s = self.node("the template", n.span(), true, |v| visit::visit_template(v, n));
        if let (Some(s), None) = (s, &self.err) {
            self.covered(n, &s);
        }
    }
    fn visit_element(&mut self, n: &tp::Element) {
        self.node("the template element", n.span(), true, |v| match n {
            tp::Element::Literal(_) => {}
            tp::Element::Interpolation(i) => visit::visit_interpolation(v, i),
            tp::Element::Directive(d) => visit::visit_directive(v, d),
        });
        if let (tp::Element::Literal(l), Some(s), true) = (n, n.span(), self.heredoc > 0) {
            let indented = self.heredoc == 2;
            // blanks in front of a line may be gone in a heredoc without indentation
            let lines = |t: &str| t.split('\n').map(|l| if indented { l.trim_start().to_string() } else { l.to_string() }).collect::<Vec<_>>();
            let t = &self.text[s];
            if lines(&t.replace("$${", "${").replace("%%{", "%{")) != lines(l) {
                self.fail(format!("the literal {:?} has the span of {t:?}", l.as_str()));
            }
        }
        if let (tp::Element::Literal(l), Some(s), 0) = (n, n.span(), self.heredoc) {
            let t = &self.text[s];
            let ok = if self.quoted {
                matches!(parse_expr(&format!("\"{t}\"")), Ok(ex::Expression::String(x)) if *x == **l)
            } else {
                parse_template(t).is_ok_and(|x| x.len() == 1 && x.get(0).and_then(|e| e.as_literal()).is_some_and(|x| **x == **l))
            };
            if !ok {
                self.fail(format!("the literal {:?} has the span of {t:?}", l.as_str()));
            }
        }
    }
    fn visit_for_template_expr(&mut self, n: &tp::ForTemplateExpr) {
        if let Some(k) = &n.key_var {
            self.visit_ident(k);
        }
        self.visit_ident(&n.value_var);
        self.visit_expr(&n.collection_expr);
        self.visit_template(&n.template);
    }
    fn visit_for_expr(&mut self, n: &ex::ForExpr) {
        visit::visit_for_expr(self, n);
    }
    fn visit_func_args(&mut self, n: &ex::FuncArgs) {
        self.node("the arguments", n.span(), false, |v| visit::visit_func_args(v, n));
    }
    fn visit_for_intro(&mut self, n: &ex::ForIntro) {
        self.node("the for intro", n.span(), false, |v| visit::visit_for_intro(v, n));
    }
    fn visit_for_cond(&mut self, n: &ex::ForCond) {
        self.node("the for condition", n.span(), false, |v| visit::visit_for_cond(v, n));
    }
}

fn spans(doc: &Doc, text: &str) -> Res {
    let mut v = Spans { text, stack: vec![(0..text.len(), 0)], heredoc: 0, quoted: false, nodes: 0, err: None };
    match doc {
        Doc::Body(_) => match parse_body(text) {
            Ok(b) => v.visit_body(&b),
            Err(_) => return Ok(()),
        },
        Doc::Expr(_) => match parse_expr(text) {
            Ok(b) => v.visit_expr(&b),
            Err(_) => return Ok(()),
        },
        Doc::Tmpl(_) => match parse_template(text) {
            Ok(b) => visit::visit_template(&mut v, &b),
            Err(_) => return Ok(()),
        },
    }
    v.err.map_or(Ok(()), Err)
}

pub fn c27(run: &mut Run) {
    run.rule("random documents with random layout: every node's span is checked for borders, containment, order and its text (reparsed); non-trivial: text longer than 20 bytes");
    for _ in 0..run.iters(20_000) {
        let (doc, text) = random_doc(&mut run.rng, true);
        run.case("spans", &text, text.len() > 20, || spans(&doc, &text));
        if run.full() {
            return;
        }
    }
}

// ---- C25 ------------------------------------------------------------------------------------------

const TOKENS: [&str; 44] = [
    "a", "\"", "${", "%{", "}", "{", "[", "]", "<<E\n", "<<-E\n", "\nE\n", "\\", "$", "%", "~", "if ", "for ", "endif", "endfor", "else", "in ", "=", ".", " ",
    "\n", "-", "1", "(", ")", "*", "?", ":", ",", "...", "\\u", "é", "\r\n", "#", "/*", "*/", "::", "=>", "1e", "&&",
];

const ESCAPES: [&str; 16] = ["\\", "u", "U", "d8", "00", "FF", "11", "f", "{", "}", "\"", "n", "\n", "é", "$", "%{"];
const NUMBERS: [&str; 12] = ["0", "9", "99999999999999999999", ".", "e", "E", "+", "-", "999", "a", "[", "]"];

fn parse_all(text: &str) -> Res {
    // The parsers only have to return; what they accept must be printable.
    if let Ok(b) = parse_body(text) {
        let _ = b.to_string();
        let _: hcl::Body = b.into();
    }
    if let Ok(e) = parse_expr(text) {
        let _ = e.to_string();
        let _: Expression = e.into();
    }
    if let Ok(t) = parse_template(text) {
        let _ = t.to_string();
        let _: hcl::Template = t.into();
    }
    let _ = hcl::parse(text);
    let _ = Expression::from_str(text);
    let _ = hcl::Template::from_str(text);
    let _ = hcl::from_str::<hcl::Value>(text);
    if let Err(e) = parse_body(text) {
        let _ = e.to_string();
    }
    Ok(())
}

/// Edits `text` in a few random places.
fn mutate(rng: &mut Rng, text: &str) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for _ in 0..1 + rng.below(3) {
        let at = rng.below(t.len() + 1);
        match rng.below(6) {
            0 => t.truncate(at),
            1 if at < t.len() => {
                let end = (at + 1 + rng.below(4)).min(t.len());
                t.drain(at..end);
            }
            2 | 3 => {
                let s: Vec<char> = rng.pick(&TOKENS).chars().collect();
                t.splice(at..at, s);
            }
            4 if at < t.len() => {
                let s: Vec<char> = rng.pick(&TOKENS).chars().collect();
                t.splice(at..at + 1, s);
            }
            _ if !t.is_empty() => {
                let a = rng.below(t.len());
                let b = (a + rng.below(12)).min(t.len());
                let s: Vec<char> = t[a..b].to_vec();
                t.splice(at..at, s);
            }
            _ => {}
        }
    }
    t.into_iter().collect()
}

pub fn deep(open: &str, close: &str, n: usize) {
    let text = format!("{}1{}", open.repeat(n), close.repeat(n));
    let _ = std::hint::black_box(parse_expr(&text).is_ok());
}

pub fn c25(run: &mut Run) {
    run.rule("all token strings up to a length, mutated random documents and random characters are parsed in every way; non-trivial: all");
    let max = if run.thorough { 4 } else { 3 };
    all_strings(&TOKENS, max, &mut |s| run.case("parse any text", s, true, || parse_all(s)));
    run.exhausted(&format!("all strings of up to {max} of 44 tokens"));
    // escapes and numbers
    let max = if run.thorough { 5 } else { 4 };
    all_strings(&ESCAPES, max, &mut |s| {
        for text in [format!("\"{s}\""), format!("a \"{s}\" {{\n}}\n"), format!("a = <<E\n{s}\nE\n")] {
            run.case("parse any escape", &text, true, || parse_all(&text));
        }
    });
    run.exhausted(&format!("all strings of up to {max} of 16 parts of escapes in quotes, labels and heredocs"));
    all_strings(&NUMBERS, max + 1, &mut |s| run.case("parse any number", s, true, || parse_all(s)));
    run.exhausted(&format!("all strings of up to {} of 12 parts of numbers", max + 1));
    for _ in 0..run.iters(40_000) {
        let (_, text) = random_doc(&mut run.rng, true);
        let text = mutate(&mut run.rng, &text);
        run.case("parse any text", &text, true, || parse_all(&text));
        if run.full() {
            return;
        }
    }
    for _ in 0..run.iters(20_000) {
        let n = run.rng.below(14);
        let text: String = (0..n)
            .map(|_| match run.rng.below(4) {
                0 => char::from_u32(run.rng.below(0x80) as u32).unwrap(),
                1 => char::from_u32(run.rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                _ => run.rng.pick(&TOKENS).chars().next().unwrap(),
            })
            .collect();
        run.case("parse any text", &text, true, || parse_all(&text));
    }
    // Nested constructs in a process of their own: an exhausted stack cannot be caught.
    for (open, close) in [("[", "]"), ("(", ")"), ("{a=", "}"), ("\"${", "}\""), ("f(", ")"), ("-", ""), ("a?1:", "")] {
        for n in [100, 100_000] {
            let input = format!("{open} repeated {n} times");
            run.case("nested constructs", &input, true, || {
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                let p = std::process::Command::new(exe)
                    .args(["--deep", open, close, &n.to_string()])
                    .stderr(std::process::Stdio::null())
                    .status()
                    .map_err(|e| e.to_string())?;
                ensure(p.success(), || format!("the process died: {p}"))
            });
        }
    }
}

// ---- C17 ------------------------------------------------------------------------------------------

/// Checks the position an error reports against the text.
fn position(text: &str, e: &hcl_edit::parser::Error, expected: Option<usize>) -> Res {
    let loc = e.location();
    let lines: Vec<&str> = text.split('\n').collect();
    ensure(loc.line() >= 1 && loc.line() <= lines.len(), || format!("line {} of {}", loc.line(), lines.len()))?;
    let line = lines[loc.line() - 1];
    ensure(e.line() == line, || format!("line {} is {line:?}, but {:?} is reported", loc.line(), e.line()))?;
    let n = line.chars().count();
    let last = loc.line() == lines.len();
    // on a character of the line, on its line break or at the end of the input
    let at_end = text.ends_with('\n') && loc.line() + 1 == lines.len();
    let max = n + if last { 1 } else { 1 } + usize::from(at_end);
    ensure(loc.column() >= 1 && loc.column() <= max, || format!("column {} in line {:?}", loc.column(), line))?;
    let shown = e.to_string();
    ensure(shown.contains(&format!("in line {}, column {}\n", loc.line(), loc.column())), || format!("message {shown:?}"))?;
    ensure(loc.offset() <= text.len(), || format!("offset {}", loc.offset()))?;
    if loc.column() <= n {
        // offset, line and column are three views of one position
        let start: usize = lines[..loc.line() - 1].iter().map(|l| l.len() + 1).sum();
        let off = start + line.char_indices().nth(loc.column() - 1).unwrap().0;
        ensure(off <= loc.offset() && loc.offset() < off + 4, || format!("offset {} is not that of {}:{}", loc.offset(), loc.line(), loc.column()))?;
    }
    if let Some(at) = expected {
        let before = &text[..at];
        let l = before.matches('\n').count() + 1;
        let c = before[before.rfind('\n').map_or(0, |i| i + 1)..].chars().count() + 1;
        ensure((loc.line(), loc.column()) == (l, c), || format!("the error is at {l}:{c}, but {}:{} is reported", loc.line(), loc.column()))?;
    }
    Ok(())
}

pub fn c17(run: &mut Run) {
    run.rule("mutated documents: line, column, text and offset of the error agree; documents with one misplaced token at a known place: line and column are those of the token; non-trivial: an error is reported");
    // a token that can never stand there, behind arbitrary valid text
    for _ in 0..run.iters(20_000) {
        let noise = *run.rng.pick(&[0u64, 8, 30]);
        let mut g = Gen::syntax(&mut run.rng);
        let items = g.body(2, 4);
        let mut text = render_body(&mut run.rng, &items, noise);
        // outside of comments, where the document ends in one
        if !text.ends_with('\n') {
            text.push('\n');
        }
        text.push_str(*run.rng.pick(&["", " ", "\t\u{9}", "/* é\n日 */", "b \"é\" ", "b é \"日\" ", "é /* ü\n日*/ b ", "é ü {\n日 { "]));
        let at = text.len();
        text.push_str(*run.rng.pick(&[")", "]=", "@", "😀 = 1"]));
        text.push_str(*run.rng.pick(&["", "\n", " \n a = 1\n", "é"]));
        check_at(run, &text, at);
        if run.full() {
            return;
        }
    }
    for _ in 0..run.iters(40_000) {
        let (_, text) = random_doc(&mut run.rng, true);
        let text = mutate(&mut run.rng, &text);
        if let Err(e) = parse_body(&text) {
            run.case("position of a body error", &text, true, || position(&text, &e, None));
        }
        if let Err(e) = parse_expr(&text) {
            run.case("position of an expression error", &text, true, || position(&text, &e, None));
        }
        if let Err(e) = parse_template(&text) {
            run.case("position of a template error", &text, true, || position(&text, &e, None));
        }
        if run.full() {
            return;
        }
    }
    all_strings(&["a", "=", "\n", "é", "\"", "}", "\r\n", "1"], 6, &mut |s| {
        if let Err(e) = parse_body(s) {
            run.case("position of a body error", s, true, || position(s, &e, None));
        }
    });
    run.exhausted("all strings of up to 6 of 8 tokens, parsed as bodies");
}

fn check_at(run: &mut Run, text: &str, at: usize) {
    let text = text.to_string();
    run.case("position of a misplaced token", &text, true, || match parse_body(&text) {
        Ok(_) => Err("accepted".into()),
        Err(e) => position(&text, &e, Some(at)),
    });
}

// ---- C05 ------------------------------------------------------------------------------------------

fn quoted(s: &str, what: &str) -> Res {
    // one raw line break ends the attribute or block, no other control character is raw
    let inner = s.trim_end_matches('\n');
    match inner.chars().find(|c| (*c as u32) < 0x20) {
        None => Ok(()),
        Some(c) => Err(format!("{what} writes {c:?} raw: {s:?}")),
    }
}

fn string(s: &str) -> Res {
    use hcl::format::{Format, Formatter};
    let p = |e: hcl::Error| e.to_string();
    // formatter: expressions, attributes, labels, keys
    let t = hcl::format::to_string(&Expression::String(s.into())).map_err(p)?;
    quoted(&t, "the formatter")?;
    let e = Expression::from_str(&t).map_err(|e| format!("formatted as {t:?}: {e}"))?;
    ensure(e == Expression::String(s.into()), || format!("formatted as {t:?}, which is {e:?}"))?;
    let body = hcl::Body::builder()
        .add_attribute(("a", Expression::String(s.into())))
        .add_block(hcl::Block::builder("b").add_label(hcl::BlockLabel::String(s.into())).build())
        .add_attribute((
            "o",
            Expression::Object([(hcl::expr::ObjectKey::Expression(Expression::String(s.into())), Expression::String(s.into()))].into_iter().collect()),
        ))
        .build();
    for idents in [false, true] {
        let mut f = Formatter::builder().compact(true).dense(true).prefer_ident_keys(idents).build_vec();
        let t = body.format_string(&mut f).map_err(p)?;
        for line in t.split('\n') {
            quoted(line, "the formatter")?;
        }
        let back = hcl::parse(&t).map_err(|e| format!("formatted as {t:?}: {e}"))?;
        let mut want = body.clone();
        if idents && hcl::Identifier::new(s).is_ok() {
            want = hcl::parse(&t.clone()).unwrap();
            let key = want.attributes().nth(1).map(|a| a.expr.to_string());
            ensure(key.is_some_and(|k| k.contains(s)), || format!("formatted as {t:?}"))?;
        }
        ensure(back == want, || format!("formatted as {t:?}, which is {back:?}"))?;
    }
    // serializer
    let data: indexmap::IndexMap<String, String> = [("k".to_string(), s.to_string())].into_iter().collect();
    let t = hcl::to_string(&data).map_err(p)?;
    quoted(&t, "the serializer")?;
    let v: indexmap::IndexMap<String, String> = hcl::from_str(&t).map_err(|e| format!("serialized as {t:?}: {e}"))?;
    ensure(v == data, || format!("serialized as {t:?}, which is {v:?}"))?;
    // keys of nested maps
    let nested: indexmap::IndexMap<String, indexmap::IndexMap<String, u8>> =
        [("k".to_string(), [(s.to_string(), 1u8)].into_iter().collect())].into_iter().collect();
    let t = hcl::to_string(&nested).map_err(p)?;
    let v: indexmap::IndexMap<String, indexmap::IndexMap<String, u8>> = hcl::from_str(&t).map_err(|e| format!("serialized as {t:?}: {e}"))?;
    ensure(v == nested, || format!("serialized as {t:?}, which is {v:?}"))?;
    // format-preserving encoder
    let e = ex::Expression::from(s);
    let t = e.to_string();
    quoted(&t, "the encoder")?;
    match parse_expr(&t) {
        Ok(ex::Expression::String(x)) if *x == s => {}
        other => return Err(format!("encoded as {t:?}, which is {other:?}")),
    }
    let body = st::Body::builder()
        .attribute(st::Attribute::new(hcl_edit::Ident::new("a"), e))
        .block(st::Block::builder(hcl_edit::Ident::new("b")).labels([st::BlockLabel::from(s)]).build())
        .build();
    let t = body.to_string();
    for line in t.split('\n') {
        quoted(line, "the encoder")?;
    }
    let back = parse_body(&t).map_err(|e| format!("encoded as {t:?}: {e}"))?;
    ensure(back == body, || format!("encoded as {t:?}, which is {back:?}"))?;
    // literals of quoted templates: an interpolation follows
    let mut tmpl = tp::StringTemplate::new();
    tmpl.push(tp::Element::Literal(hcl_edit::Spanned::new(s.into())));
    tmpl.push(tp::Element::Interpolation(tp::Interpolation::new(hcl_edit::Ident::new("x"))));
    let e = ex::Expression::StringTemplate(tmpl);
    let t = e.to_string();
    quoted(&t, "the encoder")?;
    let back: Expression = parse_expr(&t).map_err(|e| format!("encoded as {t:?}: {e}"))?.into();
    let want = normal(vec![T::Lit(s.into()), T::Interp(E::Var("x".into()), (false, false))]);
    same(&E::Tmpl(want), &back).map_err(|e| format!("encoded as {t:?}: {e}"))
}

pub fn c05(run: &mut Run) {
    run.rule("strings through formatter (values, labels, keys), serializer and encoder, read back; non-trivial: contains a character that needs escaping");
    let special = |s: &str| s.chars().any(|c| (c as u32) < 0x20 || "\"\\$%{".contains(c) || c as u32 > 0x7e);
    // every character alone
    for c in (0..=0x10_ffffu32).filter_map(char::from_u32) {
        let u = c as u32;
        if u < 0x3000 || u % 0x101 == 0 || u >= 0xfff0 && u < 0x1_0010 || (run.thorough && u % 7 == 0) {
            let s = c.to_string();
            run.case("string", &s, special(&s), || string(&s));
        }
    }
    run.exhausted("every single character below U+3000");
    let n = if run.thorough { 6 } else { 4 };
    all_strings(&["$", "%", "{", "}", "\"", "\\", "\n", "a", "\u{0}"], n, &mut |s| run.case("string", s, special(s), || string(s)));
    run.exhausted(&format!("all strings of up to {n} of 9 characters that matter"));
    for _ in 0..run.iters(10_000) {
        let mut g = Gen::syntax(&mut run.rng);
        let s = if g.rng.chance(1, 4) { plain_text(&mut g) } else { g.text(9) };
        run.case("string", &s, special(&s), || string(&s));
        if run.full() {
            return;
        }
    }
}
