//! Properties of the primitives: markers, identifiers, heredoc indentation.
use crate::core::*;
use hcl_edit::expr as ex;
use hcl_edit::template as tp;
use hcl_edit::{Ident, Span};
use hcl_primitives::ident::{is_id_continue, is_id_start, is_ident};
use hcl_primitives::template::{escape_markers, unescape_markers};
use std::str::FromStr;

// ---- C04 ------------------------------------------------------------------------------------------

/// Every start marker is doubled, everything else is kept.
fn m_escape(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for i in 0..c.len() {
        out.push(c[i]);
        if (c[i] == '$' || c[i] == '%') && i + 1 < c.len() && c[i + 1] == '{' {
            out.push(c[i]);
        }
    }
    out
}

/// `$${` becomes `${`, `%%{` becomes `%{`, from left to right.
fn m_unescape(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        out.push(c[i]);
        if (c[i] == '$' || c[i] == '%') && i + 2 < c.len() && c[i + 1] == c[i] && c[i + 2] == '{' {
            i += 2;
            out.push('{');
        }
        i += 1;
    }
    out
}

/// Whether a template lexer finds the start of an interpolation or directive in `s`: a marker that
/// is not the last part of an escaped one.
fn has_marker(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '$' || c[i] == '%' {
            if i + 2 < c.len() && c[i + 1] == c[i] && c[i + 2] == '{' {
                i += 3;
                continue;
            }
            if i + 1 < c.len() && c[i + 1] == '{' {
                return true;
            }
        }
        i += 1;
    }
    false
}

fn check_c04(run: &mut Run, s: &str) {
    let nontrivial = s.contains("${") || s.contains("%{");
    run.case("escape then unescape", s, nontrivial, || {
        let e = escape_markers(s);
        ensure(!has_marker(&e), || format!("an unescaped marker is left in {e:?}"))?;
        ensure(e == m_escape(s), || format!("escaped as {e:?}"))?;
        let u = unescape_markers(&e);
        ensure(u == s, || format!("escaped as {e:?}, unescaped as {u:?}"))?;
        let u = unescape_markers(s);
        ensure(u == m_unescape(s), || format!("unescaped directly as {u:?}, not {:?}", m_unescape(s)))?;
        if !nontrivial {
            ensure(e == s, || format!("altered to {e:?}"))?;
            ensure(u == s, || format!("altered to {u:?}"))?;
        }
        Ok(())
    });
}

/// The same through whole templates: a literal is written and read back as this one literal.
fn check_c04_template(run: &mut Run, s: &str) {
    run.case("literal of a template", s, s.contains("${") || s.contains("%{"), || {
        if !s.is_empty() {
            let mut t = tp::Template::new();
            t.push(tp::Element::Literal(s.to_string().into()));
            let text = t.to_string();
            let back = hcl_edit::parser::parse_template(&text).map_err(|e| format!("{text:?}: {e}"))?;
            ensure(back.as_single_element() == t.as_single_element(), || format!("{text:?} read as {back:?}"))?;
            let t = hcl::Template::new().add_literal(s);
            let text = hcl::format::to_string(&t).map_err(|e| e.to_string())?;
            let back = hcl::Template::from_str(&text).map_err(|e| format!("{text:?}: {e}"))?;
            ensure(back == t, || format!("{text:?} read as {back:?}"))?;
        }
        Ok(())
    });
}

pub fn c04(run: &mut Run) {
    run.rule("all strings over `$`, `%`, `{`, `}`, `a`, `é` up to length 8, random longer ones; whole-template round trips up to length 5; non-trivial: contains a start marker");
    let len = if run.thorough { 9 } else { 7 };
    let mut cases = vec![];
    all_strings(&["$", "%", "{", "a"], len, &mut |s| cases.push(s.to_string()));
    all_strings(&["$", "%", "{", "}", "é", "\n"], if run.thorough { 7 } else { 5 }, &mut |s| cases.push(s.to_string()));
    for s in &cases {
        check_c04(run, s);
    }
    run.exhausted("all strings over {$ % { a} up to length 7");
    let mut cases = vec![];
    all_strings(&["$", "%", "{", "a", "}"], 5, &mut |s| cases.push(s.to_string()));
    for s in &cases {
        check_c04_template(run, s);
    }
    for _ in 0..run.iters(60_000) {
        let s = random_marker_text(run);
        check_c04(run, &s);
        check_c04_template(run, &s);
    }
}

fn random_marker_text(run: &mut Run) -> String {
    let n = run.rng.below(40);
    let parts = ["$", "%", "{", "${", "%{", "$${", "%%{", "}", "a", " ", "\n", "é", "🦀", "\\", "\"", "~", "\u{2028}", "\0"];
    (0..n).map(|_| *run.rng.pick(&parts)).collect()
}

// ---- C06 ------------------------------------------------------------------------------------------

fn m_start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}

fn m_continue(c: char) -> bool {
    c == '-' || unicode_ident::is_xid_continue(c)
}

fn m_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(m_start) && c.all(m_continue)
}

fn check_c06(run: &mut Run, s: &str) {
    run.case("identifier", s, !s.is_empty(), || {
        let ok = m_ident(s);
        ensure(is_ident(s) == ok, || format!("is_ident says {}", is_ident(s)))?;
        let all: Vec<(&str, Option<String>)> = vec![
            ("try_new", Ident::try_new(s).ok().map(|i| i.as_str().to_string())),
            ("try_new of String", Ident::try_new(s.to_string()).ok().map(|i| i.into_string())),
            ("from_str", Ident::from_str(s).ok().map(|i| i.to_string())),
            ("TryFrom<&str>", Ident::try_from(s).ok().map(|i| String::from(i))),
            ("TryFrom<String>", Ident::try_from(s.to_string()).ok().map(|i| String::from(i))),
            ("TryFrom<Cow>", Ident::try_from(std::borrow::Cow::Borrowed(s)).ok().map(|i| String::from(i))),
            ("hcl::Identifier::new", hcl::Identifier::new(s).ok().map(|i| i.into_inner())),
            ("hcl::Identifier deserialized", serde_json::from_value::<hcl::Identifier>(serde_json::Value::String(s.into())).ok().map(|i| i.as_str().to_string())),
            ("Ident deserialized", serde_json::from_value::<Ident>(serde_json::Value::String(s.into())).ok().map(|i| i.as_str().to_string())),
        ];
        for (how, got) in all {
            let want = if ok { Some(s.to_string()) } else { None };
            ensure(got == want, || format!("{how} gives {got:?}"))?;
        }
        for (how, got) in [
            ("new_sanitized", Ident::new_sanitized(s).into_string()),
            ("Identifier::sanitized", hcl::Identifier::sanitized(s).into_inner()),
        ] {
            ensure(m_ident(&got), || format!("{how} makes {got:?}, no identifier"))?;
            ensure(!ok || got == s, || format!("{how} alters it to {got:?}"))?;
            ensure(Ident::new_sanitized(&got).as_str() == got, || format!("{how} is not idempotent on {got:?}"))?;
        }
        let made = std::panic::catch_unwind(|| Ident::new(s).into_string()).ok();
        ensure(made == if ok { Some(s.to_string()) } else { None }, || format!("new gives {made:?}"))?;
        // The parser takes exactly the same texts for a variable.
        let parsed = hcl_edit::expr::Expression::from_str(s);
        if ok && !["null", "true", "false"].contains(&s) {
            let v = parsed.ok().and_then(|e| e.as_variable().map(|v| v.as_str().to_string()));
            ensure(v.as_deref() == Some(s), || format!("parsed as {v:?}"))?;
        } else if let Ok(ex::Expression::Variable(v)) = parsed {
            ensure(m_ident(v.as_str()), || format!("parsed as variable {v:?}"))?;
        }
        Ok(())
    });
}

pub fn c06(run: &mut Run) {
    run.rule("every Unicode scalar value as start and as continuation character; all strings over 9 characters up to length 5; random mixes; non-trivial: not empty");
    let mut bad = vec![];
    for c in (0..=0x10FFFF).filter_map(char::from_u32) {
        if is_id_start(c) != m_start(c) || is_id_continue(c) != m_continue(c) || is_ident(&format!("a{c}")) != m_continue(c) || is_ident(&c.to_string()) != m_start(c) {
            bad.push(c);
        }
        run.evaluations += 1;
    }
    for c in bad {
        check_c06(run, &c.to_string());
        check_c06(run, &format!("a{c}"));
        run.case("character class", &c.to_string(), true, || {
            ensure(is_id_start(c) == m_start(c) && is_id_continue(c) == m_continue(c), || format!("start {} continue {}", is_id_start(c), is_id_continue(c)))
        });
    }
    run.exhausted("character classes over all Unicode scalar values");
    for c in (0..=0x10FFFF).step_by(if run.thorough { 1 } else { 41 }).filter_map(char::from_u32) {
        check_c06(run, &c.to_string());
        check_c06(run, &format!("{c}b"));
        check_c06(run, &format!("a{c}"));
        check_c06(run, &format!("a-{c}_"));
    }
    let mut cases = vec![];
    all_strings(&["a", "_", "-", "1", " ", "é", "·", ".", "\u{301}"], if run.thorough { 6 } else { 4 }, &mut |s| cases.push(s.to_string()));
    for s in &cases {
        check_c06(run, s);
    }
    for c in (0..0x250).filter_map(char::from_u32) {
        check_c06(run, &c.to_string());
        check_c06(run, &format!("{c}b"));
        check_c06(run, &format!("b{c}"));
        check_c06(run, &format!("b{c}b"));
    }
    for _ in 0..run.iters(20_000) {
        let n = run.rng.below(12);
        let parts = ["a", "Z", "_", "-", "1", "é", "名", "٣", "\u{203f}", "·", " ", ".", "$", "\n", "null", "true", "𝒳", "🦀", "\u{301}", "℘", "\u{200d}"];
        let s: String = (0..n).map(|_| *run.rng.pick(&parts)).collect();
        check_c06(run, &s);
    }
}

// ---- C16 ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Lit(String),
    /// Source text of an interpolation or directive.
    Code(String),
}

fn ws_of(line: &str) -> usize {
    // leading blanks, the line ending is none
    line.trim_end_matches('\n').trim_end_matches('\r').chars().take_while(|c| c.is_whitespace()).count()
}

/// What is left of a heredoc body after its indentation is removed.
fn m_dedent(body: &[Piece]) -> Vec<Piece> {
    // The lines that begin in the heredoc's own text, as (piece, text) runs.
    let mut at_start = true;
    let mut min: Option<usize> = None;
    for p in body {
        match p {
            Piece::Code(_) => {
                if at_start {
                    min = Some(0);
                }
                at_start = false;
            }
            Piece::Lit(s) => {
                for line in s.split_inclusive('\n') {
                    if at_start {
                        let blank = line.ends_with('\n') && line.trim().is_empty();
                        if !blank {
                            let n = ws_of(line);
                            min = Some(min.map_or(n, |m| m.min(n)));
                        }
                    }
                    at_start = line.ends_with('\n');
                }
            }
        }
    }
    let n = min.unwrap_or(0);
    let mut at_start = true;
    let mut out = vec![];
    for p in body {
        match p {
            Piece::Code(c) => {
                out.push(Piece::Code(c.clone()));
                at_start = false;
            }
            Piece::Lit(s) => {
                let mut t = String::new();
                for line in s.split_inclusive('\n') {
                    let cut = if at_start { ws_of(line).min(n) } else { 0 };
                    t.extend(line.chars().skip(cut));
                    at_start = line.ends_with('\n');
                }
                out.push(Piece::Lit(t));
            }
        }
    }
    out
}

fn check_c16(run: &mut Run, intro: &str, body: &[Piece], outro: &str) {
    let mut text = format!("a = <<-{intro}\n");
    for p in body {
        match p {
            Piece::Lit(s) | Piece::Code(s) => text.push_str(s),
        }
    }
    text.push_str(outro);
    text.push_str("END\n");
    let want = m_dedent(body);
    run.case("indented heredoc", &text, want != body, || {
        let doc = hcl_edit::parser::parse_body(&text).map_err(|e| format!("does not parse: {e}"))?;
        let printed = doc.to_string();
        ensure(printed == text, || format!("printed as {printed:?}"))?;
        let attr = doc.get_attribute("a").ok_or("no attribute a")?;
        let ex::Expression::HeredocTemplate(h) = &attr.value else {
            return Err(format!("parsed as {:?}", attr.value));
        };
        let mut got: Vec<Piece> = vec![];
        for e in h.template.iter() {
            match e {
                tp::Element::Literal(l) => got.push(Piece::Lit(l.to_string())),
                other => got.push(Piece::Code(text[other.span().unwrap()].to_string())),
            }
        }
        // An empty literal is no literal.
        let norm = |v: &[Piece]| {
            let mut out: Vec<Piece> = vec![];
            for p in v {
                match (out.last_mut(), p) {
                    (_, Piece::Lit(s)) if s.is_empty() => {}
                    (Some(Piece::Lit(a)), Piece::Lit(b)) => a.push_str(b),
                    _ => out.push(p.clone()),
                }
            }
            out
        };
        ensure(norm(&got) == norm(&want), || format!("read as {:?} instead of {:?}", norm(&got), norm(&want)))
    });
}

pub fn c16(run: &mut Run) {
    run.rule("indented heredocs: all bodies of up to three lines over short indents, tails and line endings; random bodies of up to eight lines with interpolations and directives; non-trivial: some indentation is removed");
    let indents = ["", " ", "  ", "\t", " \t", "   "];
    let tails = ["", "x", "x y ", "${v}", "x${v}", "é"];
    let ends = ["\n", "\r\n"];
    let mut lines = vec![];
    for i in indents {
        for t in tails {
            for e in ends {
                lines.push((i, t, e));
            }
        }
    }
    let make = |ls: &[(&str, &str, &str)]| {
        let mut body = vec![];
        let mut lit = String::new();
        for (i, t, e) in ls {
            lit.push_str(i);
            match t.find('$') {
                Some(k) => {
                    lit.push_str(&t[..k]);
                    body.push(Piece::Lit(std::mem::take(&mut lit)));
                    body.push(Piece::Code(t[k..].to_string()));
                }
                None => lit.push_str(t),
            }
            lit.push_str(e);
        }
        body.push(Piece::Lit(lit));
        body
    };
    for a in &lines {
        check_c16(run, "END", &make(&[*a]), "");
        check_c16(run, "END", &make(&[*a]), "  ");
        for b in &lines {
            check_c16(run, "END", &make(&[*a, *b]), "");
            if run.thorough {
                for c in &lines {
                    check_c16(run, "END", &make(&[*a, *b, *c]), " ");
                }
            }
        }
    }
    run.exhausted("indented heredocs of two lines out of 72");
    let indents = ["", "", " ", "  ", "    ", "      ", "\t", "\t\t", " \t ", "\u{a0}", "\u{3000} "];
    let tails = ["", "", "x", "foo bar", " x ", "END_", "é🦀", "$", "%", "\"q\"", "\\n", "\u{2028}z", "EN", "\u{c}", "\u{b}x"];
    let codes = ["${v}", "${ v.x }", "${~ v ~}", "%{ if v }\n    y\n  %{ endif }", "%{ for a in v }  ${a}\n x %{ endfor }", "${[\n  1,\n 2]}", "${\"a\"}", "%{~ if v ~} b %{~ else ~}\nc%{~ endif ~}"];
    for _ in 0..run.iters(40_000) {
        let n = 1 + run.rng.below(8);
        let mut body = vec![];
        let mut lit = String::new();
        let base = run.rng.pick(&indents).to_string();
        let crlf = run.rng.chance(1, 4);
        for _ in 0..n {
            if run.rng.chance(7, 8) {
                lit.push_str(&base);
            }
            lit.push_str(*run.rng.pick(&indents));
            for _ in 0..run.rng.below(4) {
                if run.rng.chance(1, 3) {
                    body.push(Piece::Lit(std::mem::take(&mut lit)));
                    body.push(Piece::Code(run.rng.pick(&codes).to_string()));
                } else {
                    lit.push_str(*run.rng.pick(&tails));
                }
            }
            lit.push_str(if crlf || run.rng.chance(1, 12) { "\r\n" } else { "\n" });
        }
        // `$` in front of `${` would escape it
        for p in body.iter_mut() {
            if let Piece::Lit(s) = p {
                while s.ends_with(['$', '%']) {
                    s.pop();
                }
            }
        }
        body.push(Piece::Lit(lit));
        let outro = *run.rng.pick(&["", "  ", "\t"]);
        check_c16(run, "END", &body, outro);
    }
    // A template put together by hand: removing its indentation does not change how it prints.
    let tails = ["", "x", "$", "%", "$$", "a$", "${", " ", "é"];
    for _ in 0..run.iters(20_000) {
        let mut t = tp::Template::new();
        let mut desc = vec![];
        let base = run.rng.pick(&indents).to_string();
        for _ in 0..1 + run.rng.below(4) {
            let mut lit = String::new();
            for _ in 0..1 + run.rng.below(2) {
                lit.push_str(&base);
                lit.push_str(*run.rng.pick(&indents));
                lit.push_str(*run.rng.pick(&tails));
                if run.rng.chance(2, 3) {
                    lit.push('\n');
                }
            }
            if !lit.is_empty() {
                desc.push(format!("{lit:?}"));
                t.push(hcl_edit::Spanned::new(lit));
            }
            if run.rng.chance(2, 3) {
                desc.push("${v}".into());
                t.push(tp::Interpolation::new(ex::Expression::from(hcl_edit::Ident::new("v"))));
            }
        }
        t.push(hcl_edit::Spanned::new("\n".to_string()));
        let desc = desc.join(" + ");
        run.case("heredoc built by hand", &desc, true, || {
            let mut h = tp::HeredocTemplate::new(hcl_edit::Ident::new("END"), t);
            let plain = ex::Expression::from(h.clone()).to_string();
            h.dedent();
            let printed = ex::Expression::from(h).to_string();
            ensure(printed.replacen("<<-", "<<", 1) == plain, || format!("printed as {printed:?} instead of {plain:?}"))
        });
    }
}
