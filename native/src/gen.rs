//! Syntax trees of the HCL expression, template and structure languages, generated at random and
//! rendered as text with random layout.  Nothing here uses the code under test: the trees have the
//! shape the grammar gives them, so that a document is known before it is parsed.
use crate::core::Rng;
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Null,
    Bool(bool),
    /// Spelling of a number.
    Num(String),
    Str(String),
    Tmpl(Vec<T>),
    Heredoc { delim: String, body: Vec<T> },
    Array(Vec<E>),
    Object(Vec<(K, E)>),
    Var(String),
    Trav(Box<E>, Vec<Op>),
    Call(Vec<String>, Vec<E>, bool),
    Paren(Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Un(char, Box<E>),
    Bin(Box<E>, &'static str, Box<E>),
    For(Box<For>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct For {
    pub key: Option<String>,
    pub val: String,
    pub coll: E,
    pub key_expr: Option<E>,
    pub value: E,
    pub group: bool,
    pub cond: Option<E>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum K {
    Ident(String),
    Expr(E),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Attr(String),
    Index(E),
    Legacy(u64),
    AttrSplat,
    FullSplat,
}

/// Whether there is a strip marker at the start and at the end of a tag.
pub type S = (bool, bool);

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Lit(String),
    Interp(E, S),
    If(E, Vec<T>, Option<Vec<T>>, [S; 3]),
    For(Option<String>, String, E, Vec<T>, [S; 2]),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Attr(String, E),
    Block(String, Vec<Label>, Vec<Item>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Label {
    Ident(String),
    Str(String),
}

pub const OPS: [(&str, u8); 13] = [
    ("||", 1),
    ("&&", 2),
    ("==", 3),
    ("!=", 3),
    ("<", 4),
    (">", 4),
    ("<=", 4),
    (">=", 4),
    ("+", 5),
    ("-", 5),
    ("*", 6),
    ("/", 6),
    ("%", 6),
];

pub fn prec(op: &str) -> u8 {
    OPS.iter().find(|(o, _)| *o == op).unwrap().1
}

pub fn paren(e: E) -> E {
    E::Paren(Box::new(e))
}

/// `e`, in parentheses if it does not stand for a single term.
pub fn term(e: E) -> E {
    match e {
        E::Bin(..) | E::Cond(..) | E::Heredoc { .. } => paren(e),
        e => e,
    }
}

pub fn bin(l: E, op: &'static str, r: E) -> E {
    let p = prec(op);
    let l = match l {
        E::Bin(_, o, _) if prec(o) >= p => l,
        l => term(l),
    };
    let r = match r {
        E::Bin(_, o, _) if prec(o) > p => r,
        r => term(r),
    };
    E::Bin(Box::new(l), op, Box::new(r))
}

pub fn un(op: char, e: E) -> E {
    let e = match term(e) {
        // Known finding of C20: the sign of `-0` is lost when formatting `--0`.
        E::Num(n) if op == '-' && n == "-0" => E::Num("-1".into()),
        // `-5` is a number, not an operation.
        E::Num(n) if op == '-' && !n.starts_with('-') => paren(E::Num(n)),
        e => e,
    };
    E::Un(op, Box::new(e))
}

pub fn cond(c: E, t: E, f: E) -> E {
    let c = match c {
        E::Cond(..) | E::Heredoc { .. } => paren(c),
        c => c,
    };
    let no_heredoc = |e| match e {
        E::Heredoc { .. } => paren(e),
        e => e,
    };
    E::Cond(Box::new(c), Box::new(no_heredoc(t)), Box::new(no_heredoc(f)))
}

pub fn trav(e: E, ops: Vec<Op>) -> E {
    if ops.is_empty() {
        return e;
    }
    let base = match term(e) {
        e @ (E::Un(..) | E::Num(_) | E::Trav(..)) => paren(e),
        e => e,
    };
    E::Trav(Box::new(base), ops)
}

/// Merges neighbouring literals and drops empty ones.
pub fn normal(parts: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for p in parts {
        match (out.last_mut(), p) {
            (_, T::Lit(s)) if s.is_empty() => {}
            (Some(T::Lit(a)), T::Lit(b)) => a.push_str(&b),
            (_, p) => out.push(p),
        }
    }
    out
}

/// Outside of quotes a literal cannot end in a character that would escape the marker behind it.
fn bare(parts: &mut Vec<T>, in_directive: bool) {
    let n = parts.len();
    for i in 0..n {
        let next_dir = match parts.get(i + 1) {
            Some(T::If(..) | T::For(..)) => true,
            None => in_directive,
            _ => false,
        };
        let next_int = matches!(parts.get(i + 1), Some(T::Interp(..)));
        match &mut parts[i] {
            T::Lit(s) if (next_int && s.ends_with('$')) || (next_dir && s.ends_with('%')) => s.push('.'),
            T::If(_, t, f, _) => {
                bare(t, true);
                if let Some(f) = f {
                    bare(f, true);
                }
            }
            T::For(_, _, _, b, _) => bare(b, true),
            _ => {}
        }
    }
}

pub fn bare_template(parts: Vec<T>) -> Vec<T> {
    let mut p = normal(parts);
    bare(&mut p, false);
    p
}

/// A quoted template, or the string it is when it has only literals.
pub fn tmpl(parts: Vec<T>) -> E {
    let parts = normal(parts);
    match parts.as_slice() {
        [] => E::Str(String::new()),
        [T::Lit(s)] => E::Str(s.clone()),
        _ => E::Tmpl(parts),
    }
}

pub fn heredoc(delim: &str, parts: Vec<T>) -> E {
    let mut body = bare_template(parts);
    match body.last_mut() {
        None => {}
        Some(T::Lit(s)) if s.ends_with('\n') => {}
        Some(T::Lit(s)) => s.push('\n'),
        Some(_) => body.push(T::Lit("\n".into())),
    }
    E::Heredoc { delim: delim.to_string(), body }
}

// ---- random trees ---------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    Any,
    Num,
    Bool,
    Str,
    List,
    Obj,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    /// Percentage of subterms whose type is not the wanted one.
    pub wild: u64,
    /// Names in scope with their types; innermost last.
    pub scope: Vec<(String, Ty)>,
    pub heredocs: bool,
    pub templates: bool,
    /// Exotic characters and number spellings.
    pub exotic: bool,
    /// Object keys that evaluate to equal texts.
    pub collide: bool,
    /// for evaluation in place: no key that may turn out equal to a key before an identifier of that name
    pub in_place: bool,
}

pub const IDENTS: [&str; 14] = [
    "a", "b", "c", "foo", "foo_bar", "x-y", "format", "iffy", "in_", "ünï", "_z", "A1", "endif_", "nullx",
];

pub fn base_scope() -> Vec<(String, Ty)> {
    [
        ("n1", Ty::Num),
        ("n2", Ty::Num),
        ("n0", Ty::Num),
        ("b1", Ty::Bool),
        ("b2", Ty::Bool),
        ("s1", Ty::Str),
        ("s2", Ty::Str),
        ("l1", Ty::List),
        ("l2", Ty::List),
        ("l0", Ty::List),
        ("lo", Ty::List),
        ("o1", Ty::Obj),
        ("oo", Ty::Obj),
        ("nul", Ty::Any),
    ]
    .into_iter()
    .map(|(n, t)| (n.to_string(), t))
    .collect()
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng) -> Gen<'a> {
        Gen { rng, wild: 4, scope: base_scope(), heredocs: false, templates: true, exotic: false, collide: false, in_place: false }
    }

    /// Trees for the properties about text: any shape, all spellings.
    pub fn syntax(rng: &'a mut Rng) -> Gen<'a> {
        Gen { rng, wild: 30, scope: base_scope(), heredocs: true, templates: true, exotic: true, collide: false, in_place: false }
    }

    fn pct(&mut self, p: u64) -> bool {
        self.rng.chance(p, 100)
    }

    pub fn ident(&mut self) -> String {
        self.rng.pick(&IDENTS).to_string()
    }

    /// A name where no expression may stand.
    pub fn name(&mut self) -> String {
        match self.rng.below(12) {
            0 if self.exotic => self.rng.pick(&["null", "true", "false", "for", "if", "in", "endif"]).to_string(),
            _ => self.ident(),
        }
    }

    pub fn text(&mut self, max: usize) -> String {
        const PLAIN: [&str; 12] = ["a", "B", "7", " ", "-", "_", "foo", "${", "%{", "}", ".", "~"];
        const EXOTIC: [&str; 26] = [
            "$", "%", "{", "$$", "\"", "\\", "\n", "\t", "\r", "\u{8}", "\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "é", "日",
            "😀", "\u{85}", "\u{2028}", "\u{feff}", "//", "#", "/*", "\\n", "\u{301}", "'",
        ];
        let n = self.rng.below(max + 1);
        let mut s = String::new();
        for _ in 0..n {
            if self.exotic && self.pct(45) {
                s.push_str(self.rng.pick(&EXOTIC));
            } else {
                s.push_str(self.rng.pick(&PLAIN));
            }
        }
        s
    }

    fn num(&mut self) -> E {
        let s = if self.exotic {
            self.rng.pick(&[
                "0", "1", "42", "007", "1.0", "1.50", "0.25", "1e3", "2E-2", "1.5e+3", "18446744073709551615", "9223372036854775808",
                "-1", "-0", "-2.5", "-9223372036854775808", "1e19", "123456789.125", "0.1", "1e-7", "1e300",
            ])
        } else {
            self.rng.pick(&["0", "1", "2", "3", "5", "10", "0.5", "2.5", "-1", "-3", "7", "9007199254740993", "18446744073709551615", "-9223372036854775808"])
        };
        E::Num(s.to_string())
    }

    pub fn strip(&mut self) -> S {
        let p = if self.pct(60) { 0 } else { 50 };
        (self.pct(p), self.pct(p))
    }

    fn var(&mut self, ty: Ty) -> E {
        let c: Vec<String> = self.scope.iter().filter(|(_, t)| ty == Ty::Any || *t == ty).map(|(n, _)| n.clone()).collect();
        if c.is_empty() || self.pct(1) {
            return E::Var("undefined_".into());
        }
        E::Var(self.rng.pick(&c).clone())
    }

    /// A random expression, of type `ty` most of the time.
    pub fn expr(&mut self, ty: Ty, depth: usize) -> E {
        let mut ty = ty;
        if self.pct(self.wild) {
            ty = Ty::Any;
        }
        if ty == Ty::Any {
            ty = *self.rng.pick(&[Ty::Num, Ty::Bool, Ty::Str, Ty::List, Ty::Obj, Ty::Num, Ty::Str]);
            if self.pct(5) {
                return E::Null;
            }
        }
        if depth == 0 {
            return self.leaf(ty);
        }
        let d = depth - 1;
        match self.rng.below(14) {
            0 => return self.leaf(ty),
            1 => return paren(self.slot(ty, d)),
            2 => {
                let (c, t, f) = (self.expr(Ty::Bool, d), self.expr(ty, d), self.expr(ty, d));
                return cond(c, t, f);
            }
            3 => return self.var(ty),
            4 | 5 => return self.access(ty, d),
            6 if self.templates => {
                // a lone interpolation keeps its type
                let e = self.slot(ty, d);
                let s = self.strip();
                return E::Tmpl(vec![T::Interp(e, s)]);
            }
            7 => return self.call(ty, d),
            _ => {}
        }
        match ty {
            Ty::Num => match self.rng.below(6) {
                0 => {
                    let e = self.expr(Ty::Num, d);
                    un('-', e)
                }
                _ => {
                    let op = *self.rng.pick(&["+", "-", "*", "/", "%"]);
                    let (l, r) = (self.expr(Ty::Num, d), self.expr(Ty::Num, d));
                    bin(l, op, r)
                }
            },
            Ty::Bool => match self.rng.below(7) {
                0 => {
                    let e = self.expr(Ty::Bool, d);
                    un('!', e)
                }
                1 | 2 => {
                    let op = *self.rng.pick(&["&&", "||"]);
                    let (l, r) = (self.expr(Ty::Bool, d), self.expr(Ty::Bool, d));
                    bin(l, op, r)
                }
                3 | 4 => {
                    let op = *self.rng.pick(&["<", ">", "<=", ">="]);
                    let (l, r) = (self.expr(Ty::Num, d), self.expr(Ty::Num, d));
                    bin(l, op, r)
                }
                _ => {
                    let op = *self.rng.pick(&["==", "!="]);
                    let t = *self.rng.pick(&[Ty::Any, Ty::Num, Ty::Str, Ty::Bool, Ty::List]);
                    let (l, r) = (self.expr(t, d), self.expr(t, d));
                    bin(l, op, r)
                }
            },
            Ty::Str => {
                if self.templates && self.pct(70) {
                    let parts = self.parts(d, 4);
                    tmpl(parts)
                } else {
                    E::Str(self.text(5))
                }
            }
            Ty::List => match self.rng.below(3) {
                0 => self.for_list(d),
                1 => self.splat(d),
                _ => {
                    let n = self.rng.below(4);
                    let t = *self.rng.pick(&[Ty::Any, Ty::Num, Ty::Str]);
                    E::Array((0..n).map(|_| self.slot(t, d)).collect())
                }
            },
            Ty::Obj => match self.rng.below(3) {
                0 => self.for_object(d),
                _ => {
                    let n = self.rng.below(4);
                    self.object(n, d)
                }
            },
            Ty::Any => unreachable!(),
        }
    }

    fn leaf(&mut self, ty: Ty) -> E {
        if self.pct(30) {
            return self.var(ty);
        }
        match ty {
            Ty::Num => self.num(),
            Ty::Bool => E::Bool(self.pct(50)),
            Ty::Str => E::Str(self.text(4)),
            Ty::List => E::Array((0..self.rng.below(3)).map(|_| self.num()).collect()),
            Ty::Obj => {
                let n = self.rng.below(3);
                self.object(n, 0)
            }
            Ty::Any => E::Null,
        }
    }

    /// An expression where a heredoc may stand.
    pub fn slot(&mut self, ty: Ty, depth: usize) -> E {
        if self.heredocs && self.pct(6) {
            self.heredoc(depth)
        } else {
            self.expr(ty, depth)
        }
    }

    pub fn heredoc(&mut self, depth: usize) -> E {
        let delim = *self.rng.pick(&["EOT", "END_1", "x-y", "E"]);
        let n = self.rng.below(5);
        let mut parts = vec![];
        for _ in 0..n {
            let p = match self.rng.below(5) {
                0 => T::Lit("\n".into()),
                1 => T::Lit(format!("{delim}x line\n")),
                2 => T::Lit(format!(" l {delim}\n")),
                _ => self.part(depth),
            };
            parts.push(p);
        }
        let mut h = heredoc(delim, parts);
        if let E::Heredoc { body, .. } = &mut h {
            no_delimiter(body, delim);
        }
        h
    }

    fn object(&mut self, n: usize, d: usize) -> E {
        let mut items: Vec<(K, E)> = vec![];
        let mut used: Vec<String> = vec![];
        for i in 0..n {
            let v = if d == 0 { self.leaf(Ty::Any) } else { self.slot(Ty::Any, d - 1) };
            let k = match self.rng.below(5) {
                0 => {
                    let s = match self.rng.below(4) {
                        // no identifiers when they are unquoted
                        0 => self.rng.pick(&["null", "true", "false", "for", "if", "in"]).to_string(),
                        _ => format!("{}{i}", self.text(3)),
                    };
                    used.push(s.clone());
                    K::Expr(E::Str(s))
                }
                1 if d > 0 && self.pct(50) => K::Expr(paren(E::Bin(Box::new(E::Num(format!("{}", i + 100))), "+", Box::new(E::Num("1".into()))))),
                2 if d > 0 && self.templates => K::Expr(E::Tmpl(vec![T::Lit(format!("k{i}")), T::Interp(E::Var("s1".into()), (false, false))])),
                3 => K::Expr(E::Num(format!("{i}"))),
                _ => K::Ident(self.ident()),
            };
            let k = if self.collide && self.pct(40) {
                match (self.rng.below(3), items.last().map(|(o, _)| o.clone())) {
                    (0, _) | (_, None) => K::Expr(paren(E::Var(["s1", "s2"][self.rng.below(2)].into()))),
                    (_, Some(K::Ident(s))) => K::Expr(E::Str(s)),
                    (_, Some(K::Expr(E::Num(n)))) => K::Expr(E::Str(n)),
                    (_, Some(K::Expr(E::Paren(e)))) => K::Expr(tmpl(vec![T::Interp(*e, (false, false))])),
                    _ => k,
                }
            } else {
                k
            };
            if items.iter().any(|(o, _)| *o == k) {
                continue;
            }
            if self.in_place && matches!(k, K::Expr(_)) {
                let fixed = |k: &K| matches!(k, K::Ident(_) | K::Expr(E::Str(_)) | K::Expr(E::Num(_)));
                let ident = items.iter().rposition(|(o, _)| matches!(o, K::Ident(_))).unwrap_or(0);
                let before = items[..ident].iter().any(|(o, _)| matches!(o, K::Expr(_)));
                if before && !(fixed(&k) && items.iter().all(|(o, _)| fixed(o))) {
                    continue;
                }
            }
            items.push((k, v));
        }
        E::Object(items)
    }

    fn access(&mut self, ty: Ty, d: usize) -> E {
        let v = |s: &str| E::Var(s.into());
        let idx = |i: E| Op::Index(i);
        match (ty, self.rng.below(5)) {
            (Ty::Num, 0) => {
                let i = self.num();
                trav(v("l1"), vec![idx(i)])
            }
            (Ty::Num, 1) => trav(v("o1"), vec![Op::Attr(self.rng.pick(&["a", "b", "c"]).to_string())]),
            (Ty::Num, 2) => trav(v("l1"), vec![Op::Legacy(self.rng.below(4) as u64)]),
            (Ty::Num, 3) => trav(v("o1"), vec![idx(E::Str(self.rng.pick(&["a", "b", "c"]).to_string()))]),
            (Ty::Num, _) => trav(v("lo"), vec![Op::Legacy(self.rng.below(3) as u64), Op::Attr("a".into())]),
            (Ty::Str, _) => trav(v("l2"), vec![idx(E::Num(format!("{}", self.rng.below(3))))]),
            (Ty::List, 0) => trav(v("lo"), vec![Op::AttrSplat, Op::Attr("a".into())]),
            (Ty::List, 1) => trav(v("lo"), vec![Op::FullSplat, Op::Attr("b".into()), idx(E::Num("0".into()))]),
            (Ty::List, 2) => trav(v("lo"), vec![Op::AttrSplat, Op::Attr("b".into()), idx(E::Num(format!("{}", self.rng.below(3))))]),
            (Ty::Obj, 0) => trav(v("oo"), vec![Op::Attr("x".into())]),
            _ => {
                let base = *self.rng.pick(&[Ty::List, Ty::Obj, Ty::List, Ty::Any]);
                let e = if d == 0 { self.leaf(base) } else { self.expr(base, d - 1) };
                let n = 1 + self.rng.below(3);
                let ops = (0..n).map(|_| self.op(d)).collect();
                trav(e, ops)
            }
        }
    }

    pub fn op(&mut self, d: usize) -> Op {
        match self.rng.below(9) {
            0 => Op::AttrSplat,
            1 => Op::FullSplat,
            2 => Op::Legacy(self.rng.below(3) as u64),
            3 | 4 => Op::Attr(self.rng.pick(&["a", "b", "x", "y"]).to_string()),
            5 if d > 0 => Op::Index(self.expr(Ty::Num, d - 1)),
            6 => Op::Index(E::Str(self.rng.pick(&["a", "b", "x"]).to_string())),
            _ => Op::Index(E::Num(self.rng.pick(&["0", "1", "2", "0.5", "-1"]).to_string())),
        }
    }

    fn splat(&mut self, d: usize) -> E {
        let e = if d == 0 { self.leaf(Ty::List) } else { self.expr(Ty::List, d - 1) };
        let mut ops = vec![if self.pct(50) { Op::AttrSplat } else { Op::FullSplat }];
        for _ in 0..self.rng.below(3) {
            ops.push(self.op(d));
        }
        trav(e, ops)
    }

    fn call(&mut self, ty: Ty, d: usize) -> E {
        let arg = |g: &mut Self, t| if d == 0 { g.leaf(t) } else { g.slot(t, d - 1) };
        let name = |s: &str| s.split("::").map(str::to_string).collect::<Vec<_>>();
        match self.rng.below(7) {
            0 => E::Call(name("ident"), vec![arg(self, ty)], false),
            1 => E::Call(name("ns::deep::ident"), vec![arg(self, ty)], false),
            2 => {
                let a = vec![arg(self, Ty::Num), arg(self, Ty::Num)];
                E::Call(name("add"), a, false)
            }
            3 => {
                let n = self.rng.below(4);
                let a = (0..n).map(|_| arg(self, Ty::Str)).collect();
                E::Call(name("cat"), a, false)
            }
            4 => {
                let mut a: Vec<E> = (0..self.rng.below(3)).map(|_| arg(self, Ty::Any)).collect();
                a.push(arg(self, Ty::List));
                E::Call(name("list"), a, true)
            }
            5 => E::Call(name("boom"), vec![], false),
            _ => {
                let n = self.rng.below(3);
                let a = (0..n).map(|_| arg(self, Ty::Any)).collect();
                let expand = n > 0 && self.pct(20);
                E::Call(name(*self.rng.pick(&["list", "ident", "undefined_fn", "ns::list"])), a, expand)
            }
        }
    }

    fn bound(&mut self, key: Option<Ty>, val: Ty) -> (Option<String>, String) {
        // Names that shadow each other and the outer scope.
        let names = ["v", "w", "n1", "s1", "l1"];
        let val_name = self.rng.pick(&names).to_string();
        let key_name = key.map(|_| self.rng.pick(&["k", "i", "n1", "b1"]).to_string());
        if let (Some(t), Some(n)) = (key, &key_name) {
            self.scope.push((n.clone(), t));
        }
        self.scope.push((val_name.clone(), val));
        (key_name, val_name)
    }

    fn unbind(&mut self, key: &Option<String>) {
        self.scope.pop();
        if key.is_some() {
            self.scope.pop();
        }
    }

    fn collection(&mut self, d: usize) -> (E, Ty, Ty) {
        match self.rng.below(6) {
            0 => (E::Var("l1".into()), Ty::Num, Ty::Num),
            1 => (E::Var("l2".into()), Ty::Num, Ty::Str),
            2 => (E::Var("o1".into()), Ty::Str, Ty::Num),
            3 => (E::Var("lo".into()), Ty::Num, Ty::Obj),
            4 => (if d == 0 { self.leaf(Ty::List) } else { self.expr(Ty::List, d - 1) }, Ty::Num, Ty::Any),
            _ => (if d == 0 { self.leaf(Ty::Obj) } else { self.expr(Ty::Obj, d - 1) }, Ty::Str, Ty::Any),
        }
    }

    pub fn for_list(&mut self, d: usize) -> E {
        let d = d.saturating_sub(1);
        let (coll, kt, vt) = self.collection(d);
        let with_key = self.pct(50);
        let (key, val) = self.bound(with_key.then_some(kt), vt);
        let t = if self.pct(50) { vt } else { Ty::Any };
        let value = if self.pct(30) { E::Var(val.clone()) } else { self.expr(t, d) };
        let cond = self.pct(40).then(|| self.expr(Ty::Bool, d));
        self.unbind(&key);
        E::For(Box::new(For { key, val, coll, key_expr: None, value, group: false, cond }))
    }

    pub fn for_object(&mut self, d: usize) -> E {
        let d = d.saturating_sub(1);
        let (coll, kt, vt) = self.collection(d);
        let with_key = self.pct(70);
        let (key, val) = self.bound(with_key.then_some(kt), vt);
        let group = self.pct(40);
        let key_expr = match (&key, self.rng.below(4)) {
            (Some(k), 0 | 1) => E::Var(k.clone()),
            (_, 2) => self.expr(Ty::Str, d.min(1)),
            (Some(k), _) => bin(E::Var(k.clone()), "%", E::Num("2".into())),
            _ => E::Var(val.clone()),
        };
        let value = self.expr(Ty::Any, d);
        let cond = self.pct(40).then(|| self.expr(Ty::Bool, d));
        self.unbind(&key);
        E::For(Box::new(For { key, val, coll, key_expr: Some(key_expr), value, group, cond }))
    }

    pub fn lit(&mut self) -> T {
        // White space around strip markers matters.
        const WS: [&str; 12] = ["", " ", "\n", "\t", "  ", "\r\n", " \n ", "x", "\n\n", "\u{a0}", "x y", "\r"];
        let mut s = String::new();
        s.push_str(self.rng.pick(&WS));
        if self.pct(60) {
            s.push_str(&self.text(3));
        }
        s.push_str(self.rng.pick(&WS));
        T::Lit(s)
    }

    pub fn part(&mut self, d: usize) -> T {
        let dd = d.saturating_sub(1);
        match self.rng.below(if d == 0 { 5 } else { 9 }) {
            0..=2 => self.lit(),
            3 | 4 => {
                let t = *self.rng.pick(&[Ty::Str, Ty::Num, Ty::Bool]);
                let e = if d == 0 { self.leaf(t) } else { self.slot(t, dd) };
                T::Interp(e, self.strip())
            }
            5 | 6 => {
                let c = self.expr(Ty::Bool, dd);
                let t = self.parts(dd, 3);
                let f = self.pct(50).then(|| self.parts(dd, 3));
                let s1 = self.strip();
                let s2 = if f.is_some() { self.strip() } else { (false, false) };
                T::If(c, t, f, [s1, s2, self.strip()])
            }
            _ => {
                let (coll, kt, vt) = self.collection(dd);
                let with_key = self.pct(50);
                let (key, val) = self.bound(with_key.then_some(kt), vt);
                let mut body = self.parts(dd, 3);
                if self.pct(50) && vt != Ty::Any {
                    body.push(T::Interp(E::Var(val.clone()), self.strip()));
                    body = normal(body);
                }
                self.unbind(&key);
                T::For(key, val, coll, body, [self.strip(), self.strip()])
            }
        }
    }

    pub fn parts(&mut self, d: usize, max: usize) -> Vec<T> {
        let n = self.rng.below(max + 1);
        let p = (0..n).map(|_| self.part(d)).collect();
        normal(p)
    }

    pub fn body(&mut self, depth: usize, max: usize) -> Vec<Item> {
        let n = self.rng.below(max + 1);
        let mut items = vec![];
        let mut used: Vec<String> = vec![];
        for _ in 0..n {
            if depth > 0 && self.pct(35) {
                let name = self.name();
                let labels = (0..self.rng.below(3))
                    .map(|_| if self.pct(50) { Label::Ident(self.name()) } else { Label::Str(self.text(3)) })
                    .collect();
                let inner = self.body(depth - 1, 3);
                items.push(Item::Block(name, labels, inner));
            } else {
                let name = self.name();
                if used.contains(&name) {
                    continue;
                }
                used.push(name.clone());
                let d = self.rng.below(4);
                let e = if self.heredocs && self.pct(10) { self.heredoc(2) } else { self.expr(Ty::Any, d) };
                items.push(Item::Attr(name, e));
            }
        }
        items
    }
}

/// Breaks up lines of a heredoc body that would be taken for its end.
fn no_delimiter(parts: &mut [T], delim: &str) {
    for p in parts.iter_mut() {
        match p {
            T::Lit(s) => {
                let mut out = String::new();
                for (i, line) in s.split('\n').enumerate() {
                    if i > 0 {
                        out.push('\n');
                    }
                    let t = line.trim_start_matches([' ', '\t']);
                    if t.starts_with(delim) {
                        out.push('.');
                    }
                    out.push_str(line);
                }
                *s = out;
            }
            T::If(_, t, f, _) => {
                no_delimiter(t, delim);
                if let Some(f) = f {
                    no_delimiter(f, delim);
                }
            }
            T::For(_, _, _, b, _) => no_delimiter(b, delim),
            T::Interp(..) => {}
        }
    }
}

// ---- rendering ------------------------------------------------------------------------------------

pub struct Render<'a> {
    pub rng: &'a mut Rng,
    pub out: String,
    /// Percentage of gaps with more than the plain layout.
    pub noise: u64,
    // where a comment ends
    comment_end: usize,
    /// Line ending of the document.
    pub crlf: bool,
    nl: bool,
}

impl<'a> Render<'a> {
    pub fn new(rng: &'a mut Rng, noise: u64) -> Render<'a> {
        let crlf = noise > 0 && rng.chance(1, 6);
        Render { rng, out: String::new(), noise, comment_end: 0, crlf, nl: false }
    }

    fn eol(&mut self) {
        self.out.push_str(if self.crlf { "\r\n" } else { "\n" });
    }

    // `a / /* c */ b`, `a.* / /* c */ b`: do not make a comment out of an operator
    fn comment(&mut self, s: &str) {
        if s.starts_with('/') && self.out.ends_with('/') && self.comment_end != self.out.len() {
            self.out.push(' ');
        }
        self.out.push_str(s);
        if s.trim_end_matches(' ').ends_with("*/") {
            self.comment_end = self.out.len();
        }
    }

    fn sp(&mut self) {
        if !self.rng.chance(self.noise, 100) {
            if self.rng.chance(1, 2) {
                self.out.push(' ');
            }
            return;
        }
        for _ in 0..1 + self.rng.below(3) {
            let s = *self.rng.pick(&[" ", "  ", "\t", "/* c */", "/**/", "/* \"${ } ü */", " /*x\n y*/ ", "/* // # */"]);
            self.comment(s);
        }
    }

    fn ws(&mut self) {
        if !self.rng.chance(self.noise, 100) {
            if self.rng.chance(1, 2) {
                self.out.push(' ');
            }
            return;
        }
        for _ in 0..1 + self.rng.below(3) {
            match self.rng.below(5) {
                0 => self.eol(),
                1 => {
                    let s = *self.rng.pick(&["# c", "// c \" ${", "#", "//", "# /* é", " # x "]);
                    self.comment(s);
                    self.eol();
                }
                _ => self.sp(),
            }
        }
    }

    fn w(&mut self) {
        if self.nl {
            self.ws();
        } else {
            self.sp();
        }
    }

    /// Appends a token, with a space where it would run into what is before it.
    fn tok(&mut self, s: &str) {
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '-';
        if let (Some(a), Some(b)) = (self.out.chars().last(), s.chars().next()) {
            let prev_word = word(a) && a != '-' || a == '-' && self.out.len() > 1 && {
                let t = &self.out[..self.out.len() - 1];
                t.chars().last().is_some_and(|c| word(c))
            };
            if (prev_word && word(b)) || (a == '/' && (b == '/' || b == '*') && self.comment_end != self.out.len()) || (a == '<' && b == '<') {
                self.out.push(' ');
            }
        }
        self.out.push_str(s);
    }

    fn with_nl<F: FnOnce(&mut Self)>(&mut self, nl: bool, f: F) {
        let old = std::mem::replace(&mut self.nl, nl);
        f(self);
        self.nl = old;
    }

    /// An expression followed by white space; a heredoc is followed by a line break.
    fn slot(&mut self, e: &E, nl: bool) {
        self.with_nl(nl, |r| r.expr(e));
        if matches!(e, E::Heredoc { .. }) {
            self.eol();
        }
    }

    pub fn expr(&mut self, e: &E) {
        match e {
            E::Null => self.tok("null"),
            E::Bool(b) => self.tok(if *b { "true" } else { "false" }),
            E::Num(n) => match n.strip_prefix('-') {
                Some(rest) => {
                    self.tok("-");
                    if self.rng.chance(self.noise, 400) {
                        self.sp();
                    }
                    // never through `tok`, which would separate the sign
                    self.out.push_str(rest);
                }
                None => self.tok(n),
            },
            E::Str(s) => {
                self.tok("\"");
                let t = quote(s, false);
                self.out.push_str(&t);
                self.out.push('"');
            }
            E::Tmpl(parts) => {
                self.tok("\"");
                self.parts(parts, true, false);
                self.out.push('"');
            }
            E::Heredoc { delim, body } => {
                self.tok("<<");
                self.out.push_str(delim);
                self.eol();
                let at = self.out.len();
                self.parts(body, false, false);
                let _ = at;
                if self.rng.chance(self.noise, 200) {
                    self.out.push_str("  ");
                }
                self.out.push_str(delim);
            }
            E::Array(items) => {
                self.tok("[");
                for (i, e) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.ws();
                    self.slot(e, true);
                    self.ws();
                }
                if !items.is_empty() && self.rng.chance(self.noise, 300) {
                    self.out.push(',');
                }
                self.ws();
                self.out.push(']');
            }
            E::Object(items) => {
                self.tok("{");
                self.ws();
                for (i, (k, v)) in items.iter().enumerate() {
                    match k {
                        K::Ident(s) => self.tok(s),
                        K::Expr(e) => self.with_nl(false, |r| r.expr(e)),
                    }
                    self.sp();
                    self.out.push(if self.rng.chance(1, 4) { ':' } else { '=' });
                    self.sp();
                    self.with_nl(false, |r| r.expr(v));
                    let heredoc = matches!(v, E::Heredoc { .. });
                    if !heredoc {
                        self.sp();
                    }
                    let last = i + 1 == items.len();
                    match self.rng.below(4) {
                        0 if last && !heredoc => {}
                        1 | 2 if !heredoc => {
                            self.out.push(',');
                            self.ws();
                        }
                        _ => {
                            if !heredoc && self.rng.chance(self.noise, 200) {
                                let c = *self.rng.pick(&["# c", "// c"]);
                                self.tok(c);
                            }
                            self.eol();
                            self.ws();
                        }
                    }
                    if self.out.ends_with(',') {
                        self.out.push(' ');
                    }
                }
                self.out.push('}');
            }
            E::Var(n) => self.tok(n),
            E::Trav(base, ops) => {
                self.expr(base);
                for op in ops {
                    self.w();
                    match op {
                        Op::Attr(n) => {
                            self.out.push('.');
                            self.dot();
                            self.tok(n);
                        }
                        Op::Legacy(i) => {
                            self.out.push('.');
                            self.dot();
                            self.tok(&i.to_string());
                        }
                        Op::AttrSplat => {
                            self.out.push('.');
                            self.dot();
                            self.tok("*");
                        }
                        Op::FullSplat => {
                            self.out.push('[');
                            self.ws();
                            self.tok("*");
                            self.ws();
                            self.out.push(']');
                        }
                        Op::Index(e) => {
                            self.out.push('[');
                            self.ws();
                            self.with_nl(true, |r| r.expr(e));
                            self.ws();
                            self.out.push(']');
                        }
                    }
                }
            }
            E::Call(path, args, expand) => {
                for (i, p) in path.iter().enumerate() {
                    if i > 0 {
                        self.out.push_str("::");
                        self.w_rare();
                    }
                    self.tok(p);
                    self.w_rare();
                }
                self.out.push('(');
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.ws();
                    self.slot(a, true);
                    self.ws();
                }
                if *expand {
                    self.out.push_str("...");
                } else if !args.is_empty() && self.rng.chance(self.noise, 300) {
                    self.out.push(',');
                }
                self.ws();
                self.out.push(')');
            }
            E::Paren(e) => {
                self.tok("(");
                self.ws();
                self.slot(e, true);
                self.ws();
                self.out.push(')');
            }
            E::Cond(c, t, f) => {
                self.expr(c);
                self.w();
                self.out.push('?');
                self.w();
                self.expr(t);
                self.w();
                self.out.push(':');
                self.w();
                self.expr(f);
            }
            E::Un(op, e) => {
                self.tok(&op.to_string());
                if self.rng.chance(self.noise, 300) {
                    self.sp();
                }
                if matches!(**e, E::Num(_)) || *op == '!' || !matches!(**e, E::Un('-', _)) {
                    // sign and operand may touch
                    let at = self.out.len();
                    self.expr(e);
                    let _ = at;
                } else {
                    self.expr(e);
                }
            }
            E::Bin(l, op, r) => {
                self.expr(l);
                self.w();
                self.tok(op);
                self.w();
                self.expr(r);
            }
            E::For(f) => {
                self.tok(if f.key_expr.is_some() { "{" } else { "[" });
                self.ws();
                self.tok("for");
                self.out.push(' ');
                self.for_head(&f.key, &f.val, &f.coll);
                self.out.push(':');
                self.ws();
                if let Some(k) = &f.key_expr {
                    self.with_nl(false, |r| r.expr(k));
                    self.ws();
                    self.tok("=>");
                    self.ws();
                    self.with_nl(false, |r| r.expr(&f.value));
                } else {
                    self.with_nl(true, |r| r.expr(&f.value));
                }
                self.ws();
                if f.group {
                    self.out.push_str("...");
                    self.ws();
                }
                if let Some(c) = &f.cond {
                    self.ws();
                    self.tok("if");
                    self.ws();
                    self.with_nl(true, |r| r.expr(c));
                    self.ws();
                }
                self.out.push(if f.key_expr.is_some() { '}' } else { ']' });
            }
        }
    }

    fn dot(&mut self) {
        if self.rng.chance(self.noise, 400) {
            self.ws();
        }
    }

    fn w_rare(&mut self) {
        if self.rng.chance(self.noise, 300) {
            self.w();
        }
    }

    fn for_head(&mut self, key: &Option<String>, val: &str, coll: &E) {
        self.ws();
        if let Some(k) = key {
            self.tok(k);
            self.ws();
            self.out.push(',');
            self.ws();
        }
        self.tok(val);
        self.ws();
        self.tok("in");
        self.ws();
        self.with_nl(false, |r| r.expr(coll));
        self.ws();
    }

    fn open(&mut self, mark: &str, strip: bool) {
        self.out.push_str(mark);
        if strip {
            self.out.push('~');
        }
        self.ws();
    }

    fn close(&mut self, strip: bool) {
        self.ws();
        if strip {
            self.out.push('~');
        }
        self.out.push('}');
    }

    /// The elements of a template; `quoted` selects the escape rules.
    pub fn parts(&mut self, parts: &[T], quoted: bool, in_directive: bool) {
        for (i, p) in parts.iter().enumerate() {
            match p {
                T::Lit(s) => {
                    let mark = match parts.get(i + 1) {
                        Some(T::Interp(..)) => Some('$'),
                        Some(T::If(..) | T::For(..)) => Some('%'),
                        None if in_directive => Some('%'),
                        _ => None,
                    };
                    if quoted {
                        let body = mark.map_or(s.as_str(), |m| s.trim_end_matches(m));
                        let mut t = quote(body, true);
                        for c in s[body.len()..].chars() {
                            let _ = write!(t, "\\u{:04X}", c as u32);
                        }
                        self.out.push_str(&t);
                    } else {
                        self.out.push_str(&s.replace("${", "$${").replace("%{", "%%{"));
                    }
                }
                T::Interp(e, (a, b)) => {
                    self.open("${", *a);
                    self.slot(e, true);
                    self.close(*b);
                }
                T::If(c, t, f, [s1, s2, s3]) => {
                    self.open("%{", s1.0);
                    self.tok("if");
                    self.ws();
                    self.with_nl(false, |r| r.expr(c));
                    self.close(s1.1);
                    self.parts(t, quoted, true);
                    if let Some(f) = f {
                        self.open("%{", s2.0);
                        self.tok("else");
                        self.close(s2.1);
                        self.parts(f, quoted, true);
                    }
                    self.open("%{", s3.0);
                    self.tok("endif");
                    self.close(s3.1);
                }
                T::For(k, v, coll, body, [s1, s2]) => {
                    self.open("%{", s1.0);
                    self.tok("for");
                    self.out.push(' ');
                    self.for_head(k, v, coll);
                    if s1.1 {
                        self.out.push('~');
                    }
                    self.out.push('}');
                    self.parts(body, quoted, true);
                    self.open("%{", s2.0);
                    self.tok("endfor");
                    self.close(s2.1);
                }
            }
        }
    }

    pub fn items(&mut self, items: &[Item]) {
        for it in items {
            self.ws();
            match it {
                Item::Attr(n, e) => self.attr(n, e),
                Item::Block(n, labels, inner) => {
                    self.tok(n);
                    self.out.push(' ');
                    self.sp();
                    for l in labels {
                        match l {
                            Label::Ident(i) => self.tok(i),
                            Label::Str(s) => {
                                self.tok("\"");
                                let t = quote(s, false);
                                self.out.push_str(&t);
                                self.out.push('"');
                            }
                        }
                        self.sp();
                    }
                    self.tok("{");
                    match inner.as_slice() {
                        [] if self.rng.chance(1, 2) => self.sp(),
                        [Item::Attr(n, e)] if !matches!(e, E::Heredoc { .. }) && self.rng.chance(1, 2) => {
                            self.sp();
                            self.attr(n, e);
                            self.sp();
                        }
                        _ => {
                            self.sp();
                            if self.rng.chance(self.noise, 200) {
                                self.out.push_str(" # c");
                            }
                            self.eol();
                            self.items(inner);
                        }
                    }
                    self.tok("}");
                }
            }
            if !matches!(it, Item::Attr(_, E::Heredoc { .. })) {
                self.sp();
                if self.rng.chance(self.noise, 200) {
                    let c = *self.rng.pick(&["# c", "// \"c\" }", "#"]);
                    self.tok(c);
                }
            }
            self.eol();
        }
        self.ws();
    }

    fn attr(&mut self, n: &str, e: &E) {
        self.tok(n);
        self.sp();
        self.out.push('=');
        self.sp();
        self.with_nl(false, |r| r.expr(e));
    }
}

/// The usual spelling of `s` between quotes.
pub fn quote(s: &str, _template: bool) -> String {
    let mut out = String::new();
    let chars: Vec<char> = s.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            c if (*c as u32) < 0x20 || *c as u32 == 0x7f => {
                let _ = write!(out, "\\u{:04X}", *c as u32);
            }
            '$' | '%' if chars.get(i + 1) == Some(&'{') => {
                out.push(*c);
                out.push(*c);
            }
            c => out.push(*c),
        }
    }
    out
}

pub fn render_expr(rng: &mut Rng, e: &E, noise: u64, nl: bool) -> String {
    let mut r = Render::new(rng, noise);
    r.nl = nl;
    r.expr(e);
    r.out
}

pub fn render_template(rng: &mut Rng, parts: &[T], noise: u64) -> String {
    let mut r = Render::new(rng, noise);
    r.parts(parts, false, false);
    r.out
}

pub fn render_body(rng: &mut Rng, items: &[Item], noise: u64) -> String {
    let mut r = Render::new(rng, noise);
    r.items(items);
    r.out
}
