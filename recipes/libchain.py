"""Desugaring of method chains with closures and of `for` loops into `match` and `while`.

Every step replaces a call of a std combinator by the body std gives it, with the closure's body put
in place.  A closure body that contains `?` or `return` is only moved where leaving the closure and
leaving the function is the same thing (a `collect` into a Result whose error is returned at once).
"""
import re
import rx
from rx import lex, match_close, Lost

KEYWORDS = {"return", "match", "if", "in", "else", "let", "mut", "while", "break", "ref", "move"}

PRELUDE = r'''
// std::vec::IntoIter: the elements that are left
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct XIntoIter<T> { it: std::vec::IntoIter<T> }
impl<T> XIntoIter<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first(),
    { self.it.next() }
}
#[verifier::external_body] pub fn x_into_iter<T>(v: Vec<T>) -> (r: XIntoIter<T>) ensures r.left() == v@ { XIntoIter { it: v.into_iter() } }
'''


def match_open(toks, i):
    d = 0
    for j in range(i, -1, -1):
        if toks[j].k == "p":
            if toks[j].s in rx.CLOSE:
                d += 1
            elif toks[j].s in rx.OPEN:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


def receiver(toks, dot):
    """index of the first token of the expression before the `.` at index `dot`"""
    j = dot - 1
    while True:
        t = toks[j]
        if t.k == "p" and t.s == "?":
            j -= 1
            continue
        if t.k == "p" and t.s in (")", "]", "}"):
            o = match_open(toks, j)
            p = toks[o - 1] if o > 0 else None
            if p is not None and ((p.k == "id" and p.s not in KEYWORDS) or (p.k == "p" and p.s in (")", "]", "?", ">"))) and t.s != "}":
                if p.s == ">":  # turbofish
                    d, k = 0, o - 1
                    while True:
                        if toks[k].s == ">":
                            d += 1
                        elif toks[k].s == "<":
                            d -= 1
                            if d == 0:
                                break
                        k -= 1
                    j = k - 2
                    continue
                j = o - 1
                continue
            start = o
        elif t.k in ("id", "num", "str", "chr"):
            start = j
        else:
            raise Lost("cannot find the receiver of a method call")
        if start > 0 and toks[start - 1].k == "p" and toks[start - 1].s in (".", "::"):
            j = start - 2
            continue
        return start


def split_args(src, toks, o):
    """texts of the arguments of the call whose `(` is at index o"""
    e = match_close(toks, o)
    args, d, last, i = [], 0, o + 1, o + 1
    bars = 0
    while i < e:
        t = toks[i]
        if t.k == "p" and t.s in rx.OPEN:
            i = match_close(toks, i) + 1
            continue
        if t.k == "p" and t.s == "|" and (i == last or bars == 1):
            bars = (bars + 1) % 2
        if t.k == "p" and t.s == "," and bars == 0:
            args.append(src[toks[last].a:toks[i - 1].b])
            last = i + 1
        i += 1
    if last < e:
        args.append(src[toks[last].a:toks[e - 1].b])
    return args, e


def closure(text):
    """(parameters, body) of a closure, or None for a path"""
    m = re.match(r"\s*(move\s*)?\|\|", text)
    if m:
        return [], text[m.end():].strip()
    m = re.match(r"\s*(?:move\s*)?\|", text)
    if not m:
        return None
    toks = lex(text)
    i = next(k for k, t in enumerate(toks) if t.s == "|")
    params, d, last, j = [], 0, i + 1, i + 1
    while not (toks[j].s == "|" and d == 0):
        if toks[j].s in rx.OPEN:
            d += 1
        elif toks[j].s in rx.CLOSE:
            d -= 1
        elif toks[j].s == "," and d == 0:
            params.append(text[toks[last].a:toks[j - 1].b])
            last = j + 1
        j += 1
    if j > last:
        params.append(text[toks[last].a:toks[j - 1].b])
    return params, text[toks[j].b:].strip()


def app(fn_text, arg):
    """(pattern, expression) of applying the function argument to a value bound by a pattern"""
    c = closure(fn_text)
    if c is None:
        return arg, f"{fn_text}({arg})"
    params, body = c
    if re.search(r"\?|\breturn\b", body):
        raise Lost("closure body leaves the closure")
    return (params[0] if params else "_"), body


def options(f, names=None, result=()):
    """Desugar Option/Result combinators in a function.  `result` names the methods (of those that
    both types have) which are called on a Result here."""
    allowed = names or ["or_else", "and_then", "ok_or_else", "is_some_and", "map_err", "map_or", "map", "cloned", "unwrap_or_else", "unwrap_or"]
    while True:
        toks = lex(f.body)
        hit = None
        for i in range(1, len(toks) - 2):
            if toks[i].s == "." and toks[i + 1].k == "id" and toks[i + 1].s in allowed and toks[i + 2].s == "(":
                args, e = split_args(f.body, toks, i + 2)
                s = receiver(toks, i)
                rtext = f.body[toks[s].a:toks[i - 1].b]
                if toks[i + 1].s in ("map", "cloned") and re.search(r"\b(iter|into_iter|chars|values|keys|drain|iter_mut|lines)\s*\(\s*[\w.()\s]*\)\s*(\.\s*\w+\s*\(.*\)\s*)*$", rtext, re.S):
                    continue
                hit = (toks[i + 1].s, s, e, rtext, args)
                break
        if not hit:
            return f
        m, s, e, r, args = hit
        res = m in result
        if m == "or_else":
            p, x = app(args[0], "x_e")
            out = f"(match {r} {{ Ok(x_o) => Ok(x_o), Err({p}) => {x} }})" if res else f"(match {r} {{ Some(x_o) => Some(x_o), None => {x} }})"
        elif m == "and_then":
            p, x = app(args[0], "x_o")
            out = f"(match {r} {{ Ok({p}) => {x}, Err(x_e) => Err(x_e) }})" if res else f"(match {r} {{ Some({p}) => {x}, None => None }})"
        elif m == "ok_or_else":
            _, x = app(args[0], "")
            out = f"(match {r} {{ Some(x_o) => Ok(x_o), None => Err({x}) }})"
        elif m == "is_some_and":
            p, x = app(args[0], "x_o")
            out = f"(match {r} {{ Some({p}) => {x}, None => false }})"
        elif m == "map_err":
            p, x = app(args[0], "x_e")
            out = f"(match {r} {{ Ok(x_o) => Ok(x_o), Err({p}) => Err({x}) }})"
        elif m == "map":
            p, x = app(args[0], "x_o")
            out = f"(match {r} {{ Ok({p}) => Ok({x}), Err(x_e) => Err(x_e) }})" if res else f"(match {r} {{ Some({p}) => Some({x}), None => None }})"
        elif m == "cloned":
            out = f"(match {r} {{ Ok(x_o) => Ok(x_o.clone()), Err(x_e) => Err(x_e) }})" if res else f"(match {r} {{ Some(x_o) => Some(x_o.clone()), None => None }})"
        elif m == "map_or":
            p, x = app(args[1], "x_o")
            out = f"(match {r} {{ Some({p}) => {x}, None => {args[0]} }})"
        elif m == "unwrap_or":
            out = f"(match {r} {{ Some(x_o) => x_o, None => {args[0]} }})"
        elif m == "unwrap_or_else":
            _, x = app(args[0], "")
            out = f"(match {r} {{ Some(x_o) => x_o, None => {x} }})"
        f.rewrites.append(f"{f.name}: `.{m}(..)` as the match std defines it")
        f.body = f.body[:toks[s].a] + out + f.body[toks[e].b:]


def _source(text):
    """Parse an iterator source expression.  Returns (kind, list of base texts, enumerate?)"""
    t = re.sub(r"\s+", "", text)
    en = False
    while True:
        if t.endswith(".enumerate()"):
            t, en = t[:-len(".enumerate()")], True
            continue
        break
    m = re.fullmatch(r"(.+)\.iter\(\)\.zip\((.+)\.iter\(\)\)", t)
    if m:
        return "zip", [m.group(1), m.group(2)], en
    m = re.fullmatch(r"(.+)\.iter\(\)\.zip\((&?)([\w.]+)\)", t)
    if m:
        return "zip", [m.group(1), m.group(3)], en
    m = re.fullmatch(r"(.+)\.values\(\)", t)
    if m:
        return "vals", [m.group(1)], en
    m = re.fullmatch(r"(.+)\.iter\(\)\.rev\(\)", t)
    if m:
        return "rev", [m.group(1)], en
    m = re.fullmatch(r"(.+)\.iter\(\)", t)
    if m:
        return "ref", [m.group(1)], en
    m = re.fullmatch(r"&([\w.]+)", t)
    if m:
        return "ref", [m.group(1)], en
    m = re.fullmatch(r"(.+)\.into_iter\(\)", t)
    if m:
        return "own", [m.group(1)], en
    m = re.fullmatch(r"[\w.]+", t)
    if m:
        return "own", [t], en
    raise Lost("unsupported iterator: " + text)


def head(k, text, pat, entries=(), iters=()):
    """(prefix, while condition, start of body) of a loop over `text` binding `pat`"""
    kind, bases, en = _source(text)
    i = f"x_i{k}"
    if kind == "own":
        b = bases[0]
        if b in iters:
            pre, src = f"let mut x_it{k} = {b};", None
        else:
            pre = f"let mut x_it{k} = ({b}).x_into_iter();"
        if en:
            m = re.fullmatch(r"\(\s*(\w+)\s*,\s*(.*)\)", pat.strip(), re.S)
            if not m:
                raise Lost("pattern of an enumerated loop")
            return pre + f" let mut {i}: usize = 0;", f"let Some(x_e{k}) = x_it{k}.next()", f"let {m.group(1)} = {i}; {i} = {i} + 1; let {m.group(2)} = x_e{k};"
        return pre, f"let Some(x_e{k}) = x_it{k}.next()", f"let {pat} = x_e{k};"
    pre = f"let mut {i}: usize = 0;"
    for n, b in enumerate(bases):
        if not re.fullmatch(r"[\w.]+", b):
            pre = f"let x_b{k}{n or ''} = {b}; " + pre
            bases[n] = f"x_b{k}{n or ''}"
    cond = " && ".join(f"{i} < {b}{'.entries' if b in entries else ''}.len()" for b in bases)
    item = [f"&{b}{'.entries' if b in entries else ''}[{i}]" for b in bases]
    if kind == "rev":
        item = [f"&{bases[0]}[{bases[0]}.len() - 1 - {i}]"]
    if kind == "vals":
        item = [f"{bases[0]}.x_value_at({i})"]
    start = ""
    if en:
        m = re.fullmatch(r"\(\s*(\w+)\s*,\s*(.*)\)", pat.strip(), re.S)
        if not m:
            raise Lost("pattern of an enumerated loop")
        start += f"let {m.group(1)} = {i}; "
        pat = m.group(2)
    while pat.strip().startswith("&"):
        # a reference pattern: the place itself
        pat = pat.strip()[1:].strip()
        if item[0].startswith("&"):
            item[0] = item[0][1:]
    start += f"let {pat} = {item[0]};" if len(item) == 1 else f"let {pat} = ({', '.join(item)});"
    start += f" {i} = {i} + 1;"
    return pre, cond, start


def for_loops(f, entries=(), iters=(), first=0):
    """`for` loops over slices, vectors and iterators as `while` loops; in source order x_i0, x_i1, .."""
    k = first
    while True:
        toks = lex(f.body)
        hit = None
        for i, t in enumerate(toks):
            if t.k == "id" and t.s == "for" and toks[i + 1].s != "<":
                j = i + 1
                while toks[j].s != "in" or toks[j].k != "id":
                    if toks[j].k == "p" and toks[j].s in rx.OPEN:
                        j = match_close(toks, j)
                    j += 1
                o = j + 1
                while toks[o].s != "{":
                    if toks[o].k == "p" and toks[o].s in ("(", "["):
                        o = match_close(toks, o)
                    o += 1
                hit = (i, j, o)
                break
        if not hit:
            return f
        i, j, o = hit
        pat, src = f.body[toks[i + 1].a:toks[j - 1].b], f.body[toks[j + 1].a:toks[o - 1].b]
        pre, cond, start = head(k, src, pat, entries, iters)
        f.rewrites.append(f"{f.name}: `for {pat} in {src}` as a while loop")
        f.body = f.body[:toks[i].a] + f"{pre} while {cond} " + "{ " + start + " " + f.body[toks[o].b:]
        k += 1


def chains(f, entries=(), iters=(), first=0, out_new="Vec::new()", out_push="{o}.push({x});", plain=False):
    """Iterator chains ending in all/any/find/position or map(..).collect() as loops.  `plain`: the
    elements are collected as they are, not as results."""
    k = first
    while True:
        toks = lex(f.body)
        hit = None
        for i in range(1, len(toks) - 2):
            if toks[i].s == "." and toks[i + 1].s in ("all", "any", "map", "position", "find", "filter") and toks[i + 2].s == "(":
                s = receiver(toks, i)
                r = f.body[toks[s].a:toks[i - 1].b]
                try:
                    _source(r)
                except Lost:
                    continue
                if not re.search(r"\.\s*(iter|into_iter|values)\s*\(\)", r) and r not in iters:
                    continue
                args, e = split_args(f.body, toks, i + 2)
                hit = (toks[i + 1].s, s, e, r, args)
                break
        if not hit:
            return f
        m, s, e, r, args = hit
        c = closure(args[0])
        if c is None:
            params, body = [f"x_p{k}"], f"{args[0]}(x_p{k})"
        else:
            params, body = c
        if m in ("all", "any", "position", "find"):
            if re.search(r"\?|\breturn\b", body):
                raise Lost("closure body leaves the closure")
            pre, cond, start = head(k, r, params[0], entries, iters)
            if m == "all":
                out = f"{{ let mut x_r{k} = true; {pre} while {cond} {{ {start} if !({body}) {{ x_r{k} = false; break; }} }} x_r{k} }}"
            elif m == "any":
                out = f"{{ let mut x_r{k} = false; {pre} while {cond} {{ {start} if {body} {{ x_r{k} = true; break; }} }} x_r{k} }}"
            else:
                if m != "position":
                    raise Lost(m)
                out = f"{{ let mut x_r{k}: Option<usize> = None; {pre} while {cond} {{ {start} if {body} {{ x_r{k} = Some({f'x_i{k}'} - 1); break; }} }} x_r{k} }}"
            end = e
        elif m == "filter":
            if [t.s for t in toks[e + 1:e + 5]] != [".", "count", "(", ")"]:
                raise Lost("filter without count")
            pre, cond, start = head(k, r, params[0], entries, iters)
            out = f"{{ let mut x_r{k}: usize = 0; {pre} while {cond} {{ {start} if {body} {{ x_r{k} = x_r{k} + 1; }} }} x_r{k} }}"
            end = e + 4
        else:
            # map(..).collect::<..>()[?]
            j = e + 1
            if not (toks[j].s == "." and toks[j + 1].s == "collect"):
                raise Lost("map without collect")
            j += 2
            if toks[j].s == "::":
                while toks[j].s != "(":
                    j += 1
            end = match_close(toks, j)
            tries = end + 1 < len(toks) and toks[end + 1].s == "?"
            if re.search(r"\breturn\b", body):
                raise Lost("closure body leaves the closure")
            pre, cond, start = head(k, r, params[0], entries, iters)
            o = f"x_out{k}"
            if plain:
                x = body
            elif body.startswith("Ok("):
                x = body[3:body.rindex(")")]
            else:
                x = f"(match {body} {{ Ok(x_o) => x_o, Err(x_e) => return Err(x_e) }})"
            out = f"{{ let mut {o} = {out_new}; {pre} while {cond} {{ {start} {out_push.format(o=o, x=x)} }} {o if tries or plain else f'Ok({o})'} }}"
            if tries:
                end += 1
        f.rewrites.append(f"{f.name}: `{r}.{m}(..)` as a while loop")
        f.body = f.body[:toks[s].a] + out + f.body[toks[end].b:]
        k += 1


def pipes(f, first=0, boxed="x_boxed", entries=(), iters=()):
    """Chains `src.iter()/into_iter()` of filter_map/filter/map/cloned ending in find, for_each,
    collect or next, and such chains put in a `Box` (a lazy iterator: the list of what it yields), as
    loops.  The closures are called on the same elements in the same order."""
    k = first
    adapters, sinks = ("filter_map", "filter", "map", "cloned"), ("find", "for_each", "collect", "next")
    while True:
        toks = lex(f.body)
        hit = None
        for i in range(1, len(toks) - 2):
            if not (toks[i].s == "." and toks[i + 1].s in ("iter", "into_iter") and toks[i + 2].s == "(" and toks[i + 3].s == ")"):
                continue
            s = receiver(toks, i)
            e, steps = i + 3, []
            while e + 3 < len(toks) and toks[e + 1].s == "." and toks[e + 2].s in adapters + sinks:
                nm, j = toks[e + 2].s, e + 3
                if toks[j].s == "::":
                    while toks[j].s != "(":
                        j += 1
                args, e = split_args(f.body, toks, j)
                steps.append((nm, args))
                if nm in sinks:
                    break
            lazy = s > 3 and toks[s - 1].s == "(" and [t.s for t in toks[s - 4:s - 1]] == ["Box", "::", "new"] and (toks[e + 1].s == ")" or toks[e + 1].s == "," and toks[e + 2].s == ")")
            if steps and (steps[-1][0] in sinks and (steps[-1][0] != "next" or len(steps) > 1) or lazy):
                hit = (s, e, f.body[toks[s].a:toks[i + 3].b], steps, lazy)
                break
        if not hit:
            return f
        s, e, src, steps, lazy = hit
        sink = steps.pop() if steps and steps[-1][0] in sinks else ("lazy", [])
        for nm, a in steps + [sink]:
            if any(re.search(r"\?|\breturn\b", (closure(x) or ((), ""))[1]) for x in a):
                raise Lost("closure body leaves the closure")

        def call(fn, arg):
            c = closure(fn)
            return f"{fn}({arg})" if c is None else f"({{ let {c[0][0]} = {arg}; {c[1]} }})"
        pre, cond, start = head(k, src, f"x_v{k}", entries, iters)
        body, close, v, n = "", "", f"x_v{k}", 0
        for nm, a in steps:
            w, n = f"x_v{k}_{n}", n + 1
            if nm == "filter_map":
                body += f"if let Some({w}) = {call(a[0], v)} {{ "
                close += "}"
            elif nm == "filter":
                body += f"if {call(a[0], '&' + v)} {{ let {w} = {v}; "
                close += "}"
            elif nm == "map":
                body += f"let {w} = {call(a[0], v)}; "
            else:
                body += f"let {w} = {v}.clone(); "
            v = w
        nm, a = sink
        if nm == "find":
            out = f"{{ let mut x_r{k} = None; {pre} while {cond} {{ {start} {body} if {call(a[0], '&' + v)} {{ x_r{k} = Some({v}); break; }} {close} }} x_r{k} }}"
        elif nm == "next":
            out = f"{{ let mut x_r{k} = None; {pre} while {cond} {{ {start} {body} x_r{k} = Some({v}); break; {close} }} x_r{k} }}"
        elif nm == "for_each":
            out = f"{{ {pre} while {cond} {{ {start} {body} {call(a[0], v)}; {close} }} }}"
        else:
            out = f"{{ let mut x_out{k} = Vec::new(); {pre} while {cond} {{ {start} {body} x_out{k}.push({v}); {close} }} x_out{k} }}"
            if lazy:
                out = f"{boxed}({out})"
        f.rewrites.append(f"{f.name}: `{' '.join(src.split())}` .. `{nm}` as a while loop")
        if lazy:
            s -= 4
            e += 2 if toks[e + 1].s == "," else 1
        f.body = f.body[:toks[s].a] + out + f.body[toks[e].b:]
        k += 1


def inline_closures(f):
    """`let name = |p, ..| body;` inlined where it is called; the body must not leave the closure."""
    while True:
        toks = lex(f.body)
        for i in range(len(toks) - 3):
            if toks[i].s == "let" and toks[i + 1].k == "id" and toks[i + 2].s == "=" and toks[i + 3].s in ("|", "||"):
                j = i + 3
                while toks[j].s != ";":
                    if toks[j].k == "p" and toks[j].s in rx.OPEN:
                        j = match_close(toks, j)
                    j += 1
                break
        else:
            return f
        name = toks[i + 1].s
        params, body = closure(f.body[toks[i + 3].a:toks[j - 1].b])
        if re.search(r"\?|\breturn\b", body):
            raise Lost("closure body leaves the closure")
        pats = [p.split(":", 1) for p in params]
        pat = "(" + ", ".join(p[0].strip() for p in pats) + ",)"
        ty = "(" + ", ".join(p[1].strip() if len(p) > 1 else "_" for p in pats) + ",)"
        f.body = f.body[:toks[i].a] + f.body[toks[j].b:]
        while True:
            toks = lex(f.body)
            k = next((k for k in range(1, len(toks) - 1) if toks[k].s == name and toks[k].k == "id" and toks[k + 1].s == "(" and toks[k - 1].s not in (".", "::")), None)
            if k is None:
                break
            args, e = split_args(f.body, toks, k + 1)
            f.body = f.body[:toks[k].a] + f"({{ let {pat}: {ty} = ({', '.join(args)},); {body} }})" + f.body[toks[e].b:]
        f.rewrites.append(f"{f.name}: closure `{name}` inlined")


def methods(f, table):
    """`recv.name(args)` as the call that stands for it; table: name -> template over {r} and {a}, or
    a function of (receiver, [args]) that may return None to leave the call alone."""
    skip = 0
    while True:
        toks = lex(f.body)
        hit = None
        for i in range(1, len(toks) - 2):
            if toks[i].a < skip:
                continue
            if toks[i].s == "." and toks[i + 1].k == "id" and toks[i + 1].s in table and toks[i + 2].s == "(":
                args, e = split_args(f.body, toks, i + 2)
                s = receiver(toks, i)
                r = f.body[toks[s].a:toks[i - 1].b]
                t = table[toks[i + 1].s]
                out = t.format(r=r, a=", ".join(args)) if isinstance(t, str) else t(r, args)
                if out is not None:
                    hit = (s, e, out, toks[i + 1].s)
                    break
                skip = toks[i].b
        if not hit:
            return f
        s, e, out, nm = hit
        f.body = f.body[:toks[s].a] + out + f.body[toks[e].b:]
        w = f"{f.name}: `.{nm}(..)` to its contract"
        if w not in f.rewrites:
            f.rewrites.append(w)
        skip = 0


def mut_self(f):
    """`mut self` as a local."""
    if re.search(r"\bmut self\b", f.sig) and "&mut self" not in f.sig:
        f.sig = f.sig.replace("mut self", "self")
        inner = re.sub(r"\bself\b", "x_self", f.body.strip()[1:-1])
        f.body = "{ let mut x_self = self; " + inner + "}"
        f.rewrites.append(f"{f.name}: `mut self` as a local")
    return f


def or_patterns(f):
    while True:
        m = re.search(r"([\w:]+\(\s*\w+\s*\))\s*\|\s*([\w:]+\(\s*\w+\s*\)(?:\s*\|\s*[\w:]+\(\s*\w+\s*\))*)\s*=>", f.body)
        if not m:
            return
        toks = [t for t in rx.lex(f.body) if t.a >= m.end()]
        if toks[0].s == "{":
            e = toks[rx.match_close(toks, 0)].b
        else:
            i = 0
            while toks[i].s not in (",", "}"):
                i = rx.match_close(toks, i) if toks[i].k == "p" and toks[i].s in ("(", "[", "{") else i
                i += 1
            e = toks[i].a
        arm = f.body[m.end():e]
        f.body = f.body[:m.start()] + f"{m.group(1)} =>{arm}, {m.group(2)} =>{arm}" + f.body[e:]
        f.rewrites.append(f"{f.name}: an or-pattern as two arms")
