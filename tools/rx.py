"""Mechanical extraction of Rust items from /repo for verification with Verus.

The text of every extracted function is taken verbatim from the repository's current source.  The
only edits are
  * doc comments, ordinary comments and attributes are dropped (``#[cfg]`` on statements/items is
    evaluated against a fixed feature set first),
  * contracts / loop invariants / ghost code are *inserted* at positional anchors (function header,
    loop k header, start/end of a loop body, start/end of a function body, after loop k) -- never by
    looking for a particular statement,
  * a list of rewrites given by the recipe and recorded in the evidence (`Rewrite`), each of which is
    a meaning-preserving desugaring of a construct the verifier does not accept.
If an anchor is missing the extraction raises `Lost`.
"""
import re


CANARY = False


class Lost(Exception):
    """The source no longer has the shape the recipe needs; the proof is lost, not failed."""


# ------------------------------------------------------------------ lexer
_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?(?:[eE][+-]?[0-9_]+)?")
_PUNCT = ["..=", "...", "<<=", ">>=", "=>", "->", "::", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=",
          "*=", "/=", "%=", "^=", "&=", "|=", ".."]


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s}"


def lex(src):
    """Tokens without whitespace and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.match(r"b?r(#*)\"", src[i:i + 40])
        if m:
            end = '"' + m.group(1)
            j = src.find(end, i + m.end())
            j = j + len(end)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or src.startswith('b"', i) or src.startswith('c"', i):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = re.match(r"b?'(?:\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^\\'])'", src[i:i + 16], re.S)
        if m:
            out.append(Tok("chr", m.group(0), i, i + m.end()))
            i += m.end()
            continue
        if c == "'":
            m = re.match(r"'[A-Za-z_][A-Za-z0-9_]*", src[i:])
            if m:
                out.append(Tok("life", m.group(0), i, i + m.end()))
                i += m.end()
                continue
        m = _ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            s = m.group(0)
            # `0..n` and `1.method()`
            out.append(Tok("num", s, i, m.end()))
            i = m.end()
            continue
        for p in _PUNCT:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match_close(toks, i):
    """Index of the token closing the bracket at index i."""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].s in OPEN:
                d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


FEATURES = {"std", "serde"}


def _cfg_true(text):
    t = re.sub(r"\s+", "", text)
    m = re.fullmatch(r'feature="(\w+)"', t)
    if m:
        return m.group(1) in FEATURES
    if t in ("test", "kani"):
        return False
    m = re.fullmatch(r"not\((.*)\)", t)
    if m:
        return not _cfg_true(m.group(1))
    m = re.fullmatch(r"(all|any)\((.*)\)", t)
    if m:
        parts = [p for p in re.split(r",(?![^()]*\))", m.group(2)) if p]
        f = all if m.group(1) == "all" else any
        return f(_cfg_true(p) for p in parts)
    raise Lost("unsupported cfg: " + text)


def strip_comments_attrs(src):
    """Drop comments and attributes; drop items/statements whose #[cfg] is false."""
    toks = lex(src)
    out, i, last_end = [], 0, None
    pieces = []

    def emit(tok):
        nonlocal last_end
        if last_end is not None:
            gap = src[last_end:tok.a]
            nl = gap.count("\n")
            # keep the layout (indentation) but not the comments
            gap2 = re.sub(r"//[^\n]*", "", gap)
            gap2 = re.sub(r"/\*.*?\*/", "", gap2, flags=re.S)
            if nl:
                tail = gap2.rsplit("\n", 1)[-1]
                gap2 = "\n" + tail
            elif not gap2.strip() and gap:
                gap2 = " "
            pieces.append(gap2)
        pieces.append(tok.s)
        last_end = tok.b

    while i < len(toks):
        t = toks[i]
        if t.s == "#" and i + 1 < len(toks) and (toks[i + 1].s == "[" or (toks[i + 1].s == "!" and toks[i + 2].s == "[")):
            o = i + 1 if toks[i + 1].s == "[" else i + 2
            e = match_close(toks, o)
            body = src[toks[o].b:toks[e].a].strip()
            keep_next = True
            if re.match(r"cfg\s*\(", body):
                keep_next = _cfg_true(body[body.index("(") + 1:body.rindex(")")])
            i = e + 1
            if not keep_next:
                # skip further attributes, then the item or statement
                while i < len(toks) and toks[i].s == "#":
                    i = match_close(toks, i + 1) + 1
                d = 0
                while i < len(toks):
                    s = toks[i].s
                    if toks[i].k == "p" and s in OPEN:
                        e = match_close(toks, i)
                        i = e + 1
                        if s == "{" and not (i < len(toks) and toks[i].s in (".", "?", ";", "as")):
                            break
                        continue
                    if toks[i].k == "p" and s == ";":
                        i += 1
                        break
                    if toks[i].k == "p" and s in CLOSE:
                        break
                    i += 1
            continue
        emit(t)
        i += 1
    return "".join(pieces)


# ------------------------------------------------------------------ items
def norm(s):
    return " ".join(t.s for t in lex(s))


class File:
    def __init__(self, path, text=None):
        self.path = path
        try:
            raw = open(path).read() if text is None else text
        except OSError as e:
            raise Lost(f"cannot read {path}: {e}")
        self.text = strip_comments_attrs(raw)
        self.toks = lex(self.text)

    # ranges of token indices for the body of an impl/mod block whose header matches
    def block(self, header):
        h = [t.s for t in lex(header)]
        tk = self.toks
        hits = []
        for i in range(len(tk) - len(h)):
            if all(tk[i + j].s == h[j] for j in range(len(h))) and tk[i + len(h)].s in ("{", "where"):
                j = i + len(h)
                while tk[j].s != "{":
                    j += 1
                hits.append((j + 1, match_close(tk, j)))
        if not hits:
            raise Lost(f"{self.path}: no `{header}`")
        return hits

    def fn(self, name, inside=None):
        """The function `name`, at file level or inside the block with header `inside`."""
        tk = self.toks
        ranges = [(0, len(tk))] if inside is None else self.block(inside)
        found = []
        for (lo, hi) in ranges:
            i = lo
            while i < hi:
                if tk[i].k == "id" and tk[i].s == "fn" and tk[i + 1].s == name:
                    found.append(self._fn_at(i))
                    i += 2
                    continue
                if tk[i].s == "{" and inside is None and tk[i].k == "p":
                    # do not descend into impl blocks or bodies at file level
                    i = match_close(tk, i) + 1
                    continue
                if tk[i].s == "{" and inside is not None:
                    i = match_close(tk, i) + 1
                    continue
                i += 1
        if len(found) != 1:
            raise Lost(f"{self.path}: {len(found)} functions named `{name}` in `{inside}`")
        return found[0]

    def _fn_at(self, i):
        tk = self.toks
        j = i
        # signature up to the body
        d = 0
        while True:
            s = tk[j].s
            if tk[j].k == "p" and s in ("(", "["):
                j = match_close(tk, j) + 1
                continue
            if s == "{":
                break
            if s == ";":
                raise Lost("function without body")
            j += 1
        e = match_close(tk, j)
        start = i
        while start > 0 and tk[start - 1].s in ("pub", "const", "unsafe", ")") :
            if tk[start - 1].s == ")":
                # pub(crate) / pub(super)
                k = start - 1
                while tk[k].s != "(":
                    k -= 1
                if tk[k - 1].s != "pub":
                    break
                start = k - 1
            else:
                start -= 1
        sig = self.text[tk[i].a:tk[j].a].strip()
        body = self.text[tk[j].a:tk[e].b]
        return Fn(tk[i + 1].s, sig, body, self.path)

    def item(self, kind, name):
        """struct/enum/const/static/type item text."""
        tk = self.toks
        for i in range(len(tk) - 1):
            if tk[i].s == kind and tk[i].k == "id" and tk[i + 1].s == name:
                j = i
                while tk[j].s not in ("{", ";", "("):
                    j += 1
                if kind in ("const", "static", "type"):
                    while tk[j].s != ";":
                        if tk[j].k == "p" and tk[j].s in OPEN:
                            j = match_close(tk, j)
                        j += 1
                    return self.text[tk[i].a:tk[j].b]
                if tk[j].s == ";":
                    return self.text[tk[i].a:tk[j].b]
                e = match_close(tk, j)
                if tk[j].s == "(":
                    while tk[e].s != ";":
                        e += 1
                return self.text[tk[i].a:tk[e].b]
        raise Lost(f"{self.path}: no {kind} `{name}`")

    def macro_rules(self, name):
        tk = self.toks
        for i in range(len(tk) - 3):
            if tk[i].s == "macro_rules" and tk[i + 2].s == name:
                e = match_close(tk, i + 3)
                return self.text[tk[i].a:tk[e].b]
        raise Lost(f"{self.path}: no macro `{name}`")


class Fn:
    """An extracted function: verbatim signature and body, plus the insertions made to it."""

    def __init__(self, name, sig, body, path):
        self.name, self.sig, self.body, self.path = name, sig, body, path
        self.contract = ""
        self.loop_inv = {}
        self.ins = {}
        self.before = {}
        self.rewrites = []
        self.ret = None
        self.rename = None
        self.vis = ""
        self.attrs = ""

    def rewrite(self, pat, rep, why, must=True):
        """Token-wise rewrite.  `pat`/`rep` are Rust fragments with $name holes: $x matches one
        token tree or identifier path-free token, $x.. matches a balanced sequence (shortest)."""
        new, n = tokrewrite(self.body, pat, rep)
        if must and n == 0:
            raise Lost(f"{self.name}: nothing matches `{pat}` ({why})")
        if n:
            self.rewrites.append(f"{self.name}: `{pat}` => `{rep}` x{n} ({why})")
        self.body = new
        return self

    def rewrite_fn(self, pat, func, why, must=True):
        """As rewrite, with a function from the bound texts to the replacement."""
        new, n = tokrewrite(self.body, pat, func)
        if must and n == 0:
            raise Lost(f"{self.name}: nothing matches `{pat}` ({why})")
        if n:
            self.rewrites.append(f"{self.name}: `{pat}` desugared x{n} ({why})")
        self.body = new
        return self

    def sig_rewrite(self, pat, rep, why="", must=True):
        new, n = tokrewrite(self.sig, pat, rep)
        if must and n == 0:
            raise Lost(f"{self.name}: signature has no `{pat}`")
        if n and why:
            self.rewrites.append(f"{self.name} signature: `{pat}` => `{rep}` ({why})")
        self.sig = new
        return self

    def spec(self, contract, ret="r"):
        self.contract, self.ret = contract, ret
        return self

    def loop(self, k, inv, start="", end="", after=""):
        self.loop_inv[k] = (inv, start, end, after)
        return self

    def before_loop(self, k, text):
        self.before[k] = text
        return self

    def at(self, where, text):
        assert where in ("start", "end", "hide")
        self.ins[where] = self.ins.get(where, "") + text
        return self

    def loops(self):
        """(header token index, body open, body close) of every loop, in source order."""
        toks = lex(self.body)
        res = []
        for i, t in enumerate(toks):
            if t.k == "id" and t.s in ("while", "loop", "for"):
                if t.s == "for" and toks[i + 1].s == "<":
                    continue
                j = i + 1
                while toks[j].s != "{":
                    if toks[j].k == "p" and toks[j].s in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                res.append((i, j, match_close(toks, j)))
        return toks, res

    def render(self):
        toks, loops = self.loops()
        edits = []  # (pos, text)
        for k, (inv, start, end, after) in self.loop_inv.items():
            if k >= len(loops):
                raise Lost(f"{self.name}: no loop #{k}")
            _, o, c = loops[k]
            edits.append((toks[o].a, "\n" + inv + "\n"))
            if start:
                edits.append((toks[o].b, "\n" + start + "\n"))
            if end:
                edits.append((toks[c].a, "\n" + end + "\n"))
            if after:
                edits.append((toks[c].b, "\n" + after + "\n"))
        for k, text in self.before.items():
            if k >= len(loops):
                raise Lost(f"{self.name}: no loop #{k}")
            edits.append((toks[loops[k][0]].a, "\n" + text + "\n"))
        if len(loops) != len(self.loop_inv) and self.loop_inv.get("any") is None:
            raise Lost(f"{self.name}: {len(loops)} loops, expected {len(self.loop_inv)}")
        start = self.ins.get("hide", "") + ("proof { assert(false); } " if CANARY else "") + self.ins.get("start", "")
        if start:
            edits.append((toks[0].b, "\n" + start + "\n"))
        if "end" in self.ins:
            edits.append((toks[-1].a, "\n" + self.ins["end"] + "\n"))
        body = self.body
        for pos, text in sorted(edits, key=lambda e: -e[0]):
            body = body[:pos] + text + body[pos:]
        sig = self.sig
        if self.rename:
            sig = re.sub(r"^fn\s+\w+", "fn " + self.rename, sig)
        if self.ret:
            sig = name_ret(sig, self.ret)
        where = ""
        return f"{self.attrs}{self.vis}{sig}\n{self.contract}\n{body}\n"


def name_ret(sig, ret):
    toks = lex(sig)
    d = 0
    for i, t in enumerate(toks):
        if t.k == "p" and t.s in OPEN:
            d += 1
        elif t.k == "p" and t.s in CLOSE:
            d -= 1
        elif t.s == "->" and d == 0:
            # up to `where` at depth 0
            j = i + 1
            while j < len(toks) and toks[j].s != "where":
                j += 1
            end = toks[j - 1].b
            ty = sig[toks[i].b:end].strip()
            return sig[:toks[i].a] + f"-> ({ret}: {ty})" + sig[end:]
    return sig


# ------------------------------------------------------------------ token rewriting
def _compile(pat):
    toks = lex(pat.replace("$", " __H_"))
    return [("hole", t.s[4:]) if t.k == "id" and t.s.startswith("__H_") else ("tok", t.s) for t in toks]


def _match(toks, i, pat, p, binds, src):
    while p < len(pat):
        kind, s = pat[p]
        if i >= len(toks):
            return None
        if kind == "tok":
            if toks[i].s != s:
                return None
            i += 1
            p += 1
            continue
        # hole: names ending in _s match a balanced sequence, others one token or bracket group
        if s.endswith("_s"):
            j = i
            while j <= len(toks):
                b = dict(binds)
                b[s] = (toks[i].a, toks[j - 1].b) if j > i else (toks[i].a, toks[i].a)
                r = _match(toks, j, pat, p + 1, b, src)
                if r is not None:
                    return r
                if j >= len(toks) or (toks[j].k == "p" and toks[j].s in CLOSE):
                    return None
                if toks[j].k == "p" and toks[j].s in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    if toks[j].k == "p" and toks[j].s == ";":
                        return None
                    j += 1
            return None
        if toks[i].k == "p" and toks[i].s in OPEN:
            e = match_close(toks, i)
            rng = (toks[i].a, toks[e].b)
            ni = e + 1
        elif toks[i].k == "p":
            return None
        else:
            rng = (toks[i].a, toks[i].b)
            ni = i + 1
        if s in binds:
            if norm(src[binds[s][0]:binds[s][1]]) != norm(src[rng[0]:rng[1]]):
                return None
        else:
            binds = dict(binds)
            binds[s] = rng
        i = ni
        p += 1
    return i, binds


def tokrewrite(src, pat, rep):
    cp = _compile(pat)
    n = 0
    start = 0
    while True:
        toks = lex(src)
        done = True
        for i in range(len(toks)):
            if toks[i].a < start:
                continue
            r = _match(toks, i, cp, 0, {}, src)
            if r is None:
                continue
            e, b = r
            if callable(rep):
                out = rep({name: src[x:y] for name, (x, y) in b.items()})
            else:
                out = rep
                for name, (x, y) in sorted(b.items(), key=lambda kv: -len(kv[0])):
                    out = out.replace("$" + name, src[x:y])
            src = src[:toks[i].a] + out + src[toks[e - 1].b:]
            start = toks[i].a + len(out)
            n += 1
            done = False
            break
        if done:
            return src, n
