"""A small expander for the repository's own `macro_rules!`, so that methods written through them are
taken from the macros' current text.  It knows the fragments ident, ty, expr, literal, tt and one level of
repetition inside another; anything else raises Lost."""
import re
import rx
from rx import Lost, match_close

OPEN = {"(": ")", "[": "]", "{": "}"}


class M:
    def __init__(self, text):
        self.text, self.tk = text, rx.lex(text)

    def s(self, i):
        return self.tk[i].s

    def cut(self, i, j):
        """the text of the tokens i..j (exclusive)"""
        return self.text[self.tk[i].a:self.tk[j - 1].b] if j > i else ""


def arms(text):
    m = M(text)
    i = 0
    while m.s(i) not in OPEN:
        i += 1
    end, i, out = match_close(m.tk, i), i + 1, []
    while i < end:
        a = match_close(m.tk, i)
        pat = m.text[m.tk[i].b:m.tk[a].a]
        if m.s(a + 1) + m.s(a + 2) != "=>" and m.s(a + 1) != "=>":
            raise Lost("macro arm")
        k = a + 2 if m.s(a + 1) == "=>" else a + 3
        b = match_close(m.tk, k)
        out.append((pat, m.text[m.tk[k].b:m.tk[b].a]))
        i = b + 1
        while i < end and m.s(i) == ";":
            i += 1
    return out


def fragment(m, i, kind, stop):
    """the end of the fragment which begins at i, or None"""
    n = len(m.tk)
    if i >= n:
        return None
    if kind == "ident":
        return i + 1 if re.fullmatch(r"[A-Za-z_]\w*", m.s(i)) else None
    if kind == "tt":
        return match_close(m.tk, i) + 1 if m.s(i) in OPEN else i + 1
    if kind == "literal":
        return i + 1
    if kind in ("ty", "expr"):
        j, angle = i, 0
        while j < n:
            s = m.s(j)
            if angle == 0 and (s in (",", ";", "=>") or (stop and s == stop)):
                break
            if s == "<" and kind == "ty":
                angle += 1
            if s == ">" and kind == "ty":
                angle -= 1
            j = match_close(m.tk, j) + 1 if s in OPEN else j + 1
            if kind == "ty" and angle == 0 and not stop and j < n and m.s(j) not in ("<", "::", ",", ";", "+") and m.s(j - 1) not in ("&", "::", "<", "'", "mut", "dyn") and m.tk[j - 1].k != "life":
                break
        return j if j > i else None
    raise Lost(f"macro fragment {kind}")


def match(pm, pi, pe, m, i, e, env):
    """match the pattern tokens pi..pe against i..e; the end position, or None"""
    while pi < pe:
        s = pm.s(pi)
        if s == "$" and pm.s(pi + 1) == "(":
            c = match_close(pm.tk, pi + 1)
            k = c + 1
            sep = None
            if pm.s(k) not in ("*", "+", "?"):
                sep, k = pm.s(k), k + 1
            op, reps = pm.s(k), []
            while i < e:
                sub = {}
                j = i
                if sep and reps:
                    if m.s(j) != sep:
                        break
                    j += 1
                r = match(pm, pi + 2, c, m, j, e, sub)
                if r is None or r == i:
                    break
                reps.append(sub)
                i = r
                if op == "?":
                    break
            if op == "+" and not reps:
                return None
            names = re.findall(r"\$(\w+)\s*:", pm.text[pm.tk[pi + 1].a:pm.tk[c].b])
            for nm in names:
                env[nm] = [r[nm] for r in reps]
            pi = k + 1
        elif s == "$":
            nm, kind = pm.s(pi + 1), pm.s(pi + 3)
            stop = pm.s(pi + 4) if pi + 4 < pe and pm.s(pi + 4) != "$" else None
            j = fragment(m, i, kind, stop)
            if j is None or j > e:
                return None
            env[nm] = m.cut(i, j)
            i, pi = j, pi + 4
        elif s in OPEN:
            if i >= e or m.s(i) != s:
                return None
            c, d = match_close(pm.tk, pi), match_close(m.tk, i)
            r = match(pm, pi + 1, c, m, i + 1, d, env)
            if r != d:
                return None
            pi, i = c + 1, d + 1
        else:
            if i >= e or m.s(i) != s:
                return None
            pi, i = pi + 1, i + 1
    return i


def fill(t, env):
    m = M(t)
    out, at, i = [], 0, 0
    while i < len(m.tk):
        if m.s(i) == "$" and i + 1 < len(m.tk):
            nx = m.s(i + 1)
            if nx == "(":
                c = match_close(m.tk, i + 1)
                k, sep = c + 1, ""
                if m.s(k) not in ("*", "+", "?"):
                    sep, k = m.s(k), k + 1
                inner = m.text[m.tk[i + 1].b:m.tk[c].a]
                names = [x for x in re.findall(r"\$(\w+)", inner) if isinstance(env.get(x), list)]
                if not names:
                    raise Lost("macro repetition")
                reps = []
                for q in range(len(env[names[0]])):
                    reps.append(fill(inner, {**env, **{x: env[x][q] for x in names}}))
                out.append(t[at:m.tk[i].a] + (sep + " ").join(reps))
                at, i = m.tk[k].b, k + 1
                continue
            if nx in env:
                out.append(t[at:m.tk[i].a] + env[nx])
                at, i = m.tk[i + 1].b, i + 2
                continue
            if nx == "crate":
                out.append(t[at:m.tk[i].a] + "crate")
                at, i = m.tk[i + 1].b, i + 2
                continue
        i += 1
    return "".join(out) + t[at:]


def expand_one(name, text, args):
    for pat, body in arms(text):
        pm, m, env = M(pat), M(args), {}
        if match(pm, 0, len(pm.tk), m, 0, len(m.tk), env) == len(m.tk):
            return fill(body, env)
    raise Lost(f"{name}!: no arm for `{args.strip()[:60]}`")


def expand(text, macros, depth=0):
    """the text with every invocation of one of the macros (name -> macro_rules text) written out"""
    if depth > 12:
        raise Lost("macro recursion")
    m = M(text)
    i = 0
    while i + 2 < len(m.tk):
        if m.s(i) in macros and m.s(i + 1) == "!" and m.s(i + 2) in OPEN and (i == 0 or m.s(i - 1) != "macro_rules"):
            c = match_close(m.tk, i + 2)
            a = i
            while a >= 2 and m.s(a - 1) == "::":
                a -= 2
            b = m.tk[c].b
            if c + 1 < len(m.tk) and m.s(c + 1) == ";" and m.s(i + 2) != "{":
                b = m.tk[c + 1].b
            new = expand_one(m.s(i), macros[m.s(i)], m.text[m.tk[i + 2].b:m.tk[c].a])
            return m.text[:m.tk[a].a] + expand(new, macros, depth + 1) + expand(m.text[b:], macros, depth)
        i += 1
    return text
