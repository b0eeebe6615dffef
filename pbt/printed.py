"""Reader for printed certificates (plain text, formatted text, LaTeX), written from the conventions of the notation:
a sum or product sign covers the product that follows it; s(...)/p(...) cover their bracket; digits raised or after ^ are
powers; juxtaposition multiplies; / binds like multiplication, to the left.  `f(a,b,c)` stands for the problem."""
import re

from . import evalx

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
LATEX = re.compile(r"\\(?:left|right)|\\mathrm|\\[a-zA-Z]+|\\\\|\d+|[A-Za-z]|[-+*/^_(){}\[\],=&]|\\,")
PLAIN = re.compile(r"\d+|sqrt|[A-Za-z]|[Σ∏]|[⁰¹²³⁴⁵⁶⁷⁸⁹]+|[-+*/^()]|[=≈,]")


class Bad(Exception):
    pass


class Reader:
    """Grammar on a token list; produces nested tuples."""
    def __init__(self, toks, mode, letters):
        self.t, self.i, self.mode, self.letters = toks, 0, mode, letters

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        if self.i >= len(self.t):
            raise Bad("unexpected end")
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        if self.peek() != x:
            raise Bad("%r expected, %r found" % (x, self.peek()))
        self.i += 1

    def all(self):
        e = self.expr()
        if self.i != len(self.t):
            raise Bad("trailing tokens %s" % self.t[self.i:])
        return e

    def expr(self):
        out = []
        while True:
            sign = 1
            while self.peek() in ("+", "-") and self.peek():
                if self.next() == "-":
                    sign = -sign
            t = self.term()
            out.append(t if sign == 1 else ("*", ("n", -1), t))
            if self.peek() not in ("+", "-") or not self.peek():
                return ("+",) + tuple(out)

    def starts(self):
        t = self.peek()
        if not t:
            return False
        return t in ("(", "{", "Σ", "∏", "sqrt", "\\sqrt", "\\frac", "\\sum", "\\prod") or t[0].isdigit() and self.mode == "latex" or (len(t) == 1 and t.isalpha())

    def term(self):
        v = self.factor()
        while True:
            if self.peek() == "*" or self.peek() == "\\cdot":
                self.next()
                v = ("*", v, self.factor())
            elif self.peek() == "/":
                self.next()
                v = ("/", v, self.factor())
            elif self.starts():
                v = ("*", v, self.factor())
            else:
                return v

    def braced(self):
        if self.peek() == "{":
            self.next()
            v = self.expr()
            self.expect("}")
            return v
        t = self.next()
        if t.isdigit() and len(t) > 1:
            raise Bad("unbraced %s" % t)
        return ("n", int(t)) if t.isdigit() else ("v", t)

    def subscript(self):
        if self.peek() == "_":
            self.next()
            self.expect("{")
            depth = 1
            while depth:
                depth += {"{": 1, "}": -1}.get(self.next(), 0)

    def factor(self):
        t = self.next()
        if t[0].isdigit():
            v = ("n", int(t))
        elif t == "(" or t == "{":
            v = self.expr()
            self.expect(")" if t == "(" else "}")
        elif t in ("Σ", "∏"):
            return ("cs" if t == "Σ" else "cp", self.term())
        elif t in ("\\sum", "\\prod"):
            self.subscript()
            return ("cs" if t == "\\sum" else "cp", self.term())
        elif t in ("s", "p") and self.mode == "formatted" and self.peek() == "(":
            self.next()
            v = ("cs" if t == "s" else "cp", self.expr())
            self.expect(")")
        elif t == "sqrt":
            self.expect("(")
            v = ("rt", self.expr(), 1, 2)
            self.expect(")")
        elif t == "\\sqrt":
            k = 2
            if self.peek() == "[":
                self.next()
                k = int(self.next())
                self.expect("]")
            v = ("rt", self.braced(), 1, k)
        elif t == "\\frac":
            a = self.braced()
            v = ("/", a, self.braced())
        elif t == "f" and self.peek() == "(":
            while self.next() != ")":
                pass
            v = ("f",)
        elif len(t) == 1 and t.isalpha() and t in self.letters:
            v = ("v", t)
        else:
            raise Bad("unexpected %r" % t)
        return self.power(v)

    def power(self, v):
        p = self.peek()
        if p and p[0] in SUP:
            self.next()
            return ("^", v, int("".join(SUP[c] for c in p)))
        if p == "^":
            self.next()
            if self.mode == "latex":
                k = self.braced()
            elif self.peek() == "(":
                self.next()
                k = self.expr()
                self.expect(")")
            else:
                neg = self.peek() == "-"
                if neg:
                    self.next()
                k = ("n", int(self.next()) * (-1 if neg else 1))
            k = value(k, {}, evalx.Rat, None, None)
            return ("^", v, int(k)) if k.denominator == 1 else ("rt", v, k.numerator, k.denominator)
        return v


def tokens(text, rx):
    out, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = rx.match(text, i)
        if not m:
            raise Bad("unexpected %r" % text[i:i + 10])
        out.append(m.group())
        i = m.end()
    return out


def read_side(text, mode, letters):
    if mode == "latex":
        text = text.replace("\\left", "").replace("\\right", "")
        toks = [t for t in tokens(text, LATEX) if t != "\\,"]
    else:
        toks = tokens(text.replace("**", "^"), PLAIN)
    return Reader(toks, mode, letters).all()


def read(text, mode, letters):
    """-> (left tree, sign, right tree)"""
    text = text.strip()
    if mode == "latex":
        text = text.strip("$").strip()
        m = re.match(r"\\begin\{(\w+)\}(.*)\\end\{(\w+)\}$", text, re.S)
        if m:
            if m.group(1) != m.group(3):
                raise Bad("environment")
            text = m.group(2)
        text = text.replace("\\\\", " ").replace("&", " ")
        text = re.sub(r"\\displaystyle", "", text)
    signs = ["=", "\\approx"] if mode == "latex" else ["=", "≈"]
    hits = [(s, text.count(s)) for s in signs if s in text]
    if len(hits) != 1 or hits[0][1] != 1:
        raise Bad("not one relation sign in %r" % text)
    l, r = text.split(hits[0][0])
    return read_side(l, mode, letters), ("=" if hits[0][0] == "=" else "~"), read_side(r, mode, letters)


def value(t, env, F, order, els, f=None):
    """env: letter -> value; order: letters the group acts on; els: its elements"""
    k = t[0]
    go = lambda x, e=env: value(x, e, F, order, els, f)
    if k == "n":
        return F.rat(t[1], 1)
    if k == "v":
        return env[t[1]]
    if k == "f":
        return f
    if k == "+":
        r = F.rat(0, 1)
        for x in t[1:]:
            r = F.add(r, go(x))
        return r
    if k == "*":
        r = F.rat(1, 1)
        for x in t[1:]:
            r = F.mul(r, go(x))
        return r
    if k == "/":
        return F.mul(go(t[1]), F.powi(go(t[2]), -1))
    if k == "^":
        return F.powi(go(t[1]), t[2])
    if k == "rt":
        return F.root(go(t[1]), t[2], t[3])
    r = F.rat(0 if k == "cs" else 1, 1)
    for g in els:
        e2 = dict(env)
        for i, s in enumerate(order):
            e2[s] = env[order[g[i]]]
        v = go(t[1], e2)
        r = F.add(r, v) if k == "cs" else F.mul(r, v)
    return r
