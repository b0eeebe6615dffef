"""A small reader for the plain polynomial notation, written from its description: numbers, single letter
variables, + - * / ^, juxtaposition, digits after a letter or a bracket as powers, s(...), p(...), sqrt(...).
It shares no code with the parser of the repository."""
import re

import sympy as sp

TOK = re.compile(r"(?:\d+\.\d*|\.\d+)(?:e[+-]?\d+)?|\d+|sqrt|[a-z]|[-+*/^(),]")


class Bad(Exception):
    pass


class Reader:
    def __init__(self, text, syms, elements):
        text = text.replace("**", "^").replace(" ", "")
        self.toks, i = [], 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise Bad("unexpected %r in %r" % (text[i], text))
            self.toks.append(m.group())
            i = m.end()
        self.i, self.syms, self.elements = 0, list(syms), elements

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ""

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def expect(self, t):
        if self.peek() != t:
            raise Bad("%r expected at token %d of %s" % (t, self.i, self.toks))
        self.i += 1

    def read(self):
        e = self.expr()
        if self.peek():
            raise Bad("trailing %r" % self.toks[self.i:])
        return e

    def expr(self):
        sign, out = 1, []
        if self.peek() in ("+", "-"):
            sign = -1 if self.next() == "-" else 1
        while True:
            out.append(sign * self.term())
            if self.peek() in ("+", "-") and self.peek():
                sign = -1 if self.next() == "-" else 1
            else:
                return sp.Add(*out)

    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t == "*":
                self.next()
                v = v * self.factor()
            elif t == "/":
                self.next()
                v = v / self.factor()
            elif t and (t == "(" or t == "sqrt" or t.isalpha()):
                v = v * self.factor()
            else:
                return v

    def factor(self):
        t = self.next() if self.peek() else None
        implied = True
        if t is None:
            raise Bad("unexpected end")
        if t[0].isdigit():
            v, implied = (sp.Float(t, 30) if "." in t else sp.Integer(t)), False
        elif t == "(":
            v = self.expr()
            self.expect(")")
        elif t == "sqrt":
            self.expect("(")
            v = sp.sqrt(self.expr())
            self.expect(")")
        elif t in ("s", "p") and self.peek() == "(":
            self.next()
            v = self.expr()
            self.expect(")")
            images = [v.xreplace(dict(zip(self.syms, [self.syms[j] for j in g]))) for g in self.elements]
            v = sp.Add(*images) if t == "s" else sp.Mul(*images)
        elif t.isalpha():
            v = sp.Symbol(t)
        else:
            raise Bad("unexpected %r" % t)
        if self.peek() == "^":
            self.next()
            neg = self.peek() == "-"
            if neg:
                self.next()
            p = self.factor()
            v = v**(-p if neg else p)
        elif implied and self.peek().isdigit():
            v = v**sp.Integer(self.next())
        return v


def read(text, syms, elements):
    return Reader(text, syms, elements).read()
