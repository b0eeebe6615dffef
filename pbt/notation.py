"""Typed notation: random abstract expressions, their text in many spellings, and their meaning.

expr   = list of [sign, term]
term   = list of [op, factor, power]          op in "*", "/"; evaluated from left to right
factor = ["n", k] | ["v", i] | ["x"] | ["(", expr] | ["s", expr] | ["p", expr] | ["sqrt", k] | ["cbrt", k]
       | ["frac", expr, expr] | ["dec", "0.5"] | ["sum", term] | ["prod", term]   (the last two only at the end of a term)
"""
from hypothesis import strategies as st
import sympy as sp


def exprs(n, depth, opts):
    return st.lists(st.tuples(st.sampled_from([1, 1, -1]), terms(n, depth, opts)).map(list), min_size=1, max_size=3)


def terms(n, depth, opts):
    ops = ["*", "*", "*", "*", "/"] if opts.get("div") else ["*"]
    f = st.tuples(st.sampled_from(ops), factors(n, depth, opts), st.sampled_from([1, 1, 1, 2, 3] + ([0] if opts.get("zeropow") else []))).map(list)
    body = st.lists(f, min_size=1, max_size=3)
    if depth > 0 and opts.get("latex"):
        tail = st.one_of(st.just([]), st.just([]), st.tuples(st.just("*"), st.tuples(
            st.sampled_from(["sum", "prod"]), st.deferred(lambda: terms(n, depth - 1, opts))).map(list), st.just(1)).map(list).map(lambda x: [x]))
        return st.tuples(body, tail).map(lambda t: t[0] + t[1])
    return body


def factors(n, depth, opts):
    base = [st.tuples(st.just("v"), st.integers(0, n - 1)).map(list)] * 4 + [st.tuples(st.just("n"), st.integers(0, 12)).map(list)]
    if opts.get("param"):
        base.append(st.just(["x"]))
    if opts.get("sqrt"):
        base.append(st.tuples(st.just("sqrt"), st.sampled_from([2, 3, 5, 4, 12])).map(list))
    if opts.get("cbrt"):
        base.append(st.tuples(st.just("cbrt"), st.sampled_from([2, 3, 8])).map(list))
    if opts.get("dec"):
        base.append(st.tuples(st.just("dec"), st.sampled_from(["0.5", "1.25", "2.0", ".75"])).map(list))
    if opts.get("sci"):
        base.append(st.tuples(st.just("sci"), st.integers(1, 9), st.integers(1, 4)).map(list))
    if depth > 0:
        sub = st.deferred(lambda: exprs(n, depth - 1, opts))
        base += [st.tuples(st.just("("), sub).map(list), st.tuples(st.just("s"), sub).map(list), st.tuples(st.just("p"), sub).map(list)]
        if opts.get("latex") and opts.get("div"):
            base.append(st.tuples(st.just("frac"), sub, sub).map(list))
    return st.one_of(*base)


class Writer:
    """Spells an expression; `style` is a list of small integers consumed as choices."""
    def __init__(self, names, style, latex, param="x"):
        self.names, self.style, self.k, self.latex, self.param = names, style or [0], 0, latex, param

    def pick(self, m):
        self.k += 1
        return self.style[self.k % len(self.style)] % m

    def sp(self):
        return " " if self.pick(5) == 4 else ""

    def expr(self, e):
        out = ""
        for i, (s, t) in enumerate(e):
            w = self.term(t)
            if i == 0:
                out = ("-" if s < 0 else "") + w
            else:
                out += self.sp() + ("-" if s < 0 else "+") + self.sp() + w
        return out

    def term(self, t):
        out = ""
        for i, (op, f, k) in enumerate(t):
            w = self.factor(f, k)
            if i == 0:
                out = ("1/" if op == "/" else "") + w
                continue
            if op == "/":
                out += self.sp() + "/" + self.sp() + w
                continue
            last = out[-1]
            ok = not w[0].isdigit() and w[0] != "." or last == "}" and False
            if ok and self.pick(4) != 3:
                out += self.sp() + w
            else:
                out += self.sp() + "*" + self.sp() + w
        return out

    def power(self, w, k, digit_end):
        if k == 1:
            return w
        c = self.pick(4)
        if self.latex and c == 0:
            return w + "^{%d}" % k
        if c == 1 and not digit_end:
            return w + str(k)
        if c == 2 and not digit_end:
            return w + "**%d" % k
        return w + "^%d" % k

    def paren(self, w):
        return r"\left(" + w + r"\right)" if self.latex and self.pick(3) == 0 else "(" + w + ")"

    def factor(self, f, k):
        t = f[0]
        if t == "n":
            return self.power(str(f[1]), k, True)
        if t == "dec":
            return f[1] if k == 1 else "(" + f[1] + ")^%d" % k
        if t == "sci":
            return "%de%d" % (f[1], f[2]) if k == 1 else "(%de%d)^%d" % (f[1], f[2], k)
        if t == "v":
            w = self.names[f[1]]
            return self.power(w.upper() if self.pick(7) == 6 else w, k, False)
        if t == "x":
            return self.power(self.param, k, False)
        if t == "(":
            return self.power(self.paren(self.expr(f[1])), k, False)
        if t in "sp":
            return self.power(t + "(" + self.expr(f[1]) + ")", k, False)
        if t in ("sqrt", "cbrt"):
            return self.power(r"\sqrt{%d}" % f[1] if self.latex and t == "sqrt" and self.pick(2) else "%s(%d)" % (t, f[1]), k, False)
        if t == "frac":
            w = r"\frac{%s}{%s}" % (self.expr(f[1]), self.expr(f[2]))
            return w if k == 1 else "(" + w + ")^%d" % k
        if t in ("sum", "prod"):
            return "\\" + t + " " + self.term(f[1])
        raise KeyError(t)


class Meaning:
    def __init__(self, syms, elements, param="x"):
        self.syms, self.els, self.param = syms, elements, sp.Symbol(param)

    def orbit(self, e):
        return [e.xreplace({self.syms[i]: self.syms[g[i]] for i in range(len(self.syms))}) for g in self.els]

    def expr(self, e):
        return sp.Add(*[s * self.term(t) for s, t in e])

    def term(self, t):
        v = sp.Integer(1)
        for op, f, k in t:
            w = self.factor(f) ** k
            v = v / w if op == "/" else v * w
        return v

    def factor(self, f):
        t = f[0]
        if t == "n":
            return sp.Integer(f[1])
        if t == "dec":
            return sp.Rational(f[1])
        if t == "sci":
            return sp.Integer(f[1] * 10**f[2])
        if t == "v":
            return self.syms[f[1]]
        if t == "x":
            return self.param
        if t == "(":
            return self.expr(f[1])
        if t == "s":
            return sp.Add(*self.orbit(self.expr(f[1])))
        if t == "p":
            return sp.Mul(*self.orbit(self.expr(f[1])))
        if t == "sqrt":
            return sp.sqrt(f[1])
        if t == "cbrt":
            return sp.cbrt(f[1])
        if t == "frac":
            return self.expr(f[1]) / self.expr(f[2])
        if t == "sum":
            return sp.Add(*self.orbit(self.term(f[1])))
        if t == "prod":
            return sp.Mul(*self.orbit(self.term(f[1])))
        raise KeyError(t)


def size(x):
    return 1 + sum(size(y) for y in x) if isinstance(x, list) else 1


def uses(x, *tags):
    return isinstance(x, list) and ((bool(x) and x[0] in tags and isinstance(x[0], str)) or any(uses(y, *tags) for y in x))
