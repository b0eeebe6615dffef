"""C28: univariate positivity certificates."""
from fractions import Fraction as F

from hypothesis import strategies as st
import sympy as sp
from triples.core.structsos.pivoting import univariate as UV

from .. import evalx
from ..core import Check

CHECK = Check("C28", rule="sums of squares p + y*q mapped onto a random half-line, interval or the line, with planted double roots, powers, "
              "vanishing leading and trailing terms, irrational coefficients, and the same made negative at one inner point. Oracle: the "
              "planted sign, and the certificate evaluated at a random point of a large prime field. Non-trivial: degree >= 3.")

_c = st.one_of(st.integers(-6, 6), st.integers(-6, 6), st.tuples(st.integers(-30, 30), st.integers(1, 12)).map(list))


def fr(x):
    return F(*x) if isinstance(x, (list, tuple)) else F(x)


def pmul(p, q):
    r = [F(0)] * (len(p) + len(q) - 1) if p and q else []
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def padd(p, q):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else F(0)) + (q[i] if i < len(q) else F(0)) for i in range(n)]


def peval(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


@st.composite
def _case(draw):
    where = draw(st.sampled_from(["R+", "R+", "R+", "R", "R", "left", "right", "inner", "inner", "inner"]))
    d = draw(st.integers(1, 4))
    sq = lambda k: st.tuples(st.integers(1, 6), st.lists(_c, min_size=1, max_size=k + 1)).map(list)
    case = {"where": where, "p": draw(st.lists(sq(d), min_size=1, max_size=3)),
            "q": draw(st.lists(sq(max(0, d - 1)), min_size=0, max_size=2)) if where != "R" else [],
            "margin": draw(st.sampled_from([0, 0, 0, [1, 8], 1, 5])),
            "mul": draw(st.lists(st.tuples(st.lists(_c, min_size=2, max_size=3), st.integers(1, 2)).map(list), max_size=2)) if draw(st.booleans()) else [],
            "gen": draw(st.integers(0, 2)) if draw(st.integers(0, 2)) == 0 and where == "R+" else 0,
            "a": draw(_c), "w": draw(st.one_of(st.integers(1, 5), st.tuples(st.integers(1, 30), st.integers(1, 12)).map(list))),
            "scale": draw(st.sampled_from([1, 1, 1, [1, 7], [12, 5], 100])),
            "cut": draw(st.sampled_from([None, None, None, [1, 1000], [1, 3], 1, 20])), "at": draw(st.sampled_from([[1, 3], [1, 2], 1, 2, [7, 2], 0])),
            "early": draw(st.sampled_from([-1, -1, -1, 1, 2])), "n": draw(st.sampled_from([15, 15, 15, 10, 30])),
            "none": draw(st.booleans()), "expr": draw(st.booleans()), "zz": draw(st.booleans())}
    # zeros at the ends of the interval
    if where in ("right", "left", "inner") and draw(st.integers(0, 2)) == 0:
        case["ends"] = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    # an exact cancellation of one leading term between the two parts
    if draw(st.integers(0, 3)) == 0:
        case["drop"] = draw(st.integers(0, 3))
    # a root just outside: the part without y is tiny
    if where != "R" and draw(st.integers(0, 3)) == 0:
        case["eps"] = [1, draw(st.sampled_from([20, 100, 1000, 10000]))]
        case["p"], case["drop"], case["gen"], case["margin"] = [[1, [0]]], None, 0, 0
        case["q"] = draw(st.lists(st.tuples(st.integers(1, 6), st.lists(st.integers(-9, 9), min_size=2, max_size=3)).map(list), min_size=1, max_size=3))
        case["mul"], case["scale"] = case["mul"][:draw(st.integers(0, 1))], 1
    return case


def planted(case):
    """The polynomial in y >= 0 (or over all y), nonnegative by construction."""
    P = []
    for c, s in case["p"]:
        s = [fr(x) for x in s]
        P = padd(P, [c * x for x in pmul(s, s)])
    for c, s in case["q"]:
        s = [fr(x) for x in s]
        P = padd(P, [F(0)] + [c * x for x in pmul(s, s)])
    if case.get("eps"):
        P = padd(P, [fr(case["eps"])])
    P = trim(P)
    m = fr(case["margin"])
    if m and P:
        full = case["where"] != "R"
        n = len(P)
        if not full and n % 2 == 0:
            n -= 1
        P = padd(P, [m if (full or i % 2 == 0) else F(0) for i in range(n)])
    for s, k in case["mul"]:
        s = [fr(x) for x in s]
        for _ in range(2 * k if len(s) == 2 else 2):
            P = pmul(P, s)
    P = trim([F(0)] * case["gen"] + P)
    sc = fr(case["scale"])
    return [sc * x for x in P]


def interval(case):
    a, w = fr(case["a"]), fr(case["w"])
    return {"R+": (F(0), None), "R": (None, None), "right": (a, None), "left": (None, a), "inner": (a, a + w)}[case["where"]]


def mapped(P, a, b):
    if a is None and b is None or (a == 0 and b is None):
        return P
    if b is None:      # y = x - a
        return trim(_compose(P, [-a, F(1)]))
    if a is None:      # y = b - x
        return trim(_compose(P, [b, F(-1)]))
    n = len(P) - 1     # (b - x)^n P((x - a)/(b - x))
    r = []
    for i, c in enumerate(P):
        t = [c]
        for _ in range(i):
            t = pmul(t, [-a, F(1)])
        for _ in range(n - i):
            t = pmul(t, [b, F(-1)])
        r = padd(r, t)
    return trim(r)


def _compose(P, s):
    r = []
    for c in reversed(P):
        r = padd(pmul(r, s) if r else [], [c])
    return r


def Q(x):
    return sp.Rational(x.numerator, x.denominator)


def certified(ctx, raw, f, x, muls, what):
    ctx.require(isinstance(raw, list) and len(raw) == 2, lambda: "%s: %r is not a list of two parts" % (what, raw), what + ":shape")
    ctx.require(all(sp.expand(m - e) == 0 for (m, _, _), e in zip(raw, muls)), lambda: "%s: multipliers %s, not %s" % (what, [m for m, _, _ in raw], muls), what + ":multipliers")
    total = []
    for m, cs, ps in raw:
        ctx.require(len(cs) == len(ps), "%s: coefficients and polynomials differ in number" % what, what + ":shape")
        for c, p in zip(cs, ps):
            c = sp.sympify(c)
            ctx.require(c.is_number and sp.re(c.evalf(60)) >= -sp.Float(10)**-40 and abs(sp.im(c.evalf(60))) < sp.Float(10)**-40, lambda: "%s: weight %s" % (what, c), what + ":sign")
            ctx.require(not p.as_expr().has(sp.Float) and not c.has(sp.Float), lambda: "%s: inexact numbers in %s, %s" % (what, c, p), what + ":exact")
            total.append(c * m * p.as_expr()**2)
    total = sp.Add(*total)
    d = evalx.differs(total, f, [x])
    ctx.require(d is None, lambda: "%s: the certificate %s differs from %s (%s)" % (what, raw, f, d), what + ":value")
    return total


@CHECK.sub("rational", _case, quick=700, thorough=20000, shards=4, case_timeout=30, hang=True, rule="rational polynomials of planted sign over an interval")
def rational(case, ctx):
    P = planted(case)
    a, b = interval(case)
    if len(P) == 0:
        return
    if case.get("drop") is not None and case["where"] == "R+":
        # the odd part alone keeps the leading terms
        k = min(case["drop"], len(P) - 1)
        P[len(P) - 1 - k] = F(0) if k else P[-1]
        planted_sign = all(c >= 0 for c in P) or None
    else:
        planted_sign = True
    f = mapped(P, a, b)
    if case.get("ends"):
        for end, s, k in ((a, 1, case["ends"][0]), (b, -1, case["ends"][1])):
            for _ in range(k if end is not None else 0):
                f = pmul(f, [-s * end, F(s)])
    inner = {"R+": lambda t: t, "R": lambda t: t - 1, "right": lambda t: a + t, "left": lambda t: b - t, "inner": lambda t: (a + b * t) / (1 + t)}[case["where"]]
    if case["cut"] is not None and planted_sign:
        x0 = inner(fr(case["at"]))
        # made negative at an inner point by subtracting a constant
        f = padd(f, [-(peval(f, x0) + fr(case["cut"]))])
        planted_sign = False
    f = trim(f)
    if not f:
        return
    ctx.nontrivial(len(f) >= 4)
    ctx.label("degree %d" % min(9, len(f) - 1), case["where"], {True: "nonnegative", False: "negative somewhere", None: "either"}[planted_sign])
    x = sp.Symbol("x")
    expr = sp.Add(*[Q(c) * x**i for i, c in enumerate(f)])
    poly = sp.Poly(expr, x)
    arg = poly if not case["expr"] or not expr.free_symbols else expr
    kw = {"early_stop": case["early"], "n": case["n"]}
    if case["where"] == "R+":
        prove = lambda r: UV.prove_univariate(arg, return_raw=r, **kw)
        muls = [sp.Integer(1), x]
        what = "prove_univariate"
    else:
        lo = Q(a) if a is not None else (None if case["none"] else -sp.oo)
        hi = Q(b) if b is not None else (None if case["none"] else sp.oo)
        iv = None if lo is None and hi is None and case["zz"] else (lo, hi)
        prove = lambda r: UV.prove_univariate_interval(arg, iv, return_raw=r, **kw)
        n = len(f) - 1
        muls = {"R": [1, x], "right": [1, x - Q(a)] if a is not None else None, "left": [1, Q(b) - x] if b is not None else None,
                "inner": None if b is None or a is None else ([1, (x - Q(a)) * (Q(b) - x)] if n % 2 == 0 else [Q(b) - x, x - Q(a)])}[case["where"]]
        what = "prove_univariate_interval"
    raw = prove(True)
    if case["where"] in ("R+", "R"):
        c = UV.check_univariate(poly, positive=case["where"] == "R+")
        ctx.require(planted_sign is None or bool(c) == planted_sign, lambda: "check_univariate says %s of %s, which is%s nonnegative" % (c, expr, "" if planted_sign else " not"), "check:decision")
    if planted_sign is False:
        ctx.require(raw is None, lambda: "%s proves %s, which is negative somewhere on %s: %s" % (what, expr, (a, b), raw), what + ":false")
        return
    if raw is None:
        # a certificate must be found well inside the cone (the numerical working precision is only so good)
        ctx.require(not (case["margin"] and planted_sign and len(P) <= 9 and case["n"] >= 15 and case["early"] == -1), lambda: "%s does not prove %s on %s" % (what, expr, (a, b)), what + ":none")
        ctx.label("no answer")
        return
    ctx.label("proved")
    if case["where"] == "R":
        ctx.require(not raw[1][1], lambda: "%s: a part multiplied by x over the whole line: %s" % (what, raw), what + ":multipliers")
    total = certified(ctx, raw, expr, x, muls, what)
    out = prove(False)
    d = evalx.differs(sp.sympify(out), total, [x])
    ctx.require(d is None, lambda: "%s: the expression %s differs from the raw certificate %s (%s)" % (what, out, raw, d), what + ":expression")


@st.composite
def _surd(draw):
    z = st.tuples(st.integers(-4, 4), st.integers(-2, 2)).map(list)
    return {"k": draw(st.sampled_from([2, 3, 5])), "squares": draw(st.lists(st.tuples(st.integers(1, 4), st.lists(z, min_size=1, max_size=3), st.booleans()).map(list), min_size=1, max_size=3)),
            "pow": draw(st.integers(0, 2)), "margin": draw(st.sampled_from([0, 1, 3])), "R": draw(st.booleans()), "dom": draw(st.sampled_from(["extension", "EX"]))}


@CHECK.sub("surds", _surd, quick=120, thorough=2500, shards=4, case_timeout=40, rule="polynomials over a real quadratic field")
def surds(case, ctx):
    x = sp.Symbol("x")
    k = sp.sqrt(case["k"])
    f = sp.Integer(0)
    for c, s, odd in case["squares"]:
        q = sp.Add(*[(u + v * k) * x**i for i, (u, v) in enumerate(s)])
        f += c * (x if odd and not case["R"] else 1) * q**2
    f = sp.expand(f)
    if f == 0:
        return
    d = sp.degree(f, x) if f.has(x) else 0
    if case["margin"]:
        f = sp.expand(f + case["margin"] * sp.Add(*[x**i for i in range(d + 1) if not case["R"] or i % 2 == 0]))
    if not case["R"]:
        f = sp.expand(f * x**case["pow"])
    if not f.has(x) or not f.has(k):
        return
    ctx.nontrivial(d >= 3)
    poly = sp.Poly(f, x, extension=True) if case["dom"] == "extension" else sp.Poly(f, x, domain="EX")
    if case["R"]:
        raw = UV.prove_univariate_interval(poly, (-sp.oo, sp.oo), return_raw=True)
    else:
        raw = UV.prove_univariate(poly, return_raw=True)
    ctx.label("R" if case["R"] else "R+", "degree %d" % d)
    if raw is None:
        ctx.label("no answer")
        return
    ctx.label("proved")
    certified(ctx, raw, f, x, [sp.Integer(1), x], "surds")
