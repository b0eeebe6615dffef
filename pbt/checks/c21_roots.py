"""C21: root objects compute exactly with the point they denote."""
from fractions import Fraction as F
import itertools

import mpmath
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import evalx, gen, lin
from ..core import Check
from .c18_zeros import _fmul, _red

CHECK = Check("C21", rule="points with coordinates in Q, quadratic, cubic, quartic and composite fields (interior, boundary, symmetric, corner, central), every "
              "class that can hold them, and random sequences of queries on one object. Oracle: own arithmetic in Q[t]/(m), rational coordinates for "
              "spans and 60-digit values for expressions. Non-trivial: a coordinate is irrational or the query has degree at least two.")

DIGITS = 60
x_ = sp.Symbol("x")

# name -> (minimal polynomial low to high, atoms as (coordinates in powers of t, SymPy value))
FIELDS = {
    "q": ([0, 1], [([1], sp.Integer(1))]),
    "r2": ([-2, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.sqrt(2))]),
    "r3": ([-3, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.sqrt(3))]),
    "gold": ([-1, -1, 1], [([1], sp.Integer(1)), ([0, 1], (1 + sp.sqrt(5)) / 2)]),
    "c2": ([-2, 0, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.cbrt(2)), ([0, 0, 1], sp.cbrt(4))]),
    "cub": ([1, -3, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.CRootOf(x_**3 - 3 * x_ + 1, 2))]),
    "r23": ([1, 0, -10, 0, 1], [([1], sp.Integer(1)), ([0, F(-9, 2), 0, F(1, 2)], sp.sqrt(2)), ([0, F(11, 2), 0, F(-1, 2)], sp.sqrt(3))]),
    "nest": ([2, 0, -4, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.sqrt(2 + sp.sqrt(2))), ([-2, 0, 1], sp.sqrt(2))]),
    "i": ([1, 0, 1], [([1], sp.Integer(1)), ([0, 1], sp.I)]),
}


class Point:
    def __init__(self, case):
        self.field = case["f"]
        self.m, atoms = FIELDS[case["f"]]
        k = max(len(self.m) - 1, 1)
        self.el, self.sym = [], []
        for cs in case["v"]:
            e, s = [F(0)] * k, sp.Integer(0)
            for c, (co, val) in zip(cs, atoms):
                c = gen.R(c)
                for i, y in enumerate(_red([F(z) for z in co], self.m) if k > 1 else [F(co[0])]):
                    e[i] += F(int(c.p), int(c.q)) * y
                s += c * val
            self.el.append(e)
            self.sym.append(s)
        self.k = k
        with mpmath.workdps(DIGITS + 20):
            self.t = self._gen()
        self.rational = all(not any(e[1:]) for e in self.el)

    def _gen(self):
        f = self.field
        return {"q": lambda: mpmath.mpf(0), "r2": lambda: mpmath.sqrt(2), "r3": lambda: mpmath.sqrt(3), "gold": lambda: (1 + mpmath.sqrt(5)) / 2, "c2": lambda: mpmath.cbrt(2),
                "cub": lambda: 2 * mpmath.cos(2 * mpmath.pi / 9), "r23": lambda: mpmath.sqrt(2) + mpmath.sqrt(3), "nest": lambda: mpmath.sqrt(2 + mpmath.sqrt(2)), "i": lambda: mpmath.mpc(0, 1)}[f]()

    def num(self, e):
        r = mpmath.mpf(0)
        for c in reversed(e):
            r = r * self.t + mpmath.mpf(c.numerator) / c.denominator
        return r

    def one(self):
        return [F(1)] + [F(0)] * (self.k - 1)

    def mul(self, a, b):
        return [a[0] * b[0]] if self.k == 1 else _fmul(a, b, self.m)

    def pow(self, a, n):
        r = self.one()
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def mono(self, m, diff=None):
        """derivative of a monomial at the point"""
        r = self.one()
        for i, k in enumerate(m):
            d = diff[i] if diff else 0
            if k < d:
                return [F(0)] * self.k
            for j in range(d):
                r = [(k - j) * y for y in r]
            r = self.mul(r, self.pow(self.el[i], k - d))
        return r

    def add(self, a, b):
        return [p + q for p, q in zip(a, b)]

    def poly(self, terms):
        r = [F(0)] * self.k
        for c, e in terms:
            c = gen.R(c)
            r = self.add(r, [F(int(c.p), int(c.q)) * y for y in self.mono(e)])
        return r

    def total(self):
        r = [F(0)] * self.k
        for e in self.el:
            r = self.add(r, e)
        return r


def agree(ctx, got, want, what, cls="value"):
    """A SymPy number is exact and has the given 60-digit value."""
    got = sp.sympify(got)
    ctx.require(not got.has(sp.Float) and not got.has(sp.nan, sp.zoo, sp.oo), lambda: "%s is given as %s" % (what, got), cls)
    ctx.require(not got.free_symbols, lambda: "%s is given as %s" % (what, got), cls)
    try:
        v = got.evalf(DIGITS, maxn=400)
        re, im = v.as_real_imag()
        v = mpmath.mpc(mpmath.mpf(sp.Float(re, DIGITS)._mpf_), mpmath.mpf(sp.Float(im, DIGITS)._mpf_))
    except (ZeroDivisionError, TypeError, ValueError) as e:
        ctx.fail("%s is given as %s, which has no value (%s)" % (what, got, e), cls)
    ctx.require(abs(v - want) <= mpmath.mpf(10)**(-DIGITS + 22) * (1 + abs(want)), lambda: "%s is given as %s = %s instead of %s" % (
        what, got, mpmath.nstr(v, 20), mpmath.nstr(want, 20)), cls)


# ---------------------------------------------------------------- strategies
def _coord(f):
    na = len(FIELDS[f][1])
    return st.lists(st.one_of(st.integers(-2, 3), st.integers(0, 2), gen.rats(4, 3)), min_size=na, max_size=na)


@st.composite
def point(draw, ns=(2, 3, 3, 3, 4), fields=("q", "q", "r2", "r3", "gold", "c2", "cub", "r23", "nest")):
    n = draw(st.sampled_from(list(ns)))
    f = draw(st.sampled_from(list(fields)))
    v = [draw(_coord(f)) for _ in range(n)]
    shape = draw(st.sampled_from(["", "", "", "border", "symmetric", "corner", "centre", "one"]))
    zero = [0] * len(v[0])
    i = draw(st.integers(0, n - 1))
    if shape == "border":
        v[i] = zero
    elif shape == "symmetric":
        v[i] = v[(i + 1) % n]
    elif shape == "corner":
        v = [v[i] if j == i else zero for j in range(n)]
    elif shape == "centre":
        v = [v[i]] * n
    elif shape == "one":
        v[i] = [1] + zero[1:]
    return {"f": f, "v": v}


def build(case, ctx, cls):
    from triples.utils.roots.roots import Root, RootAlgebraic, RootRational, RootTernary
    p = Point(case)
    if cls in ("Root", "RootTernary") and case["f"] not in ("q", "r2", "r3", "gold", "i"):
        # expressions in nested radicals are not simplified by these classes and explode
        cls = "RootAlgebraic"
    c = {"Root": Root, "RootAlgebraic": RootAlgebraic, "RootRational": RootRational, "RootTernary": RootTernary}[cls]
    if cls == "RootRational" and not p.rational:
        c, cls = RootAlgebraic, "RootAlgebraic"
    if cls == "RootTernary" and len(p.el) != 3:
        c, cls = Root, "Root"
    vals = p.sym
    if p.rational and len(p.sym) % 2 and all(s.is_Integer for s in p.sym):
        vals = [int(s) for s in p.sym]
    return p, c(tuple(vals)), cls


CLASSES = ["Root", "RootAlgebraic", "RootAlgebraic", "RootTernary", "RootRational"]


def _query(n):
    diff = st.one_of(st.none(), st.none(), st.lists(st.integers(0, 2), min_size=n, max_size=n))
    opt = st.sampled_from(["", "", "", "nonhom", "cyc", "sym", "group"])
    return st.one_of(
        st.tuples(st.just("eval"), gen.poly(n, 4, 4, min_terms=1), st.booleans()),
        st.tuples(st.just("vec"), st.integers(0, 4), diff, opt, st.booleans()),
        st.tuples(st.just("span"), st.integers(0, 4), diff, opt),
        st.tuples(st.just("subs"), gen.poly(n, 3, 3, min_terms=1), gen.poly(n, 2, 2), st.sampled_from(["expr", "poly", "matrix", "quotient"])),
        st.tuples(st.just("cyc"), st.lists(st.integers(0, 5), min_size=3, max_size=3)),
        st.tuples(st.just("cyc"), st.lists(st.integers(0, 2), min_size=3, max_size=3)),
        st.tuples(st.just("uv")), st.tuples(st.just("ker")), st.tuples(st.just("poly")), st.tuples(st.just("shape")), st.tuples(st.just("std"), st.booleans())).map(list)


def _case():
    return point().flatmap(lambda p: st.fixed_dictionaries({"p": st.just(p), "cls": st.sampled_from(CLASSES), "q": st.lists(_query(len(p["v"])), min_size=1, max_size=6)}))


def monomials(n, d, opt):
    """(options, list of monomials)"""
    from triples.utils.monomials import generate_monoms
    o = {}
    if opt == "nonhom":
        o = {"hom": False}
    elif opt == "cyc":
        o = {"cyc": True}
    elif opt == "sym":
        o = {"sym": True}
    elif opt == "group":
        o = {"symmetry": PermutationGroup(Permutation([1, 0] + list(range(2, n))))}
    return o, generate_monoms(n, d, **o)[1]


def ask(ctx, p, r, q, cls):
    """One query on one object, against the reference."""
    n = len(p.el)
    kind = q[0]
    name = "%s at %s" % (type(r).__name__, p.sym)
    syms = sp.symbols("a b c d")[:n]
    ctx.label(kind, type(r).__name__)
    if kind == "eval":
        poly = gen.to_poly(q[1], syms)
        if q[2]:
            # the documented rational shortcut: value at a nearby rational point
            got = r.eval(poly, rational=True)
            w = p.num(p.poly(q[1]))
            tol = 1e-9 * (1 + sum(abs(p.num([abs(y) for y in p.mono(e)])) * abs(gen.R(c)) for c, e in q[1]))
            ctx.require(sp.sympify(got).is_Rational and abs(mpmath.mpf(int(got.p)) / int(got.q) - w) <= tol, lambda: "%s: %s evaluates (rational) to %s" % (name, poly, got), "eval")
            ctx.require(not p.rational or abs(mpmath.mpf(int(got.p)) / int(got.q) - w) < mpmath.mpf(10)**-40 * (1 + abs(w)), lambda: "%s: %s evaluates to %s" % (name, poly, got), "eval")
            return
        agree(ctx, r.eval(poly), p.num(p.poly(q[1])), "%s: the value of %s" % (name, poly.as_expr()), "eval")
    elif kind == "vec":
        o, ms = monomials(n, q[1], q[3])
        got = r.as_vec(q[1], tuple(q[2]) if q[2] else None, numer=q[4], **o)
        ctx.require(len(got) == len(ms), lambda: "%s: %d entries for %d monomials" % (name, len(got), len(ms)), "vec")
        for m, g in zip(ms, list(got)):
            w = p.num(p.mono(m, q[2]))
            if q[4]:
                g = complex(g) if not hasattr(g, "__len__") else complex(g[0])
                ctx.require(abs(g - complex(w)) <= 1e-9 * (1 + abs(w)), lambda: "%s: d%s of %s is given as %s instead of %s" % (name, q[2], m, g, w), "vec")
            else:
                agree(ctx, g, w, "%s: d%s of the monomial %s" % (name, q[2], m), "vec")
    elif kind == "span":
        if not hasattr(r, "span"):
            return
        o, ms = monomials(n, q[1], q[3])
        M = r.span(q[1], tuple(q[2]) if q[2] else None, **o)
        ctx.require(M.shape[0] == len(ms), lambda: "%s: span of %d rows for %d monomials" % (name, M.shape[0], len(ms)), "span")
        want = [p.mono(m, q[2]) for m in ms]
        cols = [[F(int(M[i, j].p), int(M[i, j].q)) for i in range(M.shape[0])] for j in range(M.shape[1]) ] if all(x.is_Rational for x in M) else None
        ctx.require(cols is not None, lambda: "%s: the span %s is not rational" % (name, M), "span")
        ref = [[w[i] for w in want] for i in range(p.k)]
        ra, rb, rab = lin.rank(cols), lin.rank(ref), lin.rank(cols + ref)
        ctx.require(ra == rb == rab, lambda: "%s: the span (degree %d, derivative %s) has rank %d; the conjugates span a space of dimension %d; together %d" % (name, q[1], q[2], ra, rb, rab), "span")
    elif kind == "subs":
        e, d = gen.to_expr(q[1], syms), gen.to_expr(q[2], syms)
        if q[3] == "poly":
            got = [r.subs(sp.Poly(e, *syms), list(syms))]
            want = [p.num(p.poly(q[1]))]
        elif q[3] == "expr":
            got, want = [r.subs(e, list(syms))], [p.num(p.poly(q[1]))]
        elif q[3] == "matrix":
            M = r.subs(sp.Matrix([[e, d], [d, e + 1]]), list(syms))
            ctx.require(M.shape == (2, 2), lambda: "%s: subs gives a matrix of shape %s" % (name, M.shape), "subs")
            u, v = p.num(p.poly(q[1])), p.num(p.poly(q[2]))
            got, want = list(M), [u, v, v, u + 1]
        else:
            den = p.poly(q[2])
            if not any(den):
                return
            got, want = [r.subs(e / d, list(syms))], [p.num(p.poly(q[1])) / p.num(den)]
        for g, w in zip(got, want):
            agree(ctx, g.as_expr() if isinstance(g, sp.Poly) else g, w, "%s: the value of %s" % (name, [e, d, q[3]]), "subs")
    elif kind == "shape":
        z = [not any(e) for e in p.el]
        eq = len({tuple(e) for e in p.el})
        for attr, w in (("nvars", n), ("is_corner", sum(z) > 1), ("is_border", any(z)), ("is_symmetric", eq < n), ("is_centered", eq == 1), ("is_nontrivial", not any(z) and eq == n)):
            g = getattr(r, attr)
            ctx.require(g == w, lambda: "%s: %s is %s" % (name, attr, g), "shape")
        ctx.require(len(r) == n and all(r[i] == p.sym[i] for i in range(n)), lambda: "%s: entries %s" % (name, [r[i] for i in range(n)]), "shape")
    elif n != 3 or not hasattr(r, "cyclic_sum"):
        return
    elif kind == "cyc":
        tot = p.total()
        if not any(tot):
            return
        # expressions in radicals are not simplified by RootTernary, high powers explode
        m = tuple(q[1]) if hasattr(r, "K") or p.rational else tuple(min(k, 3) for k in q[1])
        w = mpmath.mpf(0)
        for i in range(3):
            w += p.num(p.mono((m[i], m[(i + 1) % 3], m[(i + 2) % 3])))
        w = w / p.num(tot)**sum(m)
        agree(ctx, r.cyclic_sum(m), w, "%s: the cyclic sum of %s with sum 1" % (name, m), "cyclic sum")
    elif kind in ("uv", "ker"):
        if r.is_corner or r.is_centered:
            return
        u, v = [sp.sympify(t) for t in r.uv()]
        a, b, c = [p.num(e) for e in p.el]
        un, vn = [mpmath.mpmathify(sp.N(t, DIGITS)) for t in (u, v)]
        if kind == "ker":
            agree(ctx, r.ker(), un**2 - un * vn + vn**2 + un + vn + 1, "%s: the kernel of (u, v) = %s" % (name, (u, v)), "uv")
        for t in (u, v):
            ctx.require(not t.has(sp.Float, sp.nan, sp.zoo), lambda: "%s: (u, v) = %s" % (name, (u, v)), "uv")
        for k in range(3):
            g = a**2 - b**2 + un * (a * b - a * c) + vn * (b * c - a * b)
            ctx.require(abs(g) <= mpmath.mpf(10)**(-DIGITS + 25) * (1 + abs(un) + abs(vn)) * (1 + abs(a) + abs(b) + abs(c))**2, lambda: "%s: (u, v) = %s" % (name, (u, v)), "uv")
            a, b, c = b, c, a
    elif kind == "poly":
        tot = p.total()
        if not any(tot) or not any(p.num(e) for e in p.el):
            return
        f = r.poly(x_)
        ctx.require(isinstance(f, sp.Poly) and f.gens == (x_,), lambda: "%s: generating polynomial %s" % (name, f), "poly")
        cs = [p.num(tot)**i for i in range(4)]
        e = [p.num(y) for y in p.el]
        for g, w in zip([f.coeff_monomial(x_**k) for k in (3, 2, 1, 0)], [mpmath.mpf(1), mpmath.mpf(-1), (e[0] * e[1] + e[1] * e[2] + e[2] * e[0]) / cs[2], -e[0] * e[1] * e[2] / cs[3]]):
            agree(ctx, g, w, "%s: coefficient of %s" % (name, f), "poly")
    elif kind == "std":
        tot = p.total()
        if not any(tot):
            return
        s = r.standardize(cyc=q[1])
        t = p.num(tot) / 3
        want = [p.num(e) / t for e in p.el]
        got = [mpmath.mpmathify(sp.N(y, DIGITS)) for y in s.root]
        tol = mpmath.mpf(10)**(-DIGITS + 25) * (1 + max(map(abs, want)))
        rots = [want[i:] + want[:i] for i in range(3)] if q[1] else [want]
        fit = [w for w in rots if max(abs(x - y) for x, y in zip(w, got)) <= tol]
        ctx.require(fit, lambda: "%s: standardized (cyc=%s) to %s" % (name, q[1], s), "standardize")
        if q[1] and p.field != "i":
            top = max(want)
            ctx.require(abs(got[0] - top) <= tol, lambda: "%s: standardized to %s, the first is not the largest" % (name, s), "standardize")
            if sum(abs(w - top) <= tol for w in want) == 2:
                ctx.require(abs(got[1] - top) <= tol, lambda: "%s: standardized to %s, the second is not the largest" % (name, s), "standardize")


@CHECK.sub("queries", _case, quick=720, thorough=30000, shards=8, case_timeout=60,
           rule="a sequence of queries in random order on one object of a random class; every answer equals the value at the point, whatever was asked before")
def queries(case, ctx):
    with mpmath.workdps(DIGITS):
        p, r, cls = build(case["p"], ctx, case["cls"])
        ctx.label("field:" + case["p"]["f"], "n:%d" % len(p.el))
        if not p.rational or any(q[0] in ("vec", "span", "cyc") and (q[1] if isinstance(q[1], int) else sum(q[1])) > 1 for q in case["q"]):
            ctx.nontrivial()
        for q in case["q"]:
            ask(ctx, p, r, q, cls)
        # in the end the object is still the same point
        ask(ctx, p, r, ["shape"], cls)


# ---------------------------------------------------------------- complex points: no order, only arithmetic
def _complex_case():
    return point(ns=(2, 3, 4), fields=("i",)).flatmap(lambda p: st.fixed_dictionaries({
        "p": st.just(p), "cls": st.sampled_from(["RootAlgebraic"]), "q": st.lists(_query(len(p["v"])).filter(lambda q: q[0] in ("eval", "span", "subs", "shape", "cyc") or q[0] == "vec" and not q[4]), min_size=1, max_size=4)}))


@CHECK.sub("complex", _complex_case, quick=160, thorough=6000, shards=4, case_timeout=60, hang=True,
           rule="the same for points with coordinates in Q(i)")
def complex_points(case, ctx):
    for q in case["q"]:
        if q[0] == "eval":
            q[2] = False
    queries.run(case, ctx) if hasattr(queries, "run") else queries(case, ctx)


# ---------------------------------------------------------------- standardize in place, then query
def _inplace_case():
    return point(ns=(3,)).flatmap(lambda p: st.fixed_dictionaries({"p": st.just(p), "cls": st.sampled_from(CLASSES), "cyc": st.booleans(),
                                                                   "before": st.lists(_query(3), max_size=2), "q": st.lists(_query(3), min_size=1, max_size=4)}))


def _scaled(p, got):
    """the standardized point as a Point: divided by a third of the sum and rotated like the given values"""
    q = Point.__new__(Point)
    q.__dict__.update(p.__dict__)
    tot = p.total()
    # inverse of tot/3 by solving the multiplication matrix
    k = p.k
    A = [[F(0)] * k for _ in range(k)]
    for j in range(k):
        e = [F(0)] * k
        e[j] = F(1)
        col = p.mul(tot, e)
        for i in range(k):
            A[i][j] = col[i] / 3
    R = lin.rref([row + [F(int(i == 0))] for i, row in enumerate(A)])[0]
    inv = [row[-1] for row in R]
    el = [p.mul(e, inv) for e in p.el]
    for i in range(3):
        rot = el[i:] + el[:i]
        if all(abs(p.num(e) - g) <= mpmath.mpf(10)**(-DIGITS + 25) * (1 + abs(g)) for e, g in zip(rot, got)):
            q.el = rot
            q.sym = [sp.Add(*[sp.Rational(c.numerator, c.denominator) * sp.Symbol("t")**j for j, c in enumerate(e)]) for e in rot]
            q.rational = all(not any(e[1:]) for e in rot)
            return q
    return None


@CHECK.sub("inplace", _inplace_case, quick=320, thorough=12000, shards=4, case_timeout=60,
           rule="queries before and after standardizing an object in place: afterwards every answer is for the standardized point")
def inplace(case, ctx):
    with mpmath.workdps(DIGITS):
        p, r, cls = build(case["p"], ctx, case["cls"])
        if not any(p.total()):
            ctx.skip("sum zero")
        for q in case["before"]:
            ask(ctx, p, r, q, cls)
        s = r.standardize(cyc=case["cyc"], inplace=True)
        ctx.require(s is r, "standardize(inplace=True) returned another object", "inplace")
        got = [mpmath.mpmathify(sp.N(y, DIGITS)) for y in r.root]
        p2 = _scaled(p, got)
        ctx.require(p2 is not None, lambda: "%s standardized in place to %s" % (p.sym, r), "inplace")
        ctx.nontrivial()
        ctx.label("rotated" if case["cyc"] else "scaled", "field:" + p.field)
        for q in case["q"]:
            if q[0] == "shape" or q[0] == "std":
                continue
            ask(ctx, p2, r, q, cls)


# ---------------------------------------------------------------- identity of objects
def _eq_case():
    return st.tuples(point(ns=(2, 3, 3, 4)), point(ns=(2, 3, 3, 4)), st.sampled_from(CLASSES), st.sampled_from(CLASSES), st.sampled_from(["same", "same", "rescaled", "rotated", "other"])).map(list)


@CHECK.sub("equality", _eq_case, quick=240, thorough=6000, shards=2,
           rule="objects of any class are equal exactly when they were given the same coordinates; equal objects hash alike")
def equality(case, ctx):
    pa, pb, ca, cb, how = case
    p, r, _ = build(pa, ctx, ca)
    if how == "same":
        pb = pa
    elif how == "rotated":
        pb = dict(pa, v=pa["v"][1:] + pa["v"][:1])
    elif how == "rescaled":
        pb = dict(pa, v=[[[2 * int(gen.R(x).p), int(gen.R(x).q)] for x in v] for v in pa["v"]])
    q, s, _ = build(pb, ctx, cb)
    same = p.sym == q.sym
    ctx.label("same" if same else "different", how)
    ctx.nontrivial()
    ctx.require((r == s) == same and (r != s) == (not same), lambda: "%r == %r is %s" % (r, s, r == s), "equality")
    if same:
        ctx.require(hash(r) == hash(s) and len({r, s}) == 1, lambda: "hash of %r and %r" % (r, s), "equality")
    ctx.require(not (r == tuple(p.sym)), "equal to a tuple", "equality")


# ---------------------------------------------------------------- reconstruction from invariants
def _uv_case():
    return st.tuples(st.one_of(st.integers(-4, 6), gen.rats(9, 5)), st.one_of(st.integers(-4, 6), gen.rats(9, 5)), st.booleans(), st.lists(st.lists(st.integers(0, 4), min_size=3, max_size=3), max_size=2)).map(list)


@CHECK.sub("reconstruct", _uv_case, quick=160, thorough=6000, shards=8, case_timeout=60, hang=True,
           rule="a root rebuilt from its two cyclic invariants has these invariants, solves the three defining equations and has the right cyclic sums")
def reconstruct(case, ctx):
    from triples.utils.roots.roots import RootTernary
    u, v = gen.R(case[0]), gen.R(case[1])
    if u * v == 1 and u == v:
        ctx.label("double")
    # (2, 2) is the centre, where every (u, v) is possible
    if (u, v) == (2, 2) or u**2 - u * v + v**2 + u + v + 1 == 0:
        ctx.skip("degenerate")
    r = RootTernary.from_uv(u if case[2] else sp.Rational(u), v)
    ctx.label(type(r).__name__, "border" if u * v == 1 else "interior")
    with mpmath.workdps(DIGITS):
        w = [mpmath.mpmathify(sp.N(y, DIGITS)) for y in r.root]
        if all(abs(x - w[0]) < 1e-20 for x in w) or sum(abs(x) < 1e-20 for x in w) > 1:
            ctx.skip("degenerate")
        ctx.nontrivial()
        U, V = mpmath.mpf(int(u.p)) / int(u.q), mpmath.mpf(int(v.p)) / int(v.q)
        a, b, c = w
        for _ in range(3):
            g = a**2 - b**2 + U * (a * b - a * c) + V * (b * c - a * b)
            ctx.require(abs(g) <= mpmath.mpf(10)**(-DIGITS + 25), lambda: "(u, v) = %s gives %s, where a^2-b^2+u(ab-ac)+v(bc-ab) is %s" % ((u, v), r, g), "reconstruct")
            a, b, c = b, c, a
        gu, gv = r.uv()
        agree(ctx, gu, U, "u of the root rebuilt from %s" % ((u, v),), "reconstruct")
        agree(ctx, gv, V, "v of the root rebuilt from %s" % ((u, v),), "reconstruct")
        t = w[0] + w[1] + w[2]
        for m in case[3]:
            want = sum(w[0]**m[i] * w[1]**m[(i + 1) % 3] * w[2]**m[(i + 2) % 3] for i in range(3)) / t**sum(m)
            agree(ctx, r.cyclic_sum(tuple(m)), want, "cyclic sum %s of the root rebuilt from %s" % (m, (u, v)), "reconstruct")


# ---------------------------------------------------------------- approximation of numerical roots
def _approx_case():
    num = st.one_of(st.integers(0, 8), gen.rats(20, 9).map(lambda r: [abs(r[0]), r[1]]))
    return st.fixed_dictionaries({"v": st.lists(num, min_size=3, max_size=3), "noise": st.lists(st.integers(-100, 100), min_size=3, max_size=3), "level": st.sampled_from([0, 0, -9, -7, -5, -4]),
                                  "irr": st.sampled_from([0, 0, 1, 2]), "cls": st.sampled_from(["Root", "RootTernary"]), "float": st.booleans(), "scale": st.sampled_from([1, 3, 100, [1, 50]])})


@CHECK.sub("approximate", _approx_case, quick=400, thorough=20000, shards=2,
           rule="numerical, rational and radical roots are approximated: up to scaling the point moves by at most the tolerances")
def approximate(case, ctx):
    from triples.utils.roots.roots import Root, RootTernary
    v = [gen.R(x) for x in case["v"]]
    if case["irr"]:
        v[0] = v[0] * sp.sqrt(case["irr"] + 1)
    if not sum(v) > 0:
        ctx.skip("zero")
    if case["level"]:
        v = [x + sp.Rational(k, 100) * sp.Rational(10)**case["level"] for x, k in zip(v, case["noise"])]
    v = [x * gen.R(case["scale"]) for x in v]
    if case["float"] or case["level"]:
        v = [sp.N(x, 15) if x != 0 else sp.Float(0) for x in v]
    r = (Root if case["cls"] == "Root" else RootTernary)(tuple(v))
    got = r.approximate()
    ctx.nontrivial()
    ctx.label("level:%d" % case["level"], "float" if case["float"] else "exact", type(got).__name__)
    a = [float(sp.N(x)) for x in v]
    b = [float(sp.N(x)) for x in got.root]
    a, b = [x / sum(a) * 3 for x in a], [x / sum(b) * 3 for x in b]
    ctx.require(max(abs(x - y) for x, y in zip(a, b)) <= 4e-3, lambda: "%s is approximated by %s: %s against %s" % (r, got, a, b), "approximate")
    # an exact rational point that is not close to a special one stays exactly the same
    if not case["level"] and not case["irr"]:
        w = [gen.R(x) for x in case["v"]]
        s = sum(w) / 3
        w = [x / s for x in w]
        gaps = [abs(w[i] - w[j]) for i in range(3) for j in range(i)] + [abs(x) for x in w]
        if all(g == 0 or g > sp.Rational(1, 100) for g in gaps) and all(x.q <= 20 for x in w):
            t = sum(sp.nsimplify(x, rational=True) if isinstance(x, sp.Float) else x for x in got.root) / 3
            e = max(abs(sp.N(x / t - y, 20)) for x, y in zip(got.root, w))
            ctx.require(e <= 1e-5, lambda: "%s is approximated by %s" % (r, got), "approximate")
