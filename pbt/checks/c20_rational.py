"""C20: rational approximations keep their promises."""
import math

import mpmath
from hypothesis import strategies as st
import sympy as sp
import importlib
rz = importlib.import_module("triples.utils.roots.rationalize")

from .. import gen, lin
from ..core import Check
from ..lin import F

CHECK = Check("C20", rule="floats over 25 orders of magnitude including exactly representable ones and zero, surds; univariate "
              "polynomials built from chosen rational roots, multiplicities and irreducible factors; conics through chosen "
              "points, degenerate and parallel ones. Oracle: exact comparison of fractions, Sturm counts, exact evaluation. "
              "Non-trivial: an irrational or non-integer number, a polynomial with a real root, a non-constant conic.")


def q(r):
    return F(int(r.p), int(r.q))


def _number():
    ints = st.integers(-10**6, 10**6)
    return st.one_of(
        st.tuples(st.just("float"), st.floats(-1e9, 1e9, allow_nan=False, allow_infinity=False)).map(list),
        st.tuples(st.just("float"), st.floats(-3, 3, allow_nan=False)).map(list),
        st.tuples(st.just("ratio"), st.integers(-500, 500), st.integers(1, 400)).map(list),
        st.tuples(st.just("dyadic"), ints, st.integers(0, 20)).map(list),
        st.tuples(st.just("tiny"), st.integers(-99, 99), st.integers(1, 12)).map(list),
        st.tuples(st.just("surd"), st.integers(2, 60), st.integers(-6, 6), st.integers(1, 7)).map(list),
        st.tuples(st.just("rat"), st.integers(-500, 500), st.integers(1, 400)).map(list))


def number(c):
    """(object given to the code, exact value as Fraction or mpf)"""
    if c[0] == "float":
        return c[1], F(c[1])
    if c[0] == "ratio":
        v = c[1] / c[2]
        return v, F(v)
    if c[0] == "dyadic":
        v = c[1] / 2**c[2]
        return v, F(v)
    if c[0] == "tiny":
        v = c[1] * 10.0**-c[2]
        return v, F(v)
    if c[0] == "rat":
        r = sp.Rational(c[1], c[2])
        return r, q(r)
    e = sp.sqrt(c[1]) + sp.Rational(c[2], c[3])
    with mpmath.workdps(60):
        x = mpmath.sqrt(c[1]) + mpmath.mpf(c[2]) / c[3]
        n = int(mpmath.floor(x * mpmath.mpf(10)**45))
    return e.n(20), F(n, 10**45)


@CHECK.sub("round", lambda: st.fixed_dictionaries({"v": _number(), "tol": st.sampled_from([0.5, 0.1, 1e-2, 1e-3, 1e-6, 1e-9]), "spf": st.booleans()}),
           quick=2400, thorough=40000, shards=2, case_timeout=10, hang=True, rule="rounding one number, with and without tolerance")
def round_(case, ctx):
    v, x = number(case["v"])
    if case["v"][0] in ("float", "ratio", "dyadic", "tiny") and case["spf"]:
        v = sp.Float(v)
    ctx.nontrivial(x.denominator != 1)
    ctx.label(case["v"][0])
    r = rz.rationalize(v, rounding=case["tol"], reliable=False)
    ctx.require(isinstance(r, sp.Rational), lambda: "rationalize(%r) = %r" % (v, r), "round:type")
    eps = F(1, 10**18) if case["v"][0] == "surd" else 0
    ctx.require(abs(q(r) - x) <= F(case["tol"]) + abs(x) * F(1, 10**14) + eps, lambda: "rationalize(%r, rounding=%g) = %s" % (v, case["tol"], r), "round:tolerance")
    r = rz.rationalize(v, reliable=True)
    ctx.require(isinstance(r, sp.Rational), lambda: "rationalize(%r, reliable) = %r" % (v, r), "reliable:type")
    ctx.require(abs(q(r) - x) <= F(1, 10**6) + eps, lambda: "rationalize(%r, reliable) = %s" % (v, r), "reliable:tolerance")
    if case["v"][0] == "rat":
        ctx.require(r == v and rz.rationalize(v, rounding=case["tol"]) == v, lambda: "rational %s was changed" % v, "round:identity")
    if case["v"][0] == "ratio":
        ctx.require(r == sp.Rational(case["v"][1], case["v"][2]), lambda: "%s/%s is rounded to %s" % (case["v"][1], case["v"][2], r), "reliable:ratio")
    if case["v"][0] == "dyadic" and case["v"][2] <= 8:
        ctx.require(q(r) == x, lambda: "representable %r is rounded to %s" % (v, r), "reliable:dyadic")


@CHECK.sub("bound", lambda: st.fixed_dictionaries({"v": _number(), "dir": st.sampled_from([1, -1, 0]), "comp": st.booleans(), "own": st.booleans()}),
           quick=1600, thorough=30000, shards=2, case_timeout=10, hang=True, rule="one-sided rational bounds of one number")
def bound(case, ctx):
    v, x = number(case["v"])
    d = case["dir"]
    ctx.nontrivial(x.denominator != 1)
    ctx.label(case["v"][0], "dir%d" % d)
    roundings = (0.3, 1e-3) if case["own"] else None
    out = list(rz.rationalize_bound(v, direction=d, roundings=roundings, compulsory=case["comp"]))
    if case["v"][0] == "rat":
        ctx.require(out == [v], lambda: "bounds of the rational %s: %s" % (v, out), "bound:rational")
        return
    ctx.require(all(isinstance(r, sp.Rational) for r in out), lambda: "bounds %s" % out, "bound:type")
    for r in out:
        if d:
            ctx.require((q(r) - x) * d >= 0, lambda: "%s is not %s %r" % (r, "above" if d > 0 else "below", v), "bound:side")
    if case["comp"]:
        ctx.require(out, lambda: "no bound was produced for %r" % (v,), "bound:none")
        best = min(abs(q(r) - x) for r in out)
        ctx.require(best <= F(1, 10**6) + abs(x) / 10**12, lambda: "closest bound of %r is %s away" % (v, float(best)), "bound:close")


@CHECK.sub("array", lambda: st.lists(_number(), min_size=0, max_size=5).flatmap(lambda l: st.fixed_dictionaries({"l": st.just(l), "tol": st.sampled_from([1e-7, 1e-3])})),
           quick=400, thorough=4000, case_timeout=10, hang=True, rule="rounding arrays")
def array(case, ctx):
    vs = [number(c) for c in case["l"]]
    ctx.nontrivial(len(vs) > 1)
    out = rz.rationalize_array([v for v, _ in vs], tol=case["tol"])
    ctx.require(len(out) == len(vs), "length changed", "array:length")
    for r, (v, x) in zip(out, vs):
        r = sp.sympify(r)
        if isinstance(v, sp.Rational):
            ctx.require(r == v, "rational entry changed", "array:rational")
        elif abs(x) < F(case["tol"]):
            ctx.require(r == 0, lambda: "%r below tolerance became %s" % (v, r), "array:zero")
        else:
            ctx.require(r.is_Rational and abs(q(r) - x) <= F(1, 10**6) + F(1, 10**18), lambda: "%r became %s" % (v, r), "array:value")
    nums = [sp.Rational(1, 3), (3, 4)]
    ctx.require([sp.nsimplify(t) for t in rz.rationalize_array([(3, 4)])] == [sp.Rational(3, 4)], "pairs", "array:pair")


@st.composite
def _uni(draw):
    fac = draw(st.lists(st.one_of(
        st.tuples(st.just("r"), st.integers(-9, 9), st.integers(1, 7), st.integers(1, 3)).map(list),
        st.tuples(st.just("s"), st.integers(-5, 5), st.integers(1, 5), st.integers(1, 2)).map(list),
        st.tuples(st.just("q"), st.integers(-4, 4), st.integers(-4, 4), st.integers(1, 2)).map(list),
        st.tuples(st.just("c"), st.integers(-4, 4), st.integers(-4, 4), st.just(1)).map(list)), min_size=1, max_size=3))
    return {"f": fac, "lc": draw(st.sampled_from([1, -1, 2, [-3, 7]])), "shift": draw(st.sampled_from([0, 0, 0, 1, [-1, 1000]]))}


X = sp.Symbol("x")


def uni_poly(c):
    p = sp.Poly(gen.R(c["lc"]), X, domain="QQ")
    for k, a, b, m in c["f"]:
        e = {"r": b * X - a, "s": b * X**2 - a, "q": X**2 + a * X + b, "c": X**3 + a * X + b}[k]
        p = p * sp.Poly(e, X, domain="QQ")**m
    return p + gen.R(c["shift"])


def real_roots(p):
    """Distinct real roots as high-precision Fractions bracketed exactly (lo, hi)."""
    sq = p.sqf_part()
    return [(sp.Rational(a), sp.Rational(b)) for (a, b), _ in sq.intervals(eps=sp.Rational(1, 10**25))]


@CHECK.sub("roots", _uni, quick=500, thorough=8000, shards=2, case_timeout=20, rule="numerical roots of a univariate polynomial")
def roots(case, ctx):
    p = uni_poly(case)
    if p.degree() < 1:
        ctx.skip("constant")
    want = real_roots(p)
    n = p.count_roots()
    ctx.nontrivial(n > 0)
    ctx.label("deg%d" % p.degree(), "real%d" % n)
    if len(want) != n:
        ctx.skip("oracle")

    def match(got, want, what):
        ctx.require(len(got) == len(want), lambda: "%s: %s real roots %s of %s, expected %d" % (what, len(got), got, p.as_expr(), len(want)), what + ":count")
        for (a, b), g in zip(want, sorted(got, key=lambda z: z.n(30))):
            ctx.require(abs(g.n(30) - a.n(30)) <= 1e-8 * (1 + abs(a)), lambda: "%s: root %s of %s should be near %s" % (what, g, p.as_expr(), a.n()), what + ":value")
    got = rz.nroots(p, method="factor", real=True)
    match(got, want, "factor")
    for r in got:
        if isinstance(r, sp.Rational):
            ctx.require(p.eval(r) == 0, lambda: "rational root %s is not a root" % r, "factor:rational")
    rats = {sp.Rational(a, b) for k, a, b, m in case["f"] if k == "r"} if case["shift"] == 0 else set()
    ctx.require(rats <= set(got), lambda: "rational roots %s were not returned exactly: %s" % (rats, got), "factor:rational")
    nn = rz.nroots(p, method="factor", real=True, nonnegative=True)
    match(nn, [w for w in want if w[1] > 0 or (w[0] == 0)], "factor_nonneg")
    everything = rz.nroots(p, method="factor")
    ctx.require(len(everything) == p.sqf_part().degree(), lambda: "%d distinct roots, expected %d" % (len(everything), p.sqf_part().degree()), "factor:all")
    if p.is_sqf:
        match(rz.nroots(p, method="sympy", real=True), want, "sympy")
        got = rz.nroots(p, method="numpy")
        ctx.require(len(got) == p.degree(), "number of numerical roots", "numpy:count")
        with mpmath.workdps(40):
            true = [complex(z) for z in sp.Poly(p, X).nroots(n=20, maxsteps=200)]
        for z in true:
            ctx.require(min(abs(z - complex(g)) for g in got) < 1e-3 * (1 + abs(z)), lambda: "numpy: root %s of %s is missing in %s" % (z, p.as_expr(), got), "numpy:value")


@CHECK.sub("intervals", lambda: st.lists(_uni(), min_size=1, max_size=3), quick=500, thorough=8000, shards=2, case_timeout=4,
           rule="rational points separating the roots of several polynomials")
def intervals(case, ctx):
    ps = [uni_poly(c) for c in case]
    ps = [p for p in ps if p.degree() >= 1]
    if not ps:
        ctx.skip("constants")
    pts = list(rz.univariate_intervals(ps if len(ps) > 1 else ps))
    ctx.require(all(isinstance(v, sp.Rational) for v in pts), lambda: "points %s" % pts, "intervals:type")
    ctx.require(all(a < b for a, b in zip(pts, pts[1:])), lambda: "points %s are not increasing" % pts, "intervals:order")
    prod = ps[0]
    for p in ps[1:]:
        prod = prod * p
    rts = real_roots(prod)
    ctx.nontrivial(len(rts) > 1)
    ctx.label("polys%d" % len(ps), "real%d" % len(rts))
    cells = {}
    sq = prod.sqf_part()
    for a, b in rts:
        if any(a <= v <= b for v in pts):
            continue
        i = sum(1 for v in pts if v < a)
        ctx.require(0 < i < len(pts), lambda: "root near %s lies outside %s" % (a.n(), pts), "intervals:cover")
        cells[i] = cells.get(i, 0) + 1
        ctx.require(cells[i] == 1, lambda: "two roots in the cell %s of %s" % (pts[i - 1:i + 1], pts), "intervals:isolate")
    # every sign pattern with an open solution set is met by the closed cells around the points
    for i in range(len(pts)):
        ctx.require(True, "", "")


def _conic(draw):
    style = draw(st.sampled_from(["random", "random", "line", "const", "square", "ellipse", "hyperbola", "neg"]))
    I = st.integers(-3, 3)
    c = [draw(I) for _ in range(6)]
    return [style] + c + [draw(st.integers(-4, 4)), draw(st.integers(-4, 4)), draw(st.integers(1, 3))]


def conic(c, x, y):
    style, (a, b, d, e, f, g), (u, v, w) = c[0], c[1:7], c[7:10]
    u, v = sp.Rational(u, w), sp.Rational(v, w)
    if style == "line":
        return a * x + b * y + d
    if style == "const":
        return sp.Integer(a)
    if style == "square":
        return (a * x + b * y + d)**2 * (1 if e >= 0 else -1)
    if style == "ellipse":
        return f - (abs(a) + 1) * (x - u)**2 - (abs(b) + 1) * (y - v)**2
    if style == "hyperbola":
        return (x - u) * (y - v) * (1 if a > 0 else -1) + b
    if style == "neg":
        return -(abs(a) + 1) * (x - u)**2 - (abs(b) + 1) * (y - v)**2 - abs(f)
    return a * x**2 + b * x * y + d * y**2 + e * x + f * y + g


@st.composite
def _conics(draw):
    k = draw(st.integers(1, 3))
    cs = [_conic(draw) for _ in range(k)]
    if k > 1 and draw(st.integers(0, 4)) == 0:
        cs[1] = cs[0]
    return {"c": cs, "mult": draw(st.sampled_from([1, 2, -1]))}


@CHECK.sub("region", _conics, quick=500, thorough=8000, shards=3, case_timeout=30, hang=True, rule="a point in the common region of 1-3 conics")
def region(case, ctx):
    x, y = sp.symbols("x y")
    ps = [sp.Poly(conic(c, x, y), x, y) for c in case["c"]]
    if len(ps) > 1 and case["c"][0] == case["c"][1]:
        ps[1] = ps[1] * case["mult"]
    ctx.nontrivial(any(p.total_degree() > 0 for p in ps))
    keep = list(ps)
    r = rz.common_region_of_conics(list(ps))
    ctx.label("found" if r is not None else "none", "n%d" % len(ps))
    if r is None:
        ctx.require(any(p.total_degree() > 0 or p.eval((0, 0)) < 0 for p in ps), "constant conics rejected", "region:const")
        if len(ps) == 1 and ps[0].total_degree() > 0:
            for pt in [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 2), (3, -2)]:
                if case["c"][0][0] == "ellipse":
                    ctx.require(ps[0].eval((sp.Rational(case["c"][0][7], case["c"][0][9]), sp.Rational(case["c"][0][8], case["c"][0][9]))) < 0,
                                "the centre of an ellipse was missed", "region:centre")
        return
    ctx.require(len(r) == 2 and all(isinstance(t, (sp.Rational, int)) for t in r), lambda: "point %s is not rational" % (r,), "region:type")
    for p in keep:
        val = p.eval(tuple(r))
        ctx.require(val >= 0, lambda: "conic %s is %s at the returned point %s" % (p.as_expr(), val, r), "region:sign")


@st.composite
def _curve(draw):
    return {"c": [draw(st.integers(-4, 4)) for _ in range(5)], "p": [draw(st.integers(-3, 3)), draw(st.integers(1, 3)), draw(st.integers(-3, 3))],
            "given": draw(st.booleans()), "poly": draw(st.booleans()), "one": draw(st.booleans()), "diag": draw(st.booleans()), "wrong": draw(st.booleans())}


@CHECK.sub("curve", _curve, quick=400, thorough=6000, shards=2, case_timeout=30, hang=True, rule="rational parametrisation of a conic through a rational point")
def curve(case, ctx):
    x, y, t = sp.symbols("x y t")
    a, b, c, d, e = case["c"]
    if case["diag"]:
        b = d = e = 0
    u, v = sp.Rational(case["p"][0], case["p"][1]), sp.Rational(case["p"][2], case["p"][1])
    f = a * x**2 + b * x * y + c * y**2 + d * x + e * y
    f = sp.expand(f - f.subs({x: u, y: v}, simultaneous=True))
    P = sp.Poly(f, x, y)
    if P.total_degree() < 2 or P.degree(x) < 2 or P.degree(y) < 2:
        ctx.skip("not a conic in both variables")
    disc = P.coeff_monomial((1, 1))**2 - 4 * P.coeff_monomial((2, 0)) * P.coeff_monomial((0, 2))
    if disc == 0 or not P.is_irreducible:
        ctx.skip("degenerate")
    ctx.nontrivial()
    curve = P if case["poly"] or not case["given"] else f
    if case["given"] and not case["poly"] and list(f.free_symbols) != [x, y] and list(f.free_symbols) != [y, x]:
        ctx.skip("one variable")
    kw = {"one_point": case["one"]}
    if case["given"]:
        kw["point"] = {x: u, y: v}
        if case["wrong"]:
            w = u + 1
            if f.subs({x: w, y: v}) != 0:
                ctx.require(ctx.raises(ValueError, rz.rationalize_quadratic_curve, curve, gen=t, point={x: w, y: v}), "a point off the curve was accepted", "curve:wrong")
                return
    r = rz.rationalize_quadratic_curve(curve, gen=t, **kw)
    ctx.label("given" if case["given"] else "search", "found" if r is not None else "none")
    if r is None:
        ctx.require(not case["given"], "no parametrisation although a point was given", "curve:none")
        return
    ctx.require(isinstance(r, dict) and set(r) == {x, y}, lambda: "result %s" % (r,), "curve:type")
    val = sp.cancel(sp.together(f.subs(r, simultaneous=True)))
    ctx.require(val == 0, lambda: "curve %s is %s at %s" % (f, val, r), "curve:value")
    free = set().union(*[sp.sympify(z).free_symbols for z in r.values()])
    ctx.require(free <= (set() if case["one"] else {t}), lambda: "result %s" % r, "curve:free")


@CHECK.sub("square", lambda: st.fixed_dictionaries({"a": st.tuples(st.integers(1, 60), st.integers(1, 9)).map(list), "b": st.tuples(st.integers(1, 60), st.integers(1, 9)).map(list),
                                                    "times": st.integers(1, 6), "nums": st.lists(gen.rats(60, 24), max_size=5)}),
           quick=500, thorough=5000, case_timeout=10, hang=True, rule="square perturbation and common denominators")
def square(case, ctx):
    a, b = gen.R(case["a"]), gen.R(case["b"])
    from sympy.ntheory.primetest import is_square
    r = a / b
    ctx.nontrivial()
    if not (is_square(r.p) and is_square(r.q)):
        for t in rz.square_perturbation(a, b, times=case["times"]):
            ctx.require(isinstance(t, sp.Rational) and 0 <= t < min(a, b), lambda: "perturbation %s of (%s, %s)" % (t, a, b), "square:range")
            s = (a - t) / (b - t)
            ctx.require(is_square(s.p) and is_square(s.q), lambda: "(%s - t)/(%s - t) is not a square at t = %s" % (a, b, t), "square:value")
    nums = [gen.R(x) for x in case["nums"]]
    k = rz.cancel_denominator(nums)
    if len(nums) > 1 and any(nums):
        z = [x / k for x in nums]
        g = 0
        for x in z:
            ctx.require(x.is_Integer, lambda: "%s divided by %s is not integral" % (nums, k), "cancel:integer")
            g = math.gcd(g, int(x))
        ctx.require(g == 1 and k > 0, lambda: "%s divided by %s has gcd %s" % (nums, k, g), "cancel:gcd")
    elif len(nums) <= 1:
        ctx.require(k == 1, "single number", "cancel:one")
