"""C23: branch-and-bound optima are feasible and optimal within tolerance."""
from fractions import Fraction as F
import itertools
import math

import numpy as np
from hypothesis import strategies as st
import sympy as sp
import importlib
mo = importlib.import_module("triples.utils.roots.monotonic_opt")

from .. import gen
from ..core import Check

CHECK = Check("C23", rule="random polynomials in 1-3 variables over random boxes (negative, positive, mixed, degenerate, given as one number or a list) with "
              "inequality and equality constraints, often built around a planted feasible point. Oracle: exact evaluation at the returned "
              "point, at the planted point, at the corners and at a grid of points of the box. Non-trivial: the search converged to a point.")
SY = sp.symbols("x y z")


def rat(c):
    return F(*c) if isinstance(c, list) else F(c)


def evalp(t, x):
    return sum((rat(c) * math.prod(v**e for v, e in zip(x, m)) for c, m in t), F(0))


def size(t, x):
    return sum((abs(rat(c)) * math.prod(abs(v)**e for v, e in zip(x, m)) for c, m in t), F(0))


def to_poly(t, syms, dom=None):
    e = sum((sp.Rational(*c) if isinstance(c, list) else sp.Integer(c)) * sp.prod(s**k for s, k in zip(syms, m)) for c, m in t)
    return sp.Poly(e, *syms, **({"domain": dom} if dom else {}))


def _terms(n, deg, k=5):
    return gen.poly(n, deg, k, st.one_of(st.integers(-4, 4), gen.rats(4, 3)), min_terms=1)


def _case():
    return st.integers(1, 3).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "f": _terms(n, {1: 6, 2: 4, 3: 3}[n]),
        "g": st.lists(st.tuples(_terms(n, 2, 4), st.sampled_from(["free", "pass", "pass", "tight", "lin"]), st.integers(1, 6)), max_size=2),
        "h": st.lists(_terms(n, 2, 3), max_size=1) if n > 1 else st.just([]),
        "box": st.lists(st.tuples(st.integers(-12, 8), st.integers(1, 12)), min_size=n, max_size=n),
        "num": st.sampled_from(["int", "float", "rational", "list", "numpy", "tuple"]),
        "at": st.lists(st.integers(0, 8), min_size=n, max_size=n),
        "tol": st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4]), "cbv": st.sampled_from([None, None, None, 0, 3]), "seed": st.integers(0, 10**6),
        "dom": st.sampled_from([None, None, "QQ", "RR"])}))


def cases(case):
    """box, objective, constraints, planted point - all exact"""
    n = case["n"]
    lo = [F(l, 4) for l, w in case["box"]]
    hi = [F(l + w, 4) for l, w in case["box"]]
    if case["num"] in ("int", "float"):
        lo, hi = [min(lo)] * n, [max(hi)] * n
    if case["num"] == "int":
        lo, hi = [F(math.floor(lo[0]))] * n, [F(math.ceil(hi[0]))] * n
    p = [l + (h - l) * F(k, 8) for l, h, k in zip(lo, hi, case["at"])]
    gs = []
    for t, kind, m in case["g"]:
        t = [[c, list(e)] for c, e in t]
        if kind == "lin":
            j = m % n
            e = [0] * n; e[j] = 1
            sg = 1 if m % 2 else -1
            t = [[sg, e], [[(-sg * p[j] + F(m - 1, 8)).numerator, (-sg * p[j] + F(m - 1, 8)).denominator], [0] * n]]
        elif kind in ("pass", "tight"):
            v = F(m, 8) - evalp(t, p) if kind == "pass" else -evalp(t, p)
            t.append([[v.numerator, v.denominator], [0] * n])
        gs.append(t)
    hs = []
    for t in case["h"]:
        v = -evalp(t, p)
        hs.append([[c, list(e)] for c, e in t] + [[[v.numerator, v.denominator], [0] * n]])
    return lo, hi, p, gs, hs


def bounds(case, lo, hi):
    k = case["num"]
    if k == "int":
        return int(lo[0]), int(hi[0])
    if k == "float":
        return float(lo[0]), float(hi[0])
    R = lambda x: sp.Rational(x.numerator, x.denominator)
    if k == "rational":
        return [R(x) for x in lo], [R(x) for x in hi]
    if k == "numpy":
        return np.array([float(x) for x in lo]), np.array([float(x) for x in hi])
    if k == "tuple":
        return tuple(float(x) for x in lo), tuple(float(x) for x in hi)
    return [float(x) for x in lo], [float(x) for x in hi]


@CHECK.sub("polynomial", _case, quick=900, thorough=20000, shards=8, case_timeout=20,
           rule="one constrained polynomial over a box")
def polynomial(case, ctx):
    n = case["n"]
    syms = SY[:n]
    lo, hi, p, gs, hs = cases(case)
    f = case["f"]
    eqtol = F(1, 4) if case["h"] and case["seed"] % 2 else F(1, 100)
    a, b = bounds(case, lo, hi)
    np.random.seed(case["seed"])
    tol = case["tol"]
    # a feasible point in the interior of the constraints is what the search can be expected to see
    margin = F(1, 10**6)
    def feasible(x, slack):
        return all(evalp(t, x) >= slack for t in gs) and all(abs(evalp(t, x)) <= eqtol - slack for t in hs)
    ok = feasible(p, margin)
    kw = {}
    if case["cbv"] is not None:
        if not feasible(p, margin):
            ctx.skip()
        kw["cbv"] = float(evalp(f, p)) + case["cbv"]
    res = mo.rpa_polyopt(to_poly(f, syms, case["dom"]), [to_poly(t, syms, case["dom"]) for t in gs], [to_poly(t, syms, case["dom"]) for t in hs],
                         a=a, b=b, tol=tol, eqtol=float(eqtol), max_iter=400, **kw)
    a2, b2 = bounds(case, lo, hi)
    ctx.require(type(a) is type(a2) and np.array_equal(np.array(a, dtype=object), np.array(a2, dtype=object)) and np.array_equal(np.array(b, dtype=object), np.array(b2, dtype=object)),
                lambda: "the bounds of the caller were changed to %s %s" % (a, b), "arguments")
    ctx.label("converged" if res.converged else "not converged"); ctx.label("none" if res.x is None else "point")
    if res.x is None:
        ctx.require(not (res.f < math.inf), lambda: "no point but value %s" % res.f, "value")
        x = None
    else:
        x = [F(float(v)) for v in res.x]
        ctx.require(len(x) == n, lambda: "point %s in %d variables" % (x, n), "box")
        for v, l, h in zip(x, lo, hi):
            ctx.require(l - F(1, 10**9) <= v <= h + F(1, 10**9), lambda: "the point %s is outside the box %s %s" % (res.x, lo, hi), "box")
        for t in gs:
            s = float(size(t, x)) + 1
            ctx.require(float(evalp(t, x)) >= -1e-8 * s * 100, lambda: "the point %s violates %s >= 0: %s" % (res.x, to_poly(t, syms).as_expr(), float(evalp(t, x))), "feasible")
        for t in hs:
            s = float(size(t, x)) + 1
            ctx.require(abs(float(evalp(t, x))) <= float(eqtol) + 1e-6 * s, lambda: "the point %s violates %s = 0: %s" % (res.x, to_poly(t, syms).as_expr(), float(evalp(t, x))), "feasible")
        fx = evalp(f, x)
        ctx.require(abs(float(fx) - float(res.f)) <= 1e-8 * (float(size(f, x)) + 1) * 100, lambda: "reported value %s at %s, actual %s" % (res.f, res.x, float(fx)), "value")
    if not res.converged:
        return
    ctx.nontrivial(x is not None)
    # nothing feasible beats the answer
    k = {1: 65, 2: 13, 3: 7}[n]
    axes = [[l + (h - l) * F(i, k - 1) for i in range(k)] for l, h in zip(lo, hi)]
    best, arg = None, None
    for c in itertools.chain(itertools.product(*axes), [p]):
        if feasible(c, margin):
            v = evalp(f, c)
            if best is None or v < best:
                best, arg = v, c
    if best is None:
        return
    ctx.label("comparison")
    if x is None:
        ctx.require("cbv" in kw and float(best) > kw["cbv"] - tol - 1e-6, lambda: "no feasible point is reported, %s is one (value %s)" % (arg, best), "missed")
    else:
        ctx.require(float(res.f) <= float(best) + tol + 1e-6 * (1 + float(size(f, arg))),
                    lambda: "converged at %s with value %s; %s is feasible with value %s" % (res.x, res.f, [str(v) for v in arg], float(best)), "optimal")


def _dm_case():
    return st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "f": _terms(n, 5, 8), "a": st.one_of(st.none(), st.lists(st.integers(-9, 9), min_size=n, max_size=n)),
        "den": st.sampled_from([1, 1, 2, 3]), "pts": st.lists(st.lists(st.integers(0, 12), min_size=n, max_size=n), min_size=3, max_size=3),
        "kind": st.sampled_from(["int", "rational", "float"])}))


@CHECK.sub("monotone_parts", _dm_case, quick=1500, thorough=30000, shards=2, case_timeout=20, hang=True,
           rule="difference of monotone polynomials: identity and monotonicity on x >= a (componentwise comparable points, exact)")
def monotone_parts(case, ctx):
    n = case["n"]
    syms = (*SY, sp.Symbol("w"))[:n]
    P = to_poly(case["f"], syms)
    a = None if case["a"] is None else [F(x, case["den"]) for x in case["a"]]
    arg = None if a is None else [float(x) if case["kind"] == "float" and x.denominator in (1, 2) else int(x) if case["kind"] == "int" and x.denominator == 1 else
                                  sp.Rational(x.numerator, x.denominator) for x in a]
    f1, f2 = mo.poly_as_dm(P, arg)
    ctx.require(f1.gens == f2.gens == P.gens, "generators changed", "parts")
    ctx.nontrivial(not P.is_ground)
    low = [F(0)] * n if a is None else a
    for pt in case["pts"]:
        x = [l + F(v, 4) for l, v in zip(low, pt)]
        X = [sp.Rational(v.numerator, v.denominator) for v in x]
        v1, v2 = F(str(sp.nsimplify(f1(*X), rational=True))), F(str(sp.nsimplify(f2(*X), rational=True)))
        e = evalp(case["f"], x)
        tol = F(1, 10**8) * (size(case["f"], x) + size(case["f"], low) + 1) * 100 if case["kind"] == "float" else 0
        ctx.require(abs(v1 - v2 - e) <= tol, lambda: "parts differ by %s at %s, polynomial is %s" % (v1 - v2, x, e), "parts")
        for j in range(n):
            y = list(X); y[j] += sp.Rational(3, 7)
            for nm, q, v in (("first", f1, v1), ("second", f2, v2)):
                w = F(str(sp.nsimplify(q(*y), rational=True)))
                ctx.require(w >= v - tol, lambda: "the %s part decreases from %s to %s at %s in variable %d (lower bound %s)" % (nm, v, w, x, j, a), "monotone")


def _sup_case():
    return st.fixed_dictionaries({"x": st.lists(st.integers(0, 60), min_size=2, max_size=6), "dy": st.lists(st.sampled_from([0, 0, 1, 1, 2, 5, 40]), min_size=7, max_size=7),
                                  "zero": st.integers(0, 6), "shift": st.integers(0, 4), "ends": st.booleans(), "cube": st.booleans()})


@CHECK.sub("supremum", _sup_case, quick=2500, thorough=50000, shards=1, case_timeout=10, hang=True,
           rule="largest zero-or-below point of a nondecreasing piecewise linear or cubic function with flat parts. Non-trivial: it lies inside the interval")
def supremum(case, ctx):
    find = ctx.helper("triples.utils.roots.monotonic_opt", "_find_sup")
    xs = sorted(set(case["x"]))
    if len(xs) < 2:
        ctx.skip()
    ys = [0]
    for i in range(len(xs) - 1):
        ys.append(ys[-1] + case["dy"][i])
    off = ys[case["zero"] % len(ys)] + F(case["shift"] % 3, 4) * (0 if case["ends"] else 1)
    ys = [float(y - off) for y in ys]
    if not (ys[0] <= 0 <= ys[-1]):
        ctx.skip()
    a, b = float(xs[0]) / 8, float(xs[-1]) / 8
    px = [x / 8 for x in xs]
    # a cubed function is flat to machine precision near its zeros: the answer is only determined up to that
    def f(t):
        return float(np.interp(t, px, ys))
    got = float(find(f, a, b))
    sup = b
    if ys[-1] > 0:
        for i in range(len(xs) - 1):
            if ys[i] <= 0 < ys[i + 1]:
                sup = px[i] + (px[i + 1] - px[i]) * (-ys[i]) / (ys[i + 1] - ys[i])
    ctx.nontrivial(a < sup < b)
    ctx.require(abs(got - sup) <= 1e-9, lambda: "largest x with f(x) <= 0 is %s, answer %s (%s, %s)" % (sup, got, px, ys), "supremum")


def _mono_case():
    mon = lambda n: st.lists(st.tuples(st.integers(0, 4), st.sampled_from(["x", "x2", "sqrt", "exp", "step"])), min_size=n, max_size=n)
    return st.integers(1, 3).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "f": mon(n), "f2": mon(n), "g": mon(n), "h": mon(n), "hprod": st.booleans(), "box": st.lists(st.tuples(st.integers(0, 8), st.integers(1, 8)), min_size=n, max_size=n),
        "at": st.lists(st.integers(0, 6), min_size=n, max_size=n), "gs": st.integers(-2, 8), "hs": st.integers(-2, 8), "tol": st.sampled_from([1e-1, 1e-2, 1e-3]),
        "seed": st.integers(0, 10**6), "diff": st.booleans()}))


MON = {"x": lambda t: t, "x2": lambda t: t * t, "sqrt": lambda t: math.sqrt(max(t, 0)), "exp": lambda t: math.exp(t), "step": lambda t: max(t, 1.0)}


def mono(spec):
    return lambda x: float(sum(w * MON[k](float(v)) for (w, k), v in zip(spec, x)))


@CHECK.sub("monotonic", _mono_case, quick=700, thorough=15000, shards=8, case_timeout=20,
           rule="monotone (or difference of monotone) objectives and constraints given as functions: powers, roots, exponentials, pieces. Non-trivial: converged to a point")
def monotonic(case, ctx):
    n = case["n"]
    lo = [l / 4 for l, w in case["box"]]; hi = [(l + w) / 4 for l, w in case["box"]]
    p = [l + (h - l) * k / 6 for l, h, k in zip(lo, hi, case["at"])]
    f, g0, h0, f2 = mono(case["f"]), mono(case["g"]), mono(case["h"]), mono(case["f2"])
    cg, ch = g0(p) + case["gs"] / 8, h0(p) - case["hs"] / 8
    g = lambda x: g0(x) - cg
    h = lambda x: h0(x) - ch
    np.random.seed(case["seed"])
    if case["diff"]:
        obj = lambda x: f(x) - f2(x)
        feas = lambda x, s: g(x) - h(x) <= -s and -h(x) <= -s
        res = mo.rpa_gmop((f, f2), [(g, h), (lambda x: 0.0, h)], lo, hi, tol=case["tol"], max_iter=400)
    else:
        obj = f
        feas = lambda x, s: g(x) <= -s and h(x) >= s
        res = mo.rpa_monotonic(f, g, h, lo, hi, tol=case["tol"], max_iter=400)
    ctx.label("difference" if case["diff"] else "monotone"); ctx.label("converged" if res.converged else "not converged")
    x = None
    if res.x is None:
        ctx.require(not (res.f < math.inf), lambda: "no point but value %s" % res.f, "value")
    else:
        x = [float(v) for v in res.x]
        ctx.require(len(x) == n and all(l - 1e-9 <= v <= u + 1e-9 for v, l, u in zip(x, lo, hi)), lambda: "point %s is outside the box" % x, "box")
        ctx.require(feas(x, -1e-7), lambda: "point %s is not feasible: g=%s h=%s" % (x, g(x), h(x)), "feasible")
        ctx.require(abs(obj(x) - float(res.f)) <= 1e-9 * (1 + abs(f(x)) + abs(f2(x))), lambda: "value %s reported, actual %s" % (res.f, obj(x)), "value")
    if not res.converged:
        return
    ctx.nontrivial(x is not None)
    k = {1: 65, 2: 13, 3: 7}[n]
    axes = [[l + (u - l) * i / (k - 1) for i in range(k)] for l, u in zip(lo, hi)]
    best, arg = None, None
    for c in itertools.chain(itertools.product(*axes), [p]):
        if feas(c, 1e-6) and (best is None or obj(c) < best):
            best, arg = obj(c), c
    if best is None:
        return
    ctx.label("comparison")
    if x is None:
        ctx.require(False, lambda: "no feasible point is reported, %s is one" % (arg,), "missed")
    ctx.require(float(res.f) <= best + case["tol"] + 1e-7 * (1 + abs(f(arg)) + abs(f2(arg))), lambda: "converged at %s with value %s; %s is feasible with value %s" % (x, res.f, arg, best), "optimal")
