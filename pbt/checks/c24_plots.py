"""C24: plots show the polynomial's values."""
from fractions import Fraction as F
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import sympy as sp
from triples.utils.roots.grid import GridPoly, GridRender

from .. import gen, ineq
from ..core import Check

CHECK = Check("C24", rule="homogeneous polynomials in 2-5 variables (integer, huge, rational, decimal and surd coefficients, missing variables, "
              "constants), sizes 1-60, both evaluation routes and both colourings. Oracle: exact evaluation at every grid point; the neighbour "
              "relation of the triangular grid. Non-trivial: the polynomial takes two different values on the grid.")
SY = sp.symbols("a b c d e")
COEF = [("int", lambda: st.integers(-20, 20)), ("int", lambda: st.integers(-20, 20)), ("huge", lambda: st.integers(-10**14, 10**14)),
        ("rat", lambda: gen.rats(30, 12)), ("float", lambda: st.integers(-4000, 4000)), ("surd", lambda: st.integers(-9, 9))]


def _poly(n):
    def build(t):
        d, (kind, co) = t
        return st.fixed_dictionaries({"n": st.just(n), "d": st.just(d), "kind": st.just(kind),
                                      "t": gen.hom_poly(n, d, 8, co(), min_terms=1), "sym": st.sampled_from(["none", "none", "cyc", "sym"]),
                                      "center": st.booleans(), "perm": st.permutations(list(range(n)))})
    return st.tuples(st.sampled_from([0, 1, 2, 2, 3, 4, 4, 5, 6, 7, 9, 12, 18]), st.sampled_from(COEF)).flatmap(build)


def expand(case):
    """coefficient table {exponents: (object for the code, exact value or float)}"""
    n, d, kind = case["n"], case["d"], case["kind"]
    f = {}
    for co, m in case["t"]:
        co = F(*co) if isinstance(co, list) else F(co)
        if kind == "float":
            co = co / 16
        f[tuple(m)] = f.get(tuple(m), 0) + co
    if case["sym"] != "none" and n <= 4:
        els = ineq.cyc_els(n) if case["sym"] == "cyc" else ineq.sym_els(n)
        f = ineq.pcyc(f, els)
    if case["center"] and f:
        s = sum(f.values())
        m = tuple([d - (d // n) * (n - 1)] + [d // n] * (n - 1))
        if case["sym"] == "none" or d % n == 0:
            f[m] = f.get(m, 0) - s
    return {m: x for m, x in f.items() if x}


def to_poly(f, case):
    syms = SY[:case["n"]]
    kind = case["kind"]
    if kind == "float":
        return sp.Poly(sum((sp.Float(float(x)) * sp.prod(v**e for v, e in zip(syms, m)) for m, x in f.items()), sp.Float(0)), *syms, domain="RR")
    k = sp.sqrt(2) if kind == "surd" else 1
    dom = {"surd": "EX" if case["center"] else None}.get(kind)
    e = sum((k * sp.Rational(x.numerator, x.denominator) * sp.prod(v**i for v, i in zip(syms, m)) for m, x in f.items()), sp.S(0))
    return sp.Poly(e, *syms, domain=dom) if dom else sp.Poly(e, *syms, extension=True) if kind == "surd" else sp.Poly(e, *syms)


def value(f, pt):
    s = a = F(0)
    for m, x in f.items():
        t = x * math.prod(p**e for p, e in zip(pt, m))
        s += t
        a += abs(t)
    return s, a


def sgn(x):
    return int(x > 0) - int(x < 0)


def colour_sign(c):
    c = tuple(int(x) for x in c[:3])
    if c == (255, 255, 255):
        return 0
    return c


def _case():
    return st.sampled_from([3, 3, 3, 4, 2, 5]).flatmap(lambda n: st.fixed_dictionaries({
        "p": _poly(n), "size": st.sampled_from([1, 2, 3, 4, 5, 7, 9, 10, 12, 15] + ([20, 24, 33, 60] if n == 3 else [18] if n == 4 else [])),
        "route": st.sampled_from(["integer", "integer_lambdify"]), "colour": st.sampled_from(["numpy", "numpy", "integer"]),
        "with": st.sampled_from([True, True, True, False]), "save": st.integers(0, 30).map(lambda x: x == 0)}))


@CHECK.sub("table", _case, quick=1200, thorough=30000, shards=6, case_timeout=30,
           rule="value table, colours and picture of one polynomial")
def table(case, ctx):
    f = expand(case["p"])
    n, d, size = case["p"]["n"], case["p"]["d"], case["size"]
    poly = to_poly(f, case["p"])
    ctx.label(case["p"]["kind"]); ctx.label(case["route"]); ctx.label("degree 0" if not d or not f else "degree > 0")
    grid = GridRender.render(poly, size=size, value_method=case["route"], color_method=case["colour"], with_color=case["with"], handle_error=False)
    coor = [tuple(int(x) for x in c) for c in grid.grid_coor]
    if math.comb(size + n - 1, n - 1) > 6000:
        return
    ctx.require(len(coor) == math.comb(size + n - 1, n - 1) == len(set(coor)) and all(min(c) >= 0 and sum(c) == size and len(c) == n for c in coor),
                lambda: "grid of size %d in %d variables has points %s" % (size, n, coor[:6]), "points")
    ctx.require(grid.size == size and grid.poly == poly, "size or polynomial of the grid", "points")
    vals = grid.grid_value
    ctx.require(hasattr(vals, "__len__") and len(vals) == len(coor), lambda: "%s values for %d points" % (getattr(vals, "shape", vals), len(coor)), "table:length")
    vals = [v for v in vals]
    exact = [value(f, c) for c in coor]
    irr = math.sqrt(2) if case["p"]["kind"] == "surd" else 1
    big = max(range(len(coor)), key=lambda k: abs(exact[k][0]))
    ctx.nontrivial(len(set(e[0] for e in exact)) > 1)
    if exact[big][0] == 0:
        scale = 1.0
    else:
        scale = float(vals[big]) / (float(exact[big][0]) * irr)
        ctx.require(scale > 0, lambda: "value at %s has sign %s, the polynomial is %s" % (coor[big], vals[big], exact[big][0]), "table")
    for k, (c, (e, a)) in enumerate(zip(coor, exact)):
        tol = 1e-10 * float(a) * irr * scale
        # scale itself comes from a point that may have cancellation
        tol += 1e-10 * float(exact[big][1]) / max(float(abs(exact[big][0])), 1e-300) * float(abs(e)) * irr * scale if e else 0
        ctx.require(abs(float(vals[k]) - float(e) * irr * scale) <= tol,
                    lambda: "%s at %s: table %r, exact %s (scale %r) poly %s" % (case["route"], c, vals[k], e, scale, poly.as_expr()), "table")
        if case["route"] == "integer" and case["p"]["kind"] in ("int", "huge"):
            ctx.require(sgn(vals[k]) == sgn(e), lambda: "sign of %r at %s, exact %s" % (vals[k], c, e), "table:sign")
        elif abs(float(e)) > 1e-9 * float(a):
            ctx.require(sgn(vals[k]) == sgn(e), lambda: "sign of %r at %s, exact %s" % (vals[k], c, e), "table:sign")
    if not case["with"]:
        return
    cols = grid.grid_color
    ctx.require(len(cols) == len(coor), "%d colours for %d points" % (len(cols), len(coor)), "colour:length")
    kinds = {}
    for k, c in enumerate(coor):
        col = tuple(int(x) for x in cols[k])
        ctx.require(all(0 <= x <= 255 for x in col) and len(col) in (3, 4), lambda: "colour %s" % (col,), "colour")
        kinds.setdefault(sgn(vals[k]), set()).add(col[:3])
    for s in kinds:
        for t in kinds:
            if s < t:
                ctx.require(not kinds[s] & kinds[t], lambda: "the same colour %s for values of sign %d and %d" % (sorted(kinds[s] & kinds[t])[:3], s, t), "colour:distinct")
    ctx.require(len(kinds.get(0, {1})) == 1, "zeros in different colours", "colour:zero")
    white = (255, 255, 255)
    ctx.require(white in kinds.get(0, {white}) and white not in kinds.get(1, ()) and white not in kinds.get(-1, ()), "white is the colour of zero", "colour:zero")
    # stronger values are not shown in a weaker colour than smaller ones of the same sign
    for s in (1, -1):
        pts = sorted(((abs(float(vals[k])), tuple(int(x) for x in cols[k][:3])) for k in range(len(coor)) if sgn(vals[k]) == s))
        last = None
        for v, col in pts:
            ctx.require(last is None or col[1] <= last[1], lambda: "colour %s of value %r after %s of a smaller value" % (col, v, last), "colour:order")
            ctx.require((col[0] == 255 and col[2] == 0) if s > 0 else col[0] == 0, lambda: "colour %s for sign %d" % (col, s), "colour:hue")
            last = col
    if n != 3:
        return
    bg = 211 if case["p"]["center"] else 17
    path = None
    if case["save"]:
        tmp = tempfile.mkdtemp(prefix="c24"); path = os.path.join(tmp, "x.png")
    try:
        img = np.asarray(grid.save_heatmap(path, backgroundcolor=bg))
        if path is not None:
            ctx.require(os.path.getsize(path) > 0, "no picture was written", "picture")
    finally:
        if path is not None:
            if os.path.exists(path):
                os.remove(path)
            os.rmdir(tmp)
    ctx.require(img.ndim == 3 and img.shape[0] == img.shape[1] == size + 1 and img.shape[2] >= 3, lambda: "picture of shape %s" % (img.shape,), "picture")
    color = {c: tuple(int(x) for x in cols[k][:3]) for k, c in enumerate(coor)}
    h = math.sqrt(3) / 2
    shown = 0
    for i in range(size + 1):
        for y in range(size + 1):
            px = tuple(int(x) for x in img[i, y][:3])
            if px == (bg,) * 3:
                continue
            shown += 1
            # the pixel stands for the point at height i/h of the triangle; cells within reach of the rounding
            near = [color[(size - q_ - r, q_, r)] for r in range(max(0, math.ceil(i / h - 2.2)), math.floor(i / h + 2.2) + 1)
                    for q_ in range(max(0, math.ceil(y - r / 2 - 1.6)), math.floor(y - r / 2 + 1.6) + 1) if q_ + r <= size]
            ctx.require(px in near, lambda: "pixel %s is %s; nearby cells are %s" % ((i, y), px, sorted(set(near))), "picture")
    want = sum(size + 1 - i / h for i in range(size + 1) if i / h <= size)
    ctx.require(abs(shown - want) <= 2 * size + 3, lambda: "%d pixels for a triangle of about %d" % (shown, want), "picture:cells")
    bot = [tuple(int(x) for x in img[0, y][:3]) for y in range(size + 1)]
    ctx.require(bot == [color[(size - y, y, 0)] for y in range(size + 1)], "first row of the picture is not the edge c = 0", "picture")


def _min_case():
    return st.fixed_dictionaries({"p": _poly(3), "size": st.sampled_from([3, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16, 20, 60]),
                                  "cyc": st.booleans(), "nt": st.booleans(), "squares": st.booleans(), "direct": st.integers(0, 3).map(lambda x: x == 0),
                                  "vals": st.lists(st.integers(-6, 9), min_size=30, max_size=200)})


@CHECK.sub("minima", _min_case, quick=2000, thorough=40000, shards=4, case_timeout=30, hang=True,
           rule="local minima of the grid of a polynomial (or of an arbitrary cyclic value table). Non-trivial: some interior grid point is below its neighbours")
def minima(case, ctx):
    n = case["size"]
    f = expand(case["p"])
    cyc = case["cyc"]
    if case["squares"]:
        f2 = {}
        for m, x in f.items():
            for k, y in f.items():
                g = tuple(p + q for p, q in zip(m, k))
                f2[g] = f2.get(g, 0) + x * y
        f = f2
    if cyc:
        f = ineq.pcyc(f, ineq.cyc_els(3))
    f = {m: x for m, x in f.items() if x}
    if not f or max(sum(m) for m in f) > 18:
        ctx.skip()
    kind = case["p"]["kind"] if case["p"]["kind"] in ("int", "rat", "float") else "int"
    poly = to_poly(f, {**case["p"], "kind": kind})
    coor = [(n - i - j, i, j) for i in range(n + 1) for j in range(n + 1 - i)]
    if case["direct"]:
        base = GridRender.render(poly, size=n, with_color=False, handle_error=False)
        coor = list(base.grid_coor)
        tab = {}
        for k, c in enumerate(coor):
            key = max(c, c[1:] + c[:1], c[2:] + c[:2]) if cyc else c
            if key not in tab:
                tab[key] = case["vals"][(len(tab) * 7 + len(tab) // 11) % len(case["vals"])]
        vals = [tab[max(c, c[1:] + c[:1], c[2:] + c[:2]) if cyc else c] for c in coor]
        grid = GridPoly(poly, n, grid_coor=coor, grid_value=vals)
    else:
        grid = GridRender.render(poly, size=n, with_color=False, handle_error=False)
        coor, vals = list(grid.grid_coor), list(grid.grid_value)
    roots = grid.local_minima(filter_nontrivial=case["nt"], cyc=cyc)
    d = dict(zip(coor, vals))
    if cyc and not all(d[c] == d[c[1:] + c[:1]] for c in coor):
        ctx.skip("rounding makes the table asymmetric")
    exp = set()
    for (i, j, k), v in d.items():
        if min(i, j, k) and all(v < d[c] for c in ((i, j - 1, k + 1), (i + 1, j - 1, k), (i - 1, j, k + 1), (i - 1, j + 1, k), (i + 1, j, k - 1), (i, j + 1, k - 1))):
            if not case["nt"] or len({i, j, k}) == 3:
                exp.add((i, j, k))
    ctx.nontrivial(bool(exp))
    got = set()
    for r in roots:
        t = tuple(F(int(sp.Rational(x).p), int(sp.Rational(x).q)) for x in r.root)
        s = sum(t)
        ctx.require(s > 0, lambda: "minimum %s" % (t,), "minima")
        t = tuple(x * n / s for x in t)
        ctx.require(all(x.denominator == 1 for x in t), lambda: "minimum %s is not a grid point" % (t,), "minima")
        got.add(tuple(int(x) for x in t))
    orb = (lambda c: {c, c[1:] + c[:1], c[2:] + c[:2]}) if cyc else (lambda c: {c})
    ctx.require(got <= exp, lambda: "reported minima %s are not below their neighbours" % sorted(got - exp), "minima:false")
    miss = [c for c in exp if not orb(c) & got]
    ctx.require(not miss, lambda: "minima %s of a grid of size %d are not reported (cyc=%s): %s" % (sorted(miss), n, cyc, roots), "minima:missed")
