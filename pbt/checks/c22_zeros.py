"""C22: reported zeros are real zeros and tangents pass through them."""
from fractions import Fraction as F
import math

import mpmath
from hypothesis import strategies as st
import sympy as sp

from .. import gen, ineq, lin
from ..core import Check
from .c21_roots import FIELDS, Point

CHECK = Check("C22", rule="forms that are sums of (monomial times square) with a zero planted at a rational, quadratic or cubic point (interior, border, "
              "symmetric), symmetrised or not; arbitrary forms for soundness; own stationarity systems; sets of zeros handed to the tangent generators. "
              "Oracle: exact or 40-digit evaluation, own derivatives. Non-trivial: a zero or extremum is reported or planted.")
S = sp.symbols("a b c")
SX = sp.symbols("x y z")
ELS = {"none": [(0, 1, 2)], "cyc": ineq.cyc_els(3), "sym": ineq.sym_els(3)}


def _monos(d):
    return [(i, j, d - i - j) for i in range(d, -1, -1) for j in range(d - i, -1, -1)]


def _pt(shapes=("", "border", "sym")):
    def build(fld):
        na = len(FIELDS[fld][1])
        num = st.one_of(st.sampled_from([0, 1, 1, 2, 3, 4, 5, 7]), st.sampled_from([[1, 2], [2, 3], [5, 4]]))
        co = st.tuples(num, *[st.sampled_from([0, 1]) for _ in range(na - 1)]).map(list)
        return st.fixed_dictionaries({"f": st.just(fld), "v": st.lists(co, min_size=3, max_size=3), "sh": st.sampled_from(list(shapes)), "i": st.integers(0, 2)})

    def shape(p):
        v = [list(x) for x in p["v"]]
        if p["sh"] == "border":
            v[p["i"]] = [0] * len(v[0])
        elif p["sh"] == "sym":
            v[p["i"]] = v[(p["i"] + 1) % 3]
        if not any(any(x) for x in v):
            v[p["i"]] = [1] + [0] * (len(v[0]) - 1)
        return {"f": p["f"], "v": v}
    return st.sampled_from(["q", "q", "q", "r2", "r3", "gold", "cub"]).flatmap(build).map(shape)


def _planted(p=None, groups=("none", "cyc", "cyc", "sym"), inward=0):
    sq = st.fixed_dictionaries({"q": st.lists(st.integers(-3, 3), min_size=10, max_size=10), "m": st.integers(0, 5), "w": st.integers(1, 3)})
    return st.fixed_dictionaries({"p": p or _pt(), "g": st.sampled_from(list(groups)), "k": st.sampled_from([1, 2, 2, 3]), "e": st.integers(0, 2),
                                  "sq": st.lists(sq, min_size=1, max_size=3),
                                  "bd": st.lists(st.tuples(st.integers(0, 20), st.integers(1, 5)).map(list), min_size=max(inward, 1), max_size=inward or 3).flatmap(
                                      lambda l: st.just(l) if inward else st.sampled_from([[], l]))})


def planted(case):
    """A form vanishing at the orbit of the point, nonnegative on the positive orthant."""
    P = Point(case["p"])
    els, ms = ELS[case["g"]], _monos(case["k"])
    rows = []
    for e in els:
        Q = Point({"f": case["p"]["f"], "v": [case["p"]["v"][i] for i in e]})
        w = [Q.mono(m) for m in ms]
        rows += [[x[i] for x in w] for i in range(Q.k)]
    R, piv = lin.rref(rows)
    free = [j for j in range(len(ms)) if j not in piv]
    f = {}
    for s in case["sq"]:
        co = [F(x) for x in s["q"]]
        if not any(co[:len(free)]) and free:
            co[0] = F(1)
        q = {ms[j]: co[i] for i, j in enumerate(free)}
        for r, pc in zip(R, piv):
            q[ms[pc]] = -sum((r[j] * co[i] for i, j in enumerate(free)), F(0))
        q = {m: sp.Rational(x.numerator, x.denominator) for m, x in q.items() if x}
        mm = _monos(case["e"])
        mm = mm[s["m"] % len(mm)]
        f = ineq.padd(f, ineq.pscale(ineq.pmul({mm: sp.Integer(1)}, ineq.pmul(q, q)), sp.Integer(s["w"])))
    # at a zero on the border the form may increase linearly towards the interior
    zero = [i for i in range(3) if not any(case["p"]["v"][i])]
    if case.get("bd") and len(zero) == 1 and f:
        base = (1, 1, 1) if case["g"] != "none" else tuple(int(i == zero[0]) for i in range(3))
        d = 2 * case["k"] + case["e"] - sum(base)
        if d >= 0:
            mm = _monos(d)
            for j, w in case["bd"]:
                m = tuple(x + y for x, y in zip(mm[j % len(mm)], base))
                f = ineq.padd(f, {m: sp.Integer(w)})
    return P, els, {m: x for m, x in ineq.pcyc(f, els).items() if x}


def mp(x, digits=45):
    x = sp.sympify(x)
    v = sp.N(x, digits)
    re, im = v.as_real_imag()
    r = mpmath.mpf(sp.Float(re, digits)._mpf_)
    i = mpmath.mpf(sp.Float(im, digits)._mpf_)
    return r if not i else mpmath.mpc(r, i)


def val(f, z):
    """value of a form at a point, relative to its largest coefficient, at the point scaled to sup norm one"""
    s = max(abs(x) for x in z)
    c = max(abs(mp(x)) for x in f.values())
    return sum(mp(co) * mpmath.fprod((x / s)**i for x, i in zip(z, m)) for m, co in f.items()) / c


def deriv(f, i):
    return {m[:i] + (m[i] - 1,) + m[i + 1:]: c * m[i] for m, c in f.items() if m[i]}


def raw(f, z):
    return sum((mp(co) * mpmath.fprod(x**i for x, i in zip(z, m)) for m, co in f.items()), mpmath.mpf(0))


def cross(w, z):
    return max(abs(w[i] * z[j] - w[j] * z[i]) for i in range(3) for j in range(3)) / max(map(abs, w)) / max(map(abs, z))


# ---------------------------------------------------------------- exact zeros
@CHECK.sub("exact", _planted, quick=700, thorough=12000, shards=7, case_timeout=60, hang=True, rule="findroot_resultant on planted forms")
def exact(case, ctx):
    from triples.utils import findroot_resultant
    P, els, f = planted(case)
    if not f:
        return
    poly = ineq.to_poly(f, S)
    with mpmath.workdps(45):
        roots = findroot_resultant(poly)
        zs = []
        for r in roots:
            z = [mp(x) for x in r.root]
            zs.append(z)
            ctx.require(len(z) == 3 and max(map(abs, z)) > 0, lambda: "%s is no point" % (r,), "exact:point")
            ctx.require(all(not sp.sympify(x).has(sp.Float) for x in r.root), lambda: "inexact zero %s" % (r,), "exact:point")
            v = val(f, z)
            ctx.require(abs(v) < 1e-25, lambda: "%s is reported as a zero of %s, where the value is %s" % (r, poly.as_expr(), mpmath.nstr(v, 8)), "exact:sound")
        w = [P.num(x) for x in P.el]
        ctx.label(case["g"])
        if sum(x == 0 for x in w) > 1 or cross(w, [1, 1, 1]) < 1e-20:
            ctx.nontrivial(len(roots) > 0)
            return
        # zeros on a whole curve (repeated factor) or on lines and conics are not isolated or handled by hand
        fac = []
        for p, m in poly.factor_list()[1]:
            d = {e: c for e, c in p.as_dict().items()}
            if abs(val({e: sp.Rational(c) for e, c in d.items()}, w)) < 1e-25:
                fac.append((p.total_degree(), m))
        if len(fac) != 1 or fac[0][1] > 1 or fac[0][0] <= 2:
            ctx.label("not isolated")
            ctx.nontrivial(len(roots) > 0)
            return
        ctx.nontrivial()
        ctx.label("planted")
        # a zero is described up to conjugation
        m = FIELDS[case["p"]["f"]][0]
        ts = mpmath.polyroots([mpmath.mpf(x) for x in m[::-1]], maxsteps=300, extraprec=300) if len(m) > 2 else [mpmath.mpf(0)]
        for t in ts:
            P.t = t
            w = [P.num(x) for x in P.el]
            for e in els:
                if any(cross([w[i] for i in e], z) < 1e-20 for z in zs):
                    return
        ctx.fail("the isolated zero %s of %s is not among %s" % ([str(s) for s in P.sym], poly.as_expr(), roots), "exact:complete")


def _border():
    return _planted(_pt(("border",)), ("none", "none", "none", "cyc"), 21)


@CHECK.sub("border", _border, quick=400, thorough=6000, shards=7, case_timeout=60, hang=True,
           rule="forms with a double zero on a border, increasing linearly towards the interior there")
def border(case, ctx):
    return exact(case, ctx)


# ---------------------------------------------------------------- numerical zeros and extrema
def _numcase():
    form = st.sampled_from([2, 3, 4, 4, 5, 6]).flatmap(lambda d: gen.hom_poly(3, d, 6, st.integers(-6, 6), min_terms=1))
    return st.one_of(st.fixed_dictionaries({"kind": st.just("planted"), "p": _planted(), "method": st.just("nsolve")}),
                     st.fixed_dictionaries({"kind": st.just("planted"), "p": _planted(), "method": st.just("nsolve")}),
                     st.fixed_dictionaries({"kind": st.just("form"), "f": form, "g": st.sampled_from(["none", "cyc", "cyc", "sym"]), "shift": st.integers(-3, 3),
                                            "method": st.sampled_from(["nsolve"])}))


@CHECK.sub("numeric", _numcase, quick=420, thorough=8000, shards=8, case_timeout=90, rule="findroot on planted and arbitrary forms, with tangents")
def numeric(case, ctx):
    from triples.utils.roots.findroot import findroot
    from triples.core.linsos import root_tangents
    from triples.utils import RootsInfo
    plan = case["kind"] == "planted"
    if plan:
        P, els, f = planted(case["p"])
        g = case["p"]["g"]
    else:
        g = case["g"]
        els = ELS[g]
        f = ineq.pcyc({tuple(m): sp.Rational(c) for c, m in case["f"]}, els)
        d = max((sum(m) for m in f), default=0)
        if case["shift"] and d:
            f = ineq.padd(f, {m: sp.Integer(case["shift"]) for m in [(d, 0, 0), (0, d, 0), (0, 0, d)]})
        f = {m: x for m, x in f.items() if x}
    if not f or len(f) == 1 and max(map(sum, f)) == 0:
        return
    poly = ineq.to_poly(f, S)
    info = findroot(poly, most=200, method=case["method"], with_tangents=root_tangents)
    ctx.label(case["kind"], g)
    ctx.nontrivial(len(info.roots) > 0 or plan)
    with mpmath.workdps(40):
        pts = {}
        for r in info.roots:
            z = [mp(x, 30) for x in r.root]
            pts[id(r)] = z
            ctx.require(len(z) == 3 and all(isinstance(x, mpmath.mpf) for x in z) and max(map(abs, z)) > 0, lambda: "%s is reported as a local minimum" % (r,), "numeric:point")
        strict = [[mp(x, 30) for x in r.root] for r in info.strict_roots]
        for r, z in zip(info.strict_roots, strict):
            ctx.require(any(cross(z, w) < 1e-9 for w in pts.values()), lambda: "zero %s is not among the local minima" % (r,), "numeric:list")
            v = val(f, z)
            ctx.require(abs(v) < 1e-5, lambda: "%s is reported as a zero of %s, where the value is %s" % (r, poly.as_expr(), mpmath.nstr(v, 8)), "numeric:strict")
        ctx.label("strict zeros" if strict else "no strict zero")
        # a local minimum that is not a zero is not near zero
        for r in info.normal_roots:
            z = [mp(x, 30) for x in r.root]
            ctx.require(abs(raw(f, z)) > 0, lambda: "the exact zero %s of %s is not listed as such" % (r, poly.as_expr()), "numeric:normal")
        D = [deriv(f, i) for i in range(3)]
        for r in info.roots:
            z = pts[id(r)]
            s = max(map(abs, z))
            z = [x / s for x in z]
            size = sum(abs(mp(c)) for c in f.values()) * max(map(sum, f))
            gr = [raw(d, z) for d in D]
            zero = [i for i in range(3) if z[i] == 0]
            if len(zero) >= 2:
                continue
            if zero:
                i = zero[0]
                res = min(abs(gr[j]) for j in range(3) if j != i)
                if abs(z[(i + 1) % 3] - z[(i + 2) % 3]) < 1e-12:
                    # (t, 1, 1) with a small t is written as (0, 1, 1)
                    res = min(res, abs(gr[i]))
            elif any(z[i] == z[(i + 1) % 3] for i in range(3)):
                # along (t, 1, 1) with t the third coordinate; at (1, 1, 1) any of the three
                res = min(abs(gr[(i + 2) % 3]) for i in range(3) if z[i] == z[(i + 1) % 3])
            else:
                # slices of constant sum or of one constant coordinate
                res = min(max(abs(gr[i] - gr[j]) for i in range(3) for j in range(i)), *[max(abs(gr[(k + 1) % 3]), abs(gr[(k + 2) % 3])) for k in range(3)])
            ctx.require(res < 1e-4 * size, lambda: "%s is reported as a local minimum of %s, where the slope is %s" % (r, poly.as_expr(), mpmath.nstr(res, 8)), "numeric:stationary")
        if strict:
            # tangents of local minima that are no zeros are approximations and are not judged
            tangents(ctx, RootsInfo(poly=poly, roots=info.strict_roots, strict_roots=info.strict_roots, with_tangents=root_tangents), strict, els, 1e-5, poly)
        # the description lists the points with their values
        for line in info.gui_description.split("\n")[1:]:
            head, value = line.rsplit("=", 1)
            z = [mp(sp.Float(x)) if "/" not in x else mp(sp.Rational(x)) for x in head.strip().strip("()").split(",")]
            v = raw(f, z)
            mag = sum(abs(mp(c)) * mpmath.fprod(abs(x)**i for x, i in zip(z, m)) for m, c in f.items())
            ctx.require(abs(v - mp(sp.Float(value.strip()) if "/" not in value else sp.Rational(value.strip()))) <= 1e-5 * mag + 1e-7, lambda: "description %r, value %s" % (line, mpmath.nstr(v, 8)), "numeric:text")
        if not plan or g == "none":
            return
        w = [P.num(x) for x in P.el]
        zero = [i for i in range(3) if w[i] == 0]
        if len(zero) == 1:
            i = (zero[0] + 1) % 3
            t, line = w[i] / w[(i + 1) % 3], {m[i]: c for m, c in f.items() if m[zero[0]] == 0}
        elif not zero and len(set(w)) == 2:
            i = next(i for i in range(3) if w[(i + 1) % 3] == w[(i + 2) % 3])
            t, line = w[i] / w[(i + 1) % 3], {}
            for m, c in f.items():
                line[m[i]] = line.get(m[i], 0) + c
        else:
            return
        second = sum(mp(c) * k * (k - 1) * t**(k - 2) for k, c in line.items() if k > 1)
        scale = sum(abs(mp(c)) * k * (k + 1) * t**max(k - 2, 0) for k, c in line.items() if k > 1)
        if not scale or abs(second) < 1e-6 * scale:
            return
        ctx.label("planted on border or axis")
        ctx.require(any(cross([w[i] for i in e], z) < 1e-4 for e in els for z in strict),
                    lambda: "the zero %s of %s is not among %s" % ([str(s) for s in P.sym], poly.as_expr(), info.strict_roots), "numeric:complete")


# ---------------------------------------------------------------- tangents
def tangents(ctx, info, pts, els, tol, poly):
    noncentral = [p for p in pts if cross(p, [1, 1, 1]) > 1e-9]
    for T in info.tangents:
        t = {m: c for m, c in T.as_poly().terms()}
        ctx.require(set(T.as_poly().gens) == set(poly.gens), lambda: "tangent %s in %s" % (T, T.as_poly().gens), "tangent:gens")
        t = {m: c for m, c in t.items() if c}
        if not t:
            continue
        best = min((abs(val(t, [p[i] for i in e])) for p in noncentral for e in els), default=mpmath.mpf(1))
        ctx.require(best < tol, lambda: "tangent %s vanishes at none of %s (best %s)" % (T, [[mpmath.nstr(x, 10) for x in p] for p in pts], mpmath.nstr(best, 6)), "tangent")
        for p in pts:
            s = sum(map(abs, p)) / 3
            if min(map(abs, p)) > 1e-4 * s and min(abs(p[i] - p[j]) for i in range(3) for j in range(i)) > 1e-3 * s:
                v = abs(sum(mp(co) * mpmath.fprod((x / s)**i for x, i in zip(p, m)) for m, co in t.items()))
                ctx.require(v < 2e-6, lambda: "tangent %s does not vanish at the zero %s (%s)" % (T, p, mpmath.nstr(v, 6)), "tangent:filter")


def _tancase():
    return st.fixed_dictionaries({"g": st.sampled_from(["none", "cyc", "cyc", "sym"]), "centered": st.booleans(), "gens": st.sampled_from(["abc", "abc", "abc", "xyz", "cab"]),
                                  "p": st.lists(st.tuples(_pt(), st.booleans()), min_size=1, max_size=4)})


@CHECK.sub("tangents", _tancase, quick=1600, thorough=30000, shards=7, case_timeout=60, rule="tangents suggested for a given set of zeros")
def tangent_sets(case, ctx):
    from triples.core.linsos import root_tangents
    from triples.utils import Root, RootRational, RootsInfo
    sy = {"abc": S, "xyz": SX, "cab": (S[2], S[0], S[1])}[case["gens"]]
    a, b, c = sy
    base = {"none": a**2 * b + 2 * b**3 + c**2 * a * 5, "cyc": a**2 * b + b**2 * c + c**2 * a, "sym": a**3 + b**3 + c**3}[case["g"]]
    drop = {"none": 8, "cyc": 3, "sym": 3}[case["g"]]
    poly = sp.Poly(base - (sp.Rational(drop, 3) * 3 * a * b * c if case["centered"] else 0), *sy)
    roots, pts = [], []
    with mpmath.workdps(40):
        for p, num in case["p"]:
            P = Point(p)
            w = [P.num(x) for x in P.el]
            pts.append(w)
            num = num or p["f"] != "q"
            roots.append(Root(tuple(sp.Float(mpmath.nstr(x, 20), 18) for x in w)) if num else Root(tuple(P.sym)))
        if case["centered"]:
            roots.append(RootRational((1, 1, 1)))
            pts.append([mpmath.mpf(1)] * 3)
        ctx.label(case["g"], "%d zeros" % len(case["p"]))
        info = RootsInfo(poly=poly, roots=roots, strict_roots=roots, with_tangents=root_tangents)
        ctx.nontrivial(len(info.tangents) > 0)
        ctx.label("tangents" if info.tangents else "no tangents")
        # invariants of irrational zeros are rounded to nearby rationals
        tangents(ctx, info, pts, ELS[case["g"]], 1e-12 if all(p["f"] == "q" for p, num in case["p"]) else 1e-5, poly)
        # the lists of zeros
        zs = [[mp(x, 30) for x in r.root] for r in info.strict_roots]
        ctx.require(len(zs) == len(pts) and all(cross(z, p) < 1e-9 for z, p in zip(zs, pts)), lambda: "zeros %s became %s" % (pts, zs), "info:roots")
        ctx.require(bool(info.is_centered) == case["centered"], "is_centered of %s" % poly, "info:centered")
        nb = info.nonborder_roots()
        ctx.require([r for r in info.strict_roots if all(x != 0 for x in r.root)] == nb, lambda: "nonborder zeros of %s: %s" % (roots, nb), "info:nonborder")
        want = [i for i, p in enumerate(pts) if min(map(abs, p)) > 1e-6 and min(abs(p[i] - p[j]) for i in range(3) for j in range(i)) > 1e-6 * max(p)]
        got = info.nontrivial_roots()
        ctx.require(len(got) == len(want) and info.has_nontrivial_roots() == bool(want), lambda: "nontrivial zeros of %s: %s" % (roots, got), "info:nontrivial")
        ctx.require(info.nvars == 3, "nvars", "info:nvars")
        lens = [len(t) for t in info.tangents]
        ctx.require(sorted(lens) == [len(t) for t in (info.sort_tangents() if info.tangents else [])], "sort_tangents", "info:sort")


# ---------------------------------------------------------------- tangent objects
@CHECK.sub("tangent_object", lambda: st.fixed_dictionaries({
    "n": st.sampled_from([2, 3, 3, 3, 4]), "t": st.sampled_from([1, 2, 3]).flatmap(lambda d: gen.hom_poly(4, d, 5, gen.rats(9, 4), min_terms=1)),
    "s": st.sampled_from([1, 2]).flatmap(lambda d: gen.hom_poly(4, d, 4, st.integers(-5, 5), min_terms=1)), "k": st.integers(1, 3),
    "x": st.lists(gen.rats(5, 3), min_size=4, max_size=4), "how": st.sampled_from(["expanded", "factored", "cyclic"])}),
    quick=400, thorough=8000, shards=2, rule="RootTangent computes with the expression it wraps")
def tangent_object(case, ctx):
    from triples.utils import RootTangent, CyclicSum
    n = case["n"]
    sy = sp.symbols("a b c d")[:n]
    e1 = sum((gen.R(c) * sp.prod(v**i for v, i in zip(sy, m)) for c, m in case["t"] if not any(m[n:])), sp.S(0))
    e2 = sum((sp.Integer(c) * sp.prod(v**i for v, i in zip(sy, m)) for c, m in case["s"] if not any(m[n:])), sp.S(0))
    if not e1.free_symbols:
        return
    e = {"expanded": sp.expand(e1 * case["k"]), "factored": e1 * (e2 if e2 else 1), "cyclic": CyclicSum(e1, sy) if n > 1 else e1}[case["how"]]
    if not isinstance(e, sp.Expr) or sp.expand(e.doit()) == 0:
        return
    want = sp.Poly(sp.expand(e.doit()), *sy)
    t = RootTangent(e, sy)
    xs = [gen.R(x) for x in case["x"]][:n]
    ctx.nontrivial(len(want.terms()) > 1)
    ctx.require(t.as_poly() == want and t.degree == want.total_degree() and len(t) == len(want.terms()), lambda: "%s: %s, degree %s, length %s" % (e, t.as_poly(), t.degree, len(t)), "object")
    v = want.eval(dict(zip(sy, xs))) if n > 1 else want.eval(xs[0])
    ctx.require(sp.sympify(t(*xs)) == v, lambda: "%s at %s: %s" % (e, xs, t(*xs)), "object:call")
    ctx.require(sp.expand(sp.sympify(t.subs(dict(zip(sy, xs)))) - v) == 0, lambda: "subs of %s" % e, "object:subs")
    top = max(abs(c) for c in want.coeffs())
    ctx.require(t.norm() == top, lambda: "norm of %s is %s" % (e, t.norm()), "object:norm")
    u = t.normalize()
    ctx.require(u.as_poly() == want / top and sp.expand((u.as_expr() - e / top).doit()) == 0 and u.norm() == 1, lambda: "normalised %s is %s" % (e, u), "object:normalize")
    ctx.require(t.as_poly() == want, "normalize() changed its object", "object:normalize")
    t2 = RootTangent(sp.expand(e.doit()), sy)
    ctx.require(t2 == t and hash(t2) == hash(t), "equal tangents differ", "object:eq")
    t3 = RootTangent(e + sy[0]**want.total_degree(), sy) if sp.expand((e + sy[0]**want.total_degree()).doit()) != 0 else t2
    ctx.require((t3 == t) == (t3.as_poly() == want), "different tangents are equal", "object:eq")
    t.normalize(inplace=True)
    ctx.require(t.as_poly() == want / top and sp.expand((t.as_expr() - e / top).doit()) == 0, lambda: "normalised in place %s is %s" % (e, t), "object:normalize")
    if n == 3 and want.is_homogeneous:
        s = RootTangent(e, sy).as_factor_form()
        from triples.utils import preprocess_text
        got = preprocess_text(s, gens=sy, return_type="expr")
        ctx.require(sp.expand(sp.sympify(got).doit() - want.as_expr()) == 0, lambda: "factor form of %s is %s" % (want.as_expr(), s), "object:factor")


# ---------------------------------------------------------------- stationarity systems
def _kcase():
    t = gen.poly(3, 3, 4, gen.rats(5, 3), min_terms=1)
    return st.fixed_dictionaries({"f": t, "g": st.lists(t, max_size=2), "h": st.lists(t, max_size=2), "as_poly": st.booleans(), "with_self": st.booleans(),
                                  "type": st.sampled_from(["expr", "poly"]), "x": st.lists(gen.rats(5, 3), min_size=7, max_size=7)})


@CHECK.sub("kkt", _kcase, quick=500, thorough=10000, shards=2, rule="stationarity and complementarity systems")
def kkt_system(case, ctx):
    from triples.utils import kkt
    F_ = {tuple(m): gen.R(c) for c, m in case["f"]}
    G = [{tuple(m): gen.R(c) for c, m in t} for t in case["g"]]
    H = [{tuple(m): gen.R(c) for c, m in t} for t in case["h"]]
    conv = (lambda d: ineq.to_poly(d, S)) if case["type"] == "poly" else (lambda d: sp.Add(*[c * sp.prod(v**i for v, i in zip(S, m)) for m, c in d.items()]))
    f, g, h = conv(F_), [conv(d) for d in G], [conv(d) for d in H]
    if case["type"] == "expr" and not f.free_symbols:
        return
    g0, h0 = list(g), list(h)
    system, (x0, lam, mu, sy) = kkt(f, g, h, as_poly=case["as_poly"], with_self=case["with_self"])
    ctx.require(g == g0 and h == h0, "kkt changed its constraint lists", "kkt:args")
    free = set(S) if case["type"] == "poly" else set().union(*[e.free_symbols for e in [f] + g + h])
    ctx.require(set(x0) == free and len(x0) == len(free) and len(lam) == len(g) and len(mu) == len(h) and tuple(sy) == tuple(x0) + tuple(lam) + tuple(mu)
                and len(set(sy)) == len(sy), lambda: "symbols %s" % ((x0, lam, mu, sy),), "kkt:symbols")
    vals = [gen.R(x) for x in case["x"]]
    at = dict(zip(S, vals))
    for i, s in enumerate(tuple(lam) + tuple(mu)):
        at[s] = vals[3 + i]
    ev = lambda d: sum((c * sp.prod(at[v]**i for v, i in zip(S, m)) for m, c in d.items()), sp.S(0))
    want = []
    for v in x0:
        i = S.index(v)
        want.append(ev(deriv(F_, i)) - sum(at[l] * ev(deriv(d, i)) for l, d in zip(lam, G)) + sum(at[m] * ev(deriv(d, i)) for m, d in zip(mu, H)))
    want += [at[l] * ev(d) for l, d in zip(lam, G)] + [ev(d) for d in H] + ([ev(F_)] if case["with_self"] else [])
    ctx.nontrivial(bool(g or h))
    ctx.require(len(system) == len(want), lambda: "%d equations for %s" % (len(system), (f, g, h)), "kkt:length")
    for e, w in zip(system, want):
        ctx.require(isinstance(e, sp.Poly) == case["as_poly"] or case["type"] == "poly", lambda: "equation %r" % (e,), "kkt:type")
        v = e.as_expr().subs(at, simultaneous=True)
        ctx.require(sp.expand(v - w) == 0, lambda: "equation %s has value %s instead of %s at %s" % (e, v, w, at), "kkt")


# ---------------------------------------------------------------- closed forms
def _near():
    fac = st.one_of(st.tuples(st.just("q"), gen.rats(7, 4)), st.tuples(st.just("r"), gen.rats(4, 3), st.sampled_from([2, 3, 5, 7])), st.tuples(st.just("i"), gen.rats(3, 2))).map(list)
    return st.fixed_dictionaries({"f": st.lists(fac, min_size=1, max_size=3, unique_by=str), "k": st.sampled_from([1, 2, [-3, 5]]), "pick": st.integers(0, 5), "eps": st.integers(-9, 9),
                                  "method": st.sampled_from(["rootof", "rootof", "roots"])})


@CHECK.sub("nearest", _near, quick=500, thorough=8000, shards=2, rule="closed form of the root nearest to a number")
def nearest(case, ctx):
    from triples.utils import find_nearest_root
    x = sp.Symbol("x")
    p, roots = sp.Poly(gen.R(case["k"]), x, domain="QQ"), []
    for t in case["f"]:
        r = gen.R(t[1])
        if t[0] == "q":
            p, roots = p * sp.Poly(x - r, x), roots + [r]
        elif t[0] == "r":
            p, roots = p * sp.Poly((x - r)**2 - t[2], x), roots + [r + sp.sqrt(t[2]), r - sp.sqrt(t[2])]
        else:
            p, roots = p * sp.Poly((x - r)**2 + 1, x), roots + [r + sp.I, r - sp.I]
    z = roots[case["pick"] % len(roots)]
    v = sp.N(z, 30) + sp.Float(case["eps"], 20) * sp.Float("1e-8", 20)
    if p.degree() == 1:
        v = sp.N(z, 30)
    r = find_nearest_root(p, v, method=case["method"])
    dist = [abs(sp.N(q, 30) - v) for q in roots]
    ctx.nontrivial(len(set(roots)) > 1)
    ctx.require(not sp.sympify(r).has(sp.Float), lambda: "%s is not exact" % r, "nearest:exact")
    got = sp.N(r, 30)
    ctx.require(abs(got - sp.N(roots[dist.index(min(dist))], 30)) < 1e-20, lambda: "root of %s nearest to %s is given as %s" % (p.as_expr(), v, r), "nearest")


# ---------------------------------------------------------------- discriminants
@CHECK.sub("discriminant", lambda: st.fixed_dictionaries({
    "c": st.tuples(gen.rats(12, 5), gen.rats(12, 5)).map(list), "r": gen.rats(3, 7), "q": st.tuples(st.integers(1, 5), st.integers(-3, 3), st.integers(1, 5)).map(list),
    "extra": gen.poly(2, 4, 3, st.integers(-2, 2)), "soft": st.booleans()}), quick=300, thorough=5000, shards=2, rule="parameters of nonpositive discriminant")
def discriminant(case, ctx):
    opt = ctx.helper("triples.utils.roots.findroot", "optimize_discriminant")
    x, y = sp.symbols("x y")
    p, q = map(gen.R, case["c"])
    u, v, w = case["q"]
    e = u * (x - p)**2 + v * (x - p) * (y - q) + w * (y - q)**2 - gen.R(case["r"])
    e += sum(sp.Rational(c, 40) * x**m[0] * y**m[1] for c, m in case["extra"])
    poly = sp.Poly(sp.expand(e), x, y)
    if poly.total_degree() < 1:
        return
    res = opt(poly, soft=case["soft"])
    ctx.nontrivial(res is not None)
    ctx.label("none" if res is None else "soft" if case["soft"] else "found")
    if res is None:
        ctx.require(not case["soft"], "soft search gave nothing", "discriminant:soft")
        # integers near the start of the search are always tried
        ctx.require(all(poly.eval({x: i, y: j}) > 0 for i in range(-5, 7, 2) for j in range(-5, 7, 2)), lambda: "no parameters found for %s" % poly, "discriminant:grid")
        return
    ctx.require(set(res) == {x, y} and all(sp.sympify(t).is_Rational for t in res.values()), lambda: "result %s" % res, "discriminant:type")
    if not case["soft"]:
        d = poly.as_expr().subs(res)
        ctx.require(d <= 0, lambda: "%s at %s is %s" % (poly.as_expr(), res, d), "discriminant")
