"""C14: polynomial classification and coefficient access are exact."""
import itertools

from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup
from triples.utils import polytools as pt
from triples.utils.expression import Coeff
from triples.utils.expression.coeff import identify_symmetry
from triples.utils.expression.pqr import pqr_cyc, pqr_ker, pqr_sym

from .. import evalx, gen, ineq
from ..core import Check

CHECK = Check("C14", rule="random polynomials, polynomials symmetrised over a group and then possibly spoilt in one coefficient "
              "or one monomial, and sequences of operations on coefficient views; every answer is compared with the "
              "definition evaluated on dictionaries of exponents. Non-trivial: at least two monomials.")


@st.composite
def _poly3(draw, nmin=3, nmax=3, dmax=8, zero_ok=True):
    """terms, n, and the group the terms are symmetrised over before being spoilt"""
    n = draw(st.integers(nmin, nmax))
    d = draw(st.integers(0, dmax))
    hom = draw(st.sampled_from([True, True, True, False]))
    terms = draw(gen.hom_poly(n, d, 5) if hom else gen.poly(n, d, 5))
    g = draw(st.sampled_from(["cyc", "cyc", "sym", "ref", "none"]))
    spoil = draw(st.sampled_from([None, None, None, "coef", "monom", "lower"]))
    return {"n": n, "d": d, "terms": terms, "g": g, "spoil": spoil, "i": draw(st.integers(0, 50)), "k": draw(st.sampled_from([1, -1, [1, 1000], 2])),
            "surd": draw(st.sampled_from([0, 0, 0, 1]))}


def elements(g, n):
    if g == "cyc":
        return [tuple((i + s) % n for i in range(n)) for s in range(n)]
    if g == "sym":
        return list(itertools.permutations(range(n)))
    if g == "ref" and n > 1:
        return [tuple(range(n)), (1, 0) + tuple(range(2, n))]
    return [tuple(range(n))]


def coefs(case):
    n = case["n"]
    out = {}
    for c, e in case["terms"]:
        for p in elements(case["g"], n):
            m = tuple(e[i] for i in p)
            out[m] = out.get(m, 0) + gen.R(c)
    out = {m: c for m, c in out.items() if c != 0}
    if case["spoil"] and out:
        ms = sorted(out)
        m = ms[case["i"] % len(ms)]
        if case["spoil"] == "coef":
            out[m] = out[m] + gen.R(case["k"])
            if out[m] == 0:
                del out[m]
        elif case["spoil"] == "monom":
            j, k = case["i"] % n, (case["i"] // n) % n
            m2 = list(m)
            if m2[j]:
                m2[j] -= 1
                m2[k] += 1
                out[tuple(m2)] = out.get(tuple(m2), 0) + gen.R(case["k"])
        else:
            j = case["i"] % n
            if m[j]:
                m2 = list(m)
                m2[j] -= 1
                out[tuple(m2)] = out.get(tuple(m2), 0) + gen.R(case["k"])
        out = {m: c for m, c in out.items() if c != 0}
    if case["surd"]:
        out = {m: c * sp.sqrt(2) + (1 if i % 3 == 0 else 0) * 0 for i, (m, c) in enumerate(out.items())}
    return out


def poly_of(out, syms):
    return sp.Poly.from_dict(out or {(0,) * len(syms): sp.Integer(0)}, *syms)


def invariant(out, p):
    return all(out.get(tuple(m[i] for i in p), 0) == c for m, c in out.items())


@CHECK.sub("classify", lambda: _poly3(), quick=2400, thorough=50000, shards=2, case_timeout=10, hang=True,
           rule="degree, homogeneity, cyclicity and symmetry of ternary polynomials")
def classify(case, ctx):
    out = coefs(case)
    syms = sp.symbols("a b c")
    P = poly_of(out, syms)
    degs = {sum(m) for m in out}
    hom = len(degs) <= 1
    cyc = invariant(out, (1, 2, 0))
    sym = cyc and invariant(out, (1, 0, 2))
    ctx.nontrivial(len(out) > 1)
    ctx.label("hom" if hom else "inhom", "cyc" if cyc else "acyc", "sym" if sym else "asym")
    ctx.require(pt.deg(P) == max(degs or {0}) or (not out and pt.deg(P) <= 0), lambda: "deg(%s) = %s" % (P, pt.deg(P)), "deg")
    for fast in (True, False):
        h, c = pt.verify_hom_cyclic(P, fast=fast)
        ctx.require(bool(h) == hom, lambda: "fast=%s: homogeneity of %s reported as %s" % (fast, P.as_expr(), h), "hom:%s" % fast)
        ctx.require(bool(c) == (hom and cyc), lambda: "fast=%s: cyclicity of %s reported as %s" % (fast, P.as_expr(), c), "cyc:%s" % fast)
    if cyc:
        ctx.require(bool(pt.verify_is_symmetric(P)) == sym, lambda: "symmetry of %s reported as %s" % (P.as_expr(), pt.verify_is_symmetric(P)), "sym")
    for m in list(out)[:4] + [(0, 0, 0), (1, 2, 3)]:
        ctx.require(pt.monom_of(P, m) == out.get(m, 0), "monom_of", "monom_of")


@st.composite
def _coeff_case(draw):
    a = draw(_poly3(1, 5, 5))
    b = draw(_poly3(a["n"], a["n"], 5))
    if draw(st.booleans()) and a["terms"]:
        b["terms"] = [[[-c[0], c[1]], e] for c, e in a["terms"][:3]] + b["terms"][:1]
        b["g"] = a["g"]
    ops = draw(st.lists(st.sampled_from(["add", "sub", "reflect", "cancel_abc", "cancel_k", "clear_zero", "again", "as_poly", "selfsub"]), min_size=0, max_size=5))
    return {"a": a, "b": b, "ops": ops, "mul": draw(st.lists(st.integers(0, 3), min_size=a["n"], max_size=a["n"])), "pw": draw(st.sampled_from([1, 1, 2, 3])),
            "g": draw(gen.named_group(a["n"])), "sign": draw(st.sampled_from([1, -1]))}


@CHECK.sub("views", _coeff_case, quick=2000, thorough=40000, shards=2, case_timeout=10, hang=True,
           rule="sequences of operations on coefficient views against dictionaries")
def views(case, ctx):
    n = case["a"]["n"]
    out, other = coefs(case["a"]), coefs(case["b"])
    out = {tuple(k * case["pw"] + s for k, s in zip(m, case["mul"])): c for m, c in out.items()}
    syms = sp.symbols("x:%d" % n)
    C, D = Coeff(poly_of(out, syms)), Coeff(poly_of(other, syms))
    ctx.nontrivial(len(out) > 1)
    ctx.label("n%d" % n, *case["ops"])

    def compare(C, out, what):
        ctx.require(C.nvars == n or not out, lambda: "%s: nvars is %s, expected %d" % (what, C.nvars, n), what + ":nvars")
        got = {tuple(k): sp.sympify(v) for k, v in C.items() if v != 0}
        ctx.require(set(got) == set(out) and all(sp.expand(got[m] - out[m]) == 0 for m in out), lambda: "%s: coefficients %s, expected %s" % (what, got, out), what + ":items")
        for m in list(out)[:3]:
            ctx.require(C(m) == out[m] and C(*m) == out[m] and C(list(m)) == out[m], lambda: "%s: coefficient of %s" % (what, m), what + ":call")
        miss = tuple(99 for _ in range(n))
        ctx.require(C(miss) == 0, "absent coefficient", what + ":call")
        ctx.require(bool(C.is_zero) == (not out), lambda: "%s: is_zero = %s for %s" % (what, C.is_zero, out), what + ":is_zero")
        degs = {sum(m) for m in out}
        ctx.require(bool(C.is_homogeneous()) == (len(degs) <= 1), lambda: "%s: is_homogeneous of %s" % (what, out), what + ":hom")
        if out:
            ctx.require(C.total_degree() == max(degs), "total_degree", what + ":degree")
            if len(degs) == 1:
                ctx.require(C.degree() == max(degs), "degree", what + ":degree")
            perms = [Permutation(p) for p in case["g"]]
            inv = all(invariant(out, tuple(p)) for p in case["g"])
            cyc = invariant(out, tuple(list(range(1, n)) + [0]))
            sym = cyc and (n < 2 or invariant(out, (1, 0) + tuple(range(2, n))))
            for arg in (perms, PermutationGroup(*perms)):
                ctx.require(bool(C.is_cyclic(arg)) == inv and bool(C.is_symmetric(arg)) == inv,
                            lambda: "%s: invariance of %s under %s is %s" % (what, out, case["g"], inv), what + ":group")
            ctx.require(bool(C.is_cyclic()) == cyc, lambda: "%s: is_cyclic of %s" % (what, out), what + ":cyclic")
            ctx.require(bool(C.is_symmetric()) == sym, lambda: "%s: is_symmetric of %s" % (what, out), what + ":symmetric")
            P = C.as_poly(*syms)
            Q = C.as_poly(syms)
            want = poly_of(out, syms)
            ctx.require((P - want).is_zero and P == Q and tuple(P.gens) == syms, lambda: "%s: as_poly %s, expected %s" % (what, P, want), what + ":poly")
            ctx.require(sp.expand(C.poly111() - sum(out.values())) == 0, "value at ones", what + ":ones")
            R = C.as_poly()
            ctx.require(len(R.gens) == n and [sp.expand(c - w) for c, w in zip(R.coeffs(), want.coeffs())] == [0] * len(want.coeffs())
                        and R.monoms() == want.monoms(), "as_poly() without variables", what + ":poly")
        else:
            ctx.require(C.degree() <= 0 and C.total_degree() <= 0, "degree of zero", what + ":zero_degree")
            ctx.require(C.as_poly(*syms).is_zero and tuple(C.as_poly(*syms).gens) == syms, "as_poly of zero", what + ":zero_poly")
            ctx.require(C.is_cyclic() and C.is_symmetric(), "zero is not invariant", what + ":zero_cyclic")
            ctx.require(C.as_poly().is_zero, "as_poly() of zero", what + ":zero_poly")
            ctx.require(C.poly111() == 0, "value of zero", what + ":ones")
        rational = all(c.is_Rational for c in map(sp.sympify, out.values()))
        ctx.require(not C.is_rational or rational, lambda: "%s: is_rational but coefficients are %s" % (what, out), what + ":rational")
        ctx.require(Coeff(C) is C, "Coeff(Coeff)", "views:idempotent")
    compare(C, out, "view")
    G = identify_symmetry(poly_of(out, syms)) if out else None
    if G is not None:
        ctx.require(G.degree == n and all(invariant(out, tuple(p.array_form)) for p in G.generators), lambda: "inferred symmetry %s of %s" % (G, out), "identify")
        if n >= 3:
            G = identify_symmetry(poly_of(out, syms), syms[-1])
            ctx.require(all(invariant(out, tuple(p.array_form)) for p in G.generators), lambda: "inferred symmetry %s of %s with homogenizer" % (G, out), "identify")
    for op in case["ops"]:
        before = dict(C.items())
        if op in ("add", "sub"):
            s = 1 if op == "add" else -1
            C2 = C + D if op == "add" else C - D
            new = dict(out)
            for m, c in other.items():
                new[m] = sp.expand(new.get(m, 0) + s * c)
            new = {m: c for m, c in new.items() if c != 0}
        elif op == "selfsub":
            C2, new = C - C, {}
        elif op == "reflect":
            if n != 3:
                continue
            C2, new = C.reflect(), {(m[1], m[0], m[2]): c for m, c in out.items()}
        elif op == "cancel_abc":
            common, C2 = C.cancel_abc()
            if out:
                k = tuple(min(m[i] for m in out) for i in range(n))
                ctx.require(tuple(common) == k, lambda: "cancel_abc finds %s in %s" % (common, out), "cancel_abc")
            else:
                k = (0,) * n
            new = {tuple(x - y for x, y in zip(m, k)): c for m, c in out.items()}
        elif op == "cancel_k":
            d, C2 = C.cancel_k()
            from math import gcd
            g = gcd(*[x for m in out for x in m]) if out else 1
            if not any(x for m in out for x in m):
                new = out
            else:
                ctx.require(d == g, lambda: "cancel_k finds %s in %s" % (d, out), "cancel_k")
                new = {tuple(x // g for x in m): c for m, c in out.items()}
        elif op == "clear_zero":
            C.clear_zero()
            C2, new = C, out
        elif op == "again":
            C2, new = Coeff(dict(C.items()), is_rational=C.is_rational) if out else C, out
        else:
            if not out:
                continue
            C2, new = Coeff(C.as_poly(*syms)), out
        ctx.require(dict(C.items()) == before or op == "clear_zero", "%s changed its operand" % op, op + ":mutates")
        C, out = C2, new
        compare(C, out, op)


@st.composite
def _pqr_case(draw):
    c = draw(_poly3(3, 3, 7))
    c["g"] = draw(st.sampled_from(["cyc", "cyc", "sym", "none"]))
    c["names"] = draw(st.sampled_from([None, "x y z", "s t u"]))
    c["vars"] = draw(st.sampled_from(["a b c", "x y z", "p q r", "c b a"]))
    return c


@CHECK.sub("pqr", _pqr_case, quick=500, thorough=8000, shards=2, case_timeout=30, hang=True, rule="elementary symmetric form of ternary polynomials")
def pqr(case, ctx):
    out = coefs(case)
    syms = sp.symbols(case["vars"])
    P = poly_of(out, syms)
    names = sp.symbols(case["names"]) if case["names"] else None
    if set(names or sp.symbols("p q r")) & set(syms):
        names = sp.symbols("u_ v_ w_")
    a, b, c = syms
    el = dict(zip(names or sp.symbols("p q r"), (a + b + c, a * b + b * c + c * a, a * b * c)))
    cyc, sym = invariant(out, (1, 2, 0)), invariant(out, (1, 2, 0)) and invariant(out, (1, 0, 2))
    ctx.nontrivial(len(out) > 1)
    ctx.label("cyc" if cyc else "acyc", "sym" if sym else "asym")
    try:
        f = pqr_sym(P, names)
    except ValueError:
        ctx.require(not sym, lambda: "symmetric polynomial %s rejected" % P.as_expr(), "pqr_sym:rejected")
    else:
        ctx.require(sym, lambda: "pqr_sym accepted %s" % P.as_expr(), "pqr_sym:accepted")
        ctx.require(not (f.free_symbols & set(syms)), "old variables remain", "pqr_sym:vars")
        ctx.require(sp.expand(f.xreplace(el) - P.as_expr()) == 0, lambda: "pqr form %s of %s" % (f, P.as_expr()), "pqr_sym:value")
    try:
        f, g = pqr_cyc(P, names)
    except ValueError:
        ctx.require(not cyc, lambda: "cyclic polynomial %s rejected" % P.as_expr(), "pqr_cyc:rejected")
    else:
        ctx.require(cyc, lambda: "pqr_cyc accepted %s" % P.as_expr(), "pqr_cyc:accepted")
        back = f.xreplace(el) + (a - b) * (b - c) * (c - a) * sp.sympify(g).xreplace(el)
        ctx.require(not ((f.free_symbols | sp.sympify(g).free_symbols) & set(syms)), "old variables remain", "pqr_cyc:vars")
        ctx.require(sp.expand(back - P.as_expr()) == 0, lambda: "pqr form %s + kernel*%s of %s" % (f, g, P.as_expr()), "pqr_cyc:value")
    k = pqr_ker(names)
    ctx.require(sp.expand(k.xreplace(el) - ((a - b) * (b - c) * (c - a))**2) == 0, "kernel", "pqr_ker")


@CHECK.sub("elementary", lambda: _poly3(2, 5, 4), quick=160, thorough=3000, case_timeout=30, hang=True, rule="elementary symmetric form in any number of variables")
def elementary(case, ctx):
    n = case["n"]
    case = dict(case, g="sym")
    out = coefs(case)
    syms = sp.symbols("x:%d" % n)
    es = sp.symbols("e:%d" % n)
    P = poly_of(out, syms)
    sym = all(invariant(out, p) for p in (tuple(list(range(1, n)) + [0]), (1, 0) + tuple(range(2, n))))
    ctx.nontrivial(len(out) > 1)
    try:
        f = pqr_sym(P, es)
    except ValueError:
        ctx.require(not sym, "symmetric polynomial rejected", "elementary:rejected")
        return
    ctx.require(sym, "accepted a polynomial that is not symmetric", "elementary:accepted")
    el = {e: sum(sp.Mul(*c) for c in itertools.combinations(syms, k + 1)) for k, e in enumerate(es)}
    ctx.require(sp.expand(f.xreplace(el) - P.as_expr()) == 0, lambda: "elementary form %s of %s" % (f, P.as_expr()), "elementary:value")


def hull2(points):
    """Vertices of the convex hull of integer points of the plane (collinear points dropped)."""
    pts = sorted(set(points))
    if len(pts) <= 2:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def inside(p, hull):
    if len(hull) == 1:
        return p == hull[0]
    if len(hull) == 2:
        (ax, ay), (bx, by) = hull
        return (bx - ax) * (p[1] - ay) == (by - ay) * (p[0] - ax) and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by)
    return all((hull[(i + 1) % len(hull)][0] - x) * (p[1] - y) - (hull[(i + 1) % len(hull)][1] - y) * (p[0] - x) >= 0
               for i, (x, y) in enumerate(hull))


@CHECK.sub("hull", lambda: st.tuples(st.integers(1, 12), st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)), min_size=1, max_size=5), st.integers(0, 2)).map(
    lambda t: {"d": t[0], "m": [sorted(x) for x in t[1]], "skirt": t[2]}),
           quick=1200, thorough=20000, case_timeout=10, hang=True, rule="convex hull of the exponents of a cyclic ternary polynomial")
def hull(case, ctx):
    d = case["d"]
    ms = set()
    for i, j in case["m"]:
        i, j = min(i, d), min(j, d)
        m = tuple(x + case["skirt"] for x in (i, j - i, d - j))
        ms |= {m, (m[1], m[2], m[0]), (m[2], m[0], m[1])}
    n = d + 3 * case["skirt"]
    P = sp.Poly.from_dict({m: sp.Integer(1) for m in ms}, *sp.symbols("a b c"))
    ctx.nontrivial(len(ms) > 3)
    got, verts = pt.convex_hull_poly(P)
    H = hull2([(m[0], m[1]) for m in ms])
    want = {(i, j, n - i - j): inside((i, j), H) for i in range(n + 1) for j in range(n + 1 - i)}
    ctx.require(set(got) == set(want), "monomials listed in the hull", "hull:keys")
    bad = sorted(m for m in want if bool(got[m]) != want[m])
    ctx.require(not bad, lambda: "monomials %s are misclassified in the hull of %s" % (bad, sorted(ms)), "hull:inside")
    wv = {(x, y, n - x - y) for x, y in H}
    ctx.require(set(verts) == wv, lambda: "vertices %s, expected %s" % (sorted(verts), sorted(wv)), "hull:vertices")
