"""C13: coefficient vectors represent polynomials faithfully."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup
from triples.utils import monomials as mm

from .. import evalx, gen
from ..core import Check

CHECK = Check("C13", rule="polynomials in 1-5 variables of degree 0-7, homogeneous or not, over Z, Q, algebraic and symbolic "
              "coefficients, with trivial, cyclic, symmetric or arbitrary permutation groups (polynomials symmetrised over "
              "the group); several degrees requested from one manager in random order. Oracle: brute-force enumeration of "
              "monomials and orbits. Non-trivial: at least two monomials with nonzero coefficients.")


@st.composite
def _case(draw):
    n = draw(st.integers(1, 5))
    hom = draw(st.booleans())
    d = draw(st.integers(0, {1: 12, 2: 10, 3: 8, 4: 7 if hom else 5, 5: 5 if hom else 3}[n]))
    kind = draw(st.sampled_from(["none", "cyc", "sym", "group", "group", "manager"]))
    g = draw(gen.named_group(n)) if kind in ("group", "manager") else None
    terms = draw(gen.hom_poly(n, d, 6, coef=gen.big_rats()) if hom else gen.poly(n, d, 6, coef=gen.big_rats()))
    return {"n": n, "d": d, "hom": hom, "kind": kind, "g": g, "terms": terms,
            "dom": draw(st.sampled_from(["auto", "auto", "QQ", "sqrt", "sym", "RR"])),
            "before": draw(st.lists(st.integers(0, min(d + 2, 5)), max_size=2)), "dmp": draw(st.booleans())}


def group_elements(case):
    n = case["n"]
    k = case["kind"]
    if k == "none" or (k == "manager" and case["g"] is None):
        return [tuple(range(n))]
    if k == "cyc":
        return [tuple((i + s) % n for i in range(n)) for s in range(n)]
    if k == "sym":
        return list(itertools.permutations(range(n)))
    return [tuple(p) for p in evalx.close_group([tuple(p) for p in case["g"]])]


def monos(n, d, hom):
    out = [()]
    for _ in range(n):
        out = [m + (k,) for m in out for k in range(d - sum(m) + 1)]
    return [m for m in out if sum(m) == d or not hom]


def act(m, p):
    return tuple(m[i] for i in p)


def options(case):
    o = {}
    k = case["kind"]
    if k in ("cyc", "sym"):
        o[k] = True
    elif k == "group":
        o["symmetry"] = PermutationGroup(*[Permutation(p) for p in case["g"]])
    elif k == "manager":
        o["symmetry"] = mm.MonomialManager(case["n"], PermutationGroup(*[Permutation(p) for p in case["g"]]), is_homogeneous=case["hom"])
    if k != "manager":
        o["hom"] = case["hom"]
    return o


EXTRA = {"auto": 1, "QQ": 1, "RR": 1, "sqrt": 1 + sp.sqrt(2), "sym": sp.Symbol("k")}


@CHECK.sub("vectors", _case, quick=2600, thorough=50000, shards=4, case_timeout=20, hang=True,
           rule="polynomial -> vector -> polynomial, slots and orbits")
def vectors(case, ctx):
    n, d, hom = case["n"], case["d"], case["hom"]
    els = group_elements(case)
    if len(els) > 120:
        ctx.skip("large group")
    syms = sp.symbols("x:%d" % n)
    k = EXTRA[case["dom"]]
    # symmetrised coefficients, and the raw terms
    raw = {}
    for c, e in case["terms"]:
        e = tuple(e)
        raw[e] = raw.get(e, 0) + gen.R(c)
    coef = {}
    for e, c in raw.items():
        for p in els:
            m = act(e, p)
            coef[m] = coef.get(m, 0) + c
    coef = {m: c * k for m, c in coef.items() if c != 0}
    if not coef:
        if hom and d > 0:
            ctx.skip("zero polynomial has no degree")
        coef = {(0,) * n: sp.Integer(0)}
    deg = max(sum(m) for m in coef)
    if hom:
        deg = d
    P = sp.Poly.from_dict(coef, *syms)
    if case["dom"] == "QQ":
        P = P.set_domain(sp.QQ)
    if case["dom"] == "RR":
        P = P.set_domain(sp.RR)
    if case["dom"] == "sqrt":
        P = sp.Poly.from_dict(coef, *syms, extension=True)
    ctx.nontrivial(sum(1 for c in coef.values() if c != 0) > 1)
    ctx.label(case["kind"], case["dom"], "hom" if hom else "inhom", "n%d" % n)

    o = options(case)
    manager = mm._parse_options(n, **options(case)) if hasattr(mm, "_parse_options") else None
    if manager is not None:
        for b in case["before"]:
            manager.inv_monoms(b)
    dic, inv = mm.generate_monoms(n, deg, **options(case))
    all_m = monos(n, deg, hom)
    reps = sorted({max(act(m, p) for p in els) for m in all_m}, reverse=True)
    ctx.require(list(inv) == reps, lambda: "monomials of degree %d are %s, expected %s" % (deg, inv, reps), "monoms")
    ctx.require(dict(dic) == {m: i for i, m in enumerate(reps)}, lambda: "index of monomials %s" % dic, "monoms:index")
    if manager is not None:
        ctx.require(manager.length(deg) == len(reps) and manager.order() == len(els), "length/order", "manager:length")
        ctx.require(manager.is_trivial == (len(els) == 1) and manager.is_homogeneous == hom, "flags", "manager:flags")
        for m in all_m:
            r = max(act(m, p) for p in els)
            ctx.require(manager.standard_monom(m) == r, lambda: "standard_monom(%s) = %s" % (m, manager.standard_monom(m)), "manager:standard")
            ctx.require(manager.is_standard_monom(m) == (m == r), lambda: "is_standard_monom(%s)" % (m,), "manager:standard")
            ctx.require((m in manager) == (m == r), lambda: "%s in manager" % (m,), "manager:contains")
            if sum(m) == deg:
                ctx.require(manager.index(m) == reps.index(r), lambda: "index(%s) = %s" % (m, manager.index(m)), "manager:index")
            ctx.require(sorted(manager.permute(m)) == sorted(act(m, p) for p in els), "permute(%s)" % (m,), "manager:permute")
    arg = P.rep if case["dmp"] else P
    want = [coef.get(m, 0) for m in reps]
    v = mm.arraylize_sp(arg, **o)
    ctx.require(v.shape == (len(reps), 1), lambda: "vector has shape %s, expected %d" % (v.shape, len(reps)), "sp:shape")
    tol = (lambda x: abs(x.n(20)) < 1e-6 * max(1, max(abs(sp.N(c)) for c in want))) if case["dom"] == "RR" else (lambda x: sp.expand(x) == 0)
    for m, got, w in zip(reps, v, want):
        ctx.require(tol(sp.sympify(got - w)), lambda: "slot of %s holds %s, coefficient is %s" % (m, got, w), "sp:value")
    if case["dom"] != "sym":
        u = mm.arraylize_np(arg, **options(case))
        ctx.require(isinstance(u, np.ndarray) and u.shape == (len(reps),), "numeric vector shape %s" % (u.shape,), "np:shape")
        for m, got, w in zip(reps, u, want):
            w = float(sp.N(w, 30))
            ctx.require(math.isclose(got, w, rel_tol=1e-12, abs_tol=1e-300) or (case["dom"] == "RR" and abs(got - w) <= 1e-6 * abs(w)),
                        lambda: "numeric slot of %s holds %r, coefficient is %r" % (m, got, w), "np:value")
        back = mm.invarraylize(u, syms, deg, **options(case))
        for m in all_m:
            a, b = sp.N(back.coeff_monomial(m)), sp.N(coef.get(m, 0))
            ctx.require(abs(a - b) <= 1e-9 * abs(b), lambda: "numeric round trip: coefficient of %s is %s, was %s" % (m, a, b), "np:roundtrip")
    for src in (v, list(v)):
        back = mm.invarraylize(src, syms, deg, **options(case))
        ctx.require(tuple(back.gens) == tuple(syms), "generators after round trip: %s" % (back.gens,), "roundtrip:gens")
        diff = {m: sp.sympify(back.coeff_monomial(m)) - coef.get(m, 0) for m in all_m}
        bad = [m for m in diff if not tol(sp.sympify(diff[m]))]
        ctx.require(not bad and back.total_degree() <= max(deg, 0), lambda: "round trip changes %s by %s" % (bad, [diff[m] for m in bad]), "roundtrip:value")
    # expand_cyc: the vector of the sum of the images of an arbitrary polynomial
    rawP = {m: c * k for m, c in raw.items() if c != 0}
    if rawP and max(sum(m) for m in rawP) == deg and case["dom"] != "RR":
        Q = sp.Poly.from_dict(rawP, *syms)
        w2 = mm.arraylize_sp(Q, expand_cyc=True, **options(case))
        for m, got, w in zip(reps, w2, want):
            ctx.require(sp.expand(got - w) == 0, lambda: "expand_cyc: slot of %s holds %s, cyclic sum has %s" % (m, got, w), "expand_cyc")
        if case["dom"] in ("auto", "QQ"):
            u2 = mm.arraylize_np(Q, expand_cyc=True, **options(case))
            ctx.require(all(math.isclose(a, float(w), rel_tol=1e-9, abs_tol=1e-12 * max(1, max(abs(float(x)) for x in rawP.values()))) for a, w in zip(u2, want)), "expand_cyc numeric", "expand_cyc:np")
        # permuting the full vector: one column per group element
        full = mm.arraylize_sp(Q, hom=hom)
        if manager is not None and len(all_m) * len(els) < 4000:
            cols = manager.permute_vec(full, deg)
            base = sorted(all_m, reverse=True)
            got = sorted((str([sp.expand(x) for x in cols[:, j]]) for j in range(cols.shape[1])))
            exp = sorted(str([sp.expand(rawP.get(act(m, p), sp.Integer(0))) for m in base]) for p in els)
            ctx.require(got == exp, lambda: "permuted vectors %s, expected %s" % (got, exp), "permute_vec")
            slot = {m: i for i, m in enumerate(base)}
            for m in rawP:
                for j, m2 in enumerate(manager.permute(m)):
                    ctx.require(sp.expand(cols[slot[tuple(m2)], j] - rawP[m]) == 0, lambda: "column %d of the permuted vectors does not hold the coefficient of %s at %s, its %d-th image" % (j, m, m2, j), "permute_vec:order")
            body = Q.as_expr()
            s = manager.cyclic_sum(body, syms)
            s = s.doit() if hasattr(s, "doit") else s
            w = sp.Poly.from_dict({m: c for m, c in coef.items()}, *syms).as_expr()
            ctx.require(sp.expand(s - w) == 0, lambda: "cyclic_sum(%s) = %s, expected %s" % (body, s, w), "cyclic_sum")


@CHECK.sub("managers", lambda: st.tuples(st.integers(1, 4), st.booleans(), st.booleans()).flatmap(lambda t: st.fixed_dictionaries({
    "n": st.just(t[0]), "h1": st.just(t[1]), "h2": st.just(t[2]), "g1": gen.named_group(t[0]), "g2": gen.named_group(t[0]), "wrong": gen.named_group(t[0] + 1)})),
           quick=500, thorough=5000, case_timeout=20, hang=True, rule="equality, hashing, copying and option checking of monomial managers")
def managers(case, ctx):
    n = case["n"]

    def G(g):
        return PermutationGroup(*[Permutation(p) for p in g])

    def els(g):
        return frozenset(tuple(p) for p in evalx.close_group([tuple(p) for p in g]))
    A = mm.MonomialManager(n, G(case["g1"]), is_homogeneous=case["h1"])
    B = mm.MonomialManager(n, G(case["g2"]), is_homogeneous=case["h2"])
    same = els(case["g1"]) == els(case["g2"]) and case["h1"] == case["h2"]
    ctx.nontrivial(len(els(case["g1"])) > 1)
    ctx.require(same or not A == B, lambda: "%s == %s is %s" % (A, B, A == B), "manager:eq")
    C = A.copy()
    ctx.require(C == A and hash(C) == hash(A) and C.is_homogeneous == case["h1"], "copy differs", "manager:copy")
    base = A.base()
    ctx.require(base.is_trivial and base.nvars == n and base.is_homogeneous == case["h1"] and not (A.order() > 1 and A.is_trivial), "base", "manager:base")
    ctx.require(A.order() == len(els(case["g1"])), "base() changed the manager", "manager:base")
    ctx.require(mm.MonomialManager(n, A).order() == A.order(), "manager built from a manager", "manager:from")
    D = mm.MonomialManager.from_perm_group(G(case["g1"]), is_homogeneous=case["h1"])
    ctx.require(D == A and D.nvars == n, "from_perm_group", "manager:from")
    ctx.require(ctx.raises(ValueError, mm.MonomialManager, n, G(case["wrong"])), "wrong group degree accepted", "manager:degree")
    x = sp.symbols("x:%d" % (n + 1))
    ctx.require(ctx.raises(ValueError, A.arraylize_sp, sp.Poly(sum(x), *x)), "wrong number of variables accepted", "manager:nvars")
    ctx.require(ctx.raises(ValueError, mm.arraylize_sp, sp.Poly(sum(x), *x), cyc=True, sym=True), "cyc and sym accepted", "options")
    ctx.require(ctx.raises(KeyError, mm.arraylize_sp, sp.Poly(sum(x), *x), cycle=True), "unknown option accepted", "options")
    ctx.require(ctx.raises(ValueError, mm.generate_monoms, n, 2, symmetry=G(case["g1"]), cyc=True), "symmetry and cyc accepted", "options")


@CHECK.sub("partitions", None, quick=0, enumerated=lambda tier: [[n, d] for n in range(0, 6) for d in range(0, 8) if n * d <= 24], case_timeout=30, hang=True,
           rule="all exponent tuples, for every arity and degree (exhaustive)")
def partitions(case, ctx):
    n, d = case
    ctx.nontrivial(n > 0)
    for eq in (False, True):
        got = mm.generate_partitions(n, d, equal=eq)
        want = monos(n, d, eq)
        ctx.require(sorted(got) == sorted(want), lambda: "partitions(%d,%d,%s): %d found, %d expected" % (n, d, eq, len(got), len(want)), "partitions")
