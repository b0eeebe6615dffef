"""C02: linear-programming certificates are exact identities with nonnegative rational weights."""
from hypothesis import strategies as st
import sympy as sp

from .. import cert, evalx, gen, ineq, prob
from ..core import Check

CHECK = Check("C02", rule="a polynomial problem with named inequality/equality constraints and solver options; if the linear solver "
              "answers, the certificate (names replaced by the constraints, cyclic sums evaluated from their definition) must equal the "
              "polynomial, numerator and denominator must be polynomials, and every weight must be a nonnegative rational. Non-trivial: "
              "a certificate was returned.")


def certificate(ctx, sol, target, syms, back, nonneg, zero, what):
    """Identity, shape and weights of an LP certificate."""
    e = sol.solution
    cert.check_certificate(ctx, e, target, syms, back, what)
    full = cert._expand_cyclic(e)
    num, den = sol.numerator, sol.multiplier
    for part, label in ((num, "numerator"), (den, "denominator")):
        x = cert._expand_cyclic(sp.sympify(part)).xreplace(back)
        # a squared factor removed from a constraint stays with its name: F >= 0 given for p**2 * g is used as F / p**2
        ctx.require(sp.sympify(x).is_rational_function(*syms), lambda: "%s: %s %s is not a rational expression" % (what, label, part), "shape")
    q = cert._expand_cyclic(num).xreplace(back) / cert._expand_cyclic(den).xreplace(back)
    d = evalx.differs(q, target, syms)
    ctx.require(not d, lambda: "%s: numerator over denominator differs from the problem: %s" % (what, d), "identity")
    for c in full.atoms(sp.Number):
        ctx.require(c.is_Rational, lambda: "%s: irrational or inexact coefficient %s in %s" % (what, c, e), "weights")
    # a constraint that stands for itself as a sum (1 - x) is merged with other summands by SymPy, so the weights are
    # only legible when the given names are symbols or functions (times a number)
    if all(isinstance(sp.sympify(x).as_coeff_Mul()[1], (sp.Symbol, sp.core.function.AppliedUndef)) for x in nonneg + zero):
        ctx.label("weights legible")
        ctx.require(ineq.visible(full, nonneg, zero=zero) and ineq.visible(cert._expand_cyclic(den), nonneg),
                    lambda: "%s: the certificate is not a nonnegative combination: %s" % (what, e), "weights")
    ctx.require(sol.is_equal is True, lambda: "%s: exact certificate not marked as equal" % what, "flag")


def _config(case):
    cfg = {}
    o = case["opts"]
    if o["preordering"]:
        cfg["preordering"] = o["preordering"]
    if o["qd"] is not None:
        cfg["quad_diff_order"] = o["qd"]
    cfg["lift_degree_limit"] = o["lift"]
    return cfg


def _opts():
    return st.fixed_dictionaries({"preordering": st.sampled_from([None, None, "linear", "none"]),
                                  "qd": st.sampled_from([None, None, 0, 2, 4]), "lift": st.sampled_from([0, 1, 2]),
                                  "sym": st.sampled_from([0, 0, 0, 1, 2]), "tan": st.integers(0, 3)})


def _lp_case():
    return st.tuples(prob.problem(ns=(1, 2, 2, 3, 3, 3, 4), degrees={1: 6, 2: 6, 3: 4, 4: 3}), _opts()).map(lambda t: dict(t[0], opts=t[1]))


def _tangents(case, P):
    """Squares offered as extra building blocks: members of the planted certificate."""
    out = []
    for c, use, q, pad in case["terms"][: case["opts"]["tan"]]:
        e = ineq.to_expr(ineq.from_terms(q), P.syms)
        if e.free_symbols:
            out.append(e**2)
    return out


@CHECK.sub("planted", _lp_case, quick=260, thorough=9000, shards=8, case_timeout=40,
           rule="sums of weighted products of constraints and squares plus multiples of equality constraints, 1-4 variables, homogeneous or "
                "not, invariant under a permutation group or not; random options, tangents and symmetry argument")
def planted(case, ctx):
    from triples.core.linsos import LinearSOS
    from sympy.combinatorics import Permutation, PermutationGroup
    P = prob.build(case)
    if not P.f or ineq.pdeg(P.f) == 0 and case["opts"]["sym"]:
        ctx.skip("degenerate")
    if P.n == 4 and len(P.g) > 5 and not case["hom"]:
        ctx.skip("too many products of constraints")
    f, g, h, back, nonneg, zero = prob.pose(P)
    cfg = _config(case)
    tans = _tangents(case, P)
    if tans:
        cfg["tangents"] = tans
    if case["opts"]["sym"]:
        els = P.els if case["opts"]["sym"] == 1 else [tuple(range(P.n))]
        cfg["symmetry"] = PermutationGroup(*[Permutation(list(x)) for x in els])
        if not isinstance(f, sp.Poly):
            f = sp.Poly(f, *P.syms)         # a symmetry argument refers to an order of the variables
    sol = LinearSOS(f, g, h, **cfg)
    ctx.label("n%d" % P.n, "hom" if case["hom"] else "nonhom", "group:" + case["group"], "naming:" + case["naming"])
    if P.h:
        ctx.label("equalities")
    if sol is None:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    ctx.label("answered", "answered n%d" % P.n)
    if sp.fraction(sp.together(sol.solution))[1].free_symbols:
        ctx.label("multiplier used")
    certificate(ctx, sol, prob.target(P), P.syms, back, nonneg, zero, "LinearSOS")


def _doc_case():
    return st.fixed_dictionaries({"i": st.integers(0, ineq.n_corpus() - 1), "muts": st.lists(ineq.mutation(), max_size=2),
                                  "names": st.sampled_from([0, 0, 1, 2, 5, 8]),
                                  "con": st.sampled_from(["self", "self", "func", "sym", "scaled", "cubed", "missing", "none"]),
                                  "lift": st.sampled_from([0, 1, 2]), "preordering": st.sampled_from(["linear", "linear", "none"])})


@CHECK.sub("documented", _doc_case, quick=220, thorough=8000, shards=8, case_timeout=40,
           rule="a documented inequality of degree at most six, possibly mutated, over the orthant (or part of it), with named constraints")
def documented(case, ctx):
    from triples.core.linsos import LinearSOS
    n, p = ineq.corpus_poly(case["i"])
    p = ineq.mutate(n, p, case["muts"], max_degree=6)
    if not p or ineq.pdeg(p) > (6 if n == 3 else 4) or any(not c.is_Rational for c in p.values()):
        ctx.skip("out of range")
    syms = cert.names(case["names"], n)
    con, back = cert.constraints(case["con"], syms)
    target = ineq.to_poly(p, syms)
    sol = LinearSOS(target, con, lift_degree_limit=case["lift"], preordering=case["preordering"])
    ctx.label("con:" + case["con"], "deg%d" % ineq.pdeg(p))
    if sol is None:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    if sp.fraction(sp.together(sol.solution))[1].free_symbols:
        ctx.label("multiplier used")
    certificate(ctx, sol, target.as_expr(), syms, back, list(con.values()), [], "LinearSOS")


# ---------------------------------------------------------------- the two internal stages, driven directly
@st.composite
def _assembly_case(draw):
    n = draw(st.integers(2, 4))
    nt = draw(st.integers(1, 6))
    kinds = st.sampled_from(["one", "G", "G", "G2", "GG", "sq", "Gsq", "H", "Hq", "H2", "neg", "rat", "C", "C", "Cq", "N", "Nq"])
    blocks = [[draw(st.one_of(st.integers(1, 9), gen.rats(9, 9, nonzero=True))), draw(kinds), draw(st.integers(0, 9)), draw(st.integers(0, 9)),
               draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), draw(st.booleans())] for _ in range(nt)]
    mult = draw(st.lists(st.tuples(st.integers(1, 6), st.sampled_from(["one", "G", "GG", "sq"]), st.integers(0, 9)).map(list), min_size=1, max_size=3))
    return {"n": n, "group": draw(st.sampled_from(["id", "cyc", "sym", "part"])), "blocks": blocks, "mult": mult,
            "collect": draw(st.sampled_from([True, True, True, False])), "dup": draw(st.integers(0, 8)) == 0}


@CHECK.sub("assembly", _assembly_case, quick=700, thorough=30000, shards=4, case_timeout=30,
           rule="weights and building blocks (constraints, their products and squares, equality constraints, even-power blocks, multipliers) "
                "chosen at random are assembled into an expression, which must equal the weighted sum over the symmetry group divided by "
                "the multiplier. Non-trivial: at least two blocks share a factor")
def assembly(case, ctx):
    from sympy.combinatorics import Permutation, PermutationGroup
    make = ctx.helper("triples.core.linsos.solution", "SolutionLinear")
    T = ctx.helper("triples.core.linsos.basis", "LinearBasisTangent")
    E = ctx.helper("triples.core.linsos.basis", "LinearBasisExpr")
    M = ctx.helper("triples.core.linsos.updegree", "LinearBasisMultiplier")
    MM = ctx.helper("triples.utils.monomials", "MonomialManager")
    if not hasattr(make, "_from_y_basis") or not hasattr(M, "from_expr"):
        ctx.skip("helper gone")
    n = case["n"]
    syms = cert.names(0, n)
    els = ineq.group_elements(case["group"], n)
    sym = MM(n, PermutationGroup(*[Permutation(list(g)) for g in els]))
    G, G1, H = sp.Function("_G0"), sp.Function("_G1"), sp.Function("_H0")
    s1 = sp.Add(*syms)
    gval = {G(s): sp.Integer(2) * s + 3 * s1 for s in syms}
    gval.update({G1(*[syms[g[i]] for i in range(n)]): sum((i + 1) * syms[g[i]] for i in range(n)) for g in els})
    hval = {H(*syms): sp.Add(*[s**2 for s in syms]) - syms[0] * syms[-1] if case["group"] in ("id",) else sp.Add(*[s**2 for s in syms]) - s1**2}
    ine = {sp.Poly(v, *syms): k for k, v in gval.items()}
    eqs = {sp.Poly(v, *syms): k for k, v in hval.items()}
    # an equality constraint that is cyclic and one without symmetry: one name for every distinct image
    H1, H2 = sp.Function("_H1"), sp.Function("_H2")
    cval = {H1: sum(syms[i]**2 * syms[(i + 1) % n] for i in range(n)), H2: syms[0] - 2 * syms[1]}
    images = {}
    for F, v in cval.items():
        for g in els:
            w = [syms[g[i]] for i in range(n)]
            e = v.xreplace(dict(zip(syms, w)))
            images[F(*w)] = e
            eqs.setdefault(sp.Poly(e, *syms), F(*w))
    if case["dup"]:
        ine[sp.Poly(sp.expand(s1**3), *syms)] = G(syms[0])
    gl = [k for k in gval]
    h = H(*syms)

    def factor(kind, i, j):
        g, g2 = gl[i % len(gl)], gl[j % len(gl)]
        q = syms[i % n] - (j % 3 + 1) * syms[j % n]
        return {"one": sp.Integer(1), "G": g, "G2": g**2, "GG": g * g2, "sq": q**2, "Gsq": g * q**2, "H": h, "Hq": h * q, "H2": h**2,
                "neg": -g, "rat": sp.Rational(j + 1, i + 1) * g, "C": eqs[sp.Poly(cval[H1], *syms)], "Cq": eqs[sp.Poly(cval[H1], *syms)] * q,
                "N": eqs[sp.Poly(cval[H2], *syms)], "Nq": eqs[sp.Poly(cval[H2], *syms)] * q}[kind]
    mults = [(sp.Integer(v), factor(k, i, i + 1)) for v, k, i in case["mult"]]
    y, basis, want = [], [], []
    for v, kind, i, j, powers, plain in case["blocks"]:
        v, fac = abs(gen.R(v)), factor(kind, i, j)
        mono = sp.Mul(*[s**k for s, k in zip(syms, powers)])
        y.append(v)
        basis.append(E(fac * mono, tuple(syms)) if plain else T(tuple(powers), fac, tuple(syms)))
        want.append(v * fac * mono)
    problem = sp.Poly(s1, *syms)
    for v, m in mults:
        y.append(v)
        basis.append(M.from_expr(problem, m))
    sol = make._from_y_basis(problem=problem, y=list(y), basis=list(basis), symmetry=sym, ineq_constraints=ine, eq_constraints=eqs, collect=case["collect"])

    def over(es):
        return sp.Add(*[e.xreplace({syms[i]: syms[g[i]] for i in range(n)}) for e in es for g in els])
    back = {**gval, **images, **{H(*[syms[g[i]] for i in range(n)]): hval[h].xreplace({syms[i]: syms[g[i]] for i in range(n)}) for g in els}}
    expect = over(want).xreplace(back) / over([v * m for v, m in mults]).xreplace(back)
    got = cert._expand_cyclic(sol.solution)
    left = {x for x in got.atoms(sp.core.function.AppliedUndef) if x not in back}
    ctx.require(not left, lambda: "unknown names %s in %s" % (left, sol.solution), "assembly:names")
    ctx.nontrivial(len(case["blocks"]) >= 2)
    ctx.label(*("block:" + b[1] for b in case["blocks"]))
    d = evalx.differs(got.xreplace(back), expect, syms)
    ctx.require(not d, lambda: "assembled %s instead of the sum over %s of %s divided by %s: %s" % (sol.solution, els, want, mults, d), "assembly")
    # collecting terms must not turn nonnegative weights into negative ones
    if all(b[1] != "neg" for b in case["blocks"]) and not any(b[1] in ("Hq", "Cq", "Nq") for b in case["blocks"]):
        ctx.require(ineq.visible(got, list(gval) + syms, zero=[x for x in back if x.func in (H, H1, H2)]), lambda: "assembled %s is not a nonnegative combination" % sol.solution, "assembly:weights")


@st.composite
def _correction_case(draw):
    n = draw(st.integers(2, 3))
    d = draw(st.integers(1, 4 if n == 2 else 3))
    k = draw(st.integers(1, 6))
    w = st.one_of(st.integers(0, 5), gen.rats(9, 7), st.tuples(st.integers(1, 400), st.integers(50, 700)).map(list))
    return {"n": n, "d": d, "group": draw(st.sampled_from(["id", "cyc", "sym"])),
            "blocks": [[draw(w), draw(gen.hom_exponents(n, d)), draw(gen.hom_exponents(n, d))] for _ in range(k)],
            "noise": draw(st.sampled_from([0, 0, 1, 3, 7])), "extra": draw(st.lists(gen.hom_exponents(n, d), max_size=3)),
            "break": draw(st.integers(0, 3))}


@CHECK.sub("correction", _correction_case, quick=400, thorough=15000, shards=4, case_timeout=30,
           rule="an exact combination of building blocks is perturbed numerically; if the rational correction claims equality, the corrected "
                "nonnegative weights must satisfy the identity exactly. Non-trivial: correction claimed equality after noise or with "
                "redundant blocks")
def correction(case, ctx):
    from sympy.combinatorics import Permutation, PermutationGroup
    linear_correction = ctx.helper("triples.core.linsos.correction", "linear_correction")
    T = ctx.helper("triples.core.linsos.basis", "LinearBasisTangent")
    M = ctx.helper("triples.core.linsos.updegree", "LinearBasisMultiplier")
    MM = ctx.helper("triples.utils.monomials", "MonomialManager")
    n, d = case["n"], case["d"]
    syms = cert.names(0, n)
    els = ineq.group_elements(case["group"], n)
    sym = MM(n, PermutationGroup(*[Permutation(list(g)) for g in els]))
    basis, y, f = [], [], {}
    for w, e1, e2 in case["blocks"]:
        w = abs(gen.R(w))
        q = ineq.padd({tuple(e1): sp.Integer(1)}, {tuple(e2): sp.Integer(-1)})
        q = ineq.pmul(q, q) if q else {tuple(2 * x for x in e1): sp.Integer(1)}
        y.append(float(w) * (1 + case["noise"] * 1e-10))
        basis.append(T((0,) * n, ineq.to_expr(q, syms), tuple(syms)))
        f = ineq.padd(f, ineq.pscale(q, w))
    for e in case["extra"]:
        basis.append(T(tuple(2 * x for x in e), sp.Integer(1), tuple(syms)))
        y.append(case["noise"] * 1e-11)
    if not f:
        ctx.skip("zero")
    if case["break"] == 1:
        f = ineq.padd(f, {next(iter(f)): sp.Rational(1, 10**9)})
    f = ineq.pscale(ineq.pcyc(f, els), sp.Rational(1, len(els)))
    if not f:
        ctx.skip("zero")
    basis.append(M.from_expr(ineq.to_poly(f, syms), sp.Integer(1)))
    y.append(1.0)
    import numpy as np
    got = linear_correction(np.array(y), basis, num_multipliers=1, symmetry=sym)
    ny, nb, eq = got
    if not eq:
        ctx.label("not claimed")
        return
    ctx.nontrivial(bool(case["noise"] or case["extra"]))
    ctx.label("claimed")
    ny = [sp.sympify(v) for v in ny]
    ctx.require(len(ny) == len(nb), "weights and blocks differ in number", "correction")
    ctx.require(all(v.is_Rational and v >= 0 for v in ny), lambda: "weights %s" % ny, "correction:sign")
    tot = {}
    mult = sp.Integer(0)
    for v, b in zip(ny, nb):
        if isinstance(b, M):
            mult += v
            p = ineq.pscale(f, -v) if v else {}
        else:
            p = {tuple(m): sp.sympify(c) for m, c in sp.Poly(b.as_expr(tuple(syms)), *syms).terms() if c}
            p = ineq.pscale(p, v)
        tot = ineq.padd(tot, ineq.pcyc(p, els) if p else {})
    ctx.require(not tot and mult == 1, lambda: "claimed identity is off by %s (multiplier weight %s)" % (tot, mult), "correction")


@st.composite
def signs_case(draw):
    D = draw(st.integers(2, 5))
    nm = draw(st.integers(1, 3))
    k = D + 2 - nm          # one unknown for every coefficient and one for the sum of the multipliers
    w = st.one_of(st.integers(0, 5), st.integers(1, 9), gen.rats(9, 7), st.integers(-3, 5))
    return {"D": D, "nm": nm, "y": [draw(w) for _ in range(k - 1)], "z": [draw(st.one_of(st.integers(1, 6), st.integers(-4, 6))) for _ in range(nm)],
            "B": [draw(gen.hom_poly(2, D, 4, coef=st.integers(-4, 4), min_terms=1)) for _ in range(k - 1)],
            "f": draw(gen.hom_poly(2, D - 1, 3, coef=st.integers(-4, 4), min_terms=1)),
            "m": [draw(st.lists(st.integers(0, 4), min_size=2, max_size=2)) for _ in range(nm)], "last": draw(st.integers(1, 4)),
            "noise": [draw(st.sampled_from([0, 1, -1, 2])) for _ in range(k + nm)]}


def correction_signs(case, ctx):
    """linear_correction on a square system whose only exact solution is known and need not be nonnegative"""
    import numpy as np
    from sympy.combinatorics import Permutation, PermutationGroup
    linear_correction = ctx.helper("triples.core.linsos.correction", "linear_correction")
    T = ctx.helper("triples.core.linsos.basis", "LinearBasisTangent")
    M = ctx.helper("triples.core.linsos.updegree", "LinearBasisMultiplier")
    MM = ctx.helper("triples.utils.monomials", "MonomialManager")
    syms = cert.names(0, 2)

    def pol(t):
        p = {}
        for c, e in t:
            p = ineq.padd(p, {tuple(e): sp.Integer(c)})
        return p
    f = pol(case["f"]) or {(case["D"] - 1, 0): sp.Integer(1)}
    tot = sum(case["z"])
    if not f or tot == 0:
        ctx.skip("zero")
    z = [sp.Rational(v, tot) for v in case["z"]]
    ms = [{k: sp.Integer(v) for k, v in zip([(1, 0), (0, 1)], m) if v} or {(1, 0): sp.Integer(1)} for m in case["m"]]
    y = [gen.R(v) for v in case["y"]]
    rest = {}
    for v, m in zip(z, ms):
        rest = ineq.padd(rest, ineq.pscale(ineq.pmul(f, m), v) if m and v else {})
    Bs = [pol(b) or {(i % (case["D"] + 1), case["D"] - i % (case["D"] + 1)): sp.Integer(1)} for i, b in enumerate(case["B"])]
    for v, b in zip(y, Bs):
        rest = ineq.padd(rest, ineq.pscale(b, -v) if b and v else {})
    y.append(sp.Integer(case["last"]))
    Bs.append(ineq.pscale(rest, sp.Rational(1, case["last"])) if rest else {})
    if not all(Bs) or not all(ms):
        ctx.skip("zero block")
    basis = [T((0, 0), ineq.to_expr(b, syms), tuple(syms)) for b in Bs] + [M.from_expr(ineq.to_poly(f, syms), ineq.to_expr(m, syms)) for m in ms]
    guess = [float(abs(v)) + e * 1e-3 for v, e in zip(y + z, case["noise"])]
    if not any(guess):
        ctx.skip("zero")
    ny, nb, eq = linear_correction(np.array(guess), basis, num_multipliers=len(ms), symmetry=MM(2, PermutationGroup(Permutation(list(range(2))))))
    negative = any(v < 0 for v in y + z)
    ctx.label("negative solution" if negative else "nonnegative solution", "claimed" if eq else "not claimed")
    ctx.nontrivial(bool(eq) or negative)
    if not eq:
        return
    ny = [sp.sympify(v) for v in ny]
    ctx.require(len(ny) == len(nb) and all(v.is_Rational and v >= 0 for v in ny), lambda: "claimed exact with weights %s of %s" % (ny, [b.as_expr(syms) for b in nb]), "correction:sign")
    total, mult = {}, sp.Integer(0)
    for v, b in zip(ny, nb):
        if isinstance(b, M):
            mult += v
        p = {tuple(m): sp.sympify(c) for m, c in b.as_poly(tuple(syms)).terms() if c}
        total = ineq.padd(total, ineq.pscale(p, v) if v and p else {})
    ctx.require(not total and mult == 1, lambda: "claimed identity is off by %s (multiplier weight %s)" % (total, mult), "correction")


CHECK.sub("signs", signs_case, quick=1500, thorough=30000, shards=2, case_timeout=20,
          rule="a linear system with one exact solution, known and possibly with negative weights, started from a wrong numerical guess: a claimed "
               "correction must have nonnegative weights and be exact. Non-trivial: claimed, or the exact solution has a negative weight")(correction_signs)
