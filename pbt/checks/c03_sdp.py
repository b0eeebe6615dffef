"""C03: semidefinite-programming certificates are exact identities with exactly positive semidefinite Gram matrices."""
from hypothesis import strategies as st
import sympy as sp

from .. import cert, evalx, gen, ineq, lin, prob
from ..core import Check
from .c02_linear import certificate

CHECK = Check("C03", rule="a polynomial problem with named inequality/equality constraints and solver options; if the semidefinite solver "
              "answers, the certificate (names replaced by the constraints, cyclic sums evaluated from their definition) must equal the "
              "polynomial, be built from nonnegative rational weights, squares and constraints, and come from Gram matrices that are exactly "
              "positive semidefinite. Non-trivial: a certificate was returned.")

SOLVERS = [None, None, None, "cvxopt", "picos"]


def _opts():
    return st.fixed_dictionaries({"pre": st.sampled_from([None, None, "linear", "none", "linear-progressive"]),
                                  "trivial": st.sampled_from([True, True, True, False]), "sym": st.sampled_from([0, 0, 0, 1, 2])})


def _case():
    return st.tuples(prob.problem(ns=(1, 2, 2, 3, 3, 3, 4), degrees={1: 6, 2: 6, 3: 4, 4: 3}), _opts()).map(lambda t: dict(t[0], opts=t[1]))


def _config(o):
    cfg = {"ineq_constraints_with_trivial": o["trivial"]}
    if o["pre"]:
        cfg["preordering"] = o["pre"]
    return cfg


def _group(els):
    from sympy.combinatorics import Permutation, PermutationGroup
    return PermutationGroup(*[Permutation(list(x)) for x in els])


@CHECK.sub("planted", _case, quick=1000, thorough=12000, shards=8, case_timeout=40,
           rule="sums of weighted products of constraints and squares plus multiples of equality constraints, 1-4 variables, homogeneous or "
                "not, invariant under a permutation group or not; random preordering, trivial-constraint and symmetry options")
def planted(case, ctx):
    from triples.core.sdpsos import SDPSOS
    P = prob.build(case)
    if not P.f or ineq.pdeg(P.f) == 0 and case["opts"]["sym"]:
        ctx.skip("degenerate")
    if P.n == 4 and len(P.g) > 5 and not case["hom"]:
        ctx.skip("too many products of constraints")
    f, g, h, back, nonneg, zero = prob.pose(P)
    cfg = _config(case["opts"])
    if case["opts"]["sym"]:
        cfg["symmetry"] = _group(P.els if case["opts"]["sym"] == 1 else [tuple(range(P.n))])
        if not isinstance(f, sp.Poly):
            f = sp.Poly(f, *P.syms)
    sol = SDPSOS(f, g, h, **cfg)
    ctx.label("n%d" % P.n, "hom" if case["hom"] else "nonhom", "group:" + case["group"], "naming:" + case["naming"])
    if P.h:
        ctx.label("equalities")
    if sol is None:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    ctx.label("answered n%d" % P.n)
    certificate(ctx, sol, prob.target(P), P.syms, back, nonneg, zero, "SDPSOS")


def _doc_case():
    return st.fixed_dictionaries({"i": st.integers(0, ineq.n_corpus() - 1), "muts": st.lists(ineq.mutation(), max_size=2),
                                  "names": st.sampled_from([0, 0, 1, 2, 5, 8]),
                                  "con": st.sampled_from(["none", "none", "self", "func", "sym", "scaled", "cubed", "missing"]),
                                  "opts": _opts()})


@CHECK.sub("documented", _doc_case, quick=350, thorough=8000, shards=8, case_timeout=60,
           rule="a documented inequality of degree at most eight, possibly mutated, over the reals or (part of) the orthant, with named "
                "constraints. Many have irrational or multiple zeros")
def documented(case, ctx):
    from triples.core.sdpsos import SDPSOS
    n, p = ineq.corpus_poly(case["i"])
    p = ineq.mutate(n, p, case["muts"], max_degree=8)
    if not p or ineq.pdeg(p) > (8 if n == 3 else 4) or any(not c.is_Rational for c in p.values()):
        ctx.skip("out of range")
    if case["con"] != "none" and ineq.pdeg(p) > (6 if n == 3 else 3):
        ctx.skip("out of range")
    syms = cert.names(case["names"], n)
    con, back = cert.constraints(case["con"], syms)
    target = ineq.to_poly(p, syms)
    cfg = _config(case["opts"])
    if case["opts"]["sym"] == 2:
        cfg["symmetry"] = _group([tuple(range(n))])
    sol = SDPSOS(target, con, **cfg)
    ctx.label("con:" + case["con"], "deg%d" % ineq.pdeg(p))
    if sol is None:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    certificate(ctx, sol, target.as_expr(), syms, back, list(con.values()), [], "SDPSOS")


# ---------------------------------------------------------------- the documented lower-level interface
@st.composite
def _gram_case(draw):
    c = draw(prob.problem(ns=(1, 2, 2, 3, 3, 3, 4), degrees={1: 6, 2: 6, 3: 6, 4: 4}, hom=True))
    c["opts"] = draw(_opts())
    c["solver"] = draw(st.sampled_from(SOLVERS))
    c["deparam"] = draw(st.booleans())
    c["again"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["obj"] = draw(st.integers(0, 3))
    c["eig"] = draw(st.sampled_from([0, 0, 0, -1, 1]))
    c["products"] = draw(st.lists(st.lists(st.integers(0, 5), min_size=1, max_size=2), max_size=3))
    return c


def _gram_value(S, monos, n):
    """The polynomial m' S m as a dictionary."""
    out = {}
    for i, m in enumerate(monos):
        for j, k in enumerate(monos):
            v = S[i, j]
            if v:
                e = tuple(x + y for x, y in zip(m, k))
                out[e] = out.get(e, 0) + v
    return {e: v for e, v in out.items() if v}


def _monos(n, d):
    """All monomials of degree d in the documented order (descending lexicographic)."""
    if n == 1:
        return [(d,)]
    return [(i,) + r for i in range(d, -1, -1) for r in _monos(n - 1, d - i)]


@CHECK.sub("gram", _gram_case, quick=600, thorough=12000, shards=8, case_timeout=40,
           rule="SOSProblem(...).construct(...).solve(...) on homogeneous problems with chosen generators (constraints and their products), "
                "symmetry, deparametrisation, back end and objective: the rational Gram matrices are symmetric, positive semidefinite, equal "
                "to their stored decompositions and reproduce the polynomial; as_solution is an identity")
def gram(case, ctx):
    from triples.core.sdpsos import SOSProblem
    P = prob.build(case)
    if not P.f:
        ctx.skip("degenerate")
    n, d, syms = P.n, ineq.pdeg(P.f), P.syms
    els = P.els if case["opts"]["sym"] != 2 else [tuple(range(n))]
    gens = [ineq.pconst(1, n)] if case["opts"]["trivial"] or not P.g else []
    pairs = [[i, j] for i in range(len(P.g)) for j in range(i, len(P.g))] if len(P.g) <= 3 and case["products"] else []
    for idx in case["products"] + pairs + [[i] for i in range(len(P.g))]:
        q = ineq.pconst(1, n)
        for i in idx:
            if P.g:
                q = ineq.pmul(q, P.g[i % len(P.g)])
        if ineq.pdeg(q) <= d and (d - ineq.pdeg(q)) % 2 == 0 and q not in gens:
            gens.append(q)
    eqs = [q for q in P.h if ineq.pdeg(q) <= d]
    if not gens:
        ctx.skip("no generator of matching parity")
    gpolys = [ineq.to_poly(q, syms) for q in gens]
    hpolys = [ineq.to_poly(q, syms) for q in eqs]
    poly = ineq.to_poly(P.f, syms)
    pb = SOSProblem(poly, symmetry=_group(els))
    ok = None
    try:
        pb.construct(gpolys, hpolys, deparametrize=case["deparam"])
        kw = {}
        if case["obj"]:
            import numpy as np
            kw["objective"] = np.array([float((i * case["obj"] + 1) % 5 - 2) for i in range(pb.sdp.dof)])
            kw["constraints"] = []
            kw["min_eigen"] = {0: 0, -1: 0.0, 1: 1e-4}[case["eig"]]
            kw["use_default_configs"] = 2 if case["eig"] else 1
        ok = pb.solve(solver=case["solver"], **kw)
    except (ValueError, RuntimeError) as e:
        # the linear equations for the Gram matrices have no solution, or no rational point was found
        ctx.label("refused: %s" % type(e).__name__)
        return
    if not ok:
        ctx.label("no answer")
        return
    ctx.nontrivial()
    ctx.label("n%d" % n, "deg%d" % d, "group:" + case["group"], "solver:%s" % case["solver"], "generators:%d" % len(gens))
    if eqs:
        ctx.label("equalities")
    root = pb._sdp if hasattr(pb, "_sdp") else pb.sdp
    total = {}
    names = list(root.S)
    ctx.require(len(names) == len(gens), lambda: "Gram matrices for %s, generators %s" % (names, gens), "gram:keys")
    for key, q in zip(gpolys, gens):
        S = root.S[key]
        A = lin.from_sympy(S)
        monos = _monos(n, (d - ineq.pdeg(q)) // 2)
        ctx.require(S.shape == (len(monos), len(monos)), lambda: "Gram matrix of %s has shape %s" % (q, S.shape), "gram:shape")
        ctx.require(all(v.is_Rational for v in S), lambda: "inexact Gram matrix %s" % S, "gram:exact")
        ctx.require(lin.is_psd(A), lambda: "Gram matrix of %s is not positive semidefinite: %s" % (q, S.tolist()), "gram:psd")
        U, D = root.decompositions[key]
        D = list(D)
        ctx.require(all(sp.sympify(v).is_Rational and v >= 0 for v in D), lambda: "negative pivot in %s" % D, "gram:decomposition")
        ctx.require((U.T * sp.diag(*D) * U - S).is_zero_matrix if len(D) else S.is_zero_matrix,
                    lambda: "decomposition %s, %s is not %s" % (U.tolist(), D, S.tolist()), "gram:decomposition")
        total = ineq.padd(total, ineq.pmul(_gram_value(S, monos, n), q))
    total = ineq.pcyc(total, els)
    if not eqs:
        ctx.require(ineq.padd(total, ineq.pscale(P.f, -1)) == {}, lambda: "the Gram matrices represent %s instead of %s" % (total, P.f), "gram:identity")
    sol = pb.as_solution()
    for k in range(case["again"]):
        sol = pb.as_solution(y=pb.sdp.y) if k else pb.as_solution()
    ctx.require(sol is not None, "solved problem has no solution object", "gram:solution")
    certificate(ctx, sol, poly.as_expr(), syms, {}, list(map(lambda q: ineq.to_expr(q, syms), gens + P.g)), [ineq.to_expr(q, syms) for q in eqs], "as_solution")


# ---------------------------------------------------------------- from decompositions to expressions
@st.composite
def _dec_case(draw):
    n = draw(st.integers(1, 4))
    d = draw(st.integers(1, {1: 6, 2: 6, 3: 5, 4: 4}[n]))
    kinds = ["one", "var", "prod", "quad", "cube"]
    mats = []
    for _ in range(draw(st.integers(1, 3))):
        mats.append([draw(st.sampled_from(kinds)), draw(st.lists(st.lists(st.integers(-3, 3), min_size=1, max_size=8), min_size=0, max_size=3)),
                     draw(st.lists(st.one_of(gen.rats(9, 9), st.integers(0, 4)), min_size=3, max_size=3)), draw(st.integers(0, 3))])
    eqs = [[draw(st.sampled_from(["sum", "sphere", "prod"])), draw(st.lists(gen.rats(5, 4), min_size=1, max_size=6))] for _ in range(draw(st.integers(0, 2)))]
    return {"n": n, "d": d, "group": draw(st.sampled_from(prob.GROUPS[n])), "mats": mats, "eqs": eqs,
            "named": draw(st.booleans()), "names": draw(st.sampled_from([0, 0, 1, 2, 5]))}


@CHECK.sub("assembly", _dec_case, quick=1500, thorough=30000, shards=8, case_timeout=30,
           rule="arbitrary decompositions (rows and nonnegative weights per generator) and equality multipliers are turned into an expression, "
                "which must equal the sum over the symmetry group of weight * generator * row-form squared. Non-trivial: some nonzero row")
def assembly(case, ctx):
    make = ctx.helper("triples.core.sdpsos.solution", "SolutionSDP")
    MM = ctx.helper("triples.utils.monomials", "MonomialManager")
    if not hasattr(make, "from_decompositions"):
        ctx.skip("helper gone")
    n, d = case["n"], case["d"]
    syms = cert.names(case["names"], n)
    els = ineq.group_elements(case["group"], n)
    sym = MM(n, _group(els))
    dec, ine, eqd, eqv, back = {}, {}, {}, {}, {}
    total = {}
    nonneg, zero = [], []
    for kind, rows, ws, i in case["mats"]:
        q = {"one": ineq.pconst(1, n), "var": ineq.pvar(i % n, n), "prod": ineq.pmul(ineq.pvar(i % n, n), ineq.pvar(0, n)),
             "quad": ineq.padd(ineq.ppow(ineq.pvar(i % n, n), 2, n), ineq.pscale(ineq.pmul(ineq.pvar(0, n), ineq.pvar(n - 1, n)), 2)),
             "cube": ineq.ppow(ineq.pvar(i % n, n), 3, n)}[kind]
        r = d - ineq.pdeg(q)
        if r < 0 or r % 2 or ineq.to_poly(q, syms) in dec:
            continue
        monos = _monos(n, r // 2)
        U = sp.zeros(len(rows), len(monos))
        for a, row in enumerate(rows):
            for b, m in enumerate(monos):
                U[a, b] = row[b % len(row)] if b < 2 * len(row) else 0
        D = [abs(gen.R(w)) for w in ws[: len(rows)]]
        for a in range(len(rows)):
            form = {m: U[a, b] for b, m in enumerate(monos) if U[a, b]}
            if form:
                total = ineq.padd(total, ineq.pscale(ineq.pmul(ineq.pmul(form, form), q), D[a]))
        key = ineq.to_poly(q, syms)
        dec[key] = (U, sp.Matrix(D) if len(D) else sp.zeros(0, 1))
        name = sp.Function("G")(sp.Integer(len(dec)), *syms) if case["named"] else key.as_expr()
        ine[key] = name
        if case["named"]:
            back[name] = key.as_expr()
            # a name stands for one constraint: its images under the group are the images of the constraint
            for g in els:
                back[name.xreplace({syms[k]: syms[g[k]] for k in range(n)})] = key.as_expr().xreplace({syms[k]: syms[g[k]] for k in range(n)})
        nonneg.append(name)
    for kind, vec in case["eqs"]:
        q = {"sum": ineq.padd(*[ineq.pvar(i, n) for i in range(n)]), "sphere": ineq.padd(*[ineq.ppow(ineq.pvar(i, n), 2, n) for i in range(n)]),
             "prod": {(1,) * n: sp.Integer(1)}}[kind]
        r = d - ineq.pdeg(q)
        key = ineq.to_poly(q, syms)
        if r < 0 or key in eqv:
            continue
        monos = _monos(n, r)
        v = [gen.R(vec[i % len(vec)]) for i in range(len(monos))]
        eqv[key] = sp.Matrix(v)
        name = sp.Function("H")(sp.Integer(len(eqv)), *syms) if case["named"] else key.as_expr()
        eqd[key] = name
        if case["named"]:
            for g in els:
                back[name.xreplace({syms[k]: syms[g[k]] for k in range(n)})] = key.as_expr()
        zero.append(name)
        total = ineq.padd(total, ineq.pmul({m: c for m, c in zip(monos, v) if c}, q))
    if not dec and not eqv:
        ctx.skip("no generator of matching parity")
    total = ineq.pcyc(total, els) if total else {}
    # the polynomial only provides degree and generators
    poly = ineq.to_poly({m: sp.Integer(1) for m in _monos(n, d)[:1]}, syms)
    sol = make.from_decompositions(poly, dec, eqv, sym, ineq_constraints=ine, eq_constraints=eqd)
    ctx.nontrivial(bool(total))
    ctx.label("n%d" % n, "group:" + case["group"], "named" if case["named"] else "self", "equalities" if eqv else "no equalities")
    got = cert._expand_cyclic(sol.solution)
    diff = evalx.differs(got.xreplace(back), ineq.to_expr(total, syms) if total else sp.Integer(0), syms)
    ctx.require(not diff, lambda: "assembled %s differs from the Gram forms: %s" % (sol.solution, diff), "assembly")
    if case["named"]:
        allow = [x for x in back if x.func.__name__ == "G"]
        ctx.require(ineq.visible(got, allow, zero=[x for x in back if x.func.__name__ == "H"]), lambda: "assembled %s is not a nonnegative combination" % sol.solution, "assembly:weights")
