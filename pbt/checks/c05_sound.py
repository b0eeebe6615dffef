"""C05: a returned certificate is a visible proof; false inequalities get none."""
from fractions import Fraction as F
import itertools

from hypothesis import strategies as st
import sympy as sp

from .. import evalx, gen, ineq, prob
from ..cert import constraints, names
from ..core import Check
from . import c01_struct as c01

CHECK = Check("C05", rule="an inequality that is false at a known rational feasible point, usually by very little and at a point where the true "
              "inequality it was derived from is tight, is given to the solvers; any certificate whose denominator does not vanish at that "
              "point is a violation. Non-trivial: the problem is well formed and negative at the point (every decided case).")

SOLVERS = ["StructuralSOS", "StructuralSOS", "StructuralSOS", "LinearSOS", "SDPSOS", "SymmetricSOS", "sum_of_squares"]


def _solver(name):
    import triples.core as core
    if name == "sum_of_squares":
        from triples.core import sum_of_squares
        return sum_of_squares
    if name == "LinearSOS":
        from triples.core.linsos import LinearSOS
        return LinearSOS
    if name == "SDPSOS":
        from triples.core.sdpsos import SDPSOS
        return SDPSOS
    if name == "SymmetricSOS":
        from triples.core.symsos import SymmetricSOS
        return SymmetricSOS
    return core.StructuralSOS


def _judge(ctx, sol, x0, syms, back, target, cons, what):
    """A certificate for a problem that is negative at the feasible point x0."""
    if sol is None:
        ctx.label("none")
        return
    e = sol.solution
    env = {s: sp.Rational(v) for s, v in zip(syms, x0)}
    from ..cert import _expand_cyclic
    try:
        # every divisor as it is written, before anything can cancel
        vanishes = any(sp.sympify(_expand_cyclic(t.base).xreplace(back).xreplace(env)).equals(0) is True
                       for t in sp.preorder_traversal(_expand_cyclic(e)) if t.is_Pow and t.exp.is_negative and t.base.free_symbols)
    except Exception:
        vanishes = False
    if vanishes:
        ctx.label("denominator vanishes")
        return
    ctx.fail("%s: %s is negative at %s, where the constraints %s hold, but was certified: %s" % (what, target, dict(zip(map(str, syms), map(str, x0))), cons, e), "false inequality certified")


# ---------------------------------------------------------------- any solver, any constraint set
def _prob_case():
    return st.tuples(prob.problem(ns=(1, 2, 2, 3, 3, 3, 4), degrees={1: 6, 2: 6, 3: 5, 4: 4}), st.sampled_from(SOLVERS),
                     st.sampled_from([[1, 10**6], [1, 1000], [1, 10], [1, 1], [7, 1]])).map(lambda t: dict(t[0], solver=t[1], eps=t[2]))


@CHECK.sub("constrained", _prob_case, quick=700, thorough=14000, shards=8, case_timeout=40,
           rule="planted certificates minus just enough to be negative at the planted feasible point, with arbitrary inequality and equality "
                "constraints and names, through each solver and the driver")
def constrained(case, ctx):
    P = prob.build(case)
    if not P.f:
        ctx.skip("degenerate")
    if prob.falsify(P, gen.R(case["eps"])) is None or not P.f:
        ctx.skip("not falsifiable")
    f, g, h, back, _, _ = prob.pose(P)
    ctx.nontrivial()
    ctx.label(case["solver"], "n%d" % P.n, "deg%d" % ineq.pdeg(P.f), "ineq%d" % len(P.g), "eq%d" % len(P.h))
    try:
        sol = _solver(case["solver"])(f, g, h)
    except Exception as e:
        # whether a solver may raise is decided elsewhere; here only certificates matter
        ctx.label("raised %s" % type(e).__name__)
        return
    _judge(ctx, sol, P.x0, P.syms, back, prob.target(P), (g, h), case["solver"])


# ---------------------------------------------------------------- closed formulas
VALS = [F(0), F(1), F(2), F(1, 2), F(3), F(1, 3)]


def _grid(n, signed):
    """Small rational points, the most symmetric first."""
    vals = [F(0), F(1), F(2)] if n > 3 else VALS[:5]
    pts = list(itertools.product(vals, repeat=n))
    if signed:
        pts = [tuple((-v if (m >> i) & 1 else v) for i, v in enumerate(p)) for p in pts for m in range(2**n if n < 4 else 1) if all(v or not (m >> i) & 1 for i, v in enumerate(p))]
        if n >= 4:
            pts += [tuple(-v if i == j else v for i, v in enumerate(p)) for p in itertools.product([F(1), F(2)], repeat=n) for j in range(n)]
    return [p for p in pts if any(p)]


def _value(p, x):
    r = F(0)
    for e, c in p:
        t = c
        for v, k in zip(x, e):
            if k:
                t *= v**k
                if not t:
                    break
        r += t
    return r


def _terms(p):
    return [(e, F(int(sp.Rational(c).p), int(sp.Rational(c).q))) for e, c in p.items()]


def falsify(p, n, case, ok, hom):
    """A polynomial with the symmetry of p and a point satisfying `ok` where it is negative (or None)."""
    if any(not sp.sympify(c).is_Rational for c in p.values()):
        return None
    d = ineq.pdeg(p)
    for g in ("sym", "cyc", "part", "id"):
        els = ineq.group_elements(g, n)
        if all(ineq.padd(ineq.pact(p, x), ineq.pscale(p, -1)) == {} for x in els[1:]):
            break
    base = []
    m = case["mono"]
    e = [0] * n
    for i in range(d):
        e[(m * i * i + i * (m % 3)) % n if m % 4 else 0] += 1
    if m % 5 == 1:
        e = [d // n + (1 if i < d % n else 0) for i in range(n)]
    s = ineq.pcyc({tuple(e): sp.Integer(1)}, els) if hom else {(0,) * n: sp.Integer(1)}
    if m % 4 == 2 and hom and d % 2 == 0:
        s = ineq.pcyc({tuple([d] + [0] * (n - 1)): sp.Integer(1)}, els)
    ps, ss = _terms(p), _terms(s)
    best = None
    pts = [x for x in _grid(n, case["signed"]) if ok(x)]
    for x in pts:
        w = _value(ss, x)
        if w <= 0:
            continue
        v = _value(ps, x) / w
        if best is None or v < best[0]:
            best = (v, x)
    if best is None:
        return None
    v, x = best
    if v >= 0 or case["always"]:
        eps = F(*case["eps"])
        p = ineq.padd(p, ineq.pscale(s, -sp.Rational((v + eps).numerator, (v + eps).denominator)))
    return p, [sp.Rational(t.numerator, t.denominator) for t in x]


def _solve(ctx, p, n, case, acute=False, hom=True):
    kind = case["con"]
    if case["signed"] and kind not in ("none", "missing"):
        kind = "none" if not acute else kind
    syms = names(case["names"], n) if n <= 4 else [sp.Symbol("x%d" % i) for i in range(n)]
    con, back = constraints(kind, syms, acute)

    def ok(x):
        if kind == "missing":
            if any(v < 0 for v in x[1:]):
                return False
        elif kind != "none" and any(v < 0 for v in x):
            return False
        if acute:
            q = [v * v for v in x]
            return all(2 * q[i] <= sum(q) for i in range(n))
        return True
    r = falsify(p, n, case, ok, hom)
    if r is None or not r[0]:
        ctx.skip("not falsifiable")
    p, x0 = r
    ctx.nontrivial()
    ctx.label("con:" + kind, "deg%d" % ineq.pdeg(p), "n%d" % n)
    target = ineq.to_poly(p, syms)
    sol = _solver(case.get("solver", "StructuralSOS"))(target if case["as_poly"] else target.as_expr(), con)
    _judge(ctx, sol, x0, syms, back, target.as_expr(), con, case.get("solver", "StructuralSOS"))


def _common(d):
    d.update({"names": st.sampled_from([0, 0, 0, 2, 3]), "con": st.sampled_from(["self", "self", "self", "none", "none", "func", "cubed", "missing"]),
              "as_poly": st.booleans(), "mono": st.integers(0, 20), "signed": st.sampled_from([False, False, True]), "always": st.sampled_from([True, True, False]),
              "eps": st.sampled_from([[1, 10**9], [1, 10**5], [1, 1000], [1, 50], [1, 4], [1, 1], [4, 1]])})
    return st.fixed_dictionaries(d)


def _doc_case():
    return _common({"i": st.integers(0, ineq.n_corpus() - 1), "muts": st.lists(ineq.mutation(), max_size=2)})


def _doc_all(tier):
    out = []
    for i in range(ineq.n_corpus()):
        for con, eps in (("self", [1, 1000]), ("none", [1, 50])):
            out.append({"i": i, "muts": [], "names": 0, "con": con, "as_poly": True, "mono": i % 7, "signed": False, "always": True, "eps": eps})
    return out


@CHECK.sub("documented", _doc_case, quick=1600, thorough=50000, shards=8, case_timeout=40, enumerated=_doc_all,
           rule="a documented inequality (mutated or not), lowered along an invariant form until it is just negative at the grid point where it is "
                "smallest; closed-form solver")
def documented(case, ctx):
    n, p = ineq.corpus_poly(case["i"])
    if n == 3 and all(e[2] == 0 for e in p):
        n, p = 2, {e[:2]: c for e, c in p.items()}
    p = ineq.mutate(n, p, case["muts"])
    if not p:
        ctx.skip("zero")
    _solve(ctx, p, n, case, hom=ineq.ishom(p))


FAMS = [(3, d, g) for d in (2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8) for g in ("cyc", "sym")] + [(3, d, "none") for d in (2, 3, 4)] + \
       [(4, d, g) for d in (2, 3, 4) for g in ("sym", "cyc", "part", "none")] + [(5, 4, "sym"), (2, 4, "none"), (2, 6, "none"), (2, 5, "none")]


@CHECK.sub("family", lambda: st.sampled_from(FAMS).flatmap(lambda t: _common({"f": ineq.family(*t)})), quick=3000, thorough=90000, shards=8, case_timeout=40,
           rule="a random cyclic, symmetric or acyclic form, lowered in the same way; closed-form solver")
def family(case, ctx):
    f = case["f"]
    p = ineq.family_poly(f)
    if not p:
        ctx.skip("zero")
    ctx.label("family %d%s%d" % (f["n"], f["g"], f["d"]))
    _solve(ctx, p, f["n"], case)


@CHECK.sub("nonhomogeneous", lambda: st.sampled_from([(3, 2, "cyc"), (3, 3, "cyc"), (3, 4, "sym"), (4, 3, "part"), (4, 4, "sym"), (3, 4, "cyc"), (3, 6, "sym"),
                                                      (2, 4, "none"), (2, 3, "none"), (2, 6, "none")]).flatmap(lambda t: _common({"f": ineq.family(*t), "drop": st.integers(0, 3)})),
           quick=900, thorough=25000, shards=4, case_timeout=40, rule="a form with one variable set to 1, lowered by a constant; closed-form solver")
def nonhomogeneous(case, ctx):
    f = case["f"]
    n = f["n"]
    p = ineq.family_poly(f)
    k = (n - 1) if f["g"] == "part" else case["drop"] % n
    q = {}
    for e, c in p.items():
        e = tuple(x for i, x in enumerate(e) if i != k)
        q[e] = q.get(e, 0) + c
    q = {e: c for e, c in q.items() if c != 0}
    if not q or not ineq.pdeg(q):
        ctx.skip("zero")
    _solve(ctx, q, n - 1, case, hom=False)


@CHECK.sub("acute", lambda: st.tuples(st.sampled_from([2, 3, 4, 4, 5, 6]), st.sampled_from(["sym", "sym", "cyc"])).flatmap(
    lambda t: _common({"f": ineq.family(3, t[0], t[1]), "tri": st.lists(st.tuples(gen.hom_exponents(3, max(t[0] - 2, 0)), st.integers(1, 4)).map(list), min_size=1, max_size=2)})),
    quick=500, thorough=15000, shards=4, case_timeout=40, rule="forms that need b^2+c^2-a^2 >= 0, lowered at a point satisfying it; closed-form solver")
def acute(case, ctx):
    f = case["f"]
    p = ineq.family_poly(f)
    a, b, c = [ineq.pvar(i, 3) for i in range(3)]
    els = ineq.group_elements(f["g"], 3)
    tri = ineq.padd(ineq.pmul(b, b), ineq.pmul(c, c), ineq.pscale(ineq.pmul(a, a), -1))
    for m, w in case["tri"]:
        if sum(m) + 2 == f["d"]:
            p = ineq.padd(p, ineq.pcyc(ineq.pmul(tri, {tuple(m): sp.Integer(w)}), els))
    if not p:
        ctx.skip("zero")
    _solve(ctx, p, 3, dict(case, signed=False, con=case["con"] if case["con"] not in ("none", "missing") else "self"), acute=True)


def _line_case():
    return st.tuples(c01._uni_case(), st.integers(0, 40), st.sampled_from([[1, 10**6], [1, 1000], [1, 10], [1, 1]])).map(lambda t: dict(t[0], pt=t[1], eps=t[2]))


@CHECK.sub("line", _line_case, quick=1800, thorough=40000, shards=4, case_timeout=30,
           rule="univariate polynomials under linear constraints (homogenised or not), negative at a rational point satisfying the constraints; closed-form solver")
def line(case, ctx):
    x, y = [sp.Symbol(s) for s in case["names"]]
    f = sp.Integer(0)
    for k, q, mult in case["terms"]:
        f += mult * sum(c * x**i for i, c in enumerate(q))**2 * (x if k else 1)
    f += sum(c * x**i for i, c in enumerate(case["raw"]))
    f = sp.expand(f)
    for r in case["roots"]:
        f = sp.expand(f * (x - gen.R(r)))
    P = sp.Poly(f, x)
    if P.is_zero or P.degree() < 1 or P.degree() > 9:
        ctx.skip("degenerate")
    cons = [(u, v, nm) for u, v, nm in case["cons"] if u or (v and case["hom"])]
    hom = case["hom"]
    pts = [sp.Rational(i, q) for q in (1, 2, 3) for i in range(-5 * q, 5 * q + 1)]
    # in the homogeneous case the constraints are u x + v y, considered at y = 1
    pts = [t for t in pts if all(u * t + v >= 0 for u, v, _ in cons)]
    if not pts:
        ctx.skip("infeasible")
    best = min(pts, key=lambda t: P.eval(t)) if case["pt"] % 3 else pts[case["pt"] % len(pts)]
    v = P.eval(best)
    if v >= 0:
        shift = v + gen.R(case["eps"])
        P = P - sp.Poly(shift * (x**(P.degree() - P.degree() % 2) if case["pt"] % 2 and best != 0 else 1), x) * (1 if not (case["pt"] % 2 and best != 0) else 1 / best**(P.degree() - P.degree() % 2))
    if P.is_zero or P.degree() < 1 or P.eval(best) >= 0:
        ctx.skip("degenerate")
    if hom:
        P = P.homogenize(y)
    con, back = {}, {}
    for i, (u, v, nm) in enumerate(cons):
        e = u * x + v * (y if hom else 1)
        if not e.free_symbols or e in con:
            continue
        name = e if nm == "self" else (sp.Symbol("h%d" % i) if nm == "sym" else sp.Function("F%d" % i)(x))
        con[e] = name
        if name != e:
            back[name] = e
    ctx.nontrivial()
    ctx.label("hom" if hom else "uni", "cons%d" % len(con), "deg%d" % P.total_degree())
    sol = _solver("StructuralSOS")(P, con)
    _judge(ctx, sol, [best, sp.Integer(1)][: 2 if hom else 1], [x, y][: 2 if hom else 1], back, P.as_expr(), con, "StructuralSOS")


# ---------------------------------------------------------------- the sign of an answer can be read off
def _shown(ctx, p, n, case, acute=False):
    kind = case["con"]
    syms = names(case["names"], n) if n <= 4 else [sp.Symbol("x%d" % i) for i in range(n)]
    con, back = constraints(kind, syms, acute)
    target = ineq.to_poly(p, syms)
    ctx.label("con:" + kind, "n%d" % n, "deg%d" % ineq.pdeg(p))
    try:
        sol = _solver("StructuralSOS")(target, con)
    except Exception as e:
        ctx.label("raised")  # decided by C01
        return
    if sol is None:
        ctx.label("none")
        return
    ctx.nontrivial()
    ctx.label("answered", "answered n%d" % n, "answered con:" + kind, "answered deg%d" % ineq.pdeg(p))
    e = sol.solution
    if kind in ("func", "sym"):
        bad = e.atoms(sp.core.function.AppliedUndef) - set(back) if kind == "func" else set()
        ctx.require(not bad, lambda: "certificate %s mentions %s, which are not constraints" % (e, bad), "unknown names")
    allowed = list(con.values()) if isinstance(con, dict) else list(con)
    ctx.require(ineq.visible(e, allowed), lambda: "the certificate of %s under %s is not nonnegative term by term: %s" % (target.as_expr(), con, e), "sign not visible")


def _shown_case():
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("doc"), "i": st.integers(0, ineq.n_corpus() - 1), "muts": st.lists(ineq.mutation(), max_size=2), "names": st.sampled_from([0, 0, 2, 3]),
                               "con": st.sampled_from(["none", "none", "func", "func", "self", "missing"])}),
        st.sampled_from(FAMS).flatmap(lambda t: st.fixed_dictionaries({"kind": st.just("fam"), "f": ineq.family(*t), "names": st.sampled_from([0, 0, 2, 3]),
                                                                       "con": st.sampled_from(["none", "func", "func", "self", "missing"])})))


def _shown_all(tier):
    return [{"kind": "doc", "i": i, "muts": [], "names": 0, "con": c} for i in range(ineq.n_corpus()) for c in ("func", "none")]


@CHECK.sub("shown", _shown_case, quick=1600, thorough=50000, shards=8, case_timeout=40, enumerated=_shown_all,
           rule="every answer of the closed-form solver to documented, mutated and random forms is a sum, product and quotient of nonnegative numbers, "
                "even powers and the names of the constraints that were given")
def shown(case, ctx):
    if case["kind"] == "doc":
        n, p = ineq.corpus_poly(case["i"])
        if n == 3 and all(e[2] == 0 for e in p):
            n, p = 2, {e[:2]: c for e, c in p.items()}
        p = ineq.mutate(n, p, case["muts"])
    else:
        n, p = case["f"]["n"], ineq.family_poly(case["f"])
    if not p:
        ctx.skip("zero")
    _shown(ctx, p, n, case)


def _weights_case():
    return st.tuples(prob.problem(ns=(1, 2, 2, 3, 3, 3, 4), degrees={1: 6, 2: 6, 3: 5, 4: 4}), st.sampled_from(["StructuralSOS", "SymmetricSOS", "sum_of_squares", "sum_of_squares", "SDPSOS", "LinearSOS"]),
                     st.booleans()).map(lambda t: dict(t[0], solver=t[1], naming="func" if t[2] or t[0]["naming"] not in ("func", "sym") else "sym"))


@CHECK.sub("weights", _weights_case, quick=500, thorough=12000, shards=8, case_timeout=40,
           rule="true problems with arbitrary constraints given by name: answers of every solver use only the given names, with visibly nonnegative "
                "weights on inequality constraints and any weight on equality constraints")
def weights(case, ctx):
    P = prob.build(case)
    if not P.f:
        ctx.skip("degenerate")
    f, g, h, back, nonneg, zero = prob.pose(P, case["naming"])
    if not all(isinstance(sp.sympify(x).as_coeff_Mul()[1], (sp.Symbol, sp.core.function.AppliedUndef)) for x in nonneg + zero):
        ctx.skip("names not atomic")
    try:
        sol = _solver(case["solver"])(f, g, h)
    except Exception:
        ctx.label("raised")
        return
    ctx.label(case["solver"])
    if sol is None:
        ctx.label("none")
        return
    ctx.nontrivial()
    ctx.label("answered " + case["solver"])
    from ..cert import _expand_cyclic
    e = _expand_cyclic(sol.solution)
    bad = e.atoms(sp.core.function.AppliedUndef) - set(nonneg) - set(zero)
    ctx.require(not bad, lambda: "certificate %s mentions %s, which are not constraints" % (e, bad), "unknown names")
    ctx.require(ineq.visible(e, nonneg, zero=zero), lambda: "%s: the certificate of %s under %s, %s is not nonnegative term by term: %s" % (
        case["solver"], prob.target(P), g, h, e), "sign not visible")


from .c02_linear import correction_signs, signs_case
CHECK.sub("corrected", signs_case, quick=800, thorough=20000, shards=1, case_timeout=20,
          rule="the rational correction of linear programs whose exact solution may have negative weights, of the multipliers too: a claimed "
               "correction has nonnegative weights only. Non-trivial: claimed, or the exact solution has a negative weight")(correction_signs)
